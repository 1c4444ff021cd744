// C13: the command-line tool, whole, in one process: its threads are scheduled and its files fail as the seed decides.
#include "../check.h"
#include "sched.h"
#include <cmath>
#include <csignal>
#include <fstream>
#include <sys/stat.h>
#include <filesystem>
#include <unistd.h>

namespace {
namespace fs = std::filesystem;
const fs::path& scratch() {
    static fs::path p = [] { fs::path base = fs::exists("/dev/shm") && access("/dev/shm", W_OK) == 0 ? "/dev/shm" : fs::temp_directory_path(); std::string t = (base / "dpsim-XXXXXX").string(); if (!mkdtemp(t.data())) throw std::runtime_error("no scratch directory"); return fs::path(t); }();
    static pid_t owner = getpid();
    struct Gone { ~Gone() { if (getpid() == owner && !getenv("DPSIM_KEEP")) { std::error_code e; fs::remove_all(p, e); } } }; static Gone g;
    return p;
}
const fs::path& made = scratch();                  // in the parent, so that it also cleans up
enum Bad { OK_, SHORT_ROW, NO_PAYLOAD, BAD_NUMBER, BAD_COMMAND, ODD_HEX, BAD_HEX, CFG_CUT, CFG_KEYS, MEM_CUT, MEM_KEYS, MEM_TYPE, MISSING_CFG, MISSING_MEM, MISSING_TRACE, TRACE_IS_DIR, NO_OUT_DIR, OUT_IS_DIR, REJECTED, NO_OPTION, ODD_OPTION, CFG_TYPE, NBAD };
const char* badName(int b) { static const char* n[] = {"none", "rowTooShort", "payloadMissing", "malformedNumber", "unknownCommand", "oddPayload", "malformedPayload", "configTruncated", "configKeyMissing", "memspecTruncated", "memspecKeyMissing", "memspecUnknownType", "configMissing", "memspecMissing", "traceMissing", "traceIsDirectory", "outputDirectoryMissing", "outputIsDirectory", "rejectedCommand", "optionMissing", "optionUnknown", "configWrongType"}; return n[b]; }
enum Out { STDOUT, JSON_NEW, JSON_OLD, JSON_LINK_ABS, JSON_LINK_REL, JSON_DANGLING, JSON_CHAIN, JSON_BARE, JSON_BARE_LINK, JSON_LOOP, JSON_LINK_DIR, JSON_DANGLING_DIR, NOUT };
const char* outName(int b) { static const char* n[] = {"stdout", "newFile", "existingFile", "absoluteLink", "relativeLink", "danglingLink", "linkChain", "fileInWorkingDirectory", "linkInWorkingDirectory", "linkLoop", "linkToDirectory", "linkIntoMissingDirectory"}; return n[b]; }

std::string traceText(const Case& k, std::vector<size_t>& lineOf) {
    Rng r(k.seed ^ 0x7ace); std::string s; u64 style = k.p("style"); const char* nl = style & 1 ? "\r\n" : "\n"; u64 bad = k.p("bad"), at = k.ops.empty() ? 0 : k.p("badRow") % k.ops.size();
    if (bad == NO_PAYLOAD || bad == ODD_HEX || bad == BAD_HEX) { size_t i = at, n = k.ops.size(); for (size_t j = 0; j < n; ++j, i = (i + 1) % n) if (isData(k.ops[i].cmd)) break; at = i; }
    for (size_t i = 0; i < k.ops.size(); ++i) {
        auto& e = k.ops[i]; lineOf.push_back(s.size());
        std::vector<std::string> f = {std::to_string(e.t), cmdName(e.cmd), std::to_string(e.rank), std::to_string(e.bg), std::to_string(e.bank), std::to_string(e.row), std::to_string(e.col)};
        if (isData(e.cmd)) { std::string h = e.data.empty() ? "" : hex(e.data); if (style & 2) for (auto& c : h) c = (char)toupper(c); if (style & 4) h = (style & 512 && i & 1 ? "0X" : "0x") + h; f.push_back(h); }
        else if (style & 64 && r.chance(30)) f.push_back("");
        if (i == at) switch (bad) {
            case SHORT_ROW: f.resize(1 + k.p("badArg") % 6); break;
            case NO_PAYLOAD: if (isData(e.cmd)) f.resize(7); break;
            case BAD_NUMBER: { static const char* v[] = {"x", "12abc", "", "1.5", "-1", "99999999999999999999999", "1 2", "0x", "--3"}; size_t c = k.p("badArg") % 6; f[c ? c + 1 : 0] = v[k.p("badArg2") % 9]; break; }
            case BAD_COMMAND: { static const char* v[] = {"ACTT", "act", "", "RDX", "COUNT", "END_OF_SIMULATION", "-", "REFP2", "7"}; f[1] = v[k.p("badArg") % 9]; break; }
            case ODD_HEX: if (isData(e.cmd)) f[7] += "a"; break;
            case BAD_HEX: if (f.size() > 7 && f[7].size() >= 4) { static const char* v[] = {"0g", "g0", "-1", "+1", "zz", "1.", "0x", "a;", "1x"}; size_t pos = (style & 4 ? 2 : 0); size_t n = (f[7].size() - pos) / 2; size_t b = pos + 2 * (k.p("badArg2") % n); std::string x = v[k.p("badArg") % 9]; if (b == 0 && x == "0x") x = "zz"; f[7].replace(b, 2, x); } break;
            case REJECTED: { u64 x = k.p("badArg"); if (e.cmd == CmdType::END_OF_SIMULATION || x % 4 == 0) { f[1] = "ACT"; f.resize(7); }       // a rank or bank that is not there
                bool bankless = f[1] == "END" || f[1] == "PREA" || f[1] == "REFA" || f[1][0] == 'S' || f[1][0] == 'D' || f[1].substr(0, 2) == "PD";
u64 wrap = 1ull << (8 * (1 + x / 40 % 4));                                                // also numbers that narrow integers would take for a good one
                auto past = [&](u64 n) { return std::to_string(x % 5 ? n + x % 3 : wrap + x / 5 % n); };
                if (bankless || x % 2) f[2] = past(k.spec.ranks()); else f[4] = past(k.spec.banks()); break; }
        }
        for (size_t c = 0; c < f.size(); ++c) { if (c) s += ','; if (style & 8 && !(style & 16)) s.append(r.below(3), ' '); if (style & 16 && c != 7 && !f[c].empty()) s += "\"" + f[c] + "\""; else s += f[c]; if (style & 8 && !(style & 16)) s.append(r.below(3), c + 1 < f.size() ? '\t' : ' '); }
        if (i + 1 < k.ops.size() || !(style & 32)) s += nl;
    }
    return s;
}
bool number(const std::string& s, double& v) { char* e; v = std::strtod(s.c_str(), &e); return e != s.c_str(); }

Outcome runC13(const Case& k) {
    Outcome o; fs::path dir = scratch() / "case"; std::error_code ec; fs::remove_all(dir, ec); fs::create_directories(dir / "in"); fs::create_directories(dir / "real"); fs::create_directories(dir / "cwd");
    auto put = [](const fs::path& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; };
    for (auto& e : k.ops) probeOp(o, e);
    u64 bad = k.p("bad"), out = k.p("out"); IoFault fault = (IoFault)k.p("fault");
    // inputs
    json cfg = {{"useToggleRate", k.spec.toggling()}, {"simconfig", {{"toggleRateDefinition", k.spec.toggling() ? k.spec.toggle : json()}}}};
    if (!k.spec.toggling() && k.p("style") & 128) cfg["simconfig"]["toggleRateDefinition"] = {{"togglingRateRead", 0.5}, {"togglingRateWrite", 0.5}, {"dutyCycleRead", 0.5}, {"dutyCycleWrite", 0.5}, {"idlePatternRead", "L"}, {"idlePatternWrite", "H"}};
    json mem = {{"memspec", k.spec.mem}};
    if (bad == CFG_KEYS) { if (k.spec.toggling() && k.p("badArg") & 1) { auto& d = cfg["simconfig"]["toggleRateDefinition"]; if (k.p("badArg") & 2) d = nullptr; else d.erase("dutyCycleRead"); } else cfg.erase(k.p("badArg") & 2 ? "useToggleRate" : "simconfig"); }
    if (bad == CFG_TYPE) cfg["useToggleRate"] = std::vector<json>{1, "true", nullptr, json::array(), 0}[k.p("badArg") % 5];
    if (bad == MEM_KEYS) { static const char* top[] = {"memarchitecturespec", "memtimingspec", "mempowerspec", "memimpedancespec"}; const char* t = top[k.p("badArg") % 4]; if (k.p("badArg2") & 1) mem["memspec"].erase(t); else mem["memspec"][t].erase(k.p("badArg") % 4 == 0 ? "nbrOfBanks" : k.p("badArg") % 4 == 1 ? "tCK" : k.p("badArg") % 4 == 2 ? "vddq" : "ck_R_eq"); }
    if (bad == MEM_TYPE) mem["memspec"]["memoryType"] = k.p("badArg") & 1 ? "DDR9" : "";
    std::vector<size_t> lineOf; std::string ct = (k.p("style") & 1024 ? "// the simulation\n/* all of it */ " : "") + cfg.dump(k.p("style") & 256 ? 2 : -1), mt = mem.dump(2), tt = traceText(k, lineOf);
    if (bad == CFG_CUT) ct.resize(k.p("badArg") % ct.size());
    if (bad == MEM_CUT) mt.resize(k.p("badArg") % mt.size());
    fs::path pc = dir / "in/config.json", pm = dir / "in/memspec.json", pt = dir / "in/trace.csv", po, seen;
    if (bad != MISSING_CFG) put(pc, ct); if (bad != MISSING_MEM) put(pm, mt);
    if (bad == TRACE_IS_DIR) fs::create_directories(pt); else if (bad != MISSING_TRACE) put(pt, tt);
    // destination
    const std::string stale = "{\"stale\": true}\n" + std::string(k.p("badArg2") & 2 ? 60000 : 0, '#');
    switch (out) {
        case STDOUT: break;
        case JSON_NEW: po = seen = dir / "real/out.json"; break;
        case JSON_OLD: po = seen = dir / "real/out.json"; put(po, stale); break;
        case JSON_LINK_ABS: seen = dir / "real/out.json"; put(seen, stale); po = dir / "in/link"; fs::create_symlink(seen, po); break;
        case JSON_LINK_REL: seen = dir / "real/out.json"; put(seen, stale); po = dir / "in/link"; fs::create_symlink("../real/out.json", po); break;
        case JSON_DANGLING: seen = dir / "real/out.json"; po = dir / "in/link"; fs::create_symlink(k.p("badArg") & 1 ? fs::path(dir / "real/out.json") : fs::path("../real/out.json"), po); break;
        case JSON_BARE: seen = dir / "cwd/out.json"; po = "out.json"; if (k.p("badArg") & 1) put(seen, stale); break;
        case JSON_BARE_LINK: seen = dir / "real/out.json"; if (k.p("badArg") & 1) put(seen, stale); fs::create_symlink("../real/out.json", dir / "cwd/link"); po = k.p("badArg") & 2 ? "link" : "./link"; break;
        case JSON_LOOP: po = dir / "in/a"; seen = dir / "real/out.json"; fs::create_symlink(dir / "in/b", po); fs::create_symlink("a", dir / "in/b"); break;
        case JSON_LINK_DIR: po = dir / "in/link"; seen = dir / "real/out.json"; fs::create_directory_symlink(k.p("badArg") & 1 ? fs::path(dir / "real") : fs::path("../real"), po); break;
        case JSON_DANGLING_DIR: po = dir / "in/link"; seen = dir / "real/out.json"; fs::create_symlink("../nowhere/out.json", po); break;
        default: seen = dir / "real/out.json"; put(seen, stale); po = dir / "in/link0"; fs::create_symlink(dir / "in/link1", po); fs::create_symlink("link2", dir / "in/link1"); fs::create_symlink("../real/out.json", dir / "in/link2"); break;
    }
    if (bad == NO_OUT_DIR && !po.empty()) { po = dir / "nowhere/out.json"; seen = po; }
    if (bad == OUT_IS_DIR && !po.empty()) { po = dir / "real/dir"; fs::create_directories(po); seen = po / "x"; }
    bool js = !po.empty();
    CliPlan plan; plan.seed = k.seed ^ 0x5c4ed; plan.oneIn = std::max<u64>(1, k.p("oneIn", 64)); plan.hot = k.p("hot"); plan.side = k.p("side"); plan.fault = fault; plan.at = k.p("faultAt");
    plan.out = fs::exists(seen.parent_path()) && js ? seen.string() : ""; plan.cfg = pc.string(); plan.mem = pm.string(); plan.trace = pt.string();
    if (fault == IoFault::OUT_OPEN && (out == JSON_NEW || out == JSON_DANGLING)) plan.at = plan.at & 1;    // the file is created once and opened once
    else if (fault == IoFault::OUT_OPEN || fault == IoFault::OUT_CLOSE) plan.at = 0;
    if (js && (out >= JSON_LINK_ABS) && (fault == IoFault::OUT_OPEN || fault == IoFault::OUT_FULL || fault == IoFault::OUT_CLOSE || fault == IoFault::OUT_SHORT || fault == IoFault::OUT_EINTR)) plan.fault = IoFault::NONE;   // the path the tool opens is its own business there
    std::vector<std::string> args = {"cli"};
    {   // the options in any order, short or long, their values apart or attached
        Rng ra(k.seed ^ 0xa495); std::vector<std::array<std::string, 3>> opts = {{"-c", "--config", pc.string()}, {"-t", "--trace", pt.string()}, {"-m", "--memspec", pm.string()}};
        if (bad == NO_OPTION) opts.erase(opts.begin() + k.p("badArg") % 3); if (bad == ODD_OPTION) opts.push_back({"-x", "--extra", "1"});
        if (js) opts.push_back({"-j", "--json", po.string()});
        bool plain = !(k.p("style") & 2048);
        for (size_t i = opts.size(); !plain && i > 1; --i) std::swap(opts[i - 1], opts[ra.below(i)]);
        for (auto& x : opts) { bool lng = !plain && ra.chance(50); if (lng && ra.chance(40)) args.push_back(x[1] + "=" + x[2]); else { args.push_back(x[lng]); args.push_back(x[2]); } }
    }
    fs::path so = plan.fault == IoFault::STDOUT_FULL ? fs::path("/dev/full") : dir / "stdout.txt";
    CliResult r = runCli(args, plan, (dir / "cwd").string(), so.string());
    if (k.ops.size() > 65536) o.count["probe.tracesBeyond65536Rows"]++;
    o.count["fault.threadHandover"] += r.rep.switches; o.count["probe.threads"] += r.rep.threads; o.count[std::string("probe.destination.") + outName(out)]++;
    if (bad) o.count[std::string("fault.input.") + badName(bad)]++;
    bool fired = r.rep.fired > 0 || (plan.fault == IoFault::STDOUT_FULL && !js) || (plan.fault == IoFault::ALLOC && r.signalled && (r.code == SIGABRT || r.code == SIGSEGV));
    if (plan.fault != IoFault::NONE && fired) o.count[std::string("fault.io.") + ioFaultName(plan.fault)]++;
    o.mixin(r.rep.hash); o.mixin(r.rep.switches); o.mixin((u64)r.signalled); o.mixin((u64)r.code); o.states.insert(r.rep.hash); o.simTime = k.ops.empty() ? 0 : k.ops.back().t;
    std::string how = std::string(badName(bad)) + (fired ? std::string(", ") + ioFaultName(plan.fault) + " at " + std::to_string(plan.at) : "") + ", output to " + (js ? outName(out) : "stdout");
    auto fail = [&](const char* cls, const std::string& m) { o.fail(cls, m + " (" + how + ")"); };
    if (r.rep.deadlock) { fail("deadlock", "no thread can go on"); return o; }
    if (r.rep.budget || (r.signalled && (r.code == SIGALRM || r.code == SIGKILL))) { fail("hang", "the tool does not finish"); return o; }
    // the JSON library (not part of this repository) dies on its own half-built values when it gets no memory
    bool jsonGaveUp = plan.fault == IoFault::ALLOC && r.signalled && r.code == SIGSEGV; if (jsonGaveUp) o.count["probe.endedByJsonLibrary"]++;
    if (r.signalled && r.code != SIGABRT && !jsonGaveUp) { fail("crash", "the tool dies by signal " + std::to_string(r.code)); return o; }
    bool failed = r.signalled || r.code != 0;
    if (failed) o.count[r.signalled ? "probe.endedByException" : "probe.reportedFailure"]++; else o.count["probe.reportedSuccess"]++;
    // what may and what must fail
    bool deadEnd = out == JSON_LOOP || out == JSON_LINK_DIR || out == JSON_DANGLING_DIR, mustFail = bad != OK_ || deadEnd; if (bad == NO_OUT_DIR || bad == OUT_IS_DIR) { deadEnd = false; if (!js) mustFail = false; }
    if ((bad >= SHORT_ROW && bad <= BAD_HEX) || bad == REJECTED) { Case clean = k; clean.param["bad"] = 0; std::vector<size_t> l; if (traceText(clean, l) == tt) mustFail = deadEnd; }
    bool harmless = plan.fault == IoFault::NONE || plan.fault == IoFault::OUT_SHORT || plan.fault == IoFault::OUT_EINTR || plan.fault == IoFault::IN_SHORT || plan.fault == IoFault::IN_EINTR || plan.fault == IoFault::SPURIOUS;
    bool fatal = fired && !harmless && plan.fault != IoFault::ALLOC;
    if (mustFail && !failed) { fail("accepted", "the tool reports success"); return o; }
    if (fatal && !failed) { fail("unreported", "the tool reports success although an input or output operation failed"); return o; }
    if (!mustFail && (harmless || !fired) && failed) { fail("refused", std::string("the tool fails on good input, ") + (r.signalled ? "signal " : "exit code ") + std::to_string(r.code)); return o; }
    if (failed) return o;
    // success: the result must be the library's
    auto s = Sut::make(k.spec); for (auto& e : k.ops) s->cmd(e);
    Ener e = s->energy(s->last()); auto [D, R, B] = s->arch();
    static const char* names[] = {"ACT", "PRE", "BG_ACT", "BG_PRE", "RD", "WR", "RDA", "WRA", "PRE_RDA", "PRE_WRA", "REF_AB", "REF_PB", "REF_SB", "REF_2B", "REF_DB"};
    if (js) {
        std::ifstream f(seen); std::stringstream ss; ss << f.rdbuf(); json j = json::parse(ss.str(), nullptr, false);
        if (j.is_discarded() || !j.is_object()) { fail("incomplete", "the result was reported as written but is not there: " + ss.str().substr(0, 60)); return o; }
        auto num = [&](const json& x, double want, const std::string& n) { double v = x.is_number() ? x.get<double>() : NAN; if (v != want && !(std::fabs(v - want) <= 1e-12 * std::fabs(want))) { std::ostringstream m; m.precision(17); m << n << " is " << x.dump() << ", the library gives " << want; fail("differs", m.str()); return false; } return true; };
        try {
            if (!num(j.at("RankCount"), R, "RankCount") || !num(j.at("DeviceCount"), D, "DeviceCount") || !num(j.at("BankCount"), B, "BankCount") || !num(j.at("TotalEnergy"), e.coreTotal + e.ifTotal, "TotalEnergy")) return o;
            auto& c = j.at("CoreEnergy"); for (int i = 0; i < Ener::NSH; ++i) if (!num(c.at(Ener::shName(i)), e.sh[i], Ener::shName(i))) return o;
            auto& be = c.at("BankEnergy"); if (be.size() != e.bank.size()) { fail("differs", "number of banks reported is " + std::to_string(be.size())); return o; }
            for (size_t i = 0; i < e.bank.size(); ++i) {
                auto& b = be.at(i); std::string w = "bank entry " + std::to_string(i) + " ";
                if (!num(b.at("Rank"), double(i / (B * D)), w + "Rank") || !num(b.at("Device"), double(i / B % D), w + "Device") || !num(b.at("Bank"), double(i % B), w + "Bank")) return o;
                for (int q = 0; q < Ener::NBE; ++q) if (!num(b.at(names[q]), e.bank[i][q], w + names[q])) return o;
            }
            auto& ie = j.at("InterfaceEnergy"); static const char* p[4][2] = {{"controller", "dynamicEnergy"}, {"controller", "staticEnergy"}, {"dram", "dynamicEnergy"}, {"dram", "staticEnergy"}};
            for (int q = 0; q < 4; ++q) if (!num(ie.at(p[q][0]).at(p[q][1]), e.ifc[q], std::string(p[q][0]) + "." + p[q][1])) return o;
        } catch (const json::exception& x) { fail("differs", std::string("the result lacks a figure: ") + x.what()); return o; }
        o.mixin(ss.str());
    } else {
        std::ifstream f(so); std::stringstream ss; ss << f.rdbuf(); std::string text = ss.str();
        std::map<std::string, std::string> banks; std::istringstream ls(text); std::string line;
        auto figure = [&](const std::string& l, const std::string& key, double want) {
            size_t p = l.find(key); double v;
            if (p == std::string::npos || !number(l.substr(p + key.size()), v)) { fail("differs", "the report lacks " + key + " in: " + l.substr(0, 80)); return false; }
            if (v != want && std::fabs(v - want) > 1e-6 * std::fabs(want)) { std::ostringstream m; m.precision(17); m << "the report has " << l.substr(p, 48) << ", the library gives " << want; fail("differs", m.str()); return false; }
            return true;
        };
        while (std::getline(ls, line)) { size_t p = line.find(" -> "); if (p != std::string::npos) banks[line.substr(0, p)] = " " + line.substr(p + 4); }
        for (size_t i = 0; i < e.bank.size(); ++i) {
            std::string key = std::to_string(i / (B * D)) + "," + std::to_string(i / B % D) + "," + std::to_string(i % B); auto it = banks.find(key);
            if (it == banks.end()) { fail("differs", "the report has no line for rank,device,bank " + key); return o; }
            for (int q = 0; q < Ener::NBE; ++q) if (!figure(it->second, std::string(" ") + names[q] + ": ", e.bank[i][q])) return o;
        }
        std::vector<double> sum(Ener::NBE, 0.0); for (auto& b : e.bank) for (int q = 0; q < Ener::NBE; ++q) sum[q] += b[q];
        for (int q = 0; q < Ener::NBE; ++q) if (q != 2 && !figure(banks["Cumulated bank energy with bg_act_shared"], std::string(" ") + names[q] + ": ", sum[q])) return o;
        if (!figure(banks["Cumulated bank energy with bg_act_shared"], " BG_ACT: ", sum[2] + e.sh[0])) return o;
        static const char* side[2] = {"Controller: dynamicEnergy: ", "DRAM: dynamicEnergy: "};
        for (int q = 0; q < 2; ++q) { size_t p = text.find(side[q]), z = p == std::string::npos ? p : text.find('\n', p); std::string l = p == std::string::npos ? "" : " " + text.substr(p, z - p); if (!figure(l, side[q], e.ifc[2 * q]) || !figure(l, "staticEnergy: ", e.ifc[2 * q + 1])) return o; }
        double v; if (!banks.count("Total Energy") || !number(banks["Total Energy"], v) || std::fabs(v - (e.coreTotal + e.ifTotal)) > 1e-6 * std::fabs(v)) { fail("differs", "total energy in the report is " + banks["Total Energy"]); return o; }
        for (int q = 0; q < Ener::NSH; ++q) if (!figure(banks["Shared energy"], std::string(" ") + Ener::shName(q) + ": ", e.sh[q])) return o;
        o.mixin(text);
    }
    return o;
}
std::vector<Op> normC13(const Case& k, const std::vector<Op>& v) { return normalise(k.spec, v, true, k.p("strict")); }
Register c13({"C13", [](u64 seed) {
    Rng r(seed); Case k; k.prop = "C13"; k.seed = seed; k.spec = randomSpec(r, r.pick(allStds()), {2, true});
    // Payloads of a thousand bytes; a row has to stay below the reader's chunk (4096 bytes in the simulator, 10 MB as shipped).
    if (r.below(300) == 0 && k.spec.std_ != Std::LPDDR6) { auto& a = k.spec.mem["memarchitecturespec"]; a["width"] = 16; a["nbrOfDevices"] = k.spec.std_ == Std::DDR4 ? 64 : 16; a["nbrOfRanks"] = 1; }
    GenOpt g; g.full = true; g.strict = r.chance(50); g.ops = r.pick<u64>({3, 20, 60, 150, 400, 900}); g.emptyData = r.chance(40); g.nullData = false; g.wholeBytes = true; g.own6 = false; g.huge = r.chance(30); g.dataHeavy = r.chance(20);
    if (r.below(1500) == 0) g.marathon = true;                                                  // more rows than fit 16 bits
    k.param["full"] = 1; k.param["strict"] = g.strict; k.param["style"] = r.below(4096) & (r.chance(50) ? ~0ull : 128 | 256 | 1024 | 2048); k.param["oneIn"] = r.pick<u64>({4, 40, 400, 2000, 6000, 20000});
    if (g.marathon) k.param["oneIn"] = 200000;
    k.param["hot"] = !g.marathon && r.chance(60) ? r.pick<u64>({4, 12, 30}) : 0; k.param["side"] = r.chance(60) ? 1 + r.below(2) : 0;
    k.param["out"] = r.chance(25) ? STDOUT : r.chance(50) ? JSON_NEW : 2 + r.below(NOUT - 2);
    k.param["badArg"] = r.below(100000); k.param["badArg2"] = r.below(100000); k.param["badRow"] = r.below(100000);
    u64 what = r.below(100);
    if (what < 30) k.param["bad"] = 1 + r.below(NBAD - 1);
    else if (what < 70) { k.param["fault"] = 1 + r.below((u64)IoFault::COUNT - 1); IoFault f = (IoFault)k.param["fault"];
        k.param["faultAt"] = f == IoFault::OUT_FULL ? r.below(r.chance(50) ? 9000 : 60000) : f == IoFault::CFG_EIO ? r.below(200) : f == IoFault::MEM_EIO ? r.below(3000) : f == IoFault::ALLOC ? r.below(r.chance(50) ? 6000 : 40000) : r.below(4);
        if (f <= IoFault::OUT_CLOSE && k.param["out"] == STDOUT) k.param["out"] = JSON_NEW; if (f == IoFault::STDOUT_FULL) k.param["out"] = STDOUT; if (f == IoFault::ALLOC && k.param["out"] == STDOUT) k.param["out"] = JSON_OLD; }
    Gen gen(r, k.spec, g); k.ops.clear(); for (auto& e : gen.history()) if (e.ev == Ev::CMD) k.ops.push_back(e);
    return k; }, runC13, normC13, 24000, 600000});
}
