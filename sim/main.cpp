// dpsim: run / replay / minimise simulated cases.
#include "comp.h"
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

std::map<std::string, Check>& checks() { static std::map<std::string, Check> m; return m; }
std::string opStr(const Op& e) {
    std::ostringstream o; o << evName(e.ev) << " t=" << e.t;
    if (e.ev == Ev::CMD || e.ev == Ev::REJ) { o << " " << cmdName(e.cmd) << " rank " << e.rank << " bank " << e.bank; if (isData(e.cmd)) o << " bits " << e.bits; }
    return o.str();
}
void probeOp(Outcome& o, const Op& e) {
    if (e.ev == Ev::CMD) o.count[std::string("cmd.") + cmdName(e.cmd)]++; else o.count[std::string("event.") + evName(e.ev)]++;
    o.mixin((u64)e.ev); o.mixin(e.t); o.mixin((u64)e.cmd); o.mixin(e.rank); o.mixin(e.bank);
}
bool Ctx::step(const Op& e) {
    try {
        switch (e.ev) {
            case Ev::CMD: if (full) s.cmd(e); else s.core(e); break;
            case Ev::DBI: o.count[s.dbi(e.t, e.a) ? "dbi.accepted" : "dbi.refused"]++; break;
            case Ev::META: s.meta(e.a, e.b); break;
            default: break;
        }
    } catch (const std::exception& x) { o.fail("exception", opStr(e) + " raised: " + x.what()); return false; }
    return true;
}

static u64 caseSeed(u64 seed, u64 i) { u64 z = seed * 0x9E3779B97F4A7C15ull + i; Rng::mix(z); return Rng::mix(z); }
static Outcome runCase(const Check& c, const Case& k) {
    struct itimerval tv = {{0, 0}, {30, 0}}; setitimer(ITIMER_PROF, &tv, nullptr);     // CPU seconds
    Outcome o;
    try { o = c.run(k); } catch (const std::exception& x) { o.fail("exception", std::string("unexpected exception: ") + x.what()); }
    struct itimerval off = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &off, nullptr);
    return o;
}
// Class of a run in a child process: crash- and hang-proof. The cases of `before` run first, in the same process.
// What the sanitised builds say about a run that ends: the first line of their report, without addresses.
static std::string report(int fd) {
    std::string s(1 << 16, 0); ssize_t n = pread(fd, s.data(), s.size(), 0); s.resize(n > 0 ? n : 0); close(fd);
    for (const char* key : {"runtime error: ", "ERROR: AddressSanitizer: "}) {
        auto i = s.find(key); if (i == std::string::npos) continue;
        auto b = s.rfind('\n', i), e = s.find('\n', i); b = b == std::string::npos ? 0 : b + 1; std::string l = s.substr(b, e - b);
        if (auto x = l.find(" on address"); x != std::string::npos) { l = l.substr(0, x); auto f = s.find("/DRAMPower/", i); if (f != std::string::npos) { auto g = s.rfind('\n', f), h = s.find('\n', f); l += " in" + s.substr(s.find(" in ", g) + 3, h - s.find(" in ", g) - 3); } }
        if (l.rfind("==", 0) == 0) l = l.substr(l.find("ERROR")); return ": " + l;
    }
    return "";
}
// The same case in the other build (DPSIM_OTHER), where memory holds something else before it is written: its history hash, or why there is none.
static std::string inOther(const char* bin, const Case& k) {
    char f[] = "/tmp/dpsim-other-XXXXXX"; int fd = mkstemp(f); if (fd < 0) return "?";
    std::string s = k.str(); ssize_t w = write(fd, s.data(), s.size()); (void)w; close(fd);
    std::string out; if (FILE* q = popen(("DPSIM_OTHER= " + std::string(bin) + " replay " + f + " 2>/dev/null").c_str(), "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, q)) > 0) out.append(b, n); pclose(q); }
    unlink(f);
    try { auto j = json::parse(out); return j["cls"] == "ok" ? j["hash"].get<std::string>() : j["cls"].get<std::string>() + ": " + j["msg"].get<std::string>(); } catch (const std::exception&) { return "?"; }
}
static std::string classOf(const Check& c, const Case& k, std::string* msg = nullptr, u64* hash = nullptr, const std::vector<Case>& before = {}) {
    int p[2]; if (pipe(p)) return "?";
    int err = memfd_create("stderr", 0);
    std::cout.flush();
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]); if (err >= 0) dup2(err, 2);
        Outcome o; for (auto& b : before) if (o.ok) o = runCase(c, b);
        if (o.ok) o = runCase(c, k);
        std::string s = std::to_string(o.hash) + "\n" + (o.ok ? "ok" : o.cls + "\n" + o.msg); ssize_t w = write(p[1], s.data(), std::min<size_t>(s.size(), 4000)); (void)w; _exit(0);
    }
    close(p[1]); std::string s; char b[4096]; ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, n);
    close(p[0]); int st = 0; waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) { int g = WTERMSIG(st); if (msg) *msg = std::string("terminated by ") + strsignal(g) + report(err); else close(err); return g == SIGPROF ? "hang" : "crash"; }
    if (s.empty()) { std::string r = report(err); if (msg) *msg = "ended the process" + r; return "crash"; }
    close(err);
    auto nl = s.find('\n'); if (hash) *hash = std::stoull(s.substr(0, nl)); std::string own = s.substr(0, nl); s = s.substr(nl + 1);
    if (const char* other = getenv("DPSIM_OTHER"); other && *other && s == "ok" && before.empty()) {
        std::string h = inOther(other, k); auto co = h.find(": ");
        if (co != std::string::npos) { if (msg) *msg = h.substr(co + 2); return h.substr(0, co); }
        if (h != "?" && h != own) { if (msg) *msg = "the figures depend on what memory held before it was written (two builds that fill it differently disagree)"; return "uninitialised"; }
    }
    nl = s.find('\n'); if (msg && nl != std::string::npos) *msg = s.substr(nl + 1);
    return s.substr(0, nl);
}
// A failure that needs cases that ran earlier in the same process: the shortest list of them that still brings it about.
static std::vector<Case> neededBefore(const Check& c, const Case& k, u64 seed, u64 from, u64 step, u64 n, double secs, std::string* cls) {
    auto t0 = std::chrono::steady_clock::now(); auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs; };
    std::vector<Case> v;
    for (u64 m = 1; left(); m = std::min(n, m * 4)) {
        v.clear(); for (u64 i = n - std::min(n, m); i < n; ++i) v.push_back(c.gen(caseSeed(seed, from + i * step)));
        *cls = classOf(c, k, nullptr, nullptr, v); if (*cls != "ok" || m >= n) break;
    }
    if (*cls == "ok") return v;
    for (size_t d = 2; !v.empty() && left();) {
        size_t len = std::max<size_t>(1, v.size() / d); bool red = false;
        for (size_t i = 0; i < v.size() && left(); i += len) {
            std::vector<Case> w(v.begin(), v.begin() + i); w.insert(w.end(), v.begin() + std::min(v.size(), i + len), v.end());
            if (classOf(c, k, nullptr, nullptr, w) == *cls) { v = w; red = true; break; }
        }
        if (red) d = std::max<size_t>(2, d - 1); else if (len == 1) break; else d = std::min(v.size(), d * 2);
    }
    return v;
}
static Case minimise(const Check& c, Case k, const std::string& cls, u64 budget, double secs) {
    auto t0 = std::chrono::steady_clock::now(); u64 used = 0;
    auto left = [&] { return used < budget && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs; };
    auto norm = [&](const std::vector<Op>& v) { return c.norm ? c.norm(k, v) : normalise(k.spec, v, k.p("full"), k.p("strict"), k.p("sloppy")); };
    auto bad = [&](const std::vector<Op>& v) { Case x = k; x.ops = v; ++used; return classOf(c, x) == cls; };
    auto base = norm(k.ops); if (base.size() <= k.ops.size() && bad(base)) k.ops = base; else return k;
    for (size_t n = 2; k.ops.size() >= 2 && left();) {                                  // ddmin
        size_t len = std::max<size_t>(1, k.ops.size() / n); bool red = false;
        for (size_t i = 0; i < k.ops.size() && left(); i += len) {
            std::vector<Op> v(k.ops.begin(), k.ops.begin() + i); v.insert(v.end(), k.ops.begin() + std::min(k.ops.size(), i + len), k.ops.end());
            v = norm(v);
            if (v.size() < k.ops.size() && bad(v)) { k.ops = v; red = true; break; }
        }
        if (red) n = std::max<size_t>(2, n - 1); else if (len == 1) break; else n = std::min(k.ops.size(), n * 2);
    }
    for (size_t i = k.ops.size(); i-- > 0 && left();) {                                 // close gaps, simplify arguments
        u64 prev = i ? k.ops[i - 1].t : 0;
        for (u64 gap : {0ull, 1ull, 8ull}) {
            if (k.ops[i].t <= prev + gap || !left()) break;
            auto v = k.ops; u64 d = k.ops[i].t - prev - gap; for (size_t j = i; j < v.size(); ++j) v[j].t -= d;
            auto w = norm(v); if (w.size() == v.size() && bad(w)) { k.ops = w; break; }
        }
    }
    for (size_t i = 0; i < k.ops.size() && left(); ++i) {
        if (k.ops[i].row || k.ops[i].col) { auto v = k.ops; v[i].row = v[i].col = 0; if (bad(v)) k.ops = v; }
        if (!k.ops[i].data.empty() && left()) { auto v = k.ops; std::fill(v[i].data.begin(), v[i].data.end(), 0); if (v[i].data != k.ops[i].data && bad(v)) k.ops = v; }
    }
    if (!k.spec.toggle.is_null() && k.mode.rfind("comp:", 0) && left()) { Case x = k; x.spec.toggle = nullptr; ++used; if (classOf(c, x) == cls) k = x; }
    return k;
}
static json outJson(const std::map<std::string, u64>& m) { json j = json::object(); for (auto& p : m) j[p.first] = p.second; return j; }

int main(int argc, char** argv) {
    std::map<std::string, std::string> a; std::string verb = argc > 1 ? argv[1] : "";
    std::vector<std::string> pos;
    for (int i = 2; i < argc; ++i) { std::string s = argv[i]; if (s.rfind("--", 0) == 0 && i + 1 < argc) a[s.substr(2)] = argv[++i]; else pos.push_back(s); }
    auto num = [&](const char* k, u64 d) { auto i = a.find(k); return i == a.end() ? d : (u64)std::stoull(i->second); };
    // the library prints warnings to std::cout: keep them out of our own output
    int realOut = dup(1); int null = open("/dev/null", O_WRONLY); dup2(null, 1);
    auto say = [&](const std::string& s) { std::string t = s + "\n"; ssize_t w = write(realOut, t.data(), t.size()); (void)w; };
#ifndef __SANITIZE_ADDRESS__
    struct rlimit rl = {6ull << 30, 6ull << 30}; if (!a.count("nolimit")) setrlimit(RLIMIT_AS, &rl);
#endif
    attachWorlds();
    mallopt(M_PERTURB, getenv("DPSIM_FILL") ? atoi(getenv("DPSIM_FILL")) : 0x55);                            // what the heap holds before it is written is the same in every run
    if (verb == "list") { for (auto& c : checks()) say(c.first); return 0; }
    if (verb == "budget") { auto& c = checks().at(pos.at(0)); say(std::to_string(c.quickRuns) + " " + std::to_string(c.thoroughRuns)); return 0; }
    if (verb == "gen") { auto& c = checks().at(pos.at(0)); say(c.gen(a.count("case") ? num("case", 0) : caseSeed(num("seed", 1), num("index", 0))).str()); return 0; }
    if (verb == "run") {
        // run PROP --seed S --from A --step K --count N --seconds T --progress FILE
        auto& c = checks().at(pos.at(0));
        u64 seed = num("seed", 1), from = num("from", 0), step = num("step", 1), count = num("count", 100); double secs = (double)num("seconds", 60);
        auto t0 = std::chrono::steady_clock::now();
        Outcome tot; u64 runs = 0, nontrivial = 0; json perSeed = json::array(), fail; std::unordered_set<u64> hashes; json samples = json::array();
        int pf = a.count("progress") ? open(a["progress"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644) : -1;
        std::unique_ptr<std::ofstream> all; if (a.count("all")) all = std::make_unique<std::ofstream>(a["all"], std::ios::binary);
        for (u64 n = 0; n < count; ++n) {
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
            u64 cs = caseSeed(seed, from + n * step);
            if (pf >= 0) { u64 at[2] = {cs, n}; ssize_t w = pwrite(pf, at, 16, 0); (void)w; }
            Case k = c.gen(cs);
            Outcome o = runCase(c, k);
            ++runs; nontrivial += k.ops.size() > 3; tot.simTime += o.simTime > (1ull << 40) ? 0 : o.simTime;
            for (auto& p : o.count) tot.count[p.first] += p.second;
            if (tot.states.size() < 400000) tot.states.insert(o.states.begin(), o.states.end());
            if (hashes.size() < 400000 && k.ops.size() > 3) hashes.insert(o.hash);
            if (n < 40) perSeed.push_back({from + n * step, std::to_string(o.hash)});
            if (all) { u64 h[2] = {from + n * step, o.hash}; all->write((char*)h, 16); }
            if (n < 2) { std::string s = k.str(); samples.push_back(s.size() > 1500 ? s.substr(0, 1500) + "..." : s); }
            if (!k.spec.mem.is_null()) tot.count[std::string("standard.") + stdName(k.spec.std_)]++;
            if (!o.ok) { fail = {{"case", std::to_string(cs)}, {"index", from + n * step}, {"n", n}, {"cls", o.cls}, {"msg", o.msg}, {"hash", std::to_string(o.hash)}}; break; }
        }
        json j = {{"runs", runs}, {"nontrivial", nontrivial}, {"simTime", tot.simTime}, {"count", outJson(tot.count)}, {"distinct", hashes.size()}, {"fail", fail}, {"perSeed", perSeed}, {"samples", samples},
                  {"wall", std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count()}};
        if (a.count("states")) { std::ofstream f(a["states"], std::ios::binary); for (u64 v : tot.states) f.write((char*)&v, 8); }
        if (a.count("hashes")) { std::ofstream f(a["hashes"], std::ios::binary); for (u64 v : hashes) f.write((char*)&v, 8); }
        say(j.dump());
        return 0;
    }
    if (verb == "minimise") {
        // minimise PROP --case SEED --out FILE
        auto& c = checks().at(pos.at(0)); u64 cs = num("case", 0); Case k = c.gen(cs); std::string msg;
        std::string cls = classOf(c, k, &msg);
        if (cls == "ok" && a.count("n")) {
            auto v = neededBefore(c, k, num("seed", 1), num("from", 0), num("step", 1), num("n", 0), (double)num("seconds", 60), &cls);
            if (cls != "ok") {
                cls = classOf(c, k, &msg, nullptr, v); std::ofstream f(a["out"]);
                f << "# " << c.id << " " << cls << ": " << msg.substr(0, msg.find('\n')) << "\n# the last case fails once the cases before it have run in the same process\n";
                for (auto& x : v) f << x.str(); f << k.str(); f.close();
                say(json({{"cls", cls}, {"msg", msg}, {"ops", k.ops.size()}, {"before", k.ops.size()}, {"preceding", v.size()}}).dump()); return 0;
            }
        }
        if (cls == "ok") { say(json({{"cls", "ok"}}).dump()); return 0; }
        size_t before = k.ops.size();
        k = minimise(c, k, cls, num("budget", 1500), (double)num("seconds", 40));
        std::string c2 = classOf(c, k, &msg);
        std::ofstream f(a["out"]); f << "# " << c.id << " " << c2 << ": " << msg.substr(0, msg.find('\n')) << "\n# drawn from case seed " << cs << ", " << before << " operations before minimisation\n" << k.str(); f.close();
        say(json({{"cls", c2}, {"msg", msg}, {"ops", k.ops.size()}, {"before", before}}).dump());
        return 0;
    }
    if (verb == "replay") {
        std::ifstream f(pos.at(0)); std::string line, text; std::vector<Case> v;
        while (std::getline(f, line)) { text += line + "\n"; if (line == "end") { v.push_back(Case::parse(text)); text.clear(); } }
        if (v.empty()) { say("no case in the file"); return 2; }
        Case k = v.back(); v.pop_back(); auto& c = checks().at(k.prop);
        u64 h1 = 0, h2 = 0; std::string msg, cls = classOf(c, k, &msg, &h1, v), again = classOf(c, k, nullptr, &h2, v);
        say(json({{"cls", cls}, {"msg", msg}, {"hash", std::to_string(h1)}, {"same", h1 == h2 && cls == again}}).dump());
        return cls == "ok" ? 0 : 1;
    }
    say("usage: dpsim list|budget|gen|run|minimise|replay"); return 2;
}
