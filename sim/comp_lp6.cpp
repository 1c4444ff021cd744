// Component world: the LPDDR6 interface on its own, switched off and on while commands, inversion changes and metadata
// changes go on. Switching stops the clocks and nothing else.
#include "comp.h"
#include "gen.h"
#include "sut.h"
#include <DRAMPower/standards/lpddr6/LPDDR6Interface.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR6.h>
#include <sstream>
using namespace DRAMPower;
Snap flatten(const SimulationStats&);
namespace {
void switchGen(Case& k, Rng& r, bool ckpt) {
    k.spec = randomSpec(r, Std::LPDDR6, {2, false}); k.param["off"] = r.chance(20);
    GenOpt g; g.full = true; g.strict = r.chance(50); g.ops = r.pick<u64>({2, 6, 15}); g.query = true; g.dbi = r.chance(50); g.meta = true; g.end = false; g.huge = r.chance(10); g.dataHeavy = r.chance(40);
    Gen gen(r, k.spec, g); auto h = gen.history(); u64 t = 0;
    for (auto& e : h) {
        while (r.chance(45)) { u64 at = t + r.below(std::min<u64>(e.t - t, 40) + 1); u64 x = r.below(100); k.ops.push_back(ckpt && x < 20 ? evt(at, Ev::CKPT) : x < 40 ? evt(at, Ev::QUERY) : act(at, 100 + (x < 90 ? 0 : 1), r.below(3))); t = at; }
        k.ops.push_back(e); t = e.t;
    }
    k.ops.push_back(evt(t + r.below(30), Ev::QUERY));
}
std::vector<Op> switchNorm(const Case& k, const std::vector<Op>& v) {
    // switching needs no rules beyond time order; the commands keep those of the buses
    std::vector<Op> cmds, out; for (auto& e : v) if (!(e.ev == Ev::META && e.a >= 100)) cmds.push_back(e);
    auto n = normalise(k.spec, cmds, true, false, true); size_t j = 0; u64 last = 0;
    for (auto& e : v) {
        if (e.t < last) continue;
        if (e.ev == Ev::META && e.a >= 100) { out.push_back(e); last = e.t; continue; }
        if (j < n.size() && n[j].t == e.t && n[j].ev == e.ev && n[j].cmd == e.cmd) { out.push_back(n[j++]); last = e.t; }
    }
    return out;
}
void switchRun(const Case& k, Outcome& o) {
    auto sp = std::make_shared<const MemSpecLPDDR6>(k.spec.mem.get<DRAMUtils::MemSpec::MemSpecLPDDR6>());
    config::SimConfig cfg; if (k.spec.toggling()) cfg.toggleRateDefinition = k.spec.toggle.get<DRAMUtils::Config::ToggleRateDefinition>();
    bool on = !k.p("off"), always = sp->wckAlwaysOnMode; u64 sum = 0, wsum = 0, start = 0, last = 0; bool parity = false;
    auto a = std::make_unique<LPDDR6Interface>(*sp, cfg, on), b = std::make_unique<LPDDR6Interface>(*sp, cfg);
    u64 wr = k.spec.rate() / k.spec.tim("WCK2CK");
    for (auto& e : k.ops) {
        if (e.ev == Ev::CMD) {
            std::vector<uint8_t> d = e.data; LPDDR6TargetCoordinate x{TargetCoordinate(e.bank, e.bg, e.rank, e.row, e.col)}; if (e.a) x.dbank = e.a - 1; x.subChannel = e.b;
            LPDDR6Command c(e.t, e.cmd, x, d.empty() ? nullptr : d.data(), e.bits); a->doCommand(c); b->doCommand(c); last = e.t;
        } else if (e.ev == Ev::DBI) { a->enableDBI(e.a); b->enableDBI(e.a); }
        else if (e.ev == Ev::CKPT) {
            std::stringstream m; a->serialize(m); LPDDR6Interface* n = new LPDDR6Interface(*sp, cfg, e.t % 2); std::unique_ptr<LPDDR6Interface> own(n); n->deserialize(m);
            if (!m) { o.fail("restore-refused", "restoring an intact interface left the stream failed"); return; }
            a = std::move(own); o.count["fault.componentCrashRestore"]++;
        } else if (e.ev == Ev::META && e.a >= 100) {
            if (e.a == 101) { if (always) { parity = e.b & 1; a->setParityCheckMode(parity); b->setParityCheckMode(parity); } }
            else if (e.b == 0 || e.b == 2) { bool want = e.b == 2 ? !on : on; if (want == on) { if (on) a->enable(e.t); else a->disable(e.t); } else if (!on) { a->enable(e.t); on = true; start = e.t; last = e.t; } else if (e.t > start) { a->disable(e.t); on = false; sum += e.t - start, wsum += (e.t - start) * wr / 2; last = e.t; } o.count["event.interfaceSwitch"]++; }
            else if (on ? e.t > start : true) { if (on) { a->disable(e.t); sum += e.t - start, wsum += (e.t - start) * wr / 2; } else { a->enable(e.t); start = e.t; } on = !on; last = e.t; o.count["event.interfaceSwitch"]++; }
        } else if (e.ev == Ev::META) { a->setMetaData((uint16_t)e.a, (uint16_t)e.b); b->setMetaData((uint16_t)e.a, (uint16_t)e.b); }
        else if (e.ev == Ev::QUERY) {
            SimulationStats sa, sb; a->getWindowStats(e.t, sa); b->getWindowStats(e.t, sb); Snap x = flatten(sa), y = flatten(sb);
            u64 run = sum + (on ? e.t - start : 0);
            auto five = [](u64 n) { return std::array<u64, 5>{n, n, 2 * n, n, n}; };
            y.bus[Snap::CLK] = five(2 * run); if (always) y.bus[Snap::WCK] = five(2 * (wsum + (on ? (e.t - start) * wr / 2 : 0)))      /* whole periods of each span */;
            auto d = x.diff(y); if (!d.empty()) { o.fail("interface-switch", "at t=" + std::to_string(e.t) + ", running for " + std::to_string(run) + " cycles (got vs expected): " + d); return; }
            x.mix(o); o.count["probe.componentObservations"]++;
        }
        SAME(o, "interface-switch", "whether the interface is enabled", (int)a->isEnabled(), (int)on);
        SAME(o, "interface-switch", "last command time", a->getLastCommandTime(), last);
        SAME(o, "interface-switch", "parity check mode", (int)a->getParityCheckMode(), (int)parity);
        SAME(o, "interface-switch", "inversion enabled", (int)a->isDBIEnabled(), (int)b->isDBIEnabled());
        SAME(o, "interface-switch", "metadata", (u64)std::get<0>(a->getMetaData()) << 16 | std::get<1>(a->getMetaData()), (u64)std::get<0>(b->getMetaData()) << 16 | std::get<1>(b->getMetaData()));
        o.states.insert(0x63000000 + on * 2 + always);
    }
}
AddWorld switch6({"switch6", {"C08", "C01"}, switchGen, switchRun, switchNorm});
}
