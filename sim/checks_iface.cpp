// C07 (command bus), C08 (data bus, strobes, clocks, preambles), C09 (inversion), C10 (toggling-rate estimate).
#include "check.h"
#include "refiface.h"

namespace {
using S = Snap;
std::string busDiff(const Snap& got, const Snap& want, std::initializer_list<int> which) {
    for (int b : which) for (int f = 0; f < 5; ++f) if (got.bus[b][f] != want.bus[b][f])
        return std::string(S::busName(b)) + "." + S::fieldName(f) + " is " + std::to_string(got.bus[b][f]) + ", expected " + std::to_string(want.bus[b][f]);
    return "";
}
std::string preDiff(const Snap& got, const Snap& want) {
    for (size_t i = 0; i < want.rank.size() && i < got.rank.size(); ++i) for (int c : {S::PRS, S::PWS}) if (got.rank[i][c] != want.rank[i][c])
        return "rank[" + std::to_string(i) + "]." + S::cntName(c) + " is " + std::to_string(got.rank[i][c]) + ", expected " + std::to_string(want.rank[i][c]);
    return "";
}
// Drives one history, compares `judge(observed, expected, t)` at every query, densely when asked, and after the end.
template <class Judge> void drive(const Case& k, Outcome& o, RefIface& ri, Judge judge) {
    auto s = Sut::make(k.spec); Ctx cx{o, *s, true}; RefCore rc(k.spec); Rng r(k.seed ^ 0x1f1f); u64 last = 0, skip = 0;
    // how: 0 commands go to core and interface together, 1 to the interface only, 2 interface first, 3 the core gets them only before an observation
    u64 how = k.p("how"); std::vector<Op> late; bool sloppy = k.p("sloppy");
    auto give = [&](const Op& e, bool core) { try { if (core) s->core(e); else s->iface(e); return true; } catch (const std::exception& x) { o.fail("exception", opStr(e) + " raised: " + x.what()); return false; } };
    auto step = [&](const Op& e) {
        if (e.ev != Ev::CMD || how == 0) return cx.step(e);
        if (!give(e, false)) return false;
        if (how == 2) return give(e, true);
        if (how == 3) late.push_back(e);
        return true;
    };
    auto look = [&](u64 t) {
        for (auto& e : late) if (!give(e, true)) return false;
        late.clear();
        Snap a = s->stats(t), b; ri.fill(b, t);
        std::string d = judge(a, b, t); o.count["probe.observations"]++;
        if (!d.empty()) { o.fail("interface", "at t=" + std::to_string(t) + ": " + d); return false; }
        for (auto& x : a.bus) for (auto v : x) o.mixin(v);
        return true;
    };
    bool dense = k.p("dense"), lazy = k.p("lazy");
    for (auto& e : k.ops) {
        probeOp(o, e);
        if (dense) for (u64 t = last + 1; t < e.t && t < last + 40; ++t) if (r.chance(70)) { if (!look(t)) return; o.count["probe.denseObservations"]++; }
        rc.advance(e.t);
        if (e.ev == Ev::QUERY) { if (lazy) { ++skip; } else if (!look(e.t)) return; }
        else {
            if (!step(e)) return;
            ri.apply(e);
            if (e.ev == Ev::CMD) { if (sloppy) rc.tryApply(e); else rc.apply(e); if (dense && r.chance(10) && !look(e.t)) return; }
        }
        last = e.t; o.states.insert(rc.stateHash() ^ (ri.dbi ? 0x55 : 0));
    }
    for (u64 x : {0, 1, 3, 16, 60}) { last += x; if (!look(last)) return; }
    o.simTime = last;
    o.count["probe.seamlessBursts"] += ri.seamless; o.count["probe.turnarounds"] += ri.turnaround; o.count["probe.invertedUnits"] += ri.invertedUnits; o.count["probe.normalUnits"] += ri.normalUnits;
}
Case ifCase(const char* prop, u64 seed, int toggling, bool dataHeavy, bool dbi, std::vector<Std> stds) {
    Rng r(seed); Case k; k.prop = prop; k.seed = seed; k.spec = randomSpec(r, r.pick(stds), {toggling, r.chance(80)});
    GenOpt g; g.full = true; g.strict = r.chance(50); g.ops = r.pick<u64>({4, 10, 20, 40}); g.query = true; g.dbi = dbi; g.meta = true; g.dataHeavy = dataHeavy; g.huge = r.chance(30);
    k.param["full"] = 1; k.param["strict"] = g.strict; k.param["dense"] = r.chance(40); k.param["lazy"] = r.chance(20);
    k.param["how"] = r.chance(70) ? 0 : 1 + r.below(3); k.param["sloppy"] = g.sloppy = r.chance(15);
    Gen gen(r, k.spec, g); k.ops = gen.history();
    if (dbi && r.chance(70)) { Op e; e.ev = Ev::DBI; e.t = 0; e.a = 1; k.ops.insert(k.ops.begin(), e); }
    return k;
}

// ---------------------------------------------------------------- C07
Outcome runC07(const Case& k) {
    Outcome o; RefIface ri(k.spec);
    drive(k, o, ri, [](const Snap& a, const Snap& b, u64) { return busDiff(a, b, {S::CMD}); });
    return o;
}
Register c07({"C07", [](u64 s) { return ifCase("C07", s, 2, Rng(s ^ 7).chance(30), false, allStds()); }, runC07, nullptr, 300000, 6000000});

// ---------------------------------------------------------------- C08
Outcome runC08(const Case& k) {
    Outcome o; RefIface ri(k.spec);
    drive(k, o, ri, [](const Snap& a, const Snap& b, u64) {
        auto d = busDiff(a, b, {S::RBUS, S::WBUS, S::CLK, S::WCK, S::RDQS, S::WDQS, S::RDBI, S::WDBI}); return d.empty() ? preDiff(a, b) : d; });
    return o;
}
Register c08({"C08", [](u64 s) { return ifCase("C08", s, 0, Rng(s ^ 8).chance(80), false, allStds()); }, runC08, nullptr, 300000, 6000000});

// ---------------------------------------------------------------- C09
Outcome runC09(const Case& k) {
    Outcome o; RefIface ri(k.spec);
    drive(k, o, ri, [](const Snap& a, const Snap& b, u64) { return busDiff(a, b, {S::RBUS, S::WBUS, S::RDBI, S::WDBI}); });
    return o;
}
Register c09({"C09", [](u64 s) { return ifCase("C09", s, Rng(s ^ 9).chance(8) ? 1 : 0, true, true, {Std::DDR4, Std::LPDDR4, Std::LPDDR5, Std::LPDDR6, Std::DDR4, Std::LPDDR4, Std::LPDDR5, Std::LPDDR6, Std::DDR5}); }, runC09, nullptr, 300000, 6000000});

// ---------------------------------------------------------------- C10
Outcome runC10(const Case& k) {
    Outcome o; RefIface ri(k.spec);
    drive(k, o, ri, [&](const Snap& a, const Snap& b, u64 t) {
        auto d = ri.toggleDiff(a, t); if (!d.empty()) return d;
        return busDiff(a, b, {S::RBUS, S::WBUS, S::CLK, S::WCK, S::RDQS, S::WDQS, S::RDBI, S::WDBI}); });
    if (!o.ok || !k.spec.toggling()) return o;
    // the estimate ignores payload values: the same history with other payloads, observed only at the end
    Case k2 = k; Rng r(k.seed ^ 0xA0A0);
    for (auto& e : k2.ops) { for (auto& b : e.data) b = (uint8_t)r.next(); if (r.chance(20)) e.data.clear(); }      // also without any
    auto a = Sut::make(k.spec), b = Sut::make(k.spec); Ctx ca{o, *a, true}, cb{o, *b, true}; u64 last = 0;
    for (size_t i = 0; i < k.ops.size(); ++i) { last = k.ops[i].t; if (k.ops[i].ev == Ev::QUERY) continue; if (!ca.step(k.ops[i]) || !cb.step(k2.ops[i])) return o; }
    Snap x = a->stats(last), y = b->stats(last);
    auto d = x.diff(y); if (!d.empty()) o.fail("payload-dependent", "two histories that differ only in payload values: " + d);
    return o;
}
Register c10({"C10", [](u64 s) { Rng r(s ^ 10); return ifCase("C10", s, r.chance(92) ? 1 : 0, r.chance(80), r.chance(30), allStds()); }, runC10, nullptr, 300000, 6000000});
}
