// C11: energies follow from the reported statistics.
#include "check.h"
#include "refenergy.h"
#include "refiface.h"
#include <cmath>

namespace {
std::string num(double d) { std::ostringstream m; m.precision(17); m << d; return m.str(); }
Outcome runC11(const Case& k) {
    Outcome o; Rng wild(k.seed ^ 0x1b1b); auto s = Sut::make(k.spec); Ctx cx{o, *s, (bool)k.p("full")}; RefCore rc(k.spec); u64 last = 0; bool nonneg = energyCoefficientsNonNegative(k.spec);
    std::optional<Ener> prev; std::optional<Snap> prevStats; u64 B = k.spec.banks(), D = k.spec.devices();
    if (nonneg) o.count["probe.nonNegativeSpecifications"]++;
    auto look = [&](u64 t) {
        Snap st = s->stats(t); Ener got = s->energy(t), want = refEnergy(k.spec, st);
        auto f = got.values(); for (size_t i = 0; i < f.size(); ++i) if (!std::isfinite(f[i])) { o.fail("not-finite", "at t=" + std::to_string(t) + ": " + got.nameOf(i) + " is " + num(f[i])); return false; }
        double scale = 0; for (double v : want.values()) scale = std::max(scale, std::fabs(v));
        auto d = got.diffTol(want, 1e-9, 1e-12 * scale + 1e-300);
        if (!d.empty()) { o.fail("energy", "at t=" + std::to_string(t) + " (reported vs from the statistics): " + d); return false; }
        Ener viaStats = s->energyOfStats(t); d = got.diffTol(viaStats, 1e-12, 1e-15 * scale);
        if (!d.empty()) { o.fail("energy-of-stats", "at t=" + std::to_string(t) + ": energy asked for directly vs computed from the reported statistics: " + d); return false; }
        double tot = s->totalEnergy(t);
        if (!(std::fabs(tot - (got.coreTotal + got.ifTotal)) <= 1e-9 * std::fabs(tot) + 1e-300)) { o.fail("total", "total energy " + num(tot) + " is not core " + num(got.coreTotal) + " + interface " + num(got.ifTotal)); return false; }
        for (size_t i = 0; i < got.bank.size(); ++i) { size_t first = i / (D * B) * (D * B) + i % B; if (got.bank[i] != got.bank[first]) { o.fail("devices", "device copies of a bank differ: entry " + std::to_string(i)); return false; } }
        if (nonneg) {
            double eps = 1e-12 * scale;
            for (size_t i = 0; i < f.size(); ++i) if (f[i] < -eps) { o.fail("negative", "at t=" + std::to_string(t) + ": " + got.nameOf(i) + " is " + num(f[i])); return false; }
            if (prev) { auto p = prev->values(); for (size_t i = 0; i < f.size(); ++i) if (f[i] < p[i] - eps) { o.fail("decreases", "at t=" + std::to_string(t) + ": " + got.nameOf(i) + " fell from " + num(p[i]) + " to " + num(f[i])); return false; } }
        }
        // what lies between two observations contributes exactly its own activity
        if (prev) {
            Snap delta = st; bool mono = true;
            for (size_t b = 0; b < st.bus.size(); ++b) for (int f = 0; f < 5; ++f) { if (st.bus[b][f] < prevStats->bus[b][f]) mono = false; delta.bus[b][f] -= prevStats->bus[b][f]; }
            for (size_t b = 0; b < st.bank.size(); ++b) for (int f = 0; f < Snap::NCNT; ++f) delta.bank[b][f] -= prevStats->bank[b][f];
            for (size_t b = 0; b < st.rank.size(); ++b) for (int f = 0; f < Snap::NCNT; ++f) delta.rank[b][f] -= prevStats->rank[b][f];
            if (mono) {
                Ener part = refEnergy(k.spec, delta);
                double sum = prev->coreTotal + part.coreTotal;
                if (!(std::fabs(sum - got.coreTotal) <= 1e-9 * std::max(std::fabs(sum), scale))) { o.fail("additive", "core energy " + num(got.coreTotal) + " is not that of the prefix " + num(prev->coreTotal) + " plus that of the activity since " + num(part.coreTotal)); return false; }
                o.count["probe.additivity"]++;
            }
        }
        // the documented weighting holds for any statistics, also those no run of this length could reach
        if (wild.chance(20)) {
            Snap x = st; u64 top = 1ull << wild.pick<u64>({4, 20, 33, 45});
            for (auto& b : x.bus) for (auto& v : b) if (wild.chance(60)) v = wild.below(top);
            for (auto* v : {&x.bank, &x.rank}) for (auto& c : *v) for (int i = 0; i < Snap::NCNT; ++i) if (wild.chance(60)) c[i] = wild.below(top);
            for (auto& c : x.rank) { c[Snap::PRS] = c[Snap::PRS] % 3; c[Snap::PWS] = c[Snap::PWS] % 3; }
            u64 per = x.bank.size() / x.rank.size();          // the counts of a rank are those of its banks
            for (u64 q = 0; q < x.rank.size(); ++q) for (int i = 0; i < Snap::CACT; ++i) { x.rank[q][i] = 0; for (u64 n = 0; n < per; ++n) x.rank[q][i] += x.bank[q * per + n][i]; }
            Ener g2 = s->energyOf(x), w2 = refEnergy(k.spec, x); double sc = 0; for (double v : w2.values()) sc = std::max(sc, std::fabs(v));
            auto d2 = g2.diffTol(w2, 1e-9, 1e-12 * sc + 1e-300);
            if (!d2.empty()) { o.fail("energy", "for freely chosen statistics (reported vs documented weighting): " + d2); return false; }
            o.count["probe.freeStatistics"]++;
        }
        got.mix(o); prev = got; prevStats = st; o.count["probe.observations"]++;
        return true;
    };
    for (auto& e : k.ops) {
        probeOp(o, e); rc.advance(e.t); last = e.t;
        if (e.ev == Ev::QUERY) { if (!look(e.t)) return o; }
        else { if (!cx.step(e)) return o; if (e.ev == Ev::CMD) rc.apply(e); }
        o.states.insert(rc.stateHash());
    }
    for (u64 x : {0, 1, 20}) { last += x; if (!look(last)) return o; }
    o.simTime = last;
    // a memory of n devices is n memories of one
    if (D > 1 && k.spec.std_ != Std::LPDDR6) {
        Case k1 = k; k1.spec.mem["memarchitecturespec"]["nbrOfDevices"] = 1;
        auto a = Sut::make(k.spec), b = Sut::make(k1.spec); Ctx ca{o, *a, false}, cb{o, *b, false};
        for (auto& e : k.ops) if (e.ev == Ev::CMD) { if (!ca.step(e) || !cb.step(e)) return o; }
        Ener x = a->energy(last), y = b->energy(last);
        if (!(std::fabs(x.coreTotal - D * y.coreTotal) <= 1e-9 * std::fabs(x.coreTotal) + 1e-300)) o.fail("devices", "core energy of " + std::to_string(D) + " devices is " + num(x.coreTotal) + ", of one " + num(y.coreTotal));
        o.count["probe.deviceScaling"]++;
    }
    return o;
}
Register c11({"C11", [](u64 seed) {
    Rng r(seed); Case k; k.prop = "C11"; k.seed = seed; k.spec = randomSpec(r, r.pick(allStds()), {2, r.chance(60)});
    if (r.chance(25)) {                                            // a specification whose every documented weight is non-negative
        auto& p = k.spec.mem["mempowerspec"];
        for (auto& [n, v] : p.items()) {
            if (n.rfind("iBeta", 0) == 0) continue;
            std::string b = n.substr(0, 4);
            if (n.rfind("idd4", 0) == 0 || n.rfind("ipp4", 0) == 0) v = v.get<double>() + 2;
            if (n.rfind("idd5", 0) == 0 || n.rfind("ipp5", 0) == 0) v = v.get<double>() + 10;
        }
        for (const char* b : {"iBeta_vdd", "iBeta_vpp", "iBeta_vdd1", "iBeta_vdd2", "iBeta_vdd2h", "iBeta_vdd2l", "iBeta_vdd2c", "iBeta_vdd2d"}) p.erase(b);
    }
    GenOpt g; g.full = r.chance(80); g.strict = r.chance(50); g.ops = r.pick<u64>({6, 16, 40, 80}); g.query = true; g.dbi = true; g.meta = true; g.dataHeavy = r.chance(40); g.huge = true;
    k.param["full"] = g.full; k.param["strict"] = g.strict;
    Gen gen(r, k.spec, g); k.ops = gen.history(); return k; }, runC11, nullptr, 100000, 4000000});
}
