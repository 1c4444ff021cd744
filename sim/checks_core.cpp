// C02 (observation), C03 (conservation), C04 (deferred events), C05 (state machine), C06 (isolation).
#include "check.h"

namespace {
using S = Snap;
Case baseCase(const char* prop, u64 seed, Rng& r, const SpecOpt& so = {}) {
    Case k; k.prop = prop; k.seed = seed; k.spec = randomSpec(r, r.pick(allStds()), so); return k;
}
std::string coreDiff(const Snap& a, const Snap& ref) {
    std::ostringstream m;
    if (a.bank.size() != ref.bank.size() || a.rank.size() != ref.rank.size()) return "number of banks or ranks";
    for (size_t i = 0; i < a.bank.size(); ++i) for (int c = 0; c <= S::CDSM; ++c) if (a.bank[i][c] != ref.bank[i][c]) { m << "bank[" << i << "]." << S::cntName(c) << " is " << a.bank[i][c] << ", expected " << ref.bank[i][c]; return m.str(); }
    for (size_t i = 0; i < a.rank.size(); ++i) for (int c = S::CACT; c <= S::CDSM; ++c) if (a.rank[i][c] != ref.rank[i][c]) { m << "rank[" << i << "]." << S::cntName(c) << " is " << a.rank[i][c] << ", expected " << ref.rank[i][c]; return m.str(); }
    return "";
}
Case coreCase(const char* prop, u64 seed, bool forceRanks = false, bool sloppy = false) {
    Rng r(seed); Case k = baseCase(prop, seed, r, {2, true});
    if (forceRanks) { u64 n = r.chance(5) ? 5 + r.below(14) : 2 + r.below(3); k.spec.mem["memarchitecturespec"]["nbrOfRanks"] = n; }
    GenOpt g; g.full = r.chance(30); g.strict = r.chance(50); g.ops = r.pick<u64>({6, 12, 25, 40, 70}); g.query = true; g.dbi = g.full; g.noPd = r.chance(20);
    g.sloppy = sloppy; if (sloppy) k.param["sloppy"] = 1;
    if (prop == std::string("C05") && r.below(6000) == 0) { g.marathon = true; g.full = false; k.param["marathon"] = 1; }
    k.param["full"] = g.full; k.param["strict"] = g.strict;
    Gen gen(r, k.spec, g); k.ops = gen.history();
    return k;
}

// ---------------------------------------------------------------- C05
Outcome runC05(const Case& k) {
    Outcome o; auto s = Sut::make(k.spec); RefCore rc(k.spec); Ctx cx{o, *s, k.p("full") != 0};
    u64 reopened = 0;
    for (auto& e : k.ops) {
        probeOp(o, e); rc.advance(e.t);
        if (e.ev == Ev::QUERY) {
            Snap a = s->stats(e.t), b; rc.fill(b);
            auto d = coreDiff(a, b); if (!d.empty()) { o.fail("state-machine", "at t=" + std::to_string(e.t) + ": " + d); return o; }
            for (auto& x : a.bank) for (int c = 0; c <= S::CDSM; ++c) o.mixin(x[c]);
        } else { if (!cx.step(e)) return o; if (e.ev == Ev::CMD) rc.apply(e); }
        o.states.insert(rc.stateHash());
    }
    u64 t = rc.now;
    for (u64 extra : {0, 1, 17, 300}) {
        t += extra; rc.advance(t); Snap a = s->stats(t), b; rc.fill(b);
        auto d = coreDiff(a, b); if (!d.empty()) { o.fail("state-machine", "at t=" + std::to_string(t) + ": " + d); return o; }
        for (auto& x : a.bank) for (int c = 0; c <= S::CDSM; ++c) o.mixin(x[c]);
    }
    for (auto& x : rc.r) reopened += x.reopened;
    o.count["probe.banksReopenedAfterPowerDown"] += reopened; o.simTime = t;
    return o;
}
Register c05({"C05", [](u64 s) { return coreCase("C05", s); }, runC05, nullptr, 250000, 8000000});

// ---------------------------------------------------------------- C03
Outcome runC03(const Case& k) {
    Outcome o; auto s = Sut::make(k.spec); RefCore rc(k.spec); Ctx cx{o, *s, k.p("full") != 0};
    std::optional<Snap> prev; u64 prevT = 0; static const int cyc[] = {S::CACT, S::CPRE, S::CPDA, S::CPDP, S::CSREF, S::CDSM};
    u64 nb = k.spec.banks();
    auto look = [&](u64 t) -> bool {
        Snap a = s->stats(t); std::ostringstream m;
        auto one = [&](const std::array<u64, S::NCNT>& x, const std::array<u64, S::NCNT>* p, const std::string& who) {
            u64 sum = 0, adv = 0;
            for (int c : cyc) {
                if (x[c] > t) { m << who << "." << S::cntName(c) << "=" << x[c] << " exceeds the window " << t; return false; }
                sum += x[c];
                if (p) { if (x[c] < (*p)[c]) { m << who << "." << S::cntName(c) << " went from " << (*p)[c] << " to " << x[c]; return false; } adv += x[c] - (*p)[c]; }
                o.mixin(x[c]);
            }
            if (sum != t) { m << who << " accounts for " << sum << " of " << t << " cycles"; return false; }
            if (p && adv != t - prevT) { m << who << " advanced by " << adv << " in " << (t - prevT) << " cycles"; return false; }
            return true;
        };
        for (size_t i = 0; i < a.bank.size(); ++i) if (!one(a.bank[i], prev ? &prev->bank[i] : nullptr, "bank[" + std::to_string(i) + "]")) { o.fail("conservation", "at t=" + std::to_string(t) + ": " + m.str()); return false; }
        for (size_t i = 0; i < a.rank.size(); ++i) {
            if (!one(a.rank[i], prev ? &prev->rank[i] : nullptr, "rank[" + std::to_string(i) + "]")) { o.fail("conservation", "at t=" + std::to_string(t) + ": " + m.str()); return false; }
            u64 sum = 0;
            for (u64 b = 0; b < nb; ++b) {
                auto& x = a.bank[i * nb + b]; sum += x[S::CACT];
                if (x[S::CACT] > a.rank[i][S::CACT]) { o.fail("rank-activity", "at t=" + std::to_string(t) + ": bank " + std::to_string(b) + " of rank " + std::to_string(i) + " active for " + std::to_string(x[S::CACT]) + " cycles, its rank for " + std::to_string(a.rank[i][S::CACT])); return false; }
                for (int c : {S::CPDA, S::CPDP, S::CSREF, S::CDSM}) if (x[c] != a.rank[i][c]) { o.fail("rank-activity", "at t=" + std::to_string(t) + ": bank and rank disagree on " + S::cntName(c)); return false; }
            }
            if (a.rank[i][S::CACT] > sum) { o.fail("rank-activity", "at t=" + std::to_string(t) + ": rank " + std::to_string(i) + " active for " + std::to_string(a.rank[i][S::CACT]) + " cycles, its banks together only " + std::to_string(sum)); return false; }
        }
        prev = a; prevT = t; return true;
    };
    u64 last = 0; bool dense = k.p("dense");
    for (auto& e : k.ops) {
        probeOp(o, e);
        if (dense) for (u64 t = last + 1; t < e.t && t < last + 40; ++t) { if (!look(t)) return o; o.count["probe.denseObservations"]++; }
        rc.advance(e.t);
        if (e.ev == Ev::QUERY) { if (!look(e.t)) return o; }
        else { if (!cx.step(e)) return o; if (e.ev == Ev::CMD) rc.apply(e); }
        last = e.t; o.states.insert(rc.stateHash());
    }
    for (u64 x : {0, 1, 2, 9, 60}) { last += x; if (!look(last)) return o; }
    o.simTime = last; return o;
}
Register c03({"C03", [](u64 s) { Case k = coreCase("C03", s); Rng r(s ^ 0x33); k.param["dense"] = r.chance(40); return k; }, runC03, nullptr, 200000, 6000000});

// ---------------------------------------------------------------- C04
Outcome runC04(const Case& k) {
    Outcome o; bool full = k.p("full"), sloppy = k.p("sloppy"); Rng r(k.seed ^ 0x4444);      // sloppy: no reference, only the three ways of advancing
    auto lazy = Sut::make(k.spec), dense = Sut::make(k.spec), rnd = Sut::make(k.spec);
    RefCore rc(k.spec); Ctx c1{o, *lazy, full}, c2{o, *dense, full}, c3{o, *rnd, full};
    u64 last = 0, maxOut = 0, ties = 0;
    auto observe = [&](Sut& s, u64 t, const char* who) {
        Snap a = s.stats(t), b; if (sloppy) { a.mix(o); return true; }
        rc.fill(b); auto d = coreDiff(a, b);
        if (!d.empty()) { o.fail("deferred-effect", std::string(who) + " at t=" + std::to_string(t) + ": " + d); return false; }
        for (auto& x : a.bank) for (int c = 0; c <= S::CDSM; ++c) o.mixin(x[c]);
        if (s.serializable() != rc.q.empty()) { o.fail("outstanding", std::string(who) + " at t=" + std::to_string(t) + ": " + std::to_string(rc.q.size()) + " deferred events outstanding, memory says it " + (s.serializable() ? "can" : "cannot") + " be checkpointed"); return false; }
        if (s.last() != rc.lastCmd) { o.fail("last-time", std::string(who) + " at t=" + std::to_string(t) + ": last command time " + std::to_string(s.last()) + ", expected " + std::to_string(rc.lastCmd)); return false; }
        return true;
    };
    auto gapLook = [&](u64 from, u64 to) {                       // strictly between two operations
        std::vector<u64> pts; for (auto& e : rc.q) for (u64 d : {e.t - 1, e.t, e.t + 1}) if (d > from && d < to) pts.push_back(d);
        for (u64 t = from + 1; t < to && t < from + 24; ++t) pts.push_back(t);
        std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
        for (u64 t : pts) { rc.advance(t); if (!observe(*dense, t, "observed at every cycle")) return false; if (r.chance(25) && !observe(*rnd, t, "observed now and then")) return false; o.count["probe.gapObservations"]++; }
        return true;
    };
    for (auto& e : k.ops) {
        probeOp(o, e);
        for (size_t i = 1; i < rc.q.size(); ++i) ties += rc.q[i].t == rc.q[i - 1].t && rc.q[i].k != rc.q[i - 1].k;
        if (!gapLook(last, e.t)) return o;
        rc.advance(e.t);
        if (e.ev == Ev::QUERY) { if (!observe(*dense, e.t, "observed at every cycle")) return o; if (r.chance(50) && !observe(*rnd, e.t, "observed now and then")) return o; }
        else {
            if (!c1.step(e) || !c2.step(e) || !c3.step(e)) return o;
            if (e.ev != Ev::CMD) { last = e.t; continue; }       // extension switches do not advance the core
            if (sloppy) { last = e.t; continue; }
            rc.apply(e);
            u64 later = rc.outstandingAfter(e.t); maxOut = std::max(maxOut, later);
            for (Sut* s : {lazy.get(), dense.get(), rnd.get()}) {
                if (later && s->serializable()) { o.fail("outstanding", "after " + opStr(e) + ": a checkpoint is offered with " + std::to_string(later) + " deferred events outstanding"); return o; }
                if (rc.q.empty() && !s->serializable()) { o.fail("outstanding", "after " + opStr(e) + ": no checkpoint offered although nothing is outstanding"); return o; }
            }
        }
        last = e.t; o.states.insert(rc.stateHash());
    }
    u64 end = last + 1 + r.below(30); for (auto& e : rc.q) end = std::max(end, e.t + 1);
    if (!gapLook(last, end)) return o;
    rc.advance(end);
    if (!observe(*lazy, end, "advanced in one step") || !observe(*dense, end, "observed at every cycle") || !observe(*rnd, end, "observed now and then")) return o;
    if (full || sloppy) {
        Snap a = lazy->stats(end), b = dense->stats(end), c = rnd->stats(end);
        auto d = a.diff(b); if (d.empty()) d = a.diff(c);
        if (!d.empty()) o.fail("advance-schedule", "result depends on how time was advanced: " + d);
    }
    o.count["probe.maxOutstanding>=4"] += maxOut >= 4; o.count["probe.tiesBetweenKinds"] += ties; o.simTime = end;
    return o;
}
Register c04({"C04", [](u64 s) { return coreCase("C04", s, false, Rng(s ^ 0x404).chance(20)); }, runC04, nullptr, 80000, 2500000});

// ---------------------------------------------------------------- C06
Outcome runC06(const Case& k) {
    Outcome o; Rng r(k.seed ^ 0x6666); const bool full = k.p("full"); const int lastRank = full ? S::NCNT - 1 : S::CDSM;      // the pre- and postamble counts belong to a rank, too
    u64 R = k.spec.ranks(), nb = k.spec.banks();
    auto run = [&](const std::vector<Op>& ops, const std::vector<u64>& at, std::vector<Snap>& out) {
        auto s = Sut::make(k.spec); Ctx cx{o, *s, full}; size_t q = 0;
        for (auto& e : ops) { while (q < at.size() && at[q] < e.t) out.push_back(s->stats(at[q++])); if (e.ev == Ev::CMD && !cx.step(e)) return false; }
        while (q < at.size()) out.push_back(s->stats(at[q++]));
        return true;
    };
    RefCore rc(k.spec); std::vector<u64> at; std::vector<Op> cmds; u64 end = 0;
    for (auto& e : k.ops) { probeOp(o, e); rc.advance(e.t); if (e.ev == Ev::QUERY) at.push_back(e.t); else if (e.ev == Ev::CMD) { cmds.push_back(e); rc.tryApply(e); o.states.insert(rc.stateHash()); } end = e.t; }
    end += 40; at.push_back(end); std::sort(at.begin(), at.end());
    std::vector<Snap> whole; if (!run(cmds, at, whole)) return o;
    auto cmp = [&](const std::vector<Snap>& got, u64 rankIn, u64 rankFrom, const char* what) {
        for (size_t i = 0; i < at.size(); ++i) {
            for (u64 b = 0; b < nb; ++b) for (int c = 0; c <= S::CDSM; ++c) if (whole[i].bank[rankIn * nb + b][c] != got[i].bank[rankFrom * nb + b][c]) {
                o.fail("interference", std::string(what) + ", t=" + std::to_string(at[i]) + ": rank " + std::to_string(rankIn) + " bank " + std::to_string(b) + " " + S::cntName(c) + " " + std::to_string(whole[i].bank[rankIn * nb + b][c]) + " vs " + std::to_string(got[i].bank[rankFrom * nb + b][c])); return false; }
            for (int c = S::CACT; c <= lastRank; ++c) if (whole[i].rank[rankIn][c] != got[i].rank[rankFrom][c]) {
                o.fail("interference", std::string(what) + ", t=" + std::to_string(at[i]) + ": rank " + std::to_string(rankIn) + " " + S::cntName(c) + " " + std::to_string(whole[i].rank[rankIn][c]) + " vs " + std::to_string(got[i].rank[rankFrom][c])); return false; }
        }
        return true;
    };
    for (auto& w : whole) for (auto& x : w.bank) for (int c = 0; c <= S::CDSM; ++c) o.mixin(x[c]);
    // each rank's own stream alone, on the same rank index and on another one
    for (u64 x = 0; x < R; ++x) {
        std::vector<Op> mine; for (auto& e : cmds) if (e.rank == x && e.cmd != CmdType::END_OF_SIMULATION) mine.push_back(e);
        std::vector<Snap> g; if (!run(mine, at, g)) return o;
        if (!cmp(g, x, x, "rank alone")) return o;
        for (size_t i = 0; i < at.size(); ++i) for (u64 y = 0; y < R; ++y) if (y != x) {
            for (u64 b = 0; b < nb; ++b) for (int c = 0; c <= S::CDSM; ++c) { u64 want = c == S::CPRE ? at[i] : 0; if (g[i].bank[y * nb + b][c] != want) { o.fail("interference", "rank " + std::to_string(y) + " without commands shows " + S::cntName(c) + "=" + std::to_string(g[i].bank[y * nb + b][c])); return o; } }
            for (int c = S::CACT; c <= lastRank; ++c) { u64 want = c == S::CPRE ? at[i] : 0; if (g[i].rank[y][c] != want) { o.fail("interference", "rank " + std::to_string(y) + " without commands shows rank " + S::cntName(c) + "=" + std::to_string(g[i].rank[y][c])); return o; } }
        }
        u64 y = (x + 1 + r.below(R)) % R; for (auto& e : mine) e.rank = y;
        std::vector<Snap> g2; if (!run(mine, at, g2)) return o;
        if (!cmp(g2, x, y, "rank alone under another number")) return o;
        o.count["probe.projections"]++;
    }
    // reorder ties across ranks
    std::vector<Op> perm = cmds; u64 swaps = 0;
    for (int round = 0; round < 3; ++round) for (size_t i = 1; i < perm.size(); ++i) if (perm[i].t == perm[i - 1].t && perm[i].rank != perm[i - 1].rank && perm[i].cmd != CmdType::END_OF_SIMULATION && perm[i - 1].cmd != CmdType::END_OF_SIMULATION && r.chance(60)) { std::swap(perm[i], perm[i - 1]); ++swaps; }
    o.count["probe.tiesSwapped"] += swaps;
    if (swaps) { std::vector<Snap> g; if (!run(perm, at, g)) return o; for (u64 x = 0; x < R; ++x) if (!cmp(g, x, x, "ties issued in another order")) return o; }
    // bank projection, when no rank-wide delay can couple banks
    bool pd = false; for (auto& e : cmds) pd |= e.cmd == CmdType::PDEA || e.cmd == CmdType::PDEP;
    if (!pd && !k.p("sloppy")) {
        for (int n = 0; n < 3 && !cmds.empty(); ++n) {
            const Op& pickOp = cmds[r.below(cmds.size())]; u64 x = pickOp.rank, b = pickOp.bank; u64 per = k.spec.perGroup();
            std::vector<Op> mine;
            for (auto& e : cmds) if (e.rank == x) {
                bool wide = e.cmd == CmdType::PREA || e.cmd == CmdType::REFA || e.cmd == CmdType::SREFEN || e.cmd == CmdType::SREFEX || e.cmd == CmdType::DSMEN || e.cmd == CmdType::DSMEX;
                bool same = (e.cmd == CmdType::PRESB || e.cmd == CmdType::REFSB) && e.bank % per == b % per;
                bool pair = (e.cmd == CmdType::REFP2B || e.cmd == CmdType::REFDB) && otherBank(e) == b;
                if (wide || same || pair || e.bank == b) { if (e.cmd != CmdType::END_OF_SIMULATION && e.cmd != CmdType::NOP) mine.push_back(e); }
            }
            std::vector<Snap> g; if (!run(mine, at, g)) return o;
            for (size_t i = 0; i < at.size(); ++i) for (int c = 0; c <= S::CDSM; ++c) if (whole[i].bank[x * nb + b][c] != g[i].bank[x * nb + b][c]) {
                o.fail("bank-interference", "t=" + std::to_string(at[i]) + ": rank " + std::to_string(x) + " bank " + std::to_string(b) + " " + S::cntName(c) + " " + std::to_string(whole[i].bank[x * nb + b][c]) + ", alone " + std::to_string(g[i].bank[x * nb + b][c])); return o; }
            o.count["probe.bankProjections"]++;
        }
    }
    o.simTime = end; return o;
}
Case genC06(u64 seed) {
    Rng r(seed); Case k = baseCase("C06", seed, r, {0, true});
    k.spec.mem["memarchitecturespec"]["nbrOfRanks"] = 2 + r.below(3);
    GenOpt g; g.full = r.chance(30); if (g.full) g.dataHeavy = r.chance(50); g.strict = r.chance(50); g.ops = r.pick<u64>({8, 20, 40, 80}); g.query = true; g.noPd = r.chance(45); g.sloppy = r.chance(20); k.param["sloppy"] = g.sloppy;
    k.param["full"] = g.full; k.param["strict"] = g.strict;
    Gen gen(r, k.spec, g); k.ops = gen.history(); return k;
}
Register c06({"C06", genC06, runC06, nullptr, 80000, 2500000});

// ---------------------------------------------------------------- C02
std::string notDecreasing(const Snap& a, const Snap& b) {           // a earlier, b later
    for (size_t i = 0; i < a.bank.size(); ++i) for (int c = 0; c < S::NCNT; ++c) if (b.bank[i][c] < a.bank[i][c]) return "bank[" + std::to_string(i) + "]." + S::cntName(c) + " went from " + std::to_string(a.bank[i][c]) + " to " + std::to_string(b.bank[i][c]);
    for (size_t i = 0; i < a.rank.size(); ++i) for (int c = 0; c < S::NCNT; ++c) if (b.rank[i][c] < a.rank[i][c]) return "rank[" + std::to_string(i) + "]." + S::cntName(c) + " went from " + std::to_string(a.rank[i][c]) + " to " + std::to_string(b.rank[i][c]);
    for (int x = 0; x < S::NBUS; ++x) for (int f = 0; f < 5; ++f) if (b.bus[x][f] < a.bus[x][f]) return std::string(S::busName(x)) + "." + S::fieldName(f) + " went from " + std::to_string(a.bus[x][f]) + " to " + std::to_string(b.bus[x][f]);
    return "";
}
Outcome runC02(const Case& k) {
    Outcome o; Rng r(k.seed ^ 0x2222); bool full = k.p("full"), sloppy = k.p("sloppy");
    auto quiet = Sut::make(k.spec), seen = Sut::make(k.spec); Ctx c1{o, *quiet, full}, c2{o, *seen, full};
    RefCore rc(k.spec); std::optional<Snap> prev; u64 last = 0;
    auto look = [&](u64 t) {
        o.count["probe.observations"]++;
        if (!rc.q.empty()) o.count["probe.observedWithEventsOutstanding"]++;
        std::optional<Snap> a;
        if (r.chance(80)) a = seen->stats(t);
        switch (r.below(5)) { case 0: { Ener x = seen->energy(t), y = seen->energy(t); auto d = x.diff(y); if (!d.empty()) { o.fail("repeat", "same energy asked twice at t=" + std::to_string(t) + ": " + d); return false; } break; } case 1: seen->totalEnergy(t); break; case 2: seen->last(); seen->serializable(); break; case 3: seen->dbiEnabled(); break; default: break; }
        if (a) {
            Snap b = seen->stats(t); auto d = a->diff(b); if (!d.empty()) { o.fail("repeat", "asked twice at t=" + std::to_string(t) + ": " + d); return false; }
            if (prev && !sloppy) { d = notDecreasing(*prev, *a); if (!d.empty()) { o.fail("decreasing", "at t=" + std::to_string(t) + ": " + d); return false; } }
            a->mix(o); prev = a;
        }
        return true;
    };
    bool dense = k.p("dense");
    for (auto& e : k.ops) {
        probeOp(o, e);
        if (dense) for (u64 t = last + 1; t < e.t && t < last + 20; ++t) if (r.chance(60)) { rc.advance(t); if (!look(t)) return o; }
        rc.advance(e.t); last = e.t;
        if (e.ev == Ev::QUERY) { if (!look(e.t)) return o; continue; }
        if (!c1.step(e) || !c2.step(e)) return o;
        if (e.ev == Ev::CMD) {
            rc.tryApply(e); if (r.chance(20) && !look(e.t)) return o;
            if (full && r.chance(8) && seen->last() == e.t) { Snap a = seen->statsNow(), b = seen->stats(e.t); auto d = a.diff(b); if (!d.empty()) { o.fail("now-differs", "statistics up to the last command at t=" + std::to_string(e.t) + " vs those asked for by time: " + d); return o; } }
        }
        o.states.insert(rc.stateHash());
    }
    for (u64 x : {0, 1, 7, 100}) {
        last += x; Snap a = quiet->stats(last), b = seen->stats(last);
        auto d = b.diff(a); if (!d.empty()) { o.fail("observed-differs", "at t=" + std::to_string(last) + " the observed run differs from the unobserved one: " + d); return o; }
        auto e1 = quiet->energy(last), e2 = seen->energy(last); d = e2.diff(e1);
        if (!d.empty()) { o.fail("observed-differs", "at t=" + std::to_string(last) + " energy of the observed run differs: " + d); return o; }
        if (k.p("late") == 0) break;                      // the unobserved run is asked exactly once unless told otherwise
    }
    o.simTime = last; return o;
}
Case genC02(u64 seed) {
    Rng r(seed); Case k = baseCase("C02", seed, r, {2, r.chance(70)});
    GenOpt g; g.full = r.chance(90); g.strict = r.chance(50); g.ops = r.pick<u64>({6, 12, 25, 40}); g.query = true; g.dbi = r.chance(60); g.meta = true; g.dataHeavy = r.chance(50); g.sloppy = r.chance(20); k.param["sloppy"] = g.sloppy;
    k.param["full"] = g.full; k.param["strict"] = g.strict; k.param["dense"] = r.chance(40); k.param["late"] = r.chance(30);
    Gen gen(r, k.spec, g); k.ops = gen.history(); return k;
}
Register c02({"C02", genC02, runC02, nullptr, 100000, 4000000});
}
