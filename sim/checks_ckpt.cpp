// C01 (checkpoint / crash / restore transparency) and C12 (damaged checkpoints, failing media and allocations).
#include "check.h"
#include "faults.h"
#include <iostream>

namespace {
Case ckptCase(const char* prop, u64 seed, bool smallRun) {
    Rng r(seed); Case k; k.prop = prop; k.seed = seed; k.spec = randomSpec(r, r.pick(allStds()), {2, smallRun || r.chance(80)});
    GenOpt g; g.full = r.chance(92); g.strict = r.chance(50); g.ops = smallRun ? r.pick<u64>({2, 5, 10, 18}) : r.pick<u64>({5, 12, 25, 45}); g.query = true; g.ckpt = true; g.meta = true; g.dbi = r.chance(75); g.dataHeavy = r.chance(60); g.noPd = r.chance(40); g.noRefresh = r.chance(30);
    k.param["full"] = g.full; k.param["strict"] = g.strict;
    g.sloppy = r.chance(20); k.param["sloppy"] = g.sloppy;
    Gen gen(r, k.spec, g); k.ops = gen.history();
    bool any = false;
    for (auto& e : k.ops) if (e.ev == Ev::CKPT) { any = true; e.a = r.chance(60); e.b = r.below(3); }
    if (!any) {                                       // make sure there is one
        std::vector<Op> v = k.ops; std::vector<size_t> at; RefCore rc(k.spec);
        for (size_t i = 0; i < v.size(); ++i) { rc.advance(v[i].t); if (rc.q.empty()) at.push_back(i); if (v[i].ev == Ev::CMD) rc.apply(v[i]); if (v[i].cmd == CmdType::END_OF_SIMULATION) break; }
        size_t pos = at.empty() ? v.size() : r.pick(at);
        Op e; e.ev = Ev::CKPT; e.t = pos < v.size() ? v[pos].t : v.empty() ? 0 : v.back().t; e.a = r.chance(60); e.b = r.below(3);
        k.ops.insert(k.ops.begin() + pos, e);
    }
    return k;
}

// ---------------------------------------------------------------- C01
Outcome runC01(const Case& k) {
    Outcome o; bool full = k.p("full"); Rng r(k.seed ^ 0x1111);
    auto base = Sut::make(k.spec), crash = Sut::make(k.spec), cont = Sut::make(k.spec);
    Ctx cb{o, *base, full}, cc{o, *cont, full}; RefCore rc(k.spec); bool restored = false; u64 dense = 0, last = 0;
    auto same = [&](u64 t, const char* when) {
        Snap a = base->stats(t), b = crash->stats(t), c = cont->stats(t); a.mix(o);
        auto d = b.diff(a); if (!d.empty()) { o.fail("restore-differs", std::string(when) + ", t=" + std::to_string(t) + ": restored run vs uninterrupted run: " + d); return false; }
        d = c.diff(a); if (!d.empty()) { o.fail("save-disturbs", std::string(when) + ", t=" + std::to_string(t) + ": run a checkpoint was taken from vs undisturbed run: " + d); return false; }
        if (r.chance(25)) { auto x = base->energy(t), y = crash->energy(t); d = y.diff(x); if (!d.empty()) { o.fail("restore-differs", std::string(when) + ", t=" + std::to_string(t) + ": energy of restored vs uninterrupted run: " + d); return false; } }
        if (base->last() != crash->last()) { o.fail("restore-last-time", std::string(when) + ", t=" + std::to_string(t) + ": last command time " + std::to_string(crash->last()) + " vs " + std::to_string(base->last())); return false; }
        if (base->dbiEnabled() != crash->dbiEnabled()) { o.fail("restore-extension", std::string(when) + ": inversion reported " + (crash->dbiEnabled() ? "on" : "off") + " after restore"); return false; }
        if (base->metaGet() != crash->metaGet()) { o.fail("restore-extension", std::string(when) + ": meta data differs after restore"); return false; }
        return true;
    };
    for (auto& e : k.ops) {
        probeOp(o, e);
        if (dense) { for (u64 t = last + 1; t < e.t && t < last + 30 && dense; ++t, --dense) if (!same(t, "shortly after a restore")) return o; }
        rc.advance(e.t); last = e.t;
        if (e.ev == Ev::QUERY) { if (!same(e.t, "observation")) return o; }
        else if (e.ev == Ev::CKPT) {
            if (e.a) { if (!same(e.t, "before a checkpoint")) return o; }
            if (!crash->serializable()) { o.count["probe.checkpointRefused"]++; continue; }
            for (u64 n = 0; n < 1 + (e.b == 2); ++n) {
                std::stringstream m; crash->save(m);
                crash.reset();                                            // the crash: only the stream survives
                crash = base->fresh();
                crash->load(m);
                if (!m) { o.fail("restore-refused", "restoring an intact checkpoint left the stream failed"); return o; }
                o.count["fault.crashRestore"]++;
            }
            if (cont->serializable()) { std::stringstream m; cont->save(m); if (e.b == 1) { std::stringstream m2; cont->save(m2); } o.count["fault.checkpointWithoutCrash"]++; }
            if (full) { BusBook b(k.spec); (void)b; }
            restored = true; dense = r.chance(60) ? 40 : 0;
            if (crash->last() != base->last()) { o.fail("restore-last-time", "right after a restore: last command time " + std::to_string(crash->last()) + " vs " + std::to_string(base->last())); return o; }
            if (e.a && !crash->serializable()) { o.fail("restore-differs", "a restored memory reports outstanding events"); return o; }
        } else {
            Ctx cr{o, *crash, full};
            if (!cb.step(e) || !cr.step(e) || !cc.step(e)) return o;
            if (e.ev == Ev::CMD) rc.tryApply(e);
        }
        o.states.insert(rc.stateHash());
    }
    for (u64 x : {0, 1, 3, 20, 500}) { last += x; if (!same(last, "end")) return o; }
    o.count["probe.runsWithRestore"] += restored; o.simTime = last; return o;
}
Register c01({"C01", [](u64 s) { return ckptCase("C01", s, false); }, runC01, nullptr, 60000, 2500000});

// ---------------------------------------------------------------- C12
Outcome runC12(const Case& k) {
    Outcome o; bool full = k.p("full"); Rng r(k.seed ^ 0x1212);
    auto base = Sut::make(k.spec), vict = Sut::make(k.spec); Ctx cb{o, *base, full}, cv{o, *vict, full}; RefCore rc(k.spec); u64 last = 0;
    auto same = [&](u64 t, Sut& x, const char* who) {
        Snap a = base->stats(t), b = x.stats(t); a.mix(o);
        auto d = b.diff(a); if (!d.empty()) { o.fail("disturbed", std::string(who) + ", t=" + std::to_string(t) + ": " + d); return false; }
        if (base->last() != x.last()) { o.fail("disturbed", std::string(who) + ", t=" + std::to_string(t) + ": last command time"); return false; }
        return true;
    };
    std::string good; u64 goodT = 0; size_t opNo = 0; std::vector<std::pair<std::string, size_t>> shots;
    for (auto& e : k.ops) {
        probeOp(o, e); rc.advance(e.t); last = e.t; ++opNo;
        if (e.ev == Ev::QUERY) { if (!same(e.t, *vict, "run after a failed checkpoint")) return o; }
        else if (e.ev == Ev::CKPT) {
            if (e.a && !same(e.t, *vict, "before a checkpoint")) return o;
            if (!vict->serializable()) continue;
            std::stringstream m; vict->save(m); good = m.str(); goodT = e.t;
            if (!m || good.empty()) { o.fail("save-refused", "an intact medium was reported as failed"); return o; }
            o.mixin(good.size());
            // failing media while writing
            for (int n = 0; n < 6; ++n) {
                u64 at = n == 0 ? 0 : n == 1 ? good.size() - 1 : r.below(good.size()); auto kind = (FaultBuf::Kind)r.below(3);
                FaultBuf fb(kind, at, r.next()); std::ostream os(&fb); if (r.chance(20)) { try { os.exceptions(std::ios::badbit | std::ios::failbit); } catch (...) {} }
                bool reported = false;
                try { vict->save(os); os.flush(); reported = !os; } catch (const std::exception&) { reported = true; }
                o.count[std::string("fault.write.") + FaultBuf::name(kind)]++;
                if (!fb.fired) { o.fail("short-checkpoint", "a second checkpoint of the same memory is shorter: the fault at byte " + std::to_string(at) + " of " + std::to_string(good.size()) + " was never reached"); return o; }
                if (!reported) { o.fail("write-fault-hidden", std::string(FaultBuf::name(kind)) + " at byte " + std::to_string(at) + " of " + std::to_string(good.size()) + " while writing a checkpoint was not reported"); return o; }
            }
            { // failing allocation while writing
                std::stringstream os; u64 nth = r.below(6); bool threw = false;
                u64 fired; { FailAlloc fa(nth); try { vict->save(os); } catch (const std::exception&) { threw = true; } fired = fa.fired(); }
                o.count["fault.alloc.save"] += fired;
                if (fired && !threw && os) {                                       // swallowed: then the checkpoint must be complete all the same
                    auto x = base->fresh(); bool ok = true; try { x->load(os); ok = !!os; } catch (const std::exception&) { ok = false; }
                    if (!ok) { o.fail("write-fault-hidden", "a failed allocation while writing a checkpoint was not reported"); return o; }
                    if (!same(last, *x, "memory restored from a checkpoint written under allocation failure")) return o;
                }
            }
            // damaged checkpoints while reading
            for (int n = 0; n < 10; ++n) {
                u64 at = n == 0 ? 0 : n == 1 ? good.size() - 1 : n == 2 ? r.below(std::min<size_t>(good.size(), 64)) : r.below(good.size());
                auto kind = (ReadBuf::Kind)r.below(2);
                ReadBuf rb(kind, good, at, 1 + r.below(7)); std::istream is(&rb); if (r.chance(20)) is.exceptions(std::ios::badbit | std::ios::failbit);
                auto x = base->fresh(); bool reported = false;
                try { x->load(is); reported = !is; } catch (const std::exception&) { reported = true; }
                o.count[std::string("fault.read.") + ReadBuf::name(kind)]++;
                if (!reported) {
                    o.fail("damage-accepted", std::string(ReadBuf::name(kind)) + " at byte " + std::to_string(at) + " of " + std::to_string(good.size()) + ": restored without an error"); return o; }
            }
            { // short reads that deliver everything
                ReadBuf rb(ReadBuf::WHOLE, good, good.size(), 1 + r.below(5)); std::istream is(&rb);
                auto x = base->fresh(); bool ok = true; try { x->load(is); ok = !!is; } catch (const std::exception& q) { ok = false; }
                o.count["fault.read.pieces"]++;
                if (!ok) { o.fail("intact-refused", "an intact checkpoint delivered in pieces was refused"); return o; }
                Snap a = vict->stats(last), b = x->stats(last); auto d = b.diff(a); if (!d.empty()) { o.fail("intact-differs", "an intact checkpoint delivered in pieces: " + d); return o; }
            }
            { // failing allocation while reading: reported or harmless
                std::stringstream is(good); auto x = base->fresh(); bool reported = false; u64 fired;
                { FailAlloc fa(r.below(12)); try { x->load(is); reported = !is; } catch (const std::exception&) { reported = true; } fired = fa.fired(); }
                o.count["fault.alloc.load"] += fired;
                if (!reported) { Snap a = vict->stats(last), b = x->stats(last); auto d = b.diff(a); if (!d.empty()) { o.fail("damage-accepted", "a failed allocation while restoring was hidden: " + d); return o; } }
            }
            if (!same(e.t, *vict, "run after failed checkpoints")) return o;
        } else {
            if (!cb.step(e) || !cv.step(e)) return o;
            if (e.ev == Ev::CMD) rc.tryApply(e);
        }
        o.states.insert(rc.stateHash());
    }
    for (u64 x : {0, 1, 40}) { last += x; if (!same(last, *vict, "end, after failed checkpoints")) return o; }
    // every byte position of the last checkpoint (exhaustive when it is small, a random stretch otherwise)
    if (!good.empty()) {
        u64 span = k.p("span", 200), from = good.size() > span ? r.below(good.size() - span) : 0, to = std::min<u64>(good.size(), from + span);
        for (u64 at = from; at < to; ++at) {
            ReadBuf rb(ReadBuf::CUT, good, at, 4096); std::istream is(&rb); auto x = base->fresh(); bool reported = false;
            try { x->load(is); reported = !is; } catch (const std::exception&) { reported = true; }
            o.count["fault.read.cutSweep"]++;
            if (!reported) { o.fail("damage-accepted", "checkpoint cut at byte " + std::to_string(at) + " of " + std::to_string(good.size()) + " restored without an error"); return o; }
        }
    }
    (void)goodT; o.simTime = last; return o;
}
Register c12({"C12", [](u64 s) { return ckptCase("C12", s, true); }, runC12, nullptr, 12000, 300000});
}
