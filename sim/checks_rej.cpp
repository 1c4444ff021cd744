// C15: commands the memory must refuse, injected anywhere in legal histories; the run goes on as if they had never been issued.
#include "check.h"
#include "sut.h"

namespace {
enum Via { BOTH, CORE, IFACE };
enum Kind { MUST_THROW, UNSUPPORTED, SWITCH };
bool bankLevel(CmdType c) {
    switch (c) { case CmdType::ACT: case CmdType::PRE: case CmdType::RD: case CmdType::RDA: case CmdType::WR: case CmdType::WRA: case CmdType::PRESB: case CmdType::REFSB: case CmdType::REFB: case CmdType::REFP2B: case CmdType::REFDB: return true; default: return false; }
}
bool known(const Spec& s, CmdType c) {                         // the standard has this command, perhaps not with this bank architecture
    if (c == CmdType::REFP2B) return s.std_ == Std::LPDDR5;
    if (c == CmdType::NOP) return true;
    return RefCore(s).supports(c);
}
const char* kindName(const Spec& s, const Op& e) {
    if (e.b == SWITCH) return "refusedSwitch";
    if (e.b == UNSUPPORTED) return "unsupportedCommand";
    if (e.cmd == CmdType::REFP2B && s.banks() != 16) return "refreshKindOfOtherArchitecture";
    if (e.inst && e.rank < s.ranks()) return "missingSecondBank";
    return e.rank >= s.ranks() ? "missingRank" : "missingBank";
}
Outcome runC15(const Case& k) {
    Outcome o; auto a = Sut::make(k.spec), b = Sut::make(k.spec); RefCore rc(k.spec);
    bool timeComparable = true, freshCopy = k.p("copy"); u64 n = 0;
    auto look = [&](u64 t) {
        Snap x = a->stats(t), y = b->stats(t); auto d = x.diff(y);
        if (!d.empty()) { o.fail("had-effect", "at t=" + std::to_string(t) + ", with the refused commands vs without: " + d); return false; }
        Ener ex = a->energy(t), ey = b->energy(t); d = ex.diff(ey);
        if (!d.empty()) { o.fail("had-effect", "at t=" + std::to_string(t) + ", energy with the refused commands vs without: " + d); return false; }
        if (a->dbiEnabled() != b->dbiEnabled()) { o.fail("had-effect", "inversion switched by a refused request"); return false; }
        x.mix(o); return true;
    };
    for (auto& e : k.ops) {
        probeOp(o, e);
        if (e.ev == Ev::REJ) {
            o.count[std::string("fault.rejected.") + kindName(k.spec, e)]++; ++n;
            if (e.a == CORE) o.count["fault.rejected.coreOnly"]++; if (e.a == IFACE) o.count["fault.rejected.interfaceOnly"]++;
            if (e.t > rc.now) o.count["fault.rejected.future"]++; if (e.t < rc.now) o.count["fault.rejected.past"]++;
            if (rc.q.size()) o.count["fault.rejected.withDeferredEventsOutstanding"]++;
            bool ser = a->serializable(); u64 last = a->last(); bool threw = false; std::string what;
            try {
                if (e.b == SWITCH) { if (a->dbi(e.t, true)) { o.fail("accepted", "an inversion switch the memory does not support was accepted"); return o; } threw = true; }
                else if (e.a == CORE) a->core(e); else if (e.a == IFACE) a->iface(e); else a->cmd(e);
            } catch (const std::exception& x) { threw = true; what = x.what(); }
            if (!threw && e.b == MUST_THROW) { o.fail("accepted", opStr(e) + " was accepted (" + std::to_string(k.spec.ranks()) + " ranks of " + std::to_string(k.spec.banks()) + " banks)"); return o; }
            if (threw && (a->serializable() != ser || a->last() != last)) { o.fail("had-effect", "refused: " + opStr(e) + "; last command time " + std::to_string(last) + " became " + std::to_string(a->last()) + ", checkpointable " + std::to_string(ser) + " became " + std::to_string(a->serializable())); return o; }
            if (!threw) timeComparable = false;
            continue;
        }
        rc.advance(e.t);
        if (e.ev == Ev::QUERY) { if (!look(e.t)) return o; }
        else if (e.ev == Ev::CKPT) {
            if (!look(e.t)) return o;                            // brings deferred effects up to date
            if (a->serializable() != b->serializable()) { o.fail("had-effect", "at t=" + std::to_string(e.t) + ": only one of the memories with and without refused commands can be checkpointed"); return o; }
            if (!a->serializable()) continue;
            std::stringstream st; a->save(st); auto f = a->fresh(); f->load(st);
            a = std::move(f); o.count["fault.restart"]++;
        } else {
            Ctx x{o, *a, true}, y{o, *b, true}; if (!x.step(e) || !y.step(e)) return o;
            if (e.ev == Ev::CMD) rc.tryApply(e);
        }
        if (timeComparable && e.ev == Ev::CMD && a->last() != b->last()) { o.fail("had-effect", "last command time " + std::to_string(a->last()) + ", without the refused commands " + std::to_string(b->last())); return o; }
        o.states.insert(rc.stateHash() * 31 + n);
    }
    if (freshCopy) { a = a->copy(); }
    u64 t = rc.now; for (u64 d : {0, 1, 40, 3000}) { t += d; if (!look(t)) return o; }
    o.simTime = t; return o;
}
Op refused(Rng& r, const Spec& s, u64 now) {
    Op e; e.ev = Ev::REJ; e.t = now; e.a = r.pick<u64>({0, 0, 0, 1}); e.b = MUST_THROW;
    u64 tk = r.below(100); if (tk < 20) e.t = now + r.range(1, 5000); else if (tk < 30) e.t = r.below(now + 1); else if (tk < 34) e.t = now + (1ull << r.range(20, 58));
    std::vector<CmdType> kn, un; for (int i = 0; i < (int)CmdType::END_OF_SIMULATION; ++i) (known(s, (CmdType)i) ? kn : un).push_back((CmdType)i);
    auto payload = [&] { if (isData(e.cmd) && r.chance(80)) { u64 bl = r.pick(burstLengths(s)); e.bits = payloadBits(s, bl); e.data.resize((e.bits + 7) / 8); for (auto& x : e.data) x = (uint8_t)r.next(); } };
    e.rank = r.below(s.ranks()); e.bank = r.below(s.banks()); e.row = r.below(1 << 14); e.col = r.below(1 << 8);
    u64 kind = r.below(100); static const std::vector<u64> far{0, 0, 1, 2, 7, 1000, ~0ull >> 1};
    if (kind < 12 && s.std_ == Std::DDR4 && s.width() == 4) { e.b = SWITCH; return e; }
    if (kind < 25 && s.std_ == Std::LPDDR5 && s.banks() != 16) { e.cmd = CmdType::REFP2B; e.a = r.below(3); }
    else if (kind < 25 && s.std_ == Std::LPDDR6) { e.cmd = CmdType::REFDB; e.inst = 1 + s.banks() + r.pick(far); }      // a second bank that does not exist
    else if (kind < 35 && !un.empty()) { e.cmd = r.pick(un); e.b = UNSUPPORTED; e.t = now; e.a = r.below(3); }
    else if (kind < 70) { do e.cmd = r.pick(kn); while (e.cmd == CmdType::NOP); e.rank = s.ranks() + r.pick(far); if (s.std_ == Std::DDR4 && isData(e.cmd)) e.a = r.below(3); }
    else { do e.cmd = r.pick(kn); while (!bankLevel(e.cmd)); e.bank = s.banks() + r.pick(far); }
    if (e.rank == ~0ull >> 1 && r.chance(50)) e.rank = ~0ull;
    e.bg = e.bank / s.perGroup(); payload(); return e;
}
Case genC15(u64 seed) {
    Rng r(seed); Case k; k.prop = "C15"; k.seed = seed; k.spec = randomSpec(r, r.pick(allStds()), SpecOpt{2, true});
    GenOpt g; g.strict = r.chance(50); g.ops = r.pick<u64>({5, 10, 20, 40}); g.query = r.chance(60); g.dbi = r.chance(60); g.meta = true; g.ckpt = r.chance(40); g.dataHeavy = r.chance(40); g.end = r.chance(70); g.sloppy = r.chance(25);
    k.param["full"] = 1; k.param["sloppy"] = g.sloppy; k.param["strict"] = g.strict; k.param["copy"] = r.chance(20);
    Gen gen(r, k.spec, g); auto h = gen.history(); u64 dens = r.pick<u64>({10, 30, 60}); u64 now = 0;
    for (auto& e : h) {
        while (r.chance(dens)) k.ops.push_back(refused(r, k.spec, r.chance(50) ? now : r.range(now, e.t)));
        k.ops.push_back(e); now = e.t; if (e.ev == Ev::CMD && e.cmd == CmdType::END_OF_SIMULATION) dens = 0;
    }
    if (dens && r.chance(50)) k.ops.push_back(refused(r, k.spec, now));
    return k;
}
Register c15({"C15", genC15, runC15, nullptr, 60000, 3000000});
}
