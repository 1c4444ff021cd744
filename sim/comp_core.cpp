// Component worlds: event queue, residency counters, command encoders.
#include "comp.h"
#include <DRAMPower/command/Pattern.h>
#include <DRAMPower/standards/lpddr6/LPDDR6Command.h>
#include <DRAMPower/standards/lpddr6/LPDDR6Pattern.h>
#include <DRAMPower/util/ImplicitCommandHandler.h>
#include <DRAMPower/util/PatternHandler.h>
#include <DRAMPower/util/cycle_stats.h>
using namespace DRAMPower;
namespace {
// ---------------------------------------------------------------- the queue of deferred events
struct Journal { std::vector<u64> ran; };
void queueGen(Case& k, Rng& r, bool) {
    u64 t = r.chance(10) ? (1ull << 40) : 0, n = r.pick<u64>({4, 12, 30, 60}), spread = r.pick<u64>({2, 4, 12, 1000});
    for (u64 i = 0; i < n; ++i) {
        t += r.chance(60) ? 0 : r.below(spread);
        u64 x = r.below(100);
        if (x < 60) { Op e = act(t, 0, r.below(spread)); e.bits = r.chance(8); e.inst = r.chance(15); k.ops.push_back(e); }       // bits: due before now
        else if (x < 90) { Op e = act(t, 1); e.inst = r.chance(20); k.ops.push_back(e); }
        else { Op e = evt(t, r.chance(50) ? Ev::COPY : Ev::MOVE); k.ops.push_back(e); }
    }
    k.ops.push_back(act(t + 2 * spread, 1));
}
// Two queues, one whose events receive the object they act on when they run and one whose events do not; a copy of
// the pair can be taken at any time and lives its own life.
void queueRun(const Case& k, Outcome& o) {
    struct Side {
        ImplicitCommandHandler<Journal> a; ImplicitCommandHandler<> b; Journal ja; std::shared_ptr<Journal> jb = std::make_shared<Journal>();
        std::vector<std::pair<u64, u64>> due; std::vector<u64> want; u64 lastA = 7, lastB = 7, last = 7, bBase = 0;
    };
    auto s0 = std::make_unique<Side>(); std::unique_ptr<Side> s1; u64 id = 0;
    auto sched = [&](Side& s, u64 d) {
        u64 me = ++id; auto jb = s.jb;
        s.a.addImplicitCommand(d, [me](Journal& j) { j.ran.push_back(me); });
        s.b.addImplicitCommand(d, [me, jb] { jb->ran.push_back(me); });
        auto p = s.due.begin(); while (p != s.due.end() && p->first <= d) ++p; s.due.insert(p, {d, me});
    };
    for (auto& e : k.ops) {
        Side& s = e.inst && s1 ? *s1 : *s0;
        if (e.ev == Ev::COPY || e.ev == Ev::MOVE) {
            auto c = std::make_unique<Side>();
            if (e.ev == Ev::COPY) { c->a = s0->a; c->ja = s0->ja; } else { c->a = std::move(s0->a); c->ja = std::move(s0->ja); }
            c->lastA = s0->lastA; c->due = s0->due; c->want = s0->want; c->last = s0->last;
            // the context-free queue's events belong to their original journal: both sides keep their own queue
            c->b = s0->b; c->jb = s0->jb; c->lastB = s0->lastB;
            if (e.ev == Ev::MOVE) { s0 = std::move(c); s1.reset(); o.count["event.componentMove"]++; }
            else { s1 = std::move(c); s1->bBase = 1; o.count["event.componentCopy"]++; }
        } else if (e.a == 0) sched(s, e.bits ? (e.t > e.b ? e.t - e.b : 0) : e.t + e.b);
        else {
            s.a.processImplicitCommandQueue(s.ja, e.t, s.lastA);
            std::vector<u64> before = s.jb->ran; s.b.processImplicitCommandQueue(e.t, s.lastB);
            std::vector<u64> now; while (!s.due.empty() && s.due.front().first <= e.t) { s.last = s.due.front().first; now.push_back(s.due.front().second); s.due.erase(s.due.begin()); }
            s.want.insert(s.want.end(), now.begin(), now.end());
            auto txt = [](const std::vector<u64>& v) { std::string x; for (u64 i : v) x += " " + std::to_string(i); return x.empty() ? std::string(" none") : x; };
            if (s.ja.ran != s.want) { o.fail("event-order", "at t=" + std::to_string(e.t) + " the events run so far are" + txt(s.ja.ran) + ", expected" + txt(s.want)); return; }
            std::vector<u64> got(s.jb->ran.begin() + before.size(), s.jb->ran.end());
            if (got != now) { o.fail("event-order", "at t=" + std::to_string(e.t) + " (no context) the events run are" + txt(got) + ", expected" + txt(now)); return; }
            SAME(o, "event-time", "last event time", s.lastA, s.last);
            SAME(o, "event-time", "last event time (no context)", s.lastB, s.last);
            for (u64 i : now) o.mixin(i);
        }
        for (Side* x : {s0.get(), s1.get()}) if (x) {
            SAME(o, "event-count", "number of outstanding events", (u64)x->a.implicitCommandCount(), (u64)x->due.size());
            SAME(o, "event-count", "number of outstanding events (no context)", (u64)x->b.implicitCommandCount(), (u64)x->due.size());
        }
        o.states.insert(0x51000000 + s0->due.size() * 64 + (s1 ? 1 + s1->due.size() : 0));
    }
}
AddWorld queue({"queue", {"C04", "C14"}, queueGen, queueRun, nullptr});

// ---------------------------------------------------------------- residency counters
void intervalGen(Case& k, Rng& r, bool ckpt) {
    u64 t = r.chance(10) ? (1ull << 33) + 1 : 0, n = r.pick<u64>({3, 8, 20, 40});
    for (u64 i = 0; i < n; ++i) {
        t += r.chance(40) ? 0 : r.chance(3) ? (1ull << (30 + r.below(20))) + r.below(9) : r.below(r.pick<u64>({3, 20, 100000}));
        u64 x = r.below(100);
        if (ckpt && x < 15) k.ops.push_back(evt(t, Ev::CKPT));
        else if (x < 22) k.ops.push_back(evt(t, Ev::COPY));
        else if (x < 45) k.ops.push_back(evt(t, Ev::QUERY));
        else k.ops.push_back(act(t, r.below(5), r.below(50)));
    }
    k.ops.push_back(evt(t + r.below(5), Ev::QUERY));
    k.param["initial"] = r.chance(25) ? 1 + k.ops.front().t : 0;
}
void intervalRun(const Case& k, Outcome& o) {
    using I = util::interval_counter<uint64_t>;
    u64 init = k.p("initial"); auto c = init ? std::make_unique<I>(init - 1) : std::make_unique<I>();
    bool open = init, closed = false; u64 start = init ? init - 1 : 0, sum = 0;
    for (auto& e : k.ops) {
        if (e.ev == Ev::CKPT) { std::stringstream m; c->serialize(m); c = std::make_unique<I>(); c->deserialize(m); if (!m) { o.fail("restore-refused", "restoring an intact counter left the stream failed"); return; } }
        else if (e.ev == Ev::COPY) { auto d = std::make_unique<I>(*c); c->add(1000); c->start_interval(e.t); c = std::move(d); }
        else if (e.ev == Ev::META) switch (e.a) {
            case 0: c->start_interval(e.t); open = true; closed = false; start = e.t; break;
            case 1: c->start_interval_if_not_running(e.t); if (!open) { open = true; closed = false; start = e.t; } break;
            case 2: { u64 want = open ? e.t - start : 0; SAME(o, "interval", "the closed interval at t=" + std::to_string(e.t), (u64)c->close_interval(e.t), want); if (open) { sum += want; open = false; closed = true; } break; }
            case 3: c->reset_interval(); open = closed = false; break;
            default: c->add(e.b); sum += e.b;
        }
        SAME(o, "interval", "whether the interval is open", (int)c->is_open(), (int)open);
        SAME(o, "interval", "whether the interval is closed", (int)c->is_closed(), (int)closed);
        SAME(o, "interval", "the closed time", (u64)c->get_count(), sum);
        if (open || closed) SAME(o, "interval", "the interval start", (u64)c->get_start(), start);
        SAME(o, "interval", "the time accounted for at t=" + std::to_string(e.t), (u64)c->get_count_at(e.t), sum + (open ? e.t - start : 0));
        o.states.insert(0x52000000 + open * 2 + closed);
    }
}
std::vector<Op> intervalNorm(const Case& k, const std::vector<Op>& v) { auto w = v; u64 i = k.p("initial"); w.erase(std::remove_if(w.begin(), w.end(), [&](const Op& e) { return i && e.t + 1 < i; }), w.end()); return w; }
AddWorld interval({"interval", {"C03", "C01"}, intervalGen, intervalRun, intervalNorm});

// ---------------------------------------------------------------- command encoders
namespace D = pattern_descriptor;
using Spec_ = PatternEncoderBitSpec;
const std::vector<D::t> kFree = {D::V, D::X, D::AP, D::BL, D::CID0, D::CID1, D::CID2, D::CID3, D::C0, D::C1, D::C2, D::C3, D::C4, D::C10};
int freeDefault(D::t d) { return d == D::BL || (d >= D::CID0 && d <= D::CID3); }
bool isFree(D::t d) { return std::find(kFree.begin(), kFree.end(), d) != kFree.end(); }
bool refBit(D::t d, const Op& c, const std::map<int, int>& ov, bool last) {
    auto bit = [](u64 v, int n) { return n < 32 && ((v >> n) & 1); };
    bool v = false;
    if (d == D::H) return true; if (d == D::L) return false;
    if (d >= D::BG0 && d <= D::BG2) v = bit(c.bg, d - D::BG0);
    else if (d >= D::BA0 && d <= D::BA8) v = bit(c.bank, d - D::BA0);
    else if (d >= D::C0 && d <= D::C16) v = bit(c.col, d - D::C0);
    else if (d >= D::R0 && d <= D::R23) v = bit(c.row, d - D::R0);
    else v = freeDefault(d);
    if (isFree(d)) { auto i = ov.find(d); if (i != ov.end()) switch (i->second) { case 0: return false; case 1: return true; case 2: return last; default: break; } }
    return v;
}
D::t anyDesc(Rng& r) {
    switch (r.below(8)) {
        case 0: return r.chance(50) ? D::H : D::L;
        case 1: case 2: return r.pick(kFree);
        case 3: return (D::t)(D::BG0 + r.below(3));
        case 4: return (D::t)(D::BA0 + r.below(9));
        case 5: return (D::t)(D::C0 + r.below(17));
        default: return (D::t)(D::R0 + r.below(24));
    }
}
void coord(Op& e, Rng& r) { e.bank = r.below(512); e.bg = r.below(8); e.rank = r.below(4); e.row = r.chance(30) ? r.below(1ull << 24) : r.below(1 << 18); e.col = r.below(1 << 17); if (r.chance(10)) e.row = ~0ull >> 40; }
// actions: 0 encode a registered command, 1 encode a free-standing pattern, 2 register a pattern, 3 set an override,
// 4 remove an override. Patterns travel in the payload bytes.
void patternGen(Case& k, Rng& r, bool ckpt) {
    u64 t = 0, n = r.pick<u64>({4, 10, 25}); k.param["init"] = r.chance(50) ? 0 : r.next() >> r.below(64);
    u64 w = r.pick<u64>({1, 4, 7, 14, 24, 48, 63, 64});
    auto pat = [&](Op& e) { u64 len = r.chance(80) ? w : 1 + r.below(64); for (u64 i = 0; i < len; ++i) e.data.push_back((uint8_t)anyDesc(r)); };
    auto over = [&] { Op e = act(t, 3, r.pick(kFree)); e.bits = r.below(3); if (r.chance(5)) e.bits = 9; return e; };
    if (r.chance(70)) for (u64 i = r.below(6); i--;) { Op e = over(); k.ops.push_back(e); }
    for (u64 i = 0; i < 4; ++i) if (r.chance(90)) { Op e = act(t, 2, i); pat(e); k.ops.push_back(e); }
    for (u64 i = 0; i < n; ++i) {
        t += r.below(5); u64 x = r.below(100);
        if (ckpt && x < 12) k.ops.push_back(evt(t, Ev::CKPT));
        else if (x < 60) { Op e = act(t, 0, r.below(5)); coord(e, r); k.ops.push_back(e); }
        else if (x < 75) { Op e = act(t, 1); coord(e, r); if (!r.chance(5)) pat(e); k.ops.push_back(e); }
        else if (x < 82) { Op e = act(t, 2, r.below(4)); pat(e); k.ops.push_back(e); }
        else if (x < 92) k.ops.push_back(over());
        else k.ops.push_back(act(t, 4, r.pick(kFree)));
    }
}
void patternRun(const Case& k, Outcome& o) {
    using H = PatternHandler<CmdType>;
    const CmdType kind[] = {CmdType::ACT, CmdType::RD, CmdType::PREA, CmdType::NOP, CmdType::SREFEX};
    std::vector<uint8_t> reg[5]; std::map<int, int> ov; u64 last = k.p("init");
    auto h = std::make_unique<H>(PatternEncoderOverrides{}, last);
    auto conv = [](const std::vector<uint8_t>& v) { std::vector<D::t> p; for (auto b : v) p.push_back((D::t)b); return p; };
    auto put = [&](H& x, u64 i) { auto p = conv(reg[i]); switch (i) { case 0: x.registerPattern<CmdType::ACT>(p); break; case 1: x.registerPattern<CmdType::RD>(p); break; case 2: x.registerPattern<CmdType::PREA>(p); break; default: x.registerPattern<CmdType::NOP>(p); } };
    auto expect = [&](const std::vector<uint8_t>& p, const Op& c) { u64 v = 0; for (size_t i = 0; i < p.size(); ++i) { u64 n = p.size() - 1 - i; if (refBit((D::t)p[i], c, ov, (last >> n) & 1)) v |= 1ull << n; } return v; };
    for (auto& e : k.ops) {
        TargetCoordinate c(e.bank, e.bg, e.rank, e.row, e.col);
        if (e.ev == Ev::CKPT) {
            std::stringstream m; h->serialize(m); auto n = std::make_unique<H>(PatternEncoderOverrides{{D::V, Spec_::H}, {D::C3, Spec_::L}}, ~last);
            for (u64 i = 0; i < 4; ++i) put(*n, i);
            n->deserialize(m); if (!m) { o.fail("restore-refused", "restoring an intact encoder left the stream failed"); return; }
            h = std::move(n);
        } else if (e.ev != Ev::META) continue;
        else if (e.a <= 1) {
            const auto& p = e.a == 0 ? reg[e.b] : e.data; bool threw = false; u64 got = 0;
            try { got = e.a == 0 ? h->getCommandPattern(kind[e.b], c) : h->getCoordinatePattern(c, conv(p)); } catch (const std::exception&) { threw = true; }
            if (threw != p.empty()) { o.fail("encoder", threw ? "encoding a registered command raised an error" : "encoding a command without a pattern was accepted"); return; }
            if (!threw) {
                u64 want = expect(p, e);
                if (got != want) { std::ostringstream x; x << "encoding with " << p.size() << " bits is 0x" << std::hex << got << ", expected 0x" << want << " (previous 0x" << last << ")"; o.fail("encoder", x.str()); return; }
                o.mixin(got); last = want; o.count["probe.encodings"]++;
            }
        } else if (e.a == 2) { reg[e.b] = e.data; put(*h, e.b); }
        else if (e.a == 3) { auto b = e.bits == 9 ? Spec_::INVALID : (Spec_)e.bits; h->getEncoder().settings.updateSettings({{(D::t)e.b, b}}); ov[(int)e.b] = e.bits == 9 ? -1 : (int)e.bits; }
        else { bool had = ov.erase((int)e.b); SAME(o, "encoder", "whether an override was removed", (int)h->getEncoder().settings.removeSetting((D::t)e.b), (int)had); }
        for (auto d : kFree) {
            auto i = ov.find(d);
            SAME(o, "encoder", "whether descriptor " + std::to_string((int)d) + " is overridden", (int)h->getEncoder().settings.hasSetting(d), (int)(i != ov.end()));
            SAME(o, "encoder", "the override of descriptor " + std::to_string((int)d), (int)h->getEncoder().settings.getSetting(d), i == ov.end() ? -1 : i->second);
        }
        o.states.insert(0x53000000 + ov.size());
    }
}
AddWorld pattern({"encoder", {"C07", "C01"}, patternGen, patternRun, nullptr});

// LPDDR6 has an encoder of its own.
namespace E6 = pattern_descriptor_LPDDR6;
void encoder6Gen(Case& k, Rng& r, bool ckpt) {
    u64 t = 0, n = r.pick<u64>({4, 10, 25});
    for (u64 i = 0; i < n; ++i) {
        t += r.below(5);
        if (ckpt && r.chance(15)) { k.ops.push_back(evt(t, Ev::CKPT)); continue; }
        if (r.chance(20)) { k.ops.push_back(act(t, 1, r.pick<u64>({24, 48}))); continue; }
        Op e = act(t, 0); u64 len = r.pick<u64>({4, 8, 16, 16, 32}); 
        for (u64 j = 0; j < len; ++j) e.data.push_back((uint8_t)r.below((u64)E6::PAR));
        e.bank = r.below(4) + 4 * r.below(4); e.bg = r.below(4); e.row = r.below(1 << 18); e.col = r.below(1 << 7); e.bits = r.below(4); e.inst = r.below(2); e.b = r.chance(50);
        k.ops.push_back(e);
    }
}
void encoder6Run(const Case& k, Outcome& o) {
    using H = PatternHandler<CmdType, E6::t, LPDDR6TargetCoordinate, LPDDR6Encoder, LPDDR6PatternExtraData>;
    auto make = [] { return std::make_unique<H>(BasePatternEncoderOverrides<E6::t>{}, 0); };
    auto h = make(); u64 bl = 24; h->getEncoder().getExtraData().currentBurstLength = bl; h->getEncoder().getExtraData().numberOfBankGroups = 4;
    for (auto& e : k.ops) {
        if (e.ev == Ev::CKPT) { std::stringstream m; h->serialize(m); h = make(); h->getEncoder().getExtraData().numberOfBankGroups = 4; h->deserialize(m); if (!m) { o.fail("restore-refused", "restoring an intact encoder left the stream failed"); return; } continue; }
        if (e.ev != Ev::META) continue;
        if (e.a == 1) { bl = e.b; h->getEncoder().getExtraData().currentBurstLength = bl; continue; }
        if (e.data.empty()) continue;
        // either an explicit target or one converted from a plain coordinate
        LPDDR6TargetCoordinate c; u64 db = e.bits * 4, sc = e.inst;
        if (e.b) { u64 bank = (e.bits * 4 + 8) % 16; TargetCoordinate p(bank, e.bg, 0, e.row, e.col); c = LPDDR6TargetCoordinate(p); db = (bank + 8) % 16; sc = 0; }
        else { c.bank = e.bank; c.dbank = db; c.bankGroup = e.bg; c.row = e.row; c.column = e.col; c.subChannel = sc; }
        u64 bank = e.b ? (e.bits * 4 + 8) % 16 : e.bank;
        std::vector<E6::t> p; for (auto b : e.data) p.push_back((E6::t)b);
        u64 want = 0;
        for (size_t i = 0; i < p.size(); ++i) {
            auto d = p[i]; bool v = false; auto bit = [](u64 x, int n) { return (x >> n) & 1; };
            if (d == E6::H) v = true;
            else if (d == E6::BG0 || d == E6::BG1) v = bit(e.bg, d - E6::BG0);
            else if (d == E6::DBG0 || d == E6::DBG1) v = bit(db / 4, d - E6::DBG0);
            else if (d == E6::BA0 || d == E6::BA1) v = bit(bank, d - E6::BA0);
            else if (d >= E6::C0 && d <= E6::C5) v = d == E6::C0 && bl != 24 ? false : bit(e.col, d - E6::C0);
            else if (d >= E6::R0 && d <= E6::R16) v = bit(e.row, d - E6::R0);
            else if (d == E6::BL) v = bl == 24;
            else if (d == E6::SC) v = sc == 1;
            if (v) want |= 1ull << (p.size() - 1 - i);
        }
        u64 got = h->getEncoder().encode(c, p, 0);
        if (got != want) { std::ostringstream x; x << "LPDDR6 encoding is 0x" << std::hex << got << ", expected 0x" << want; o.fail("encoder", x.str()); return; }
        o.mixin(got); o.count["probe.encodings"]++; o.states.insert(0x54000000 + bl);
    }
}
AddWorld encoder6({"encoder6", {"C07", "C01"}, encoder6Gen, encoder6Run, nullptr});
}
