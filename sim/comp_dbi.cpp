// Component world: the inversion calculator, for both idle levels, unit sizes, with and without a known bus width,
// with the static and the transition-counting rule.
#include "comp.h"
#include <DRAMPower/util/dbi.h>
using namespace DRAMPower;
using util::PinState;
namespace {
// actions: 0 read burst, 1 write burst, 2 on, 3 off, 4 reset notification
void dbiGen(Case& k, Rng& r, bool ckpt) {
    u64 kind = r.below(6), sub = kind == 2 || kind == 3 ? 2 : 1; k.param["kind"] = kind; k.param["width"] = r.chance(75) ? 8 * sub * r.pick<u64>({1, 2, 2, 4}) : 0; k.param["on"] = r.chance(70);
    bool dynamic = kind >= 4; u64 w = k.p("width") ? k.p("width") : 16 * sub, bl = r.pick<u64>({4, 8, 16}); k.param["bl"] = bl;
    u64 t = r.below(3), n = r.pick<u64>({2, 6, 14}), freeAt = 0;
    for (u64 i = 0; i < n; ++i) {
        if (r.chance(50)) t = std::max(t, freeAt); else t = std::max(t, freeAt) + (r.chance(2) ? (1ull << (30 + r.below(10))) : 0) + r.below(r.pick<u64>({2, 6, 40}));
        u64 x = r.below(100);
        if (ckpt && x < 15) k.ops.push_back(evt(t, Ev::CKPT));
        else if (x < 26) k.ops.push_back(act(t, 2 + r.below(2)));
        else if (x < 32) k.ops.push_back(act(t, 4));
        else {
            u64 beats = dynamic ? r.pick<u64>({2, 4, 8}) : k.p("width") ? r.pick<u64>({1, 2, 4, 8, 16}) : bl; Op e = act(t, r.below(2)); e.bits = w * beats; int kd = (int)r.below(5); uint8_t c = (uint8_t)r.next();
            for (u64 j = 0; j < e.bits / 8; ++j) e.data.push_back(kd == 0 ? c : kd == 1 ? (r.chance(50) ? 0xFF : 0) : kd == 2 ? (uint8_t)(r.next() & r.next()) : kd == 3 ? (uint8_t)(r.chance(50) ? 0x0F : 0x1F) : (uint8_t)r.next());
            e.b = r.chance(6);                                                        // no payload
            k.ops.push_back(e); if (!e.b) freeAt = t + beats;
        }
    }
}
std::vector<Op> dbiNorm(const Case& k, const std::vector<Op>& v) { std::vector<Op> o; u64 f = 0, w = k.p("width"); for (auto& e : v) { if (e.t < f) continue; if (e.ev == Ev::META && e.a <= 1 && !e.b) f = e.t + (w ? e.bits / w : k.p("bl")); o.push_back(e); } return o; }
struct Note { u64 load, t, idx; bool inv, read; bool operator==(const Note& n) const { return load == n.load && t == n.t && idx == n.idx && inv == n.inv && read == n.read; } };
std::string txt(const std::vector<Note>& v) { std::ostringstream o; for (auto& n : v) o << " (" << n.load << "," << n.t << ",pin " << n.idx << "," << (n.inv ? "inverted" : "normal") << (n.read ? ",read)" : ",write)"); return o.str(); }
template <class DBI, size_t SUB, int RULE> void go(const Case& k, Outcome& o) {                // RULE: 0 idle low, 1 idle high, >1: threshold
    u64 w = k.p("width"), bl = k.p("bl"), unit = SUB * 8; bool on = k.p("on"), high = RULE == 1; std::vector<Note> notes;
    std::optional<std::size_t> ow; if (w) ow = w;
    auto cb = [&notes](timestamp_t l, timestamp_t t, std::size_t i, bool inv, bool rd) { notes.push_back({l, t, i, inv, rd}); };
    auto make = [&](bool en) { return std::make_unique<DBI>(ow, bl, cb, en); };
    auto d = make(on); struct Last { bool init = false; u64 end = 0, chunks = 0; std::vector<bool> inv; std::vector<uint8_t> beat; } last[2];
    for (auto& e : k.ops) {
        notes.clear();
        std::vector<Note> want;
        auto reset = [&](int dir) {
            auto& L = last[dir]; if (!L.init || e.t <= L.end) return;
            u64 per = w ? w / unit : L.chunks;
            for (u64 c = L.chunks - per; c < L.chunks; ++c) { if (L.inv[c]) want.push_back({L.end, L.end, w ? c % per : c, false, dir == 1}); L.inv[c] = false; }
        };
        if (e.ev == Ev::CKPT) { std::stringstream m; d->serialize(m); d = make(!on); d->deserialize(m); if (!m) { o.fail("restore-refused", "restoring an intact inversion calculator left the stream failed"); return; } }
        else if (e.ev != Ev::META) continue;
        else if (e.a == 2 || e.a == 3) { on = e.a == 2; d->enable(on); }
        else if (e.a == 4) { d->dispatchResetCallback(e.t); reset(1); reset(0); if (notes != want) { o.fail("inversion", "signals told to rest at t=" + std::to_string(e.t) + ":" + txt(notes) + ", expected" + txt(want)); return; } }
        else {
            int dir = e.a == 0; auto r = d->updateDBI(e.t, e.bits, e.b ? nullptr : e.data.data(), dir == 1);
            bool act = on && !e.b && e.bits; SAME(o, "inversion", "whether a burst at t=" + std::to_string(e.t) + " was treated", (int)r.has_value(), (int)act);
            if (act) {
                reset(dir); auto& L = last[dir]; u64 n = e.bits / unit, per = w ? w / unit : n, bytes = w / 8; std::vector<uint8_t> drv = e.data; std::vector<bool> inv(std::max<size_t>(n, L.inv.size()), false);
                for (size_t c = n; c < L.inv.size(); ++c) inv[c] = L.inv[c];
                for (u64 c = 0; c < n; ++c) {
                    u64 cost = 0, ones = 0;
                    for (u64 s = 0; s < SUB; ++s) {
                        u64 i = c * SUB + s; ones += __builtin_popcount(e.data[i]);
                        if (RULE > 1 && w) { uint8_t p = i >= bytes ? drv[i - bytes] : L.init && L.end == e.t ? L.beat[i] : 0; cost += __builtin_popcount(e.data[i] ^ p); }
                    }
                    bool x = RULE == 0 ? ones > unit - ones : RULE == 1 ? ones < unit - ones : cost > (u64)RULE;
                    inv[c] = x; if (x) for (u64 s = 0; s < SUB; ++s) drv[c * SUB + s] = ~e.data[c * SUB + s];
                    want.push_back({e.t, e.t + (w ? c / per : 0), c % per, x, dir == 1});
                    (x ? o.count["probe.invertedUnits"] : o.count["probe.normalUnits"])++;
                }
                if (notes != want) { o.fail("inversion", "signals of the burst at t=" + std::to_string(e.t) + ":" + txt(notes) + ", expected" + txt(want)); return; }
                for (size_t i = 0; i < drv.size(); ++i) SAME(o, "inversion", "driven byte " + std::to_string(i) + " of the burst at t=" + std::to_string(e.t), (u64)(*r)[i], (u64)drv[i]);
                L.init = true; L.end = e.t + (w ? e.bits / w : bl); L.chunks = n; L.inv = inv; if (w) L.beat.assign(drv.end() - bytes, drv.end());
            } else if (!notes.empty()) { o.fail("inversion", "signals moved without inversion:" + txt(notes)); return; }
        }
        SAME(o, "inversion", "whether inversion is on", (int)d->isEnabled(), (int)on);
        for (int dir = 0; dir < 2; ++dir) {
            auto& L = last[dir]; auto& g = dir ? d->getInversionStateRead() : d->getInversionStateWrite();
            SAME(o, "inversion", "number of inversion decisions", (u64)(dir ? d->getInversionSizeRead() : d->getInversionSizeWrite()), L.chunks * SUB);
            for (u64 c = 0; c < L.chunks; ++c) SAME(o, "inversion", "decision " + std::to_string(c) + " after t=" + std::to_string(e.t), (int)g[c], (int)L.inv[c]);
        }
        (void)high; o.states.insert(0x5A000000 + k.p("kind") * 16 + on * 2 + (w != 0));
    }
}
void dbiRun(const Case& k, Outcome& o) {
    using namespace util;
    switch (k.p("kind")) {
        case 0: go<DBI<uint8_t, 1, PinState::L, StaticDBI>, 1, 0>(k, o); break;
        case 1: go<DBI<uint8_t, 1, PinState::H, StaticDBI>, 1, 1>(k, o); break;
        case 2: go<DBI<uint8_t, 2, PinState::L, StaticDBI>, 2, 0>(k, o); break;
        case 3: go<DBI<uint8_t, 2, PinState::H, StaticDBI>, 2, 1>(k, o); break;
        default: go<DBI<uint8_t, 1, PinState::L, DynamicDBI<4>>, 1, 4>(k, o);
    }
}
AddWorld dbi_({"dbi", {"C09", "C01"}, dbiGen, dbiRun, dbiNorm});
}
