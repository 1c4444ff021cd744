// Component worlds: buses, pins, clocks, the toggling-rate estimate and the data bus that switches between both.
#include "comp.h"
#include <DRAMPower/dram/Interface.h>
#include <DRAMPower/util/bus.h>
#include <DRAMPower/util/clock.h>
#include <DRAMPower/util/databus_presets.h>
#include <DRAMPower/util/pin.h>
using namespace DRAMPower;
using util::bus_stats_t;
namespace {
using Five = std::array<u64, 5>;                            // ones, zeroes, changes, 1->0, 0->1
Five five(const bus_stats_t& s) { return {s.ones, s.zeroes, s.bit_changes, s.ones_to_zeroes, s.zeroes_to_ones}; }
const char* five_(int i) { static const char* n[] = {"ones", "zeroes", "bit_changes", "ones_to_zeroes", "zeroes_to_ones"}; return n[i]; }
bool cmp5(Outcome& o, const char* cls, const std::string& who, u64 t, const Five& g, const Five& w) {
    for (int i = 0; i < 5; ++i) { o.mixin(g[i]); if (g[i] != w[i]) { o.fail(cls, who + "." + five_(i) + " at t=" + std::to_string(t) + " is " + std::to_string(g[i]) + ", expected " + std::to_string(w[i])); return false; } }
    return true;
}
template <class T> bool reload(Outcome& o, T& from, T& into) { std::stringstream m; from.serialize(m); into.deserialize(m); if (!m) { o.fail("restore-refused", "restoring an intact component left the stream failed"); return false; } return true; }

// A bus as a list of driven bursts and switched-off spans; counts are recomputed beat by beat for every question.
struct RefBus {
    u64 width, rate; bool idle; 
    struct B { u64 start; std::vector<std::vector<bool>> beats; };
    std::vector<B> bursts; std::vector<std::pair<u64, u64>> off;           // [from,to) in beats; to = ~0 while off
    bool on() const { return off.empty() || off.back().second != ~0ull; }
    u64 end() const { return bursts.empty() ? 0 : bursts.back().start + bursts.back().beats.size(); }
    Five at(u64 t) const {
        u64 T = t * rate; Five f{};
        const std::vector<bool> rest(width, idle); std::vector<bool> prev = rest;
        auto count = [&](const std::vector<bool>& v) { for (u64 i = 0; i < width; ++i) { f[v[i] ? 0 : 1]++; if (v[i] != prev[i]) { f[2]++; f[prev[i] ? 3 : 4]++; } } prev = v; };
        auto idleFor = [&](u64 a, u64 b) { if (b <= a) return; count(rest); f[idle ? 0 : 1] += (b - a - 1) * width; };
        auto span = [&](u64 a, u64 b) {                                      // driven from a to b, at rest before
            b = std::min(b, T); prev = rest; u64 pos = a;
            for (auto& x : bursts) { if (x.start < a) continue; if (x.start >= b) break; idleFor(pos, x.start); pos = x.start; for (auto& v : x.beats) { if (pos >= b) break; count(v); ++pos; } }
            idleFor(pos, b);
        };
        u64 pos = 0; for (auto& [x, y] : off) { if (pos < std::min(x, T)) span(pos, x); pos = y; }
        if (pos < T) span(pos, T);
        return f;
    }
};
std::vector<std::vector<bool>> beatsOf(const std::vector<uint8_t>& d, u64 bits, u64 width) {
    std::vector<std::vector<bool>> v; u64 n = bits / width;
    // the bus plays the payload back to front
    for (u64 i = 0; i < n; ++i) { std::vector<bool> b(width); for (u64 j = 0; j < width; ++j) { u64 p = (n - 1 - i) * width + j; b[j] = (d[p / 8] >> (p % 8)) & 1; } v.push_back(b); }
    return v;
}
void fillData(Op& e, Rng& r, u64 bits, int kind) {
    e.bits = bits; e.data.resize((bits + 7) / 8);
    for (auto& b : e.data) b = (uint8_t)(kind == 0 ? 0 : kind == 1 ? 0xFF : kind == 2 ? 0xA5 : kind == 3 ? r.next() & r.next() : r.next());
}
// actions: 0 load payload, 1 load a word, 2 switch off, 3 switch on
void busGen(Case& k, Rng& r, bool ckpt) {
    u64 width = r.chance(70) ? 1 + r.below(32) : r.pick<u64>({1, 7, 14, 18, 27, 32, 33, 63, 64, 65, 128, 200, 256}), rate = r.pick<u64>({1, 1, 2, 2, 4});
    k.param["width"] = width; k.param["rate"] = rate; k.param["idle"] = r.below(2); k.param["switch"] = r.chance(25);
    u64 t = r.chance(60) ? 0 : r.below(5), n = r.pick<u64>({2, 6, 14, 30}), freeAt = 0; bool on = true; u64 offAt = 0;
    if (r.chance(4)) t = (1ull << 40) + 3;
    for (u64 i = 0; i < n; ++i) {
        if (r.chance(40)) t = std::max(t, freeAt); else t += r.chance(2) ? (1ull << (30 + r.below(10))) + r.below(9) : r.below(r.pick<u64>({2, 6, 40}));
        u64 x = r.below(100);
        if (ckpt && x < 14) k.ops.push_back(evt(t, Ev::CKPT));
        else if (x < 45) k.ops.push_back(evt(t, Ev::QUERY));
        else if (k.p("switch") && x < 60) {
            if (on && (t > freeAt || r.chance(50))) { k.ops.push_back(act(t, 2)); on = false; offAt = t; freeAt = 0; }
            else if (!on && t > offAt) { k.ops.push_back(act(t, 3)); on = true; freeAt = t; }
        } else {
            t = std::max(t, freeAt); Op e = act(t, 0); u64 len = r.pick<u64>({1, 2, 4, 8, 16}); if (rate > 1) len = (len + rate - 1) / rate * rate;
            if (width * len <= 64 && r.chance(30)) e.a = 1;
            fillData(e, r, width * len, r.below(6)); k.ops.push_back(e); if (on) freeAt = t + len / rate;
        }
    }
    k.ops.push_back(evt(std::max(t, freeAt) + r.below(9), Ev::QUERY));
}
std::vector<Op> busNorm(const Case& k, const std::vector<Op>& v) {
    std::vector<Op> o; u64 freeAt = 0, offAt = 0, w = std::max<u64>(1, k.p("width")), rate = std::max<u64>(1, k.p("rate")); bool on = true;
    for (auto& e : v) {
        if (e.ev == Ev::META) {
            if (e.a <= 1) { if (on && e.t < freeAt) continue; if (on) freeAt = e.t + e.bits / w / rate; }
            else if (e.a == 2) { if (!on) continue; on = false; offAt = e.t; freeAt = 0; }
            else { if (on || e.t <= offAt) continue; on = true; freeAt = e.t; }
        }
        o.push_back(e);
    }
    return o;
}
template <size_t N> void busRunN(const Case& k, Outcome& o) {
    using B = util::Bus<N>; u64 w = k.p("width"), rate = k.p("rate"); bool idle = k.p("idle");
    auto make = [&] { return std::make_unique<B>(w, rate, idle ? util::BusIdlePatternSpec::H : util::BusIdlePatternSpec::L); };
    auto b = make(); RefBus ref{w, rate, idle, {}, {}};
    for (auto& e : k.ops) {
        if (e.ev == Ev::CKPT) { auto n = make(); if (!reload(o, *b, *n)) return; b = std::move(n); }
        else if (e.ev == Ev::QUERY) { if (!cmp5(o, "bus", "bus", e.t, five(b->get_stats(e.t)), ref.at(e.t))) return; o.count["probe.componentObservations"]++; }
        else if (e.a == 0) { b->load(e.t, e.data.data(), e.bits); if (ref.on()) ref.bursts.push_back({e.t * rate, beatsOf(e.data, e.bits, w)}); }
        else if (e.a == 1) { u64 x = 0; for (size_t i = 0; i < e.data.size(); ++i) x |= (u64)e.data[i] << (8 * i); b->load(e.t, x, e.bits / w); if (ref.on()) ref.bursts.push_back({e.t * rate, beatsOf(e.data, e.bits, w)}); }
        else if (e.a == 2) { b->disable(e.t); ref.off.push_back({e.t * rate, ~0ull}); }
        else { b->enable(e.t); ref.off.back().second = e.t * rate; }
        o.states.insert(0x55000000 + w * 64 + rate * 4 + idle * 2 + ref.on());
    }
}
void busRun(const Case& k, Outcome& o) { u64 w = k.p("width"); if (w <= 32) busRunN<32>(k, o); else if (w <= 64) busRunN<64>(k, o); else busRunN<256>(k, o); }
AddWorld bus({"bus", {"C07", "C08", "C01"}, busGen, busRun, busNorm});

// ---------------------------------------------------------------- clocks
void clockGen(Case& k, Rng& r, bool ckpt) {
    k.param["rate"] = r.pick<u64>({2, 2, 4, 8}); k.param["stopped"] = r.chance(30);
    u64 t = r.below(4), n = r.pick<u64>({2, 6, 20}); if (r.chance(5)) t += 1ull << 40;
    for (u64 i = 0; i < n; ++i) { t += r.chance(3) ? (1ull << (30 + r.below(10))) + r.below(9) : r.below(r.pick<u64>({2, 9, 5000})); u64 x = r.below(100); k.ops.push_back(ckpt && x < 20 ? evt(t, Ev::CKPT) : x < 55 ? evt(t, Ev::QUERY) : act(t, 0)); }
    k.ops.push_back(evt(t + r.below(9), Ev::QUERY));
}
void clockRun(const Case& k, Outcome& o) {
    u64 rate = k.p("rate"), sum = 0, start = 0; bool on = !k.p("stopped");
    auto c = std::make_unique<util::Clock>(rate, !on);
    for (auto& e : k.ops) {
        if (e.ev == Ev::CKPT) { auto n = std::make_unique<util::Clock>(rate, on); if (!reload(o, *c, *n)) return; c = std::move(n); }
        else if (e.ev == Ev::QUERY) { u64 h = (sum + (on ? e.t - start : 0)) * rate / 2; if (!cmp5(o, "clock", "clock", e.t, five(c->get_stats_at(e.t)), {h, h, 2 * h, h, h})) return; o.count["probe.componentObservations"]++; }
        else if (!on) { c->start(e.t); start = e.t; on = true; }
        else if (e.t > start) { c->stop(e.t); sum += e.t - start; on = false; }
        o.states.insert(0x56000000 + on);
    }
}
AddWorld clock_({"clock", {"C08", "C01"}, clockGen, clockRun, nullptr});

// ---------------------------------------------------------------- pins
void pinGen(Case& k, Rng& r, bool ckpt) {
    k.param["rate"] = r.pick<u64>({1, 2, 2}); k.param["init"] = r.below(3); k.param["idle"] = r.below(3);
    u64 t = r.chance(50) ? 0 : r.below(6), n = r.pick<u64>({2, 6, 16}), freeAt = 0, rate = k.p("rate");
    for (u64 i = 0; i < n; ++i) {
        if (r.chance(40)) t = std::max(t, freeAt); else t += r.chance(2) ? (1ull << (30 + r.below(10))) + r.below(9) : r.below(r.pick<u64>({2, 6, 40}));
        u64 x = r.below(100);
        if (ckpt && x < 15) k.ops.push_back(evt(t, Ev::CKPT));
        else if (x < 50) k.ops.push_back(evt(t, Ev::QUERY));
        else { t = std::max(t, freeAt); Op e = act(t, 0, r.next()); e.bits = rate * r.pick<u64>({1, 2, 4, 8}); if (e.bits > 16) e.bits = 16; k.ops.push_back(e); freeAt = t + e.bits / rate; }
    }
    k.ops.push_back(evt(std::max(t, freeAt) + r.below(9), Ev::QUERY));
}
std::vector<Op> pinNorm(const Case& k, const std::vector<Op>& v) { std::vector<Op> o; u64 f = 0; for (auto& e : v) { if (e.ev == Ev::META) { if (e.t < f) continue; f = e.t + e.bits / std::max<u64>(1, k.p("rate")); } o.push_back(e); } return o; }
void pinRun(const Case& k, Outcome& o) {
    using P = util::Pin<16>; using util::PinState; u64 rate = k.p("rate"); int init = (int)k.p("init"), idle = (int)k.p("idle");
    auto make = [&] { return std::make_unique<P>((PinState)init, (PinState)idle); };
    auto p = make(); struct B { u64 start, n, v; }; std::vector<B> bs;
    auto ref = [&](u64 t) {
        u64 T = t * rate, pos = 0; Five f{}; int prev = init;
        auto put = [&](int s, u64 n) { if (!n) return; if (prev == 0 && s == 1) { f[2]++; f[4]++; } if (prev == 1 && s == 0) { f[2]++; f[3]++; } if (s == 1) f[0] += n; if (s == 0) f[1] += n; prev = s; };
        for (auto& b : bs) { if (b.start >= T) break; put(idle, b.start - pos); pos = b.start; for (u64 i = 0; i < b.n && pos < T; ++i, ++pos) put((b.v >> i) & 1, 1); }
        put(idle, T - pos); return f;
    };
    for (auto& e : k.ops) {
        if (e.ev == Ev::CKPT) { auto n = make(); if (!reload(o, *p, *n)) return; p = std::move(n); }
        else if (e.ev == Ev::QUERY) { if (!cmp5(o, "pin", "pin", e.t, five(p->get_stats_at(e.t, rate)), ref(e.t))) return; o.count["probe.componentObservations"]++; }
        else { for (u64 i = 0; i < e.bits; ++i) p->set(e.t, (e.b >> i) & 1 ? PinState::H : PinState::L, rate); bs.push_back({e.t * rate, e.bits, e.b}); }
        o.states.insert(0x57000000 + init * 3 + idle);
    }
}
AddWorld pin_({"pin", {"C09", "C01"}, pinGen, pinRun, pinNorm});

// ---------------------------------------------------------------- toggling-rate estimate
struct RefToggle {
    u64 width, rate; double tr, dc; bool idleHigh, on; u64 beats = 0, off = 0, offAt = 0, start = 0, len = 0;
    void settle(u64 T) { if (len) { beats += std::min(len, T - start); len = 0; } }
    void load(u64 T, u64 n) { if (!on) return; settle(T); start = T; len = n; }
    void disable(u64 T) { if (!on) return; settle(T); on = false; offAt = T; }
    void enable(u64 T) { if (on) return; off += T - offAt; on = true; }
    Five at(u64 t) const {
        u64 T = t * rate, c = beats + (len ? std::min(len, T - start) : 0), o = off + (on ? 0 : T - offAt), idle = T - o - c;
        u64 ones = (u64)(c * dc), zeroes = (u64)(c * (1 - dc)), tog = (u64)(c * tr / 2);
        (idleHigh ? ones : zeroes) += idle;
        return {ones * width, zeroes * width, 2 * tog * width, tog * width, tog * width};
    }
};
json toggleDef(Rng& r) {
    return {{"togglingRateRead", r.pick<double>({0.0, 0.25, 0.5, 1.0, 0.3})}, {"togglingRateWrite", r.pick<double>({0.0, 0.25, 0.5, 1.0, 0.7})}, {"dutyCycleRead", r.pick<double>({0.0, 0.5, 0.25, 1.0, 0.3})}, {"dutyCycleWrite", r.pick<double>({0.0, 0.5, 0.75, 1.0, 0.6})}, {"idlePatternRead", r.chance(50) ? "L" : "H"}, {"idlePatternWrite", r.chance(50) ? "L" : "H"}};
}
// actions: 0 transfer, 2 off, 3 on, 4 change the rates (while nothing has been transferred)
void toggleGen(Case& k, Rng& r, bool ckpt) {
    u64 width = 1 + r.below(64), rate = r.pick<u64>({1, 2, 2, 4}); k.param["width"] = width; k.param["rate"] = rate; k.param["on"] = r.chance(75); k.spec.toggle = toggleDef(r);
    k.param["direct"] = r.chance(50);
    u64 t = r.below(3), n = r.pick<u64>({2, 6, 20}), freeAt = 0; bool on = k.p("on");
    for (u64 i = 0; i < n; ++i) {
        if (r.chance(40)) t = std::max(t, freeAt); else t += r.below(r.pick<u64>({2, 6, 40, 100000}));
        u64 x = r.below(100);
        if (ckpt && x < 15) k.ops.push_back(evt(t, Ev::CKPT));
        else if (x < 50) k.ops.push_back(evt(t, Ev::QUERY));
        else if (x < 62) { k.ops.push_back(act(t, on ? 2 : 3)); on = !on; freeAt = on ? 0 : t; }
        else { t = std::max(t, freeAt); u64 len = rate * (r.chance(3) ? r.pick<u64>({100, 300, 70000, u64(3) << 30, u64(1) << 33}) : r.pick<u64>({1, 2, 4, 8, 16})); k.ops.push_back(act(t, 0, len, r.below(2))); if (on) freeAt = t + len / rate; }
    }
    k.ops.push_back(evt(std::max(t, freeAt) + r.below(9), Ev::QUERY));
}
std::vector<Op> toggleNorm(const Case& k, const std::vector<Op>& v) {
    std::vector<Op> o; u64 f = 0, rate = std::max<u64>(1, k.p("rate")); bool on = k.p("on");
    for (auto& e : v) { if (e.ev == Ev::META) { if (e.a == 0) { if (on && e.t < f) continue; if (on) f = e.t + e.b / rate; } else if (e.a == 2) { if (!on) continue; on = false; f = 0; } else { if (on) continue; on = true; f = e.t; } } o.push_back(e); }
    return o;
}
void toggleRun(const Case& k, Outcome& o) {
    auto def = k.spec.toggle.get<DRAMUtils::Config::ToggleRateDefinition>(); u64 w = k.p("width"), rate = k.p("rate");
    auto make = [&] { return std::make_unique<TogglingHandle>(w, rate, def.togglingRateRead, def.dutyCycleRead, def.idlePatternRead, (bool)k.p("on")); };
    RefToggle ref{w, rate, k.spec.toggle["togglingRateRead"], k.spec.toggle["dutyCycleRead"], k.spec.toggle["idlePatternRead"] == "H", k.p("on") != 0};
    auto h = make();
    if (!k.p("direct")) { h = std::make_unique<TogglingHandle>(w, rate, 0.1, 0.9, def.idlePatternWrite, (bool)k.p("on")); h->setTogglingRateAndDutyCycle(def.togglingRateRead, def.dutyCycleRead, def.idlePatternRead); }
    for (auto& e : k.ops) {
        u64 T = e.t * rate;
        if (e.ev == Ev::CKPT) { auto n = std::make_unique<TogglingHandle>(w, rate, 0.1, 0.9, def.idlePatternWrite, !k.p("on")); if (!reload(o, *h, *n)) return; h = std::move(n); }
        else if (e.ev == Ev::QUERY) { if (!cmp5(o, "estimate", "estimate", e.t, five(h->get_stats(e.t)), ref.at(e.t))) return; o.count["probe.componentObservations"]++; }
        else if (e.a == 0) { if (e.bits) h->incCountBitLength(e.t, e.b * w); else h->incCountBurstLength(e.t, e.b); ref.load(T, e.b); }
        else if (e.a == 2) { h->disable(e.t); ref.disable(T); }
        else { h->enable(e.t); ref.enable(T); }
        SAME(o, "estimate", "whether the estimate is enabled", (int)h->isEnabled(), (int)ref.on);
        o.states.insert(0x58000000 + ref.on * 2 + (ref.len != 0));
    }
}
AddWorld toggle({"estimate", {"C10", "C01"}, toggleGen, toggleRun, toggleNorm});

// ---------------------------------------------------------------- a data bus of any width that changes its mode
// actions: 0 read, 1 write, 2 to the estimate, 3 to bit-accurate
void dataBusGen(Case& k, Rng& r, bool ckpt) {
    u64 width = r.chance(60) ? 1 + r.below(64) : r.pick<u64>({65, 128, 255, 256, 257, 640, 1024, 1025, 2048, 4096}), rate = r.pick<u64>({1, 2, 2, 4});
    k.param["width"] = width; k.param["rate"] = rate; k.param["estimate"] = r.below(2); k.param["switch"] = r.chance(60); k.spec.toggle = toggleDef(r);
    u64 t = 1 + r.below(4), n = r.pick<u64>({2, 6, 14}), freeAt = 0, lastSwitch = 0; bool est = k.p("estimate");
    for (u64 i = 0; i < n; ++i) {
        if (r.chance(40)) t = std::max(t, freeAt); else t += r.chance(2) ? (1ull << (30 + r.below(10))) + r.below(9) : r.below(r.pick<u64>({2, 6, 40}));
        u64 x = r.below(100);
        if (ckpt && x < 15) k.ops.push_back(evt(t, Ev::CKPT));
        else if (x < 45) k.ops.push_back(evt(t, Ev::QUERY));
        else if (k.p("switch") && x < 60) { if ((t > freeAt || r.chance(40)) && t > lastSwitch) { k.ops.push_back(act(t, est ? 3 : 2)); est = !est; lastSwitch = t; freeAt = t; } }
        else { t = std::max(t, freeAt); u64 len = rate * r.pick<u64>({1, 2, 4, 8}); Op e = act(t, r.below(2)); fillData(e, r, width * len, r.below(6)); e.b = r.chance(10); k.ops.push_back(e); if (!e.b || est) freeAt = t + len / rate; }
    }
    k.ops.push_back(evt(std::max(t, freeAt) + r.below(9), Ev::QUERY));
}
std::vector<Op> dataBusNorm(const Case& k, const std::vector<Op>& v) {
    std::vector<Op> o; u64 f = 0, sw = 0, w = std::max<u64>(1, k.p("width")), rate = std::max<u64>(1, k.p("rate")); bool est = k.p("estimate");
    for (auto& e : v) {
        if (e.ev == Ev::META) {
            if (e.a <= 1) { if (e.t < f) continue; if (!e.b || est) f = e.t + e.bits / w / rate; }
            else { if ((e.a == 2) == est || e.t <= sw || !e.t) continue; est = !est; sw = f = e.t; }
        }
        o.push_back(e);
    }
    return o;
}
void dataBusRun(const Case& k, Outcome& o) {
    auto def = k.spec.toggle.get<DRAMUtils::Config::ToggleRateDefinition>(); u64 w = k.p("width"), rate = k.p("rate"); bool est = k.p("estimate");
    auto make = [&](bool e) { return std::make_unique<util::databus_presets::databus_preset_t>(util::databus_presets::getDataBusPreset(util::DataBusConfig{w, rate, def}, e ? util::DataBusMode::TogglingRate : util::DataBusMode::Bus)); };
    auto b = make(est); auto& j = k.spec.toggle;
    RefBus rb[2] = {{w, rate, j["idlePatternRead"] == "H", {}, {}}, {w, rate, j["idlePatternWrite"] == "H", {}, {}}};
    RefToggle rt[2] = {{w, rate, j["togglingRateRead"], j["dutyCycleRead"], j["idlePatternRead"] == "H", est}, {w, rate, j["togglingRateWrite"], j["dutyCycleWrite"], j["idlePatternWrite"] == "H", est}};
    if (est) for (auto& x : rb) x.off.push_back({0, ~0ull});
    for (auto& e : k.ops) {
        u64 T = e.t * rate;
        if (e.ev == Ev::CKPT) { auto n = make(k.p("estimate")); if (!reload(o, *b, *n)) return; b = std::move(n); }
        else if (e.ev == Ev::QUERY) {
            bus_stats_t s[4]; b->get_stats(e.t, s[0], s[1], s[2], s[3]);
            for (int d = 0; d < 2; ++d) if (!cmp5(o, "data-bus", d ? "write bus" : "read bus", e.t, five(s[d]), rb[d].at(e.t)) || !cmp5(o, "data-bus", d ? "write estimate" : "read estimate", e.t, five(s[2 + d]), rt[d].at(e.t))) return;
            o.count["probe.componentObservations"]++;
        }
        else if (e.a <= 1) {
            const uint8_t* p = e.b ? nullptr : e.data.data();
            if (e.a) b->loadWrite(e.t, e.bits, p); else b->loadRead(e.t, e.bits, p);
            if (est) rt[e.a].load(T, e.bits / w); else if (p) rb[e.a].bursts.push_back({T, beatsOf(e.data, e.bits, w)});
        }
        else if (e.a == 2) { b->enableTogglingRate(e.t); est = true; for (auto& x : rb) x.off.push_back({T, ~0ull}); for (auto& x : rt) x.enable(T); o.count["fault.modeSwitch"]++; }
        else { b->enableBus(e.t); est = false; for (auto& x : rb) x.off.back().second = T; for (auto& x : rt) x.disable(T); o.count["fault.modeSwitch"]++; }
        SAME(o, "data-bus", "whether the bus estimates", (int)b->isTogglingRate(), (int)est);
        SAME(o, "data-bus", "the bus width", (u64)b->getWidth(), w);
        o.states.insert(0x59000000 + est + (w > 64) * 2 + (w > 256) * 4 + (w > 1024) * 8);
    }
}
AddWorld dataBus({"databus", {"C08", "C10", "C01"}, dataBusGen, dataBusRun, dataBusNorm});
}
