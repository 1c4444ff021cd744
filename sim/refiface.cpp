#include "refiface.h"
#include <cmath>

std::array<u64, 5> Lines::upTo(u64 slots) {
    if (slots < pos) throw std::logic_error("reference: asked for the past");
    while (pos < slots) {
        if (!todo.empty() && todo.front().first == pos) { step(todo.front().second); todo.pop_front(); continue; }
        u64 stop = todo.empty() ? slots : std::min(slots, todo.front().first);
        step(idle);
        if (stop > pos) { u64 n = stop - pos, o = idle.count(); acc[0] += n * o; acc[1] += n * (w - o); pos = stop; }
    }
    return acc;
}

namespace {
bool idleHigh(Std s) { return s == Std::DDR4 || s == Std::DDR5; }
unsigned caWidth(Std s) { switch (s) { case Std::DDR4: return 27; case Std::DDR5: return 14; case Std::LPDDR4: return 6; case Std::LPDDR5: return 7; default: return 4; } }
bool togIdleHigh(const Spec& s, bool write) {
    if (!s.toggling()) return idleHigh(s.std_);
    return s.toggle.at(write ? "idlePatternWrite" : "idlePatternRead").get<std::string>() == "H";
}
u64 wckRate(const Spec& s) { return (s.std_ == Std::LPDDR5 || s.std_ == Std::LPDDR6) ? s.rate() / s.tim("WCK2CK") : 2; }
bool wckAlways(const Spec& s) { return (s.std_ == Std::LPDDR5 || s.std_ == Std::LPDDR6) && s.mem.at("memarchitecturespec").at("WCKalwaysOn").get<bool>(); }
u64 dqsRate(const Spec& s) { return s.std_ == Std::DDR5 && s.mem.contains("dataratespec") ? s.mem["dataratespec"]["dqs_bus_rate"].get<u64>() : s.rate(); }

// The command truth tables; the first entries are driven first.
std::string table(const Spec& s, CmdType c, bool mbg, bool m8b) {
    using C = CmdType;
    switch (s.std_) {
    case Std::DDR4: {
        const std::string v7 = "V V V V V V V ", v10 = "V V V V V V V V V V", x22 = "V V V V V V V V V V V V V V V V V V V V V V";
        auto rw = [&](const std::string& op, bool ap) { return op + " BG0 BG1 BA0 BA1 " + v7 + (ap ? "H" : "L") + " C0 C1 C2 C3 C4 C5 C6 C7 C8 C9"; };
        switch (c) {
            case C::ACT: return "L L R16 R15 R14 BG0 BG1 BA0 BA1 V V V R12 R17 R13 R11 R10 R0 R1 R2 R3 R4 R5 R6 R7 R8 R9";
            case C::PRE: return "L H L H L BG0 BG1 BA0 BA1 " + v7 + "L " + v10;
            case C::PREA: return "L H L H L V V V V " + v7 + "H " + v10;
            case C::REFA: case C::SREFEN: return "L H L L H " + x22;
            case C::RD: return rw("L H H L H", false); case C::RDA: return rw("L H H L H", true);
            case C::WR: return rw("L H H L L", false); case C::WRA: return rw("L H H L L", true);
            case C::SREFEX: return "H V V V V " + x22 + " L H H H H " + x22;
            case C::PDEA: case C::PDEP: case C::PDXA: case C::PDXP: return "H V V V V " + x22;
            default: return "";
        } }
    case Std::DDR5: {
        const std::string addr = " BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2 ", same = " CID3 BA0 BA1 V V H CID0 CID1 CID2";
        switch (c) {
            case C::ACT: return "L L R0 R1 R2 R3" + addr + "R4 R5 R6 R7 R8 R9 R10 R11 R12 R13 R14 R15 R16 CID3";
            case C::PRE: return "H H L H H CID3" + addr;
            case C::PREA: return "H H L H L CID3 V V V V L CID0 CID1 CID2";
            case C::PRESB: return "H H L H L" + same;
            case C::REFSB: return "H H L L H" + same;
            case C::REFA: return "H H L L H CID3 V V V V L CID0 CID1 CID2";
            case C::RD: return "H L H H H H" + addr + "C2 C3 C4 C5 C6 C7 C8 C9 C10 V H V V CID3";
            case C::RDA: return "H L H H H H" + addr + "C2 C3 C4 C5 C6 C7 C8 C9 C10 V L V V CID3";
            case C::WR: return "H L H H L H" + addr + "V C3 C4 C5 C6 C7 C8 C9 C10 V H H V CID3";
            case C::WRA: return "H L H H L H" + addr + "V C3 C4 C5 C6 C7 C8 C9 C10 V L H V CID3";
            case C::SREFEN: return "H H H L H V V V V H L V V V";
            case C::PDEA: case C::PDEP: return "H H H L H V V V V V H L V V";
            case C::PDXA: case C::PDXP: case C::SREFEX: case C::NOP: return "H H H H H V V V V V V V V V";
            default: return "";
        } }
    case Std::LPDDR4: {
        auto rw = [&](const std::string& op, bool ap) { return op + " BA0 BA1 BA2 V C9 " + (ap ? "H" : "L") + " L H L L H C8 C2 C3 C4 C5 C6 C7"; };
        switch (c) {
            case C::ACT: return "H L R12 R13 R14 R15 BA0 BA1 BA2 R16 R10 R11 R17 R18 R6 R7 R8 R9 R0 R1 R2 R3 R4 R5";
            case C::PRE: return "L L L L H L BA0 BA1 BA2 V V V"; case C::PREA: return "L L L L H H V V V V V V";
            case C::REFB: return "L L L H L L BA0 BA1 BA2 V V V"; case C::REFA: return "L L L H L H V V V V V V";
            case C::RD: return rw("L H L L L BL", false); case C::RDA: return rw("L H L L L BL", true);
            case C::WR: return rw("L L H L L BL", false); case C::WRA: return rw("L L H L L BL", true);
            case C::SREFEN: return "L L L H H V V V V V V V"; case C::SREFEX: return "L L H L H V V V V V V V";
            default: return "";
        } }
    case Std::LPDDR5: {
        std::string b2 = mbg ? "BG0" : "BA2", b3 = mbg ? "BG1" : m8b ? "V" : "BA3";
        std::string ba = " BA0 BA1 " + b2 + " " + b3 + " ", low = " L L L H L H H V V V V V ";
        switch (c) {
            case C::ACT: return "H H H R14 R15 R16 R17" + ba + "R11 R12 R13 H H L R7 R8 R9 R10 R0 R1 R2 R3 R4 R5 R6";
            case C::PRE: return "L L L H H H H" + ba + "V V L";
            case C::PREA: return "L L L H H H H V V " + std::string(mbg ? "BG0 BG1" : "V V") + " V V H";
            case C::REFB: case C::REFP2B: return "L L L H H H L BA0 BA1 " + b2 + " V V V L";
            case C::REFA: return "L L L H H H L V V " + std::string(mbg ? "BG0" : "V") + " V V V H";
            case C::RD: return "H L L C0 C3 C4 C5" + ba + "C1 C2 L"; case C::RDA: return "H L L C0 C3 C4 C5" + ba + "C1 C2 H";
            case C::WR: return "L H H C0 C3 C4 C5" + ba + "C1 C2 L"; case C::WRA: return "L H H C0 C3 C4 C5" + ba + "C1 C2 H";
            case C::SREFEN: return low + "L L"; case C::PDEA: case C::PDEP: return low + "L H"; case C::DSMEN: return low + "H L";
            case C::SREFEX: case C::PDXA: case C::PDXP: case C::DSMEX: return "L L L H L H L V V V V V V V";
            default: return "";
        } }
    default: {
        const std::string x8 = " V V V V V V V V", bank = " BA0 BA1 BG0 BG1";
        switch (c) {
            case C::NOP: return "L L L PAR L L L V" + x8;
            case C::PDEA: case C::PDEP: return "L L L PAR L H L V" + x8;
            case C::PDXA: case C::PDXP: return "V V V V V V V V" + x8;
            case C::SREFEN: return "L L L PAR L L H H" + x8; case C::SREFEX: return "L L L PAR L H H V" + x8;
            case C::PRE: return "L L L PAR H H V SC V V V L" + bank; case C::PREA: return "L L L PAR H H V SC V V V H V V V V";
            case C::REFDB: return "L L L PAR H L L SC DBG0 DBG1 V L" + bank; case C::REFA: return "L L L PAR H L L SC V V V H V V V V";
            case C::ACT: return "H H H PAR H R15 R16 SC R11 R12 R13 R14" + bank + " H H H PAR L R8 R9 R10 R4 R5 R6 R7 R0 R1 R2 R3";
            case C::WR: return "BL L H PAR C0 C1 L SC C2 C3 C4 C5" + bank; case C::WRA: return "BL L H PAR C0 C1 H SC C2 C3 C4 C5" + bank;
            case C::RD: return "BL H L PAR C0 C1 L SC C2 C3 C4 C5" + bank; case C::RDA: return "BL H L PAR C0 C1 H SC C2 C3 C4 C5" + bank;
            default: return "";
        } }
    }
}
}

RefIface::RefIface(const Spec& sp)
    : s(sp), m16(false), mbg(sp.std_ == Std::LPDDR5 && sp.groups() == 4), m8b(sp.std_ == Std::LPDDR5 && sp.banks() == 8),
      ca(caWidth(sp.std_), idleHigh(sp.std_)), rd((unsigned)(sp.width() * sp.devices()), idleHigh(sp.std_)), wr((unsigned)(sp.width() * sp.devices()), idleHigh(sp.std_)),
      rdqs{dqsRate(sp), (sp.width() == 16 && sp.std_ != Std::LPDDR5 && sp.std_ != Std::LPDDR6) ? 4u : 2u, false}, wdqs(rdqs), wck{wckRate(sp), 2, wckAlways(sp)}, clk{2, 2, true},
      hasWdqs(sp.std_ != Std::LPDDR5 && sp.std_ != Std::LPDDR6), hasWck(!hasWdqs), pp(sp.ranks()), caRate(hasWck ? 2 : 1) {
    m16 = sp.std_ == Std::LPDDR5 && !mbg && !m8b;
    if (sp.std_ == Std::DDR4 || sp.std_ == Std::LPDDR4 || sp.std_ == Std::LPDDR5) {
        u64 lanes = sp.width() * sp.devices() / 8;
        pinR.assign(lanes, Lines(1, sp.std_ == Std::DDR4)); pinW = pinR;
    }
}

std::vector<bool> RefIface::encode(const Op& e, u64 len) const {
    std::istringstream in(table(s, e.cmd, mbg, m8b)); std::vector<bool> out; std::string w;
    bool read = isRead(e.cmd);
    auto num = [&](size_t n) { return (u64)std::stoull(w.substr(n)); };
    auto starts = [&](const char* p) { size_t n = strlen(p); return w.compare(0, n, p) == 0 && w.size() > n && isdigit((unsigned char)w[n]); };
    while (in >> w) {
        bool b;
        if (w == "H") b = true; else if (w == "L" || w == "PAR") b = false;
        else if (w == "SC") b = e.b == 1;
        else if (w == "V") b = idleHigh(s.std_);
        else if (w == "BL") b = s.std_ == Std::LPDDR4 ? len == 32 : len == 24;
        else if (starts("CID")) b = true;
        else if (starts("DBG")) b = ((otherBank(e) / s.groups()) >> num(3)) & 1;
        else if (starts("BG")) b = (e.bg >> num(2)) & 1;
        else if (starts("BA")) b = (e.bank >> num(2)) & 1;
        else if (starts("R")) b = (e.row >> num(1)) & 1;
        else if (starts("C")) {
            u64 n = num(1); b = (e.col >> n) & 1;
            switch (s.std_) {                          // burst-length and burst-order bits
                case Std::DDR4: if (n <= 2) b = !read && !(len == 4 && n == 2); break;
                case Std::DDR5: if (n == 2) b = !read; else if (n == 3) b = !read && len != 8; else if (n == 10 && len == 32) b = false; break;
                case Std::LPDDR4: if (n <= 3) b = false; else if (n == 4 && len == 32) b = false; break;
                case Std::LPDDR5: if (n == 0 && len == 32) b = false; break;
                default: if (n == 0 && len != 24) b = false;
            }
        } else throw std::logic_error("reference: token " + w);
        out.push_back(b);
    }
    return out;
}

// Payload as it appears on the data lines, beat by beat; inversion decisions in payload order.
std::vector<Beat> RefIface::dataBeats(const Op& e, std::vector<bool>& inv) {
    auto raw = [&](u64 i) { return (bool)((e.data[i / 8] >> (i % 8)) & 1); };
    u64 unit = s.std_ == Std::LPDDR6 ? 16 : 8; bool canDbi = s.std_ != Std::DDR5;
    std::vector<bool> bit(e.bits);
    for (u64 i = 0; i < e.bits; ++i) bit[i] = raw(i);
    if (dbi && canDbi) for (u64 u = 0; u * unit < e.bits; ++u) {
        u64 ones = 0; for (u64 i = 0; i < unit; ++i) ones += bit[u * unit + i];
        bool x = idleHigh(s.std_) ? ones < unit - ones : unit - ones < ones;
        inv.push_back(x); (x ? invertedUnits : normalUnits)++;
        if (x) for (u64 i = 0; i < unit; ++i) bit[u * unit + i] = !bit[u * unit + i];
    }
    std::vector<Beat> out;
    if (s.std_ != Std::LPDDR6) {
        u64 w = rd.width(), L = e.bits / w; out.resize(L);
        for (u64 b = 0; b < L; ++b) for (u64 j = 0; j < w; ++j) out[b].set(j, bit[(L - 1 - b) * w + j]);      // the library transfers the last beat of the payload first
        return out;
    }
    for (u64 burst = 0; burst < e.bits / 256; ++burst) {
        u64 base = burst * 256;                                      // 24 beats of 12 lanes; metadata in beats 8-11 and inversion bits in beats 20-23 of lanes 4, 5, 10, 11
        for (u64 g = 0; g < 6; ++g) {
            bool special = g == 2 || g == 5; u64 lanes = special ? 8 : 12;
            for (u64 b = 0; b < 4; ++b) {
                Beat v; u64 k = 0;
                for (u64 dq = 0; dq < 12; ++dq) {
                    bool side = dq == 4 || dq == 5 || dq == 10 || dq == 11; bool x;
                    if (special && side) {
                        u64 n = (dq == 4 ? 0 : dq == 5 ? 1 : dq == 10 ? 2 : 3) * 4 + b;
                        x = g == 2 ? (meta[burst] >> n) & 1 : !inv.empty() && inv[burst * 16 + n];
                    } else x = bit[base + 4 * k++ + b];
                    v.set(11 - dq, x);
                }
                out.push_back(v);
            }
            base += 4 * lanes;
        }
    }
    return out;
}

u64 RefIface::Tog::beats(u64 vt) const { u64 n = whole; for (auto& b : bursts) n += std::min(b.second, vt - b.first); return n; }

void RefIface::apply(const Op& e) {
    if (e.ev == Ev::DBI) { if (s.std_ != Std::DDR5 && !(s.std_ == Std::DDR4 && s.width() == 4)) dbi = e.a; return; }
    if (e.ev == Ev::META) { if (s.std_ == Std::LPDDR6) meta = {e.a & 0xFFFF, e.b & 0xFFFF}; return; }
    if (e.ev != Ev::CMD) return;
    u64 len = 0;
    if (isData(e.cmd)) {
        bool w = isWrite(e.cmd), some = e.bits != 0;
        if (!some) len = s.toggling() ? s.bl() : 0;
        else len = s.std_ == Std::LPDDR6 ? e.bits / 256 * 24 : e.bits / rd.width();
        u64 slot = e.t * s.rate();
        if (s.toggling()) { if (len) { auto& tg = tog[w]; for (auto& b : tg.bursts) tg.whole += b.second; tg.bursts.clear(); tg.bursts.emplace_back(slot, len); } }
        else if (!e.data.empty()) {                                  // without a payload the lines rest, the strobes run all the same
            std::vector<bool> inv; auto beats = dataBeats(e, inv); auto& bus = w ? wr : rd;
            for (u64 i = 0; i < beats.size(); ++i) bus.drive(slot + i, beats[i]);
            auto& pins = w ? pinW : pinR;
            if (!inv.empty()) for (u64 u = 0; u < inv.size() && !pins.empty(); ++u) { Beat v; v.set(0, inv[u] != (s.std_ == Std::DDR4)); pins[u % pins.size()].drive(slot + u / pins.size(), v); }
        }
        u64 clocks = len / s.rate();
        if (len) { if (e.t && e.t == lastEnd[w]) ++seamless; if (e.t && e.t == lastEnd[!w]) ++turnaround; lastEnd[w] = e.t + clocks; }
        if (!w) rdqs.burst(clocks); else if (hasWdqs) wdqs.burst(clocks);
        if (hasWck) wck.burst(clocks);
        if (s.std_ == Std::DDR4) { auto& p = pp[e.rank]; u64& end = w ? p.endW : p.endR; if (e.t == end) (w ? p.seamW : p.seamR)++; end = e.t + clocks; }
    }
    auto bits = encode(e, len); u64 W = ca.width();
    for (u64 b = 0; b * W < bits.size(); ++b) { Beat v; for (u64 j = 0; j < W; ++j) v.set(j, bits[b * W + j]); ca.drive(e.t * caRate + b, v); }
}

void RefIface::fill(Snap& o, u64 t) {
    o.bus[Snap::CMD] = ca.upTo(t * caRate);
    if (!s.toggling()) { o.bus[Snap::RBUS] = rd.upTo(t * s.rate()); o.bus[Snap::WBUS] = wr.upTo(t * s.rate()); }
    o.bus[Snap::CLK] = clk.upTo(t); if (hasWck) o.bus[Snap::WCK] = wck.upTo(t);
    o.bus[Snap::RDQS] = rdqs.upTo(t); if (hasWdqs) o.bus[Snap::WDQS] = wdqs.upTo(t);
    for (auto& p : pinR) { auto x = p.upTo(t * s.rate()); for (int i = 0; i < 5; ++i) o.bus[Snap::RDBI][i] += x[i]; }
    for (auto& p : pinW) { auto x = p.upTo(t * s.rate()); for (int i = 0; i < 5; ++i) o.bus[Snap::WDBI][i] += x[i]; }
    if (o.rank.size() < s.ranks()) o.rank.resize(s.ranks());
    if (s.std_ == Std::DDR4) for (u64 i = 0; i < s.ranks(); ++i) { o.rank[i][Snap::PRS] = pp[i].seamR; o.rank[i][Snap::PWS] = pp[i].seamW; }
}

std::string RefIface::toggleDiff(const Snap& got, u64 t) const {
    for (int d = 0; d < 2; ++d) {
        auto& g = got.bus[d ? Snap::WTOG : Snap::RTOG]; std::ostringstream m; m.precision(15);
        if (!s.toggling()) { for (int f = 0; f < 5; ++f) if (g[f]) { m << (d ? "togglingWrite." : "togglingRead.") << Snap::fieldName(f) << " is " << g[f] << " in bit-accurate mode"; return m.str(); } continue; }
        double W = rd.width(), vt = (double)(t * s.rate()), n = (double)tog[d].beats(t * s.rate());
        double rate = s.toggle.at(d ? "togglingRateWrite" : "togglingRateRead").get<double>(), duty = s.toggle.at(d ? "dutyCycleWrite" : "dutyCycleRead").get<double>();
        bool hi = togIdleHigh(s, d); double idle = vt - n;
        double want[5] = {n * duty + (hi ? idle : 0), n * (1 - duty) + (hi ? 0 : idle), n * rate, n * rate / 2, n * rate / 2};
        for (int f = 0; f < 5; ++f) {
            double x = (double)g[f] / W, tol = (f == 2 ? 2.0 : 1.0) + want[f] * 1e-12;         // estimates are whole numbers per lane
            if (std::fabs(x - want[f]) >= tol || g[f] % (u64)W) { m << (d ? "togglingWrite." : "togglingRead.") << Snap::fieldName(f) << " is " << g[f] << ", expected " << want[f] << " per lane on " << W << " lanes (" << n << " beats, t=" << t << ")"; return m.str(); }
        }
    }
    return "";
}
