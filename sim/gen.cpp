#include "gen.h"

std::vector<u64> burstLengths(const Spec& s) {
    switch (s.std_) {
        case Std::DDR4: return {8, 8, 8, 4};
        case Std::DDR5: return {16, 16, 8, 32};
        case Std::LPDDR4: return {16, 16, 32};
        case Std::LPDDR5: return {16, 16, 32};
        default: return {24, 24, 48};
    }
}
u64 payloadBits(const Spec& s, u64 beats) { return s.std_ == Std::LPDDR6 ? (beats / 24) * 256 : beats * s.width() * s.devices(); }

u64 BusBook::caClocks(CmdType c) const {
    switch (sp->std_) {
        case Std::DDR4: return c == CmdType::SREFEX ? 2 : c == CmdType::END_OF_SIMULATION ? 0 : 1;
        case Std::DDR5: return c == CmdType::ACT || isData(c) ? 2 : c == CmdType::END_OF_SIMULATION ? 0 : 1;
        case Std::LPDDR4:
            switch (c) {
                case CmdType::ACT: case CmdType::RD: case CmdType::RDA: case CmdType::WR: case CmdType::WRA: return 4;
                case CmdType::PDEA: case CmdType::PDEP: case CmdType::PDXA: case CmdType::PDXP: case CmdType::END_OF_SIMULATION: return 0;
                default: return 2;
            }
        case Std::LPDDR5: return c == CmdType::ACT ? 2 : c == CmdType::END_OF_SIMULATION ? 0 : 1;
        default: return c == CmdType::ACT ? 4 : c == CmdType::END_OF_SIMULATION ? 0 : 2;
    }
}
u64 BusBook::burstLen(const Op& e) const {
    if (!isData(e.cmd)) return 0;
    if (e.bits == 0) return sp->toggling() ? sp->bl() : 0;
    if (sp->std_ == Std::LPDDR6) return e.bits / 256 * 24;
    return e.bits / (sp->width() * sp->devices());
}
u64 BusBook::dataClocks(const Op& e) const { return burstLen(e) / sp->rate(); }

Gen::Gen(Rng& rng, const Spec& sp, const GenOpt& go) : rc(sp), bus(sp), o(go), r(rng), s(sp) {
    std::vector<CmdType> kinds;
    for (int i = 0; i < (int)CmdType::COUNT; ++i) if (rc.supports((CmdType)i) && (CmdType)i != CmdType::END_OF_SIMULATION) kinds.push_back((CmdType)i);
    for (auto k : kinds) {
        u64 w = r.chance(15) ? 0 : 1 + r.below(6);
        bool pdk = k == CmdType::PDEA || k == CmdType::PDEP || k == CmdType::SREFEN || k == CmdType::DSMEN;
        bool exit = k == CmdType::PDXA || k == CmdType::PDXP || k == CmdType::SREFEX || k == CmdType::DSMEX;
        bool ref = k == CmdType::REFA || k == CmdType::REFB || k == CmdType::REFP2B || k == CmdType::REFDB || k == CmdType::REFSB;
        if (k == CmdType::ACT) w = 6 + r.below(10);
        if (isData(k)) w = o.dataHeavy ? 10 + r.below(10) : 2 + r.below(6);
        if (exit) w = 5 + r.below(8);
        if (o.noPd && (pdk || exit)) w = 0;
        if (o.noRefresh && ref) w = 0;
        if (o.dataHeavy && (pdk || ref)) w = r.below(2);
        if (o.busy) w = ref || k == CmdType::RDA || k == CmdType::WRA ? 12 : pdk || exit ? 0 : w;
        if (w) { weights.emplace_back(k, w); wTotal += w; }
    }
    u64 nb = s.banks(), hot = r.pick<u64>({1, 2, 2, 3, 4, nb});
    for (u64 i = 0; i < hot; ++i) hotBanks.push_back(r.below(nb));
    if (r.chance(30) && nb == 16) hotBanks.push_back((hotBanks[0] + 8) % 16);
    if (r.chance(40)) { hotBanks.push_back(0); hotBanks.push_back(nb - 1); }
    payloadKind = r.below(8);
    tight = r.pick<u64>({20, 50, 80, 95});
    if (o.marathon) { o.ops = 66000 + r.below(8000); o.query = o.dbi = o.meta = o.huge = false; o.emptyData = true; hotBanks = {r.below(nb)}; tight = 95; lone = true; }
    else if (o.busy) { o.huge = false; tight = 100; hotBanks.clear(); for (u64 i = 0; i < nb; ++i) hotBanks.push_back(i); }
    else if (s.width() * s.devices() > 256) o.ops = std::min<u64>(o.ops, 10);
    else if (o.ops > 8 && r.below(250) == 0) o.ops *= 12;
    if (o.huge && r.chance(6)) epoch = r.pick<u64>({(1ull << 31) - 3, (1ull << 32) - 3, 1ull << 33, (1ull << 40) + 1, (1ull << 52) - 9, (1ull << 53) + 1}) + r.below(4);
    if (s.width() * s.devices() > 64) epoch = std::min<u64>(epoch, (1ull << 40) + r.below(4));      // lanes x beats stays inside 64 bits
}
u64 Gen::nextTime(bool) {
    if (epoch) { u64 t = std::max(epoch, rc.now); epoch = 0; return t; }
    u64 t = rc.now;
    auto due = rc.nextDue();
    if (o.busy) return t + r.below(rc.q.size() < 4 ? 2 : 4);
    if (o.full && bus.dataFree > t && r.chance(o.dataHeavy ? 30 : 8)) return bus.dataFree;      // back to back
    u64 x = r.below(100);
    if (due && x < 35) { u64 d = *due; switch (r.below(4)) { case 0: t = std::max(t, d ? d - 1 : 0); break; case 3: t = d + 1; break; default: t = d; } if (t < rc.now) t = rc.now; }
    else if (x < 35 + tight * 50 / 100) t += r.below(3);
    else if (x < 92) t += r.below(12);
    else if (x < 97) t += r.below(120);
    else if (o.huge && r.chance(12)) t += (1ull << 32) + r.below(1000);
    else t += r.below(3000);
    return t;
}
void Gen::payload(Op& e) {
    if (!isData(e.cmd) || !o.full || lone) return;
    if (o.emptyData && r.chance(8)) return;
    u64 beats = r.pick(burstLengths(s)); if (r.chance(50)) beats = s.std_ == Std::LPDDR6 ? s.bl() : beats;
    if (r.chance(2)) { u64 most = s.std_ == Std::DDR4 ? 8 : 32; beats = s.std_ == Std::LPDDR6 ? 24 * (1 + r.below(2)) : std::min(most / s.rate(), 1 + r.below(most / s.rate())) * s.rate(); }    // lengths no standard knows
    e.bits = payloadBits(s, beats); if (o.wholeBytes && e.bits % 8) e.bits = payloadBits(s, s.bl());
    if (o.emptyData && o.nullData && r.chance(s.toggling() ? 15 : 3)) return;                // a length without a payload
    e.data.resize((e.bits + 7) / 8);
    u64 kind = r.chance(60) ? payloadKind : r.below(8);
    uint8_t k = (uint8_t)r.next();
    for (size_t i = 0; i < e.data.size(); ++i) {
        switch (kind) {
            case 0: e.data[i] = 0; break;
            case 1: e.data[i] = 0xFF; break;
            case 2: e.data[i] = k; break;
            case 3: e.data[i] = (i & 1) ? 0xFF : 0x00; break;
            case 4: e.data[i] = (uint8_t)(r.chance(15) ? r.next() : 0x0F); break;
            case 5: e.data[i] = (uint8_t)((r.next() & r.next()) & 0xFF); break;
            case 6: e.data[i] = (uint8_t)((r.next() | r.next()) & 0xFF); break;
            default: e.data[i] = (uint8_t)r.next();
        }
    }
    if (e.bits % 8) e.data.back() &= (uint8_t)((1u << (e.bits % 8)) - 1);
}
bool Gen::tryCmd(Op& e, u64 t) {
    for (int attempt = 0; attempt < 24; ++attempt) {
        u64 w = r.below(wTotal); CmdType k = weights[0].first;
        for (auto& p : weights) { if (w < p.second) { k = p.first; break; } w -= p.second; }
        e = Op(); e.t = t; e.cmd = k;
        e.rank = r.below(s.ranks());
        if (lone) e.rank = 0;
        e.bank = lone || r.chance(85) ? r.pick(hotBanks) : r.below(s.banks());
        e.bg = e.bank / s.perGroup();
        e.row = r.chance(20) ? r.below(r.chance(50) ? 1 << 20 : 1 << 26) : r.below(65536);
        e.col = r.chance(20) ? (r.chance(30) ? r.below(1 << 19) : r.pick<u64>({0, 1023, 8, 512})) : r.below(1024);
        if (o.own6 && s.std_ == Std::LPDDR6 && r.chance(25)) { if (k == CmdType::REFDB) e.a = 1 + (e.bank + 1 + r.below(15)) % 16; e.b = r.below(2); }
        payload(e);
        bool wild = o.sloppy && !rc.legal(e, false) && rc.supports(e.cmd) && r.chance(25);
        if (!wild && !rc.legal(e, o.strict)) continue;
        if (o.full && !bus.legal(e)) { if (r.chance(50)) { u64 nt = std::max(t, bus.caFree); if (isData(k)) nt = std::max(nt, bus.dataFree); RefCore probe = rc; probe.advance(nt); e.t = nt; if ((wild || probe.legal(e, o.strict)) && bus.legal(e)) { rc.advance(nt); return true; } } continue; }
        return true;
    }
    return false;
}
std::vector<Op> Gen::history() {
    std::vector<Op> out;
    u64 guard = 0;
    while (out.size() < o.ops && guard++ < o.ops * 8 + 50) {
        u64 t = nextTime(true);
        if (o.query && r.chance(30)) { u64 n = 1 + r.below(r.chance(20) ? 6 : 2); for (u64 i = 0; i < n; ++i) { Op e; e.ev = Ev::QUERY; e.t = t; rc.advance(t); out.push_back(e); t += r.below(3); } continue; }
        if (o.dbi && r.chance(8) && t >= bus.dataFree) { Op e; e.ev = Ev::DBI; e.t = t; rc.advance(t); dbiOn = r.chance(30) ? dbiOn : !dbiOn; e.a = dbiOn; out.push_back(e); continue; }
        if (o.meta && s.std_ == Std::LPDDR6 && r.chance(6)) { Op e; e.ev = Ev::META; e.t = t; rc.advance(t); e.a = r.below(65536); e.b = r.below(65536); out.push_back(e); continue; }
        if (o.ckpt && r.chance(12)) { rc.advance(t); if (rc.q.empty() || o.sloppy) { Op e; e.ev = Ev::CKPT; e.t = t; out.push_back(e); } continue; }
        rc.advance(t);
        Op e;
        if (tryCmd(e, t)) { rc.tryApply(e); if (o.full) bus.apply(e); out.push_back(e); }
        else if (auto d = rc.nextDue()) rc.advance(*d);
    }
    if (o.end) {
        u64 t = rc.now + r.below(40);
        if (r.chance(40)) { t = std::max({t, bus.dataFree, bus.caFree}); }
        Op e; e.t = t; e.cmd = CmdType::END_OF_SIMULATION; rc.advance(t); rc.apply(e); out.push_back(e);
        Op qe; qe.ev = Ev::QUERY; qe.t = t + (r.chance(50) ? 0 : r.below(30)); out.push_back(qe);
    }
    return out;
}

std::vector<Op> normalise(const Spec& s, const std::vector<Op>& ops, bool full, bool strict, bool sloppy) {
    std::vector<Op> out; RefCore rc(s); BusBook bus(s); u64 now = 0;
    bool ended = false;
    for (auto& e0 : ops) {
        Op e = e0;
        if (e.ev == Ev::REJ) { if (!ended) out.push_back(e); continue; }       // refused: whatever its time, it is as if it was never issued
        if (e.t < now) continue;
        if (ended && e.ev != Ev::QUERY) continue;
        RefCore probe = rc; probe.advance(e.t);
        switch (e.ev) {
            case Ev::CMD:
                if ((!sloppy && !probe.legal(e, strict)) || (full && !bus.legal(e))) continue;
                probe.tryApply(e); if (full) bus.apply(e);
                if (e.cmd == CmdType::END_OF_SIMULATION) ended = true;
                break;
            case Ev::CKPT: if (!sloppy && !probe.q.empty()) continue; break;
            case Ev::DBI: if (e.t < bus.dataFree) continue; break;
            default: break;
        }
        rc = std::move(probe); now = e.t; out.push_back(e);
    }
    return out;
}
