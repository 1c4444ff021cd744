#include "refcore.h"

Timing::Timing(const Spec& s) {
    u64 bl = s.bl(), rate = s.rate();
    RAS = s.tim("RAS");
    switch (s.std_) {
        case Std::DDR4: {
            RCD = s.tim("RCD"); RP = s.tim("RP");
            int m = s.mem.at("memarchitecturespec").at("RefMode").get<int>();
            RFCab = s.tim(m == 2 ? "RFC2" : m == 4 ? "RFC4" : "RFC1"); RFCx = 0;
            apRD = s.tim("AL") + s.tim("RTP"); apWR = bl / rate + s.tim("WL") + s.tim("WR"); break; }
        case Std::DDR5: {
            RCD = s.tim("RCD"); RP = s.tim("RP");
            int m = s.mem.at("memarchitecturespec").at("RefMode").get<int>();
            RFCab = s.tim(m == 2 ? "RFC2_slr" : "RFC1_slr"); RFCx = s.tim("RFCsb_slr");
            apRD = s.tim("RTP"); apWR = bl / rate + s.tim("WL") + s.tim("WR"); break; }
        case Std::LPDDR4:
            RCD = s.tim("RCD"); RP = s.tim("RPpb"); RFCab = s.tim("RFCab"); RFCx = s.tim("RFCpb");
            apRD = bl == 16 ? s.tim("RTP") : 8 + s.tim("RTP"); apWR = s.tim("WL") + bl / 2 + s.tim("WR") + 1; break;
        case Std::LPDDR5: {
            RCD = s.tim("RCD_S"); RP = s.tim("RPpb"); RFCab = s.tim("RFCab"); RFCx = s.tim("RFCpb");
            u64 b = bl / (rate * s.tim("WCK2CK")); apRD = b + s.tim("RBTP"); apWR = s.tim("WL") + b + 1 + s.tim("WR"); break; }
        default: {
            RCD = std::max(s.tim("RCD_r"), s.tim("RCD_w")); RP = s.tim("RPpb"); RFCab = s.tim("RFCab"); RFCx = s.tim("RFCdb");
            u64 b = bl / (rate * s.tim("WCK2CK")); apRD = b + s.tim("RBTP"); apWR = s.tim("WL") + b + 1 + s.tim("WR"); break; }
    }
}
RefCore::RefCore(const Spec& s) : sp(&s), tm(s), r(s.ranks()) { for (auto& x : r) x.b.resize(s.banks()); }

void RefCore::integrate(u64 t) {
    u64 d = t - now; if (!d) return;
    for (auto& k : r) {
        int cat;
        bool any = false;
        for (auto& b : k.b) any |= b.active();
        if (k.pd == PDA) cat = Snap::CPDA; else if (k.pd == PDP) cat = Snap::CPDP; else if (k.sref) cat = k.dsm ? Snap::CDSM : Snap::CSREF; else cat = -1;
        if (cat >= 0) { k.c[cat] += d; for (auto& b : k.b) b.c[cat] += d; }
        else { k.c[any ? Snap::CACT : Snap::CPRE] += d; for (auto& b : k.b) b.c[b.active() ? Snap::CACT : Snap::CPRE] += d; }
    }
    now = t;
}
void RefCore::push(u64 t, Ek k, u64 rank, u64 bank) {
    Event e{t, seqNo++, k, rank, bank};
    auto it = std::upper_bound(q.begin(), q.end(), e, [](const Event& a, const Event& b) { return a.t != b.t ? a.t < b.t : a.seq < b.seq; });
    q.insert(it, e);
}
void RefCore::advance(u64 t) {
    while (!q.empty() && q.front().t <= t) { Event e = q.front(); q.erase(q.begin()); if (e.t > now) integrate(e.t); fire(e); }
    if (t > now) integrate(t);
}
void RefCore::pre(Bank& b, u64 t) { if (!b.open) return; b.open = false; b.c[Snap::PRE]++; b.everPre = true; b.lastPre = t; }
void RefCore::fire(const Event& e) {
    Rank& k = r[e.rank]; lastCmd = std::max(lastCmd, e.t);
    switch (e.k) {
        case AP: k.b[e.bank].apPending = false; pre(k.b[e.bank], e.t); break;
        case REFEND: k.b[e.bank].refreshing = false; break;
        case SREFSTART: k.srefPending = false; k.sref = true; break;
        case PDENTER: k.pd = k.entering; k.entering = NONE; break;
        case PDEXIT:
            if (k.pd == PDA) for (auto& b : k.b) if (b.open) { b.actStart = e.t; k.reopened++; }
            k.pd = NONE; k.exiting = false; break;
    }
}
u64 RefCore::earliest(const Rank& k) const {
    u64 t = 0;
    for (auto& b : k.b) {
        if (b.everAct) t = std::max(t, b.actStart + tm.RCD);
        if (b.everPre) t = std::max(t, b.lastPre + tm.RP);
        t = std::max(t, b.refEnd);
    }
    return t;
}
void RefCore::refresh(u64 rank, u64 bank, u64 dur, int counter) {
    Bank& b = r[rank].b[bank];
    b.c[counter]++;
    if (!b.active()) b.actStart = now;
    b.refreshing = true; b.refEnd = now + dur;
    push(now + dur, REFEND, rank, bank);
}
bool RefCore::supports(CmdType c) const {
    Std s = sp->std_;
    switch (c) {
        case CmdType::REFB: return s == Std::LPDDR4 || s == Std::LPDDR5;
        case CmdType::REFP2B: return s == Std::LPDDR5 && sp->banks() == 16;
        case CmdType::REFDB: return s == Std::LPDDR6;
        case CmdType::PRESB: case CmdType::REFSB: return s == Std::DDR5;
        case CmdType::DSMEN: case CmdType::DSMEX: return s == Std::LPDDR5;
        case CmdType::NOP: return false;
        default: return (int)c < (int)CmdType::COUNT;
    }
}
bool RefCore::legal(const Op& e, bool strict) const {
    if (!supports(e.cmd) || e.t < now) return false;
    if (e.cmd == CmdType::END_OF_SIMULATION) return true;
    if (e.rank >= r.size() || e.bank >= sp->banks() || e.bg != e.bank / sp->perGroup()) return false;
    const Rank& k = r[e.rank]; const Bank& b = k.b[e.bank]; u64 t = e.t;
    auto closed = [&](const Bank& x) { return !x.active() && (!x.everPre || t >= x.lastPre + tm.RP); };
    auto quiet = [&](const Bank& x) { return !x.refreshing && !x.apPending; };
    auto preOk = [&](const Bank& x) { return quiet(x) && (!strict || !x.open || t >= x.actStart + tm.RAS); };
    if (e.cmd == CmdType::PDXA || e.cmd == CmdType::PDXP) { auto want = e.cmd == CmdType::PDXA ? PDA : PDP; return !k.exiting && (k.entering == want || (k.entering == NONE && k.pd == want)); }    // also while the entry still waits
    if (e.cmd == CmdType::SREFEX) return k.sref && !k.dsm;
    if (e.cmd == CmdType::DSMEN) return k.sref && !k.dsm;
    if (e.cmd == CmdType::DSMEX) return k.sref && k.dsm;
    if (!idle(e.rank)) return false;
    switch (e.cmd) {
        case CmdType::ACT: return closed(b);
        case CmdType::RD: case CmdType::RDA: case CmdType::WR: case CmdType::WRA: return b.open && quiet(b) && (!strict || t >= b.actStart + tm.RCD);
        case CmdType::PRE: return preOk(b);
        case CmdType::PREA: for (auto& x : k.b) if (!preOk(x)) return false; return true;
        case CmdType::PRESB: for (u64 g = 0; g < sp->groups(); ++g) if (!preOk(k.b[g * sp->perGroup() + e.bank % sp->perGroup()])) return false; return true;
        case CmdType::REFB: return closed(b);
        case CmdType::REFP2B: case CmdType::REFDB: { u64 o = otherBank(e); return o < k.b.size() && o != e.bank && closed(b) && closed(k.b[o]); }
        case CmdType::REFSB: for (u64 g = 0; g < sp->groups(); ++g) if (!closed(k.b[g * sp->perGroup() + e.bank % sp->perGroup()])) return false; return true;
        case CmdType::REFA: case CmdType::SREFEN: for (auto& x : k.b) if (!closed(x)) return false; return true;
        case CmdType::PDEP: for (auto& x : k.b) if (x.open) return false; return true;
        case CmdType::PDEA: for (auto& x : k.b) if (x.open && !x.apPending) return true; return false;
        default: return false;
    }
}
void RefCore::apply(const Op& e) {
    lastCmd = std::max(lastCmd, e.t);
    if (e.cmd == CmdType::END_OF_SIMULATION) return;
    Rank& k = r[e.rank]; Bank& b = k.b[e.bank];
    auto each = [&](auto f) { for (u64 g = 0; g < sp->groups(); ++g) f(g * sp->perGroup() + e.bank % sp->perGroup()); };
    switch (e.cmd) {
        case CmdType::ACT: b.c[Snap::ACT]++; b.everAct = true; b.open = true; b.actStart = now; break;
        case CmdType::PRE: pre(b, now); break;
        case CmdType::PREA: for (auto& x : k.b) pre(x, now); break;
        case CmdType::PRESB: each([&](u64 i) { pre(k.b[i], now); }); break;
        case CmdType::RD: b.c[Snap::RD]++; break;
        case CmdType::WR: b.c[Snap::WR]++; break;
        case CmdType::RDA: b.c[Snap::RDA]++; b.apPending = true; push(std::max(b.actStart + tm.RAS, now + tm.apRD), AP, e.rank, e.bank); break;
        case CmdType::WRA: b.c[Snap::WRA]++; b.apPending = true; push(std::max(b.actStart + tm.RAS, now + tm.apWR), AP, e.rank, e.bank); break;
        case CmdType::REFB: refresh(e.rank, e.bank, tm.RFCx, Snap::REFPB); break;
        case CmdType::REFP2B: refresh(e.rank, e.bank, tm.RFCx, Snap::REF2B); refresh(e.rank, (e.bank + 8) % 16, tm.RFCx, Snap::REF2B); break;
        case CmdType::REFDB: refresh(e.rank, e.bank, tm.RFCx, Snap::REFDB); refresh(e.rank, otherBank(e), tm.RFCx, Snap::REFDB); break;
        case CmdType::REFSB: each([&](u64 i) { refresh(e.rank, i, tm.RFCx, Snap::REFSB); }); break;
        case CmdType::REFA: case CmdType::SREFEN:
            for (u64 i = 0; i < k.b.size(); ++i) refresh(e.rank, i, tm.RFCab, Snap::REFAB);
            if (e.cmd == CmdType::SREFEN) { k.srefPending = true; k.srefStart = now + tm.RFCab; push(now + tm.RFCab, SREFSTART, e.rank); }
            break;
        case CmdType::SREFEX: k.sref = false; break;
        case CmdType::DSMEN: k.dsm = true; break;
        case CmdType::DSMEX: k.dsm = false; break;
        case CmdType::PDEA: case CmdType::PDEP: k.entering = e.cmd == CmdType::PDEA ? PDA : PDP; push(std::max(now, earliest(k)), PDENTER, e.rank); break;
        case CmdType::PDXA: case CmdType::PDXP: k.exiting = true; push(std::max(now, earliest(k)), PDEXIT, e.rank); break;
        default: break;
    }
}
void RefCore::fill(Snap& s) const {
    s.bank.clear(); s.rank.clear();
    for (auto& k : r) { for (auto& b : k.b) s.bank.push_back(b.c); s.rank.push_back(k.c); }
}
u64 RefCore::stateHash() const {
    u64 h = 1469598103934665603ull; auto mix = [&](u64 v) { h = (h ^ v) * 1099511628211ull; };
    mix((u64)sp->std_);
    for (auto& k : r) {
        mix(k.pd); mix(k.entering); mix(k.exiting); mix(k.sref); mix(k.srefPending); mix(k.dsm);
        u64 n[4] = {0, 0, 0, 0}; for (auto& b : k.b) { n[0] += b.open; n[1] += b.refreshing; n[2] += b.apPending; }
        for (auto v : n) mix(std::min<u64>(v, 4));
    }
    for (auto& e : q) { mix(e.k); mix(std::min<u64>(e.t - std::min(e.t, now), 3)); }
    return h;
}
