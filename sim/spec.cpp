// Random memory configurations.
#include "gen.h"

static double cur(Rng& r) { return r.chance(6) ? 0.0 : r.real(0.001, 0.3); }

Spec randomSpec(Rng& r, Std s, const SpecOpt& o) {
    Spec sp; sp.std_ = s;
    json a, t, p, imp;
    u64 banks, groups, width, dev, bl, rate = 2;
    switch (s) {
        case Std::DDR4: { static const u64 g[][2] = {{8, 2}, {16, 4}, {8, 4}, {4, 2}, {16, 2}}; auto& x = g[r.below(5)]; banks = x[0]; groups = x[1]; width = r.pick<u64>({4, 8, 8, 16}); bl = 8; break; }
        case Std::DDR5: { static const u64 g[][2] = {{16, 4}, {32, 8}, {16, 2}, {8, 4}, {8, 2}}; auto& x = g[r.below(5)]; banks = x[0]; groups = x[1]; width = r.pick<u64>({4, 8, 8, 16}); bl = 16; break; }
        case Std::LPDDR4: { banks = 8; groups = 1; width = r.pick<u64>({8, 16, 16}); bl = r.pick<u64>({16, 16, 32}); break; }
        case Std::LPDDR5: { static const u64 g[][2] = {{16, 4}, {16, 1}, {8, 1}}; auto& x = g[r.below(3)]; banks = x[0]; groups = x[1]; width = r.pick<u64>({8, 16}); bl = r.pick<u64>({16, 16, 32}); break; }
        default: { banks = 16; groups = 4; width = 12; bl = r.pick<u64>({24, 24, 48}); break; }
    }
    u64 ranks = r.chance(3) ? 5 + r.below(14) : r.pick<u64>({1, 1, 2, 2, 3, 4});
    if (r.chance(12)) rate = r.pick<u64>({1, 4, 8});
    dev = s == Std::LPDDR6 ? r.pick<u64>({1, 1, 1, 0}) : r.pick<u64>({1, 1, 1, 2, 4, 8, 0});
    if (s != Std::LPDDR6 && r.below(150) == 0) dev = o.smallBus ? r.pick<u64>({9, 16}) : r.pick<u64>({16, 17, 32, 64, 100, 4096 / width});
    else if (o.smallBus) dev = s == Std::LPDDR6 ? 1 : r.pick<u64>({1, 1, 2});
    a = {{"nbrOfBanks", banks}, {"nbrOfRows", 65536}, {"nbrOfColumns", 1024}, {"nbrOfDevices", dev}, {"burstLength", bl}, {"dataRate", rate}, {"width", width}, {"nbrOfBankGroups", groups}, {"nbrOfRanks", ranks}};
    bool wckOn = r.chance(50);
    if (s == Std::DDR4) a["RefMode"] = r.pick<int>({1, 1, 2, 4});
    if (s == Std::DDR5) a["RefMode"] = r.pick<int>({1, 2});
    if (s == Std::LPDDR5 || s == Std::LPDDR6) a["WCKalwaysOn"] = wckOn;

    // timings: mostly small and colliding, sometimes realistic, rarely large
    u64 scale = r.pick<u64>({1, 1, 1, 4, 20});
    auto tm = [&](u64 lo, u64 hi) { return lo + r.below((hi - lo + 1)) * (scale > 4 ? 4 : 1); };
    t["tCK"] = r.pick<double>({1e-9, 6.25e-10, 1.25e-9, 5e-10, 7.692307692307692e-10});
    u64 ras = tm(1, 12), rcd = tm(0, 6), rp = tm(1, 6), wl = tm(0, 6), wr = tm(0, 8), rtp = tm(0, 6);
    u64 rfc = tm(1, 14), rfc2 = tm(1, 14), rfc4 = tm(1, 14), rfcx = tm(1, 10);
    if (r.chance(15)) rfc = ras;                                    // provoke equal due times
    if (r.chance(15)) rfcx = rp;
    t["RAS"] = ras; t["WL"] = wl; t["WR"] = wr;
    switch (s) {
        case Std::DDR4: t["RCD"] = rcd; t["RTP"] = rtp; t["RP"] = rp; t["AL"] = r.chance(50) ? 0 : tm(0, 4); t["RFC1"] = rfc; t["RFC2"] = rfc2; t["RFC4"] = rfc4; break;
        case Std::DDR5: t["RCD"] = rcd; t["RTP"] = rtp; t["RP"] = rp; t["RFCsb_slr"] = rfcx; t["RFC1_slr"] = rfc; t["RFC2_slr"] = rfc2; break;
        case Std::LPDDR4: t["RCD"] = rcd; t["RL"] = tm(0, 6); t["RTP"] = rtp; t["RPpb"] = rp; t["RFCpb"] = rfcx; t["RFCab"] = rfc; t["REFI"] = tm(20, 60); break;
        case Std::LPDDR5: t["WCK2CK"] = 1 + r.below(std::min<u64>(2, rate)); t["RCD_S"] = rcd; t["RBTP"] = rtp; t["RPpb"] = rp; t["RFCpb"] = rfcx; t["RFCab"] = rfc; t["REFI"] = tm(20, 60); break;
        default: t["WCK2CK"] = 1 + r.below(std::min<u64>(2, rate)); t["RCD_r"] = rcd; t["RCD_w"] = tm(0, 6); t["RBTP"] = rtp; t["RPpb"] = rp; t["RFCdb"] = rfcx; t["RFCab"] = rfc; t["REFI"] = tm(20, 60); break;
    }
    auto volts = [&](std::initializer_list<const char*> n) { for (auto k : n) p[k] = r.chance(5) ? 0.0 : r.real(0.4, 2.6); };
    auto currents = [&](std::initializer_list<const char*> base, std::initializer_list<const char*> suf) { for (auto b : base) for (auto x : suf) p[std::string(b) + x] = cur(r); };
    std::vector<std::string> lines; std::vector<std::string> betas;
    switch (s) {
        case Std::DDR4: volts({"vdd", "vpp", "vddq"}); currents({"idd", "ipp"}, {"0", "2n", "3n", "4r", "4w", "6n", "2p", "3p", "5B", "5F2", "5F4"}); betas = {"iBeta_vdd", "iBeta_vpp"}; lines = {"ck", "ca", "rdq", "wdq", "wdqs", "rdqs", "wdbi", "rdbi"}; break;
        case Std::DDR5: volts({"vdd", "vpp", "vddq"}); currents({"idd", "ipp"}, {"0", "2n", "3n", "4r", "4w", "6n", "2p", "3p", "5b", "5f", "5c"}); betas = {"iBeta_vdd", "iBeta_vpp"}; lines = {"ck", "ca", "rdq", "wdq", "wdqs", "rdqs"}; break;
        case Std::LPDDR4: volts({"vdd1", "vdd2", "vddq"}); currents({"idd0", "idd2n", "idd3n", "idd4r", "idd4w", "idd5", "idd5pb", "idd6", "idd2p", "idd3p"}, {"1", "2"}); betas = {"iBeta_vdd1", "iBeta_vdd2"}; lines = {"ck", "ca", "rdq", "wdq", "wdqs", "rdqs", "wdbi", "rdbi"}; break;
        case Std::LPDDR5: volts({"vdd1", "vdd2h", "vdd2l", "vddq"}); currents({"idd0", "idd2n", "idd3n", "idd4r", "idd4w", "idd5", "idd5pb", "idd6", "idd6ds", "idd2p", "idd3p"}, {"1", "2h", "2l"}); betas = {"iBeta_vdd1", "iBeta_vdd2h", "iBeta_vdd2l"}; lines = {"ck", "ca", "rdq", "wdq", "wck", "rdqs", "wdbi", "rdbi"}; break;
        default: volts({"vdd1", "vdd2c", "vdd2d", "vddq"}); currents({"idd0", "idd2n", "idd3n", "idd4r", "idd4w", "idd5", "idd5pdb", "idd6", "idd6ds", "idd2p", "idd3p"}, {"1", "2c", "2d"}); betas = {"iBeta_vdd1", "iBeta_vdd2c", "iBeta_vdd2d"}; lines = {"ck", "ca", "rdq", "wdq", "wck", "rdqs"}; break;
    }
    // active currents sit above the idle ones they are measured against, as in every real specification
    auto atLeast = [&](const std::string& hi, const std::string& lo) { if (p.contains(hi) && p.contains(lo) && p[hi].get<double>() < p[lo].get<double>()) p[hi] = p[lo].get<double>() + r.real(0, 0.05); };
    for (auto x : {"", "1", "2", "2h", "2l", "2c", "2d"}) for (auto i : {"idd", "ipp"}) {
        std::string pre = i, suf = x;
        atLeast(pre + "3n" + suf, pre + "2n" + suf);
        for (auto k : {"0", "4r", "4w", "5B", "5F2", "5F4", "5b", "5f", "5c", "5", "5pb", "5pdb"}) atLeast(pre + k + suf, pre + "3n" + suf);
        if (p.contains(pre + "0" + suf)) atLeast(pre + "0" + suf, pre + "2n" + suf);
    }
    if (r.chance(50)) for (auto& b : betas) { p[b] = 0.0; }
    if (r.chance(50)) for (auto& b : betas) { std::string base = b.substr(6); std::string lo = base == "vdd" ? "idd2n" : base == "vpp" ? "ipp2n" : "idd2n" + base.substr(3); p[b] = p[lo].get<double>() + r.real(0, 0.2); }
    else for (auto& b : betas) p.erase(b);
    for (auto& l : lines) { imp[l + "_termination"] = r.chance(60); imp[l + "_R_eq"] = r.real(10, 1e6); imp[l + "_dyn_E"] = r.chance(8) ? 0.0 : r.real(1e-13, 5e-12); }
    json m = {{"memoryId", "sim"}, {"memoryType", stdName(s)}, {"memarchitecturespec", a}, {"memtimingspec", t}, {"mempowerspec", p}, {"memimpedancespec", imp}};
    if (r.chance(60)) {
        json b; if (r.chance(80)) b["factRho"] = r.pick<double>({0.0, 0.25, 0.5, 1.0, 0.333});
        if (s == Std::LPDDR4 && r.chance(60)) { b["factSigma"] = r.real(0, 1); b["pasrMode"] = r.below(8); b["hasPASR"] = r.chance(50); }
        if (b.is_null()) b = json::object();
        m["bankwisespec"] = b;
    }
    if (s == Std::DDR4) {
        json q; for (auto d : {"read_", "write_"}) { std::string D = d; q[D + "zeroes"] = r.real(0, 3); q[D + "ones"] = r.real(0, 3); q[D + "zeroes_to_ones"] = r.below(4); q[D + "ones_to_zeroes"] = r.below(4); }
        q["readMinTccd"] = r.below(6); q["writeMinTccd"] = r.below(6); m["prepostamble"] = q;
    }
    if (s == Std::DDR5 && (rate != 2 || r.chance(40))) m["dataratespec"] = {{"ca_bus_rate", 2}, {"dq_bus_rate", rate}, {"dqs_bus_rate", rate}};
    sp.mem = m;
    if (o.toggling == 1 || (o.toggling == 2 && r.chance(30)))
        sp.toggle = {{"togglingRateRead", r.pick<double>({0.0, 0.25, 0.5, 0.7, 1.0})}, {"togglingRateWrite", r.pick<double>({0.0, 0.3, 0.5, 1.0})}, {"dutyCycleRead", r.pick<double>({0.0, 0.3, 0.5, 1.0})}, {"dutyCycleWrite", r.pick<double>({0.0, 0.6, 0.5, 1.0})},
                     {"idlePatternRead", r.chance(50) ? "L" : "H"}, {"idlePatternWrite", r.chance(50) ? "L" : "H"}};
    return sp;
}
