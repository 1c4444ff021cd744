#include "refenergy.h"
#include <cmath>

namespace {
struct Domain { double V, i0, i1 /*one bank active*/, i2n, i2p, i3p, iB, iRho, i4r, i4w, iBase /*subtracted from read/write*/, i6, i6ds = 0, iBeta, iTheta; double refAB, refX = 0; };
struct Model { std::vector<Domain> dom; double tCK, tRP, tRAS, tBurst, tRFC, tRFCx = 0; int refKind = 0; double refXWeight = 1; };

Model model(const Spec& s) {
    Model m; bool lp = s.std_ != Std::DDR4 && s.std_ != Std::DDR5;
    double tck = s.timd("tCK"), B = (double)s.banks();
    m.tCK = tck; m.tRAS = s.tim("RAS") * tck; m.tRP = s.tim(lp ? "RPpb" : "RP") * tck;
    double beats = (double)s.bl() / (double)s.rate();
    double wck = (s.std_ == Std::LPDDR5 || s.std_ == Std::LPDDR6) ? (double)s.tim("WCK2CK") : 1.0;
    m.tBurst = beats * tck / wck;
    double rho = 1; if (s.mem.contains("bankwisespec") && s.mem["bankwisespec"].contains("factRho")) rho = s.mem["bankwisespec"]["factRho"].get<double>();
    int refMode = s.mem["memarchitecturespec"].value("RefMode", 1);
    bool mbg = s.std_ == Std::LPDDR5 && s.groups() > 1;
    std::vector<std::array<std::string, 3>> doms;    // voltage, current prefix, suffix
    switch (s.std_) {
        case Std::DDR4: case Std::DDR5: doms = {{"vdd", "idd", ""}, {"vpp", "ipp", ""}}; break;
        case Std::LPDDR4: doms = {{"vdd1", "idd", "1"}, {"vdd2", "idd", "2"}}; break;
        case Std::LPDDR5: doms = {{"vdd1", "idd", "1"}, {"vdd2h", "idd", "2h"}, {"vdd2l", "idd", "2l"}}; break;
        default: doms = {{"vdd1", "idd", "1"}, {"vdd2c", "idd", "2c"}, {"vdd2d", "idd", "2d"}}; break;
    }
    if (s.std_ == Std::DDR4) m.tRFC = s.tim(refMode == 2 ? "RFC2" : refMode == 4 ? "RFC4" : "RFC1") * tck;
    else if (s.std_ == Std::DDR5) { m.tRFC = s.tim(refMode == 2 ? "RFC2_slr" : "RFC1_slr") * tck; m.tRFCx = s.tim("RFCsb_slr") * tck; }
    else { m.tRFC = s.tim("RFCab") * tck; m.tRFCx = s.tim(s.std_ == Std::LPDDR6 ? "RFCdb" : "RFCpb") * tck; }
    for (auto& [v, pre, suf] : doms) {
        auto I = [&, pre = pre, suf = suf](const std::string& n) { return s.pw(pre + n + suf); };
        Domain d{}; d.V = s.pw(v); d.i0 = I("0"); d.i2n = I("2n"); d.i2p = I("2p"); d.i3p = I("3p"); d.i4r = I("4r"); d.i4w = I("4w");
        d.i6 = I(lp ? "6" : "6n"); if (s.std_ == Std::LPDDR5 || s.std_ == Std::LPDDR6) d.i6ds = I("6ds");
        d.iBeta = s.pwHas("iBeta_" + v) ? s.pw("iBeta_" + v) : d.i0;
        d.iTheta = (d.i0 * (m.tRP + m.tRAS) - d.iBeta * m.tRP) / m.tRAS;
        double i3n = I("3n");
        if (!lp) {                                   // IDD3N: all banks active
            d.iB = i3n; d.iRho = d.i2n + rho * (i3n - d.i2n); d.i1 = (i3n + (B - 1) * d.iRho) / B; d.iBase = d.iB;
            d.refAB = I(s.std_ == Std::DDR4 ? (refMode == 2 ? "5F2" : refMode == 4 ? "5F4" : "5B") : (refMode == 2 ? "5f" : "5b")) - d.iB;
            if (s.std_ == Std::DDR5) { double G = (double)s.groups(); d.refX = (I("5c") - (d.iRho + (d.i1 - d.iRho) * G)) / G; }
        } else {                                     // IDD3N: one bank active
            d.i1 = i3n; d.iRho = (B * rho * i3n + (1 - rho) * d.i2n) / (B * rho + (1 - rho)); d.iB = d.iRho + B * (d.i1 - d.iRho);
            double i2 = 2 * d.i1 - d.iRho;
            d.iBase = s.std_ == Std::LPDDR6 || mbg ? i2 : d.i1;
            d.refAB = I("5") - d.iB;
            double refi8 = s.tim("REFI") * tck / 8, pb = I(s.std_ == Std::LPDDR6 ? "5pdb" : "5pb");
            d.refX = (pb * refi8 - d.i2n * (refi8 - m.tRFCx)) / m.tRFCx;   // current while such a refresh runs; baseline subtracted by the caller
        }
        m.dom.push_back(d);
    }
    return m;
}
}

Ener refEnergy(const Spec& s, const Snap& st) {
    Model m = model(s); Ener e; bool lp = s.std_ != Std::DDR4 && s.std_ != Std::DDR5;
    u64 B = s.banks(), D = s.devices(), R = s.ranks(); double tck = m.tCK;
    e.bank.assign(B * D * R, {});
    for (auto& d : m.dom) for (u64 r = 0; r < R; ++r) {
        auto& rk = st.rank.at(r);
        for (u64 v = 0; v < D; ++v) for (u64 b = 0; b < B; ++b) {
            auto& c = st.bank.at(r * B + b); auto& o = e.bank[(r * D + v) * B + b];
            double pre = d.V * (d.iBeta - d.i2n) * m.tRP, rd = d.V * (d.i4r - d.iBase) * m.tBurst, wr = d.V * (d.i4w - d.iBase) * m.tBurst;
            o[Ener::ACT] += d.V * (d.iTheta - d.i1) * m.tRAS * c[Snap::ACT];
            o[Ener::PRE] += pre * c[Snap::PRE];
            o[Ener::PRE_RDA] += pre * c[Snap::RDA]; o[Ener::PRE_WRA] += pre * c[Snap::WRA];
            o[Ener::BGACT] += d.V * (d.i1 - d.iRho) * tck * c[Snap::CACT];
            o[Ener::BGPRE] += d.V * d.i2n * tck * rk[Snap::CPRE] / (double)B;
            o[Ener::RD] += rd * c[Snap::RD]; o[Ener::RDA] += rd * c[Snap::RDA];
            o[Ener::WR] += wr * c[Snap::WR]; o[Ener::WRA] += wr * c[Snap::WRA];
            o[Ener::REFAB] += d.V * d.refAB * m.tRFC * c[Snap::REFAB] / (double)B;
            double i2 = 2 * d.i1 - d.iRho;
            if (s.std_ == Std::DDR5) o[Ener::REFSB] += d.V * d.refX * m.tRFCx * c[Snap::REFSB];
            if (s.std_ == Std::LPDDR4 || s.std_ == Std::LPDDR5) o[Ener::REFPB] += d.V * (d.refX - d.i1) * m.tRFCx * c[Snap::REFPB];
            if (s.std_ == Std::LPDDR5) o[Ener::REF2B] += 0.5 * d.V * (d.refX - i2) * m.tRFCx * c[Snap::REF2B];
            if (s.std_ == Std::LPDDR6) o[Ener::REFDB] += 0.5 * d.V * (d.refX - i2) * m.tRFCx * c[Snap::REFDB];
        }
        e.sh[Ener::SHARED] += D * d.V * d.iRho * tck * rk[Snap::CACT];
        e.sh[Ener::PDNA] += D * d.V * d.i3p * tck * rk[Snap::CPDA];
        e.sh[Ener::PDNP] += D * d.V * d.i2p * tck * rk[Snap::CPDP];
        e.sh[Ener::SREF] += D * d.V * d.i6 * tck * rk[Snap::CSREF];
        if (s.std_ == Std::LPDDR5 || s.std_ == Std::LPDDR6) e.sh[Ener::DSM] += D * d.V * d.i6ds * tck * rk[Snap::CDSM];
    }
    // interface: per line, level times time when terminated, plus charge per rising edge
    double vq = s.pw("vddq"); int level = lp ? 0 : 1;       // LPDDR terminates to ground (ones cost), DDR to VDDQ (zeroes cost)
    auto line = [&](int bus, const char* n, bool dram, double slot) {
        double st_ = s.imp(std::string(n) + "_termination").get<bool>() ? (double)st.bus[bus][level] * vq * vq / s.imp(std::string(n) + "_R_eq").get<double>() * slot : 0;
        double dy = (double)st.bus[bus][4] * s.imp(std::string(n) + "_dyn_E").get<double>();
        e.ifc[dram ? Ener::DSTAT : Ener::CSTAT] += st_; e.ifc[dram ? Ener::DDYN : Ener::CDYN] += dy;
    };
    double half = tck / 2, beat = tck / (double)s.rate();
    bool l56 = s.std_ == Std::LPDDR5 || s.std_ == Std::LPDDR6;
    line(Snap::CLK, "ck", false, half);
    line(Snap::CMD, "ca", false, l56 ? tck / 2 : tck);
    for (int b : {Snap::RBUS, Snap::RTOG}) line(b, "rdq", true, beat);
    for (int b : {Snap::WBUS, Snap::WTOG}) line(b, "wdq", false, beat);
    line(Snap::RDQS, "rdqs", true, beat);
    if (l56) line(Snap::WCK, "wck", false, tck / (double)s.tim("WCK2CK") / 2); else line(Snap::WDQS, "wdqs", false, beat);
    if (s.std_ == Std::DDR4 || s.std_ == Std::LPDDR4 || s.std_ == Std::LPDDR5) { line(Snap::RDBI, "rdbi", true, beat); line(Snap::WDBI, "wdbi", false, beat); }
    if (s.std_ == Std::DDR4) {
        double pairs = s.width() == 16 ? 2 : 1; auto& pp = s.mem["prepostamble"];
        u64 n[2] = {0, 0}, seam[2] = {0, 0};
        for (auto& c : st.bank) { n[0] += c[Snap::RD] + c[Snap::RDA]; n[1] += c[Snap::WR] + c[Snap::WRA]; }
        for (auto& c : st.rank) { seam[0] += c[Snap::PRS]; seam[1] += c[Snap::PWS]; }
        for (int w = 0; w < 2; ++w) {
            const char* l = w ? "wdqs" : "rdqs"; std::string d = w ? "write_" : "read_";
            if (!s.imp(std::string(l) + "_termination").get<bool>()) continue;
            double c = pairs * (double)(n[w] - std::min(n[w], seam[w]));
            e.ifc[w ? Ener::CSTAT : Ener::DSTAT] += c * pp[d + "zeroes"].get<double>() * vq * vq / s.imp(std::string(l) + "_R_eq").get<double>() * tck;
            e.ifc[w ? Ener::CDYN : Ener::DDYN] += c * (double)pp[d + "zeroes_to_ones"].get<u64>() * s.imp(std::string(l) + "_dyn_E").get<double>();
        }
    }
    for (auto& b : e.bank) for (int k = 0; k < Ener::NBE; ++k) if (k != Ener::PRE_RDA && k != Ener::PRE_WRA) e.coreTotal += b[k];
    for (double x : e.sh) e.coreTotal += x;
    for (double x : e.ifc) e.ifTotal += x;
    return e;
}

bool energyCoefficientsNonNegative(const Spec& s) {
    Model m = model(s);
    for (auto& d : m.dom) {
        double i2 = 2 * d.i1 - d.iRho, base = s.std_ == Std::LPDDR4 ? d.i1 : i2;
        double rx = s.std_ == Std::DDR4 ? 0 : s.std_ == Std::DDR5 ? d.refX : d.refX - std::max(base, d.i1);
        for (double x : {d.V, d.iTheta - d.i1, d.iBeta - d.i2n, d.i1 - d.iRho, d.i2n, d.i4r - d.iBase, d.i4w - d.iBase, d.refAB, rx, d.iRho, d.i3p, d.i2p, d.i6, d.i6ds}) if (!(x >= 0)) return false;
    }
    return true;
}
