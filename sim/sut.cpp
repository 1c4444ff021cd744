#include "sut.h"
#include <cmath>
#include <cstdlib>
#include <DRAMPower/command/Command.h>
#include <DRAMPower/simconfig/simconfig.h>
#include <DRAMPower/standards/ddr4/DDR4.h>
#include <DRAMPower/standards/ddr5/DDR5.h>
#include <DRAMPower/standards/lpddr4/LPDDR4.h>
#include <DRAMPower/standards/lpddr5/LPDDR5.h>
#include <DRAMPower/standards/lpddr6/LPDDR6.h>
#include <DRAMPower/standards/lpddr6/LPDDR6Command.h>
#include <DRAMPower/util/extensions.h>
#include <DRAMUtils/memspec/standards/MemSpecDDR4.h>
#include <DRAMUtils/memspec/standards/MemSpecDDR5.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR4.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR5.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR6.h>
using namespace DRAMPower;

// ---------------------------------------------------------------- flattening
static std::array<u64, 5> fb(const util::bus_stats_t& s) { return {s.ones, s.zeroes, s.bit_changes, s.ones_to_zeroes, s.zeroes_to_ones}; }
static std::array<u64, Snap::NCNT> fc(const CycleStats& c) {
    return {c.counter.act, c.counter.pre, c.counter.reads, c.counter.writes, c.counter.refAllBank, c.counter.refPerBank, c.counter.refPerTwoBanks,
            c.counter.refDualBanks, c.counter.refSameBank, c.counter.readAuto, c.counter.writeAuto,
            c.cycles.act, c.cycles.pre, c.cycles.powerDownAct, c.cycles.powerDownPre, c.cycles.selfRefresh, c.cycles.deepSleepMode,
            c.prepos.readMerged, c.prepos.readMergedTime, c.prepos.writeMerged, c.prepos.writeMergedTime, c.prepos.readSeamless, c.prepos.writeSeamless};
}
Snap flatten(const SimulationStats& s) {
    Snap o;
    o.bus = {fb(s.commandBus), fb(s.readBus), fb(s.writeBus), fb(s.clockStats), fb(s.wClockStats), fb(s.readDBI), fb(s.writeDBI),
             fb(s.togglingStats.read), fb(s.togglingStats.write), fb(s.readDQSStats), fb(s.writeDQSStats)};
    for (auto& b : s.bank) o.bank.push_back(fc(b));
    for (auto& r : s.rank_total) o.rank.push_back(fc(r));
    return o;
}
SimulationStats unflatten(const Snap& o) {
    SimulationStats s; auto B = [&](int i) { util::bus_stats_t b; b.ones = o.bus[i][0]; b.zeroes = o.bus[i][1]; b.bit_changes = o.bus[i][2]; b.ones_to_zeroes = o.bus[i][3]; b.zeroes_to_ones = o.bus[i][4]; return b; };
    s.commandBus = B(0); s.readBus = B(1); s.writeBus = B(2); s.clockStats = B(3); s.wClockStats = B(4); s.readDBI = B(5); s.writeDBI = B(6); s.togglingStats.read = B(7); s.togglingStats.write = B(8); s.readDQSStats = B(9); s.writeDQSStats = B(10);
    auto C = [](const std::array<u64, Snap::NCNT>& v) {
        CycleStats c; uint64_t* p[] = {&c.counter.act, &c.counter.pre, &c.counter.reads, &c.counter.writes, &c.counter.refAllBank, &c.counter.refPerBank, &c.counter.refPerTwoBanks, &c.counter.refDualBanks, &c.counter.refSameBank, &c.counter.readAuto, &c.counter.writeAuto,
            &c.cycles.act, &c.cycles.pre, &c.cycles.powerDownAct, &c.cycles.powerDownPre, &c.cycles.selfRefresh, &c.cycles.deepSleepMode, &c.prepos.readMerged, &c.prepos.readMergedTime, &c.prepos.writeMerged, &c.prepos.writeMergedTime, &c.prepos.readSeamless, &c.prepos.writeSeamless};
        for (int i = 0; i < Snap::NCNT; ++i) *p[i] = v[i];
        return c; };
    for (auto& b : o.bank) s.bank.push_back(C(b)); for (auto& b : o.rank) s.rank_total.push_back(C(b));
    return s;
}
std::string Snap::diff(const Snap& o) const {
    std::ostringstream m;
    if (bank.size() != o.bank.size() || rank.size() != o.rank.size()) { m << "sizes " << bank.size() << "/" << rank.size() << " vs " << o.bank.size() << "/" << o.rank.size(); return m.str(); }
    for (size_t i = 0; i < bank.size(); ++i) for (int k = 0; k < NCNT; ++k) if (bank[i][k] != o.bank[i][k]) { m << "bank[" << i << "]." << cntName(k) << " " << bank[i][k] << " vs " << o.bank[i][k]; return m.str(); }
    for (size_t i = 0; i < rank.size(); ++i) for (int k = 0; k < NCNT; ++k) if (rank[i][k] != o.rank[i][k]) { m << "rank[" << i << "]." << cntName(k) << " " << rank[i][k] << " vs " << o.rank[i][k]; return m.str(); }
    for (int b = 0; b < NBUS; ++b) for (int f = 0; f < 5; ++f) if (bus[b][f] != o.bus[b][f]) { m << busName(b) << "." << fieldName(f) << " " << bus[b][f] << " vs " << o.bus[b][f]; return m.str(); }
    return "";
}
void Snap::mix(Outcome& o) const {
    for (auto& b : bus) for (auto v : b) o.mixin(v);
    for (auto& b : bank) for (auto v : b) o.mixin(v);
    for (auto& b : rank) for (auto v : b) o.mixin(v);
}
std::vector<std::pair<std::string, double>> Ener::flat() const {
    std::vector<std::pair<std::string, double>> v;
    for (size_t i = 0; i < bank.size(); ++i) for (int k = 0; k < NBE; ++k) v.emplace_back("bank[" + std::to_string(i) + "]." + beName(k), bank[i][k]);
    for (int k = 0; k < NSH; ++k) v.emplace_back(shName(k), sh[k]);
    for (int k = 0; k < NIF; ++k) v.emplace_back(ifName(k), ifc[k]);
    v.emplace_back("core total", coreTotal); v.emplace_back("interface total", ifTotal);
    return v;
}
std::vector<double> Ener::values() const {
    std::vector<double> v; v.reserve(bank.size() * NBE + NSH + NIF + 2);
    for (auto& b : bank) v.insert(v.end(), b.begin(), b.end());
    v.insert(v.end(), sh.begin(), sh.end()); v.insert(v.end(), ifc.begin(), ifc.end()); v.push_back(coreTotal); v.push_back(ifTotal);
    return v;
}
static u64 dbits(double d) { u64 u; if (d != d) return 0x7ff8000000000000ull; std::memcpy(&u, &d, 8); return u; }
bool Ener::same(const Ener& o) const {
    auto eq = [](double a, double b) { return dbits(a) == dbits(b); };
    if (bank.size() != o.bank.size()) return false;
    for (size_t i = 0; i < bank.size(); ++i) for (int k = 0; k < NBE; ++k) if (!eq(bank[i][k], o.bank[i][k])) return false;
    for (int k = 0; k < NSH; ++k) if (!eq(sh[k], o.sh[k])) return false;
    for (int k = 0; k < NIF; ++k) if (!eq(ifc[k], o.ifc[k])) return false;
    return eq(coreTotal, o.coreTotal) && eq(ifTotal, o.ifTotal);
}
std::string Ener::diff(const Ener& o) const {
    if (same(o)) return "";
    auto a = flat(), b = o.flat(); std::ostringstream m; m.precision(17);
    if (a.size() != b.size()) return "number of banks differs";
    for (size_t i = 0; i < a.size(); ++i) if (dbits(a[i].second) != dbits(b[i].second)) { m << a[i].first << " " << a[i].second << " vs " << b[i].second; break; }
    return m.str();
}
std::string Ener::diffTol(const Ener& o, double rel, double ab) const {
    auto a = values(), b = o.values(); std::ostringstream m; m.precision(17);
    if (a.size() != b.size()) return "number of banks differs";
    for (size_t i = 0; i < a.size(); ++i) {
        double x = a[i], y = b[i];
        if (!(std::fabs(x - y) <= rel * std::max(std::fabs(x), std::fabs(y)) + ab)) { m << nameOf(i) << " " << x << " vs " << y; return m.str(); }
    }
    return "";
}
void Ener::mix(Outcome& o) const { for (double v : values()) o.mixin(dbits(v)); }

// ---------------------------------------------------------------- the real library
void (*assignDDR5)(DDR5& to, DDR5& from, bool move) = nullptr;          // set by comp_assign.cpp where it compiles
namespace {
template <class D, class M, class S> class SutT final : public Sut {
    std::shared_ptr<const M> ms; config::SimConfig cfg; std::unique_ptr<D> d;
    SutT(std::shared_ptr<const M> m, config::SimConfig c, std::unique_ptr<D> x) : ms(std::move(m)), cfg(std::move(c)), d(std::move(x)) {}
    template <class F, class G> void withCommand(const Op& e, F f, G g) {
        std::vector<uint8_t> buf = e.data;                     // caller-owned buffer, gone after the call
        Command c(e.t, e.cmd, TargetCoordinate(e.bank, e.bg, e.rank, e.row, e.col), buf.empty() ? nullptr : buf.data(), e.bits);
        struct Scribble { std::vector<uint8_t>& b; ~Scribble() { for (auto& x : b) x = (uint8_t)(x ^ 0xA5); } } scribble{buf};
        if constexpr (std::is_same_v<D, LPDDR6>) if (u64 second = e.ev == Ev::REJ ? e.inst : e.a; second || (e.ev == Ev::CMD && e.b)) {             // a target only LPDDR6 knows
            LPDDR6TargetCoordinate x{TargetCoordinate(e.bank, e.bg, e.rank, e.row, e.col)}; if (second) x.dbank = second - 1; if (e.ev == Ev::CMD) x.subChannel = e.b;
            g(LPDDR6Command(c.timestamp, c.type, x, c.data, c.sz_bits)); return;
        }
        f(c);
    }
public:
    explicit SutT(const Spec& s) {
        S shim = s.mem.get<S>();
        ms = std::make_shared<const M>(shim);
        if (!s.toggle.is_null()) cfg.toggleRateDefinition = s.toggle.get<DRAMUtils::Config::ToggleRateDefinition>();
        d = std::make_unique<D>(*ms, cfg);
    }
    void cmd(const Op& e) override { withCommand(e, [&](const Command& c) { if (e.t % 4 == 3) d->doCoreInterfaceCommand(c); else d->doCommand(c); }, [&](const auto& c) { d->getCore().doCommand(c); d->getInterface().doCommand(c); }); }
    void core(const Op& e) override { withCommand(e, [&](const Command& c) { d->doCoreCommand(c); }, [&](const auto& c) { d->getCore().doCommand(c); }); }
    void iface(const Op& e) override { withCommand(e, [&](const Command& c) { d->doInterfaceCommand(c); }, [&](const auto& c) { d->getInterface().doCommand(c); }); }
    Snap stats(u64 t) override { return flatten(d->getWindowStats(t)); }
    static Ener fe(const energy_t& c, const interface_energy_info_t& i) {
        Ener o;
        for (auto& b : c.bank_energy) o.bank.push_back({b.E_act, b.E_pre, b.E_bg_act, b.E_bg_pre, b.E_RD, b.E_WR, b.E_RDA, b.E_WRA, b.E_pre_RDA, b.E_pre_WRA, b.E_ref_AB, b.E_ref_PB, b.E_ref_SB, b.E_ref_2B, b.E_ref_DB});
        o.sh = {c.E_bg_act_shared, c.E_PDNA, c.E_PDNP, c.E_sref, c.E_dsm, c.E_refab};
        o.ifc = {i.controller.dynamicEnergy, i.controller.staticEnergy, i.dram.dynamicEnergy, i.dram.staticEnergy};
        o.coreTotal = c.total(); o.ifTotal = i.total();
        return o;
    }
    Ener energy(u64 t) override { auto c = d->calcCoreEnergy(t); auto i = d->calcInterfaceEnergy(t); return fe(c, i); }
    Ener energyOfStats(u64 t) override { auto s = d->getWindowStats(t); return fe(d->calcCoreEnergyStats(s), d->calcInterfaceEnergyStats(s)); }
    Snap statsNow() override { return flatten(d->getStats()); }
    Ener energyOf(const Snap& s) override { auto x = unflatten(s); return fe(d->calcCoreEnergyStats(x), d->calcInterfaceEnergyStats(x)); }
    double totalEnergy(u64 t) override { return d->getTotalEnergy(t); }
    u64 last() const override { return d->getLastCommandTime(); }
    bool serializable() const override { return d->isSerializable(); }
    void save(std::ostream& s) const override { d->serialize(s); }
    void load(std::istream& s) override { d->deserialize(s); }
    bool dbi(u64 t, bool on) override { bool r = false; d->getExtensionManager().template withExtension<extensions::DBI>([&](auto& e) { r = e.enable(t, on); }); return r; }
    bool dbiEnabled() override { bool r = false; d->getExtensionManager().template withExtension<extensions::DBI>([&](auto& e) { r = e.isEnabled(); }); return r; }
    bool meta(u64 a, u64 b) override { bool r = false; d->getExtensionManager().template withExtension<extensions::MetaData>([&](auto& e) { e.setMetaData((uint16_t)a, (uint16_t)b); r = true; }); return r; }
    std::pair<u64, u64> metaGet() override { std::pair<u64, u64> r{~0ull, ~0ull}; d->getExtensionManager().template withExtension<extensions::MetaData>([&](auto& e) { auto [a, b] = e.getMetaData(); r = {a, b}; }); return r; }
    std::unique_ptr<Sut> fresh() const override { return std::unique_ptr<Sut>(new SutT(ms, cfg, std::make_unique<D>(*ms, cfg))); }
    std::unique_ptr<Sut> copy() const override { return std::unique_ptr<Sut>(new SutT(ms, cfg, std::make_unique<D>(*d))); }
    std::unique_ptr<Sut> moved() override { return std::unique_ptr<Sut>(new SutT(ms, cfg, std::make_unique<D>(std::move(*d)))); }
    Std std() const override { return ::std::is_same_v<D, DDR4> ? Std::DDR4 : std::is_same_v<D, DDR5> ? Std::DDR5 : std::is_same_v<D, LPDDR4> ? Std::LPDDR4 : std::is_same_v<D, LPDDR5> ? Std::LPDDR5 : Std::LPDDR6; }
    bool assignTo(const SutT* o, bool move) {
        if constexpr (::std::is_same_v<D, DDR5>) if (o && assignDDR5) { assignDDR5(*d, *o->d, move); ms = o->ms; cfg = o->cfg; return true; }
        return false;
    }
    bool assign(const Sut& x) override { return assignTo(dynamic_cast<const SutT*>(&x), false); }
    bool moveAssign(Sut& x) override { return assignTo(dynamic_cast<const SutT*>(&x), true); }
    std::array<u64, 3> arch() override { auto c = d->getCLIArchitectureConfig(); return {c.deviceCount, c.rankCount, c.bankCount}; }
};
}
std::unique_ptr<Sut> Sut::make(const Spec& s) {
    namespace MS = DRAMUtils::MemSpec;
    switch (s.std_) {
        case Std::DDR4: return std::make_unique<SutT<DDR4, MemSpecDDR4, MS::MemSpecDDR4>>(s);
        case Std::DDR5: return std::make_unique<SutT<DDR5, MemSpecDDR5, MS::MemSpecDDR5>>(s);
        case Std::LPDDR4: return std::make_unique<SutT<LPDDR4, MemSpecLPDDR4, MS::MemSpecLPDDR4>>(s);
        case Std::LPDDR5: return std::make_unique<SutT<LPDDR5, MemSpecLPDDR5, MS::MemSpecLPDDR5>>(s);
        default: return std::make_unique<SutT<LPDDR6, MemSpecLPDDR6, MS::MemSpecLPDDR6>>(s);
    }
}
