// The system under test: one simulated memory of the real library behind a type-erased interface.
#pragma once
#include "common.h"
#include <iosfwd>

// Everything getWindowStats reports, flattened.
struct Snap {
    enum Bus { CMD, RBUS, WBUS, CLK, WCK, RDBI, WDBI, RTOG, WTOG, RDQS, WDQS, NBUS };
    enum Cnt { ACT, PRE, RD, WR, REFAB, REFPB, REF2B, REFDB, REFSB, RDA, WRA, CACT, CPRE, CPDA, CPDP, CSREF, CDSM, PRM, PRMT, PWM, PWMT, PRS, PWS, NCNT };
    std::array<std::array<u64, 5>, NBUS> bus{};          // ones, zeroes, bit_changes, ones_to_zeroes, zeroes_to_ones
    std::vector<std::array<u64, NCNT>> bank, rank;
    static const char* busName(int i) { static const char* n[] = {"commandBus", "readBus", "writeBus", "clock", "wclock", "readDBI", "writeDBI", "togglingRead", "togglingWrite", "readDQS", "writeDQS"}; return n[i]; }
    static const char* fieldName(int i) { static const char* n[] = {"ones", "zeroes", "bit_changes", "ones_to_zeroes", "zeroes_to_ones"}; return n[i]; }
    static const char* cntName(int i) { static const char* n[] = {"act", "pre", "reads", "writes", "refAllBank", "refPerBank", "refPerTwoBanks", "refDualBanks", "refSameBank", "readAuto", "writeAuto", "cycles.act", "cycles.pre", "cycles.powerDownAct", "cycles.powerDownPre", "cycles.selfRefresh", "cycles.deepSleepMode", "readMerged", "readMergedTime", "writeMerged", "writeMergedTime", "readSeamless", "writeSeamless"}; return n[i]; }
    std::string diff(const Snap& o) const;               // empty when equal, otherwise the first difference
    bool operator==(const Snap& o) const { return bus == o.bus && bank == o.bank && rank == o.rank; }
    void mix(Outcome&) const;
};

struct Ener {
    enum BE { ACT, PRE, BGACT, BGPRE, RD, WR, RDA, WRA, PRE_RDA, PRE_WRA, REFAB, REFPB, REFSB, REF2B, REFDB, NBE };
    enum SH { SHARED, PDNA, PDNP, SREF, DSM, SREFAB, NSH };
    enum IF { CDYN, CSTAT, DDYN, DSTAT, NIF };
    std::vector<std::array<double, NBE>> bank;
    std::array<double, NSH> sh{};
    std::array<double, NIF> ifc{};
    double coreTotal = 0, ifTotal = 0;                   // as the library sums them
    static const char* beName(int i) { static const char* n[] = {"E_act", "E_pre", "E_bg_act", "E_bg_pre", "E_RD", "E_WR", "E_RDA", "E_WRA", "E_pre_RDA", "E_pre_WRA", "E_ref_AB", "E_ref_PB", "E_ref_SB", "E_ref_2B", "E_ref_DB"}; return n[i]; }
    static const char* shName(int i) { static const char* n[] = {"E_bg_act_shared", "E_PDNA", "E_PDNP", "E_sref", "E_dsm", "E_refab"}; return n[i]; }
    static const char* ifName(int i) { static const char* n[] = {"controller.dynamic", "controller.static", "dram.dynamic", "dram.static"}; return n[i]; }
    bool same(const Ener& o) const;                      // bitwise (NaN equals NaN)
    std::string diff(const Ener& o) const;               // exact
    std::string diffTol(const Ener& o, double rel, double abs) const;
    std::vector<std::pair<std::string, double>> flat() const;
    std::vector<double> values() const;                  // in the order of flat()
    std::string nameOf(size_t i) const { return flat().at(i).first; }
    void mix(Outcome&) const;
};

class Sut {
public:
    virtual ~Sut() = default;
    virtual void cmd(const Op&) = 0;                     // core and interface; payload buffer is overwritten afterwards
    virtual void core(const Op&) = 0;
    virtual void iface(const Op&) = 0;
    virtual Snap stats(u64 t) = 0;
    virtual Ener energy(u64 t) = 0;                      // core + interface, via calcCoreEnergy/calcInterfaceEnergy
    virtual Ener energyOfStats(u64 t) = 0;               // via getWindowStats + calc*Stats
    virtual double totalEnergy(u64 t) = 0;
    virtual Snap statsNow() = 0;                         // getStats: the window up to the last command
    virtual Ener energyOf(const Snap&) = 0;              // of statistics given from outside
    virtual u64 last() const = 0;
    virtual bool serializable() const = 0;
    virtual void save(std::ostream&) const = 0;
    virtual void load(std::istream&) = 0;
    virtual bool dbi(u64 t, bool on) = 0;                // false: refused / no such extension
    virtual bool dbiEnabled() = 0;
    virtual bool meta(u64 a, u64 b) = 0;                 // false: no such extension
    virtual std::pair<u64, u64> metaGet() = 0;
    virtual std::unique_ptr<Sut> fresh() const = 0;      // same configuration, new memory
    virtual std::unique_ptr<Sut> copy() const = 0;       // copy construction
    virtual std::unique_ptr<Sut> moved() = 0;            // move construction; this is left moved-from
    virtual Std std() const = 0;
    virtual bool assign(const Sut&) = 0;                 // copy assignment; false: not possible, as the memories of most standards cannot be assigned
    virtual bool moveAssign(Sut&) = 0;                   // move assignment; the other is left moved-from; false: not possible
    virtual std::array<u64, 3> arch() = 0;               // devices, ranks, banks as reported to the CLI
    static std::unique_ptr<Sut> make(const Spec&);
    void apply(const Op& e) { cmd(e); }
};
