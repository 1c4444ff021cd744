#ifndef SHIM_DRAMUTILS_MEMSPECLPDDR6_H
#define SHIM_DRAMUTILS_MEMSPECLPDDR6_H
#include <DRAMUtils/util/json_utils.h>
#include <DRAMUtils/util/types.h>
#include <cstdint>
namespace DRAMUtils::MemSpec {
struct MemArchitectureSpecTypeLPDDR6 {
    uint64_t nbrOfBanks{};
    uint64_t nbrOfRows{};
    uint64_t nbrOfColumns{};
    uint64_t nbrOfDevices{};
    uint64_t burstLength{};
    uint64_t dataRate{};
    uint64_t width{};
    uint64_t nbrOfBankGroups{};
    uint64_t nbrOfRanks{};
    bool WCKalwaysOn{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemArchitectureSpecTypeLPDDR6, nbrOfBanks, nbrOfRows, nbrOfColumns, nbrOfDevices, burstLength, dataRate, width, nbrOfBankGroups, nbrOfRanks, WCKalwaysOn)
struct MemTimingSpecTypeLPDDR6 {
    double tCK{};
    uint64_t WCK2CK{};
    uint64_t RAS{};
    uint64_t RCD_r{};
    uint64_t RCD_w{};
    uint64_t RBTP{};
    uint64_t WL{};
    uint64_t WR{};
    uint64_t RPpb{};
    uint64_t RFCdb{};
    uint64_t RFCab{};
    uint64_t REFI{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemTimingSpecTypeLPDDR6, tCK, WCK2CK, RAS, RCD_r, RCD_w, RBTP, WL, WR, RPpb, RFCdb, RFCab, REFI)
struct MemPowerSpecTypeLPDDR6 {
    double vdd1{};
    double vdd2c{};
    double vdd2d{};
    double vddq{};
    double idd01{};
    double idd2n1{};
    double idd3n1{};
    double idd4r1{};
    double idd4w1{};
    double idd51{};
    double idd5pdb1{};
    double idd61{};
    double idd6ds1{};
    double idd2p1{};
    double idd3p1{};
    double idd02c{};
    double idd2n2c{};
    double idd3n2c{};
    double idd4r2c{};
    double idd4w2c{};
    double idd52c{};
    double idd5pdb2c{};
    double idd62c{};
    double idd6ds2c{};
    double idd2p2c{};
    double idd3p2c{};
    double idd02d{};
    double idd2n2d{};
    double idd3n2d{};
    double idd4r2d{};
    double idd4w2d{};
    double idd52d{};
    double idd5pdb2d{};
    double idd62d{};
    double idd6ds2d{};
    double idd2p2d{};
    double idd3p2d{};
    std::optional<double> iBeta_vdd1{};
    std::optional<double> iBeta_vdd2c{};
    std::optional<double> iBeta_vdd2d{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemPowerSpecTypeLPDDR6, vdd1, vdd2c, vdd2d, vddq, idd01, idd2n1, idd3n1, idd4r1, idd4w1, idd51, idd5pdb1, idd61, idd6ds1, idd2p1, idd3p1, idd02c, idd2n2c, idd3n2c, idd4r2c, idd4w2c, idd52c, idd5pdb2c, idd62c, idd6ds2c, idd2p2c, idd3p2c, idd02d, idd2n2d, idd3n2d, idd4r2d, idd4w2d, idd52d, idd5pdb2d, idd62d, idd6ds2d, idd2p2d, idd3p2d, iBeta_vdd1, iBeta_vdd2c, iBeta_vdd2d)
struct BankWiseSpecTypeLPDDR6 {
    std::optional<double> factRho{};
};
NLOHMANN_JSONIFY_ALL_THINGS(BankWiseSpecTypeLPDDR6, factRho)
struct MemImpedanceSpecTypeLPDDR6 {
    bool ck_termination{};
    double ck_R_eq{};
    double ck_dyn_E{};
    bool ca_termination{};
    double ca_R_eq{};
    double ca_dyn_E{};
    bool rdq_termination{};
    double rdq_R_eq{};
    double rdq_dyn_E{};
    bool wdq_termination{};
    double wdq_R_eq{};
    double wdq_dyn_E{};
    bool wck_termination{};
    double wck_R_eq{};
    double wck_dyn_E{};
    bool rdqs_termination{};
    double rdqs_R_eq{};
    double rdqs_dyn_E{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemImpedanceSpecTypeLPDDR6, ck_termination, ck_R_eq, ck_dyn_E, ca_termination, ca_R_eq, ca_dyn_E, rdq_termination, rdq_R_eq, rdq_dyn_E, wdq_termination, wdq_R_eq, wdq_dyn_E, wck_termination, wck_R_eq, wck_dyn_E, rdqs_termination, rdqs_R_eq, rdqs_dyn_E)
struct MemSpecLPDDR6 {
    static constexpr const char* id = "LPDDR6";
    std::string memoryId{};
    MemArchitectureSpecTypeLPDDR6 memarchitecturespec{};
    MemPowerSpecTypeLPDDR6 mempowerspec{};
    MemTimingSpecTypeLPDDR6 memtimingspec{};
    std::optional<BankWiseSpecTypeLPDDR6> bankwisespec{};
    MemImpedanceSpecTypeLPDDR6 memimpedancespec{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemSpecLPDDR6, memoryId, memarchitecturespec, mempowerspec, memtimingspec, bankwisespec, memimpedancespec)
}
#endif
