#ifndef SHIM_DRAMUTILS_MEMSPECLPDDR5_H
#define SHIM_DRAMUTILS_MEMSPECLPDDR5_H
#include <DRAMUtils/util/json_utils.h>
#include <DRAMUtils/util/types.h>
#include <cstdint>
namespace DRAMUtils::MemSpec {
struct MemArchitectureSpecTypeLPDDR5 {
    uint64_t nbrOfBanks{};
    uint64_t nbrOfRows{};
    uint64_t nbrOfColumns{};
    uint64_t nbrOfDevices{};
    uint64_t burstLength{};
    uint64_t dataRate{};
    uint64_t width{};
    uint64_t nbrOfBankGroups{};
    uint64_t nbrOfRanks{};
    bool WCKalwaysOn{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemArchitectureSpecTypeLPDDR5, nbrOfBanks, nbrOfRows, nbrOfColumns, nbrOfDevices, burstLength, dataRate, width, nbrOfBankGroups, nbrOfRanks, WCKalwaysOn)
struct MemTimingSpecTypeLPDDR5 {
    double tCK{};
    uint64_t WCK2CK{};
    uint64_t RAS{};
    uint64_t RCD_S{};
    uint64_t RBTP{};
    uint64_t WL{};
    uint64_t WR{};
    uint64_t RPpb{};
    uint64_t RFCpb{};
    uint64_t RFCab{};
    uint64_t REFI{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemTimingSpecTypeLPDDR5, tCK, WCK2CK, RAS, RCD_S, RBTP, WL, WR, RPpb, RFCpb, RFCab, REFI)
struct MemPowerSpecTypeLPDDR5 {
    double vdd1{};
    double vdd2h{};
    double vdd2l{};
    double vddq{};
    double idd01{};
    double idd2n1{};
    double idd3n1{};
    double idd4r1{};
    double idd4w1{};
    double idd51{};
    double idd5pb1{};
    double idd61{};
    double idd6ds1{};
    double idd2p1{};
    double idd3p1{};
    double idd02h{};
    double idd2n2h{};
    double idd3n2h{};
    double idd4r2h{};
    double idd4w2h{};
    double idd52h{};
    double idd5pb2h{};
    double idd62h{};
    double idd6ds2h{};
    double idd2p2h{};
    double idd3p2h{};
    double idd02l{};
    double idd2n2l{};
    double idd3n2l{};
    double idd4r2l{};
    double idd4w2l{};
    double idd52l{};
    double idd5pb2l{};
    double idd62l{};
    double idd6ds2l{};
    double idd2p2l{};
    double idd3p2l{};
    std::optional<double> iBeta_vdd1{};
    std::optional<double> iBeta_vdd2h{};
    std::optional<double> iBeta_vdd2l{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemPowerSpecTypeLPDDR5, vdd1, vdd2h, vdd2l, vddq, idd01, idd2n1, idd3n1, idd4r1, idd4w1, idd51, idd5pb1, idd61, idd6ds1, idd2p1, idd3p1, idd02h, idd2n2h, idd3n2h, idd4r2h, idd4w2h, idd52h, idd5pb2h, idd62h, idd6ds2h, idd2p2h, idd3p2h, idd02l, idd2n2l, idd3n2l, idd4r2l, idd4w2l, idd52l, idd5pb2l, idd62l, idd6ds2l, idd2p2l, idd3p2l, iBeta_vdd1, iBeta_vdd2h, iBeta_vdd2l)
struct BankWiseSpecTypeLPDDR5 {
    std::optional<double> factRho{};
};
NLOHMANN_JSONIFY_ALL_THINGS(BankWiseSpecTypeLPDDR5, factRho)
struct MemImpedanceSpecTypeLPDDR5 {
    bool ck_termination{};
    double ck_R_eq{};
    double ck_dyn_E{};
    bool ca_termination{};
    double ca_R_eq{};
    double ca_dyn_E{};
    bool rdq_termination{};
    double rdq_R_eq{};
    double rdq_dyn_E{};
    bool wdq_termination{};
    double wdq_R_eq{};
    double wdq_dyn_E{};
    bool wck_termination{};
    double wck_R_eq{};
    double wck_dyn_E{};
    bool rdqs_termination{};
    double rdqs_R_eq{};
    double rdqs_dyn_E{};
    bool wdbi_termination{};
    double wdbi_R_eq{};
    double wdbi_dyn_E{};
    bool rdbi_termination{};
    double rdbi_R_eq{};
    double rdbi_dyn_E{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemImpedanceSpecTypeLPDDR5, ck_termination, ck_R_eq, ck_dyn_E, ca_termination, ca_R_eq, ca_dyn_E, rdq_termination, rdq_R_eq, rdq_dyn_E, wdq_termination, wdq_R_eq, wdq_dyn_E, wck_termination, wck_R_eq, wck_dyn_E, rdqs_termination, rdqs_R_eq, rdqs_dyn_E, wdbi_termination, wdbi_R_eq, wdbi_dyn_E, rdbi_termination, rdbi_R_eq, rdbi_dyn_E)
struct MemSpecLPDDR5 {
    static constexpr const char* id = "LPDDR5";
    std::string memoryId{};
    MemArchitectureSpecTypeLPDDR5 memarchitecturespec{};
    MemPowerSpecTypeLPDDR5 mempowerspec{};
    MemTimingSpecTypeLPDDR5 memtimingspec{};
    std::optional<BankWiseSpecTypeLPDDR5> bankwisespec{};
    MemImpedanceSpecTypeLPDDR5 memimpedancespec{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemSpecLPDDR5, memoryId, memarchitecturespec, mempowerspec, memtimingspec, bankwisespec, memimpedancespec)
}
#endif
