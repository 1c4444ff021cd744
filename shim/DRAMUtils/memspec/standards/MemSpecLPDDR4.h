#ifndef SHIM_DRAMUTILS_MEMSPECLPDDR4_H
#define SHIM_DRAMUTILS_MEMSPECLPDDR4_H
#include <DRAMUtils/util/json_utils.h>
#include <DRAMUtils/util/types.h>
#include <cstdint>
namespace DRAMUtils::MemSpec {
enum class pasrModesType { PASR_0, PASR_1, PASR_2, PASR_3, PASR_4, PASR_5, PASR_6, PASR_7, Invalid = -1 };
NLOHMANN_JSON_SERIALIZE_ENUM(pasrModesType, {{pasrModesType::Invalid, nullptr},{pasrModesType::PASR_0, 0},{pasrModesType::PASR_1, 1},{pasrModesType::PASR_2, 2},{pasrModesType::PASR_3, 3},{pasrModesType::PASR_4, 4},{pasrModesType::PASR_5, 5},{pasrModesType::PASR_6, 6},{pasrModesType::PASR_7, 7}})
struct MemArchitectureSpecTypeLPDDR4 {
    uint64_t nbrOfBanks{};
    uint64_t nbrOfRows{};
    uint64_t nbrOfColumns{};
    uint64_t nbrOfDevices{};
    uint64_t burstLength{};
    uint64_t dataRate{};
    uint64_t width{};
    uint64_t nbrOfBankGroups{};
    uint64_t nbrOfRanks{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemArchitectureSpecTypeLPDDR4, nbrOfBanks, nbrOfRows, nbrOfColumns, nbrOfDevices, burstLength, dataRate, width, nbrOfBankGroups, nbrOfRanks)
struct MemTimingSpecTypeLPDDR4 {
    double tCK{};
    uint64_t RAS{};
    uint64_t RCD{};
    uint64_t RL{};
    uint64_t RTP{};
    uint64_t WL{};
    uint64_t WR{};
    uint64_t RPpb{};
    uint64_t RFCpb{};
    uint64_t RFCab{};
    uint64_t REFI{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemTimingSpecTypeLPDDR4, tCK, RAS, RCD, RL, RTP, WL, WR, RPpb, RFCpb, RFCab, REFI)
struct MemPowerSpecTypeLPDDR4 {
    double vdd1{};
    double vdd2{};
    double vddq{};
    double idd01{};
    double idd2n1{};
    double idd3n1{};
    double idd4r1{};
    double idd4w1{};
    double idd51{};
    double idd5pb1{};
    double idd61{};
    double idd2p1{};
    double idd3p1{};
    double idd02{};
    double idd2n2{};
    double idd3n2{};
    double idd4r2{};
    double idd4w2{};
    double idd52{};
    double idd5pb2{};
    double idd62{};
    double idd2p2{};
    double idd3p2{};
    std::optional<double> iBeta_vdd1{};
    std::optional<double> iBeta_vdd2{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemPowerSpecTypeLPDDR4, vdd1, vdd2, vddq, idd01, idd2n1, idd3n1, idd4r1, idd4w1, idd51, idd5pb1, idd61, idd2p1, idd3p1, idd02, idd2n2, idd3n2, idd4r2, idd4w2, idd52, idd5pb2, idd62, idd2p2, idd3p2, iBeta_vdd1, iBeta_vdd2)
struct BankWiseSpecTypeLPDDR4 {
    std::optional<double> factRho{};
    std::optional<double> factSigma{};
    std::optional<pasrModesType> pasrMode{};
    std::optional<bool> hasPASR{};
};
NLOHMANN_JSONIFY_ALL_THINGS(BankWiseSpecTypeLPDDR4, factRho, factSigma, pasrMode, hasPASR)
struct MemImpedanceSpecTypeLPDDR4 {
    bool ck_termination{};
    double ck_R_eq{};
    double ck_dyn_E{};
    bool ca_termination{};
    double ca_R_eq{};
    double ca_dyn_E{};
    bool rdq_termination{};
    double rdq_R_eq{};
    double rdq_dyn_E{};
    bool wdq_termination{};
    double wdq_R_eq{};
    double wdq_dyn_E{};
    bool wdqs_termination{};
    double wdqs_R_eq{};
    double wdqs_dyn_E{};
    bool rdqs_termination{};
    double rdqs_R_eq{};
    double rdqs_dyn_E{};
    bool wdbi_termination{};
    double wdbi_R_eq{};
    double wdbi_dyn_E{};
    bool rdbi_termination{};
    double rdbi_R_eq{};
    double rdbi_dyn_E{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemImpedanceSpecTypeLPDDR4, ck_termination, ck_R_eq, ck_dyn_E, ca_termination, ca_R_eq, ca_dyn_E, rdq_termination, rdq_R_eq, rdq_dyn_E, wdq_termination, wdq_R_eq, wdq_dyn_E, wdqs_termination, wdqs_R_eq, wdqs_dyn_E, rdqs_termination, rdqs_R_eq, rdqs_dyn_E, wdbi_termination, wdbi_R_eq, wdbi_dyn_E, rdbi_termination, rdbi_R_eq, rdbi_dyn_E)
struct MemSpecLPDDR4 {
    static constexpr const char* id = "LPDDR4";
    std::string memoryId{};
    MemArchitectureSpecTypeLPDDR4 memarchitecturespec{};
    MemPowerSpecTypeLPDDR4 mempowerspec{};
    MemTimingSpecTypeLPDDR4 memtimingspec{};
    std::optional<BankWiseSpecTypeLPDDR4> bankwisespec{};
    MemImpedanceSpecTypeLPDDR4 memimpedancespec{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemSpecLPDDR4, memoryId, memarchitecturespec, mempowerspec, memtimingspec, bankwisespec, memimpedancespec)
}
#endif
