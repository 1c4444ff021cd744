#ifndef SHIM_DRAMUTILS_MEMSPECDDR5_H
#define SHIM_DRAMUTILS_MEMSPECDDR5_H
#include <DRAMUtils/util/json_utils.h>
#include <DRAMUtils/util/types.h>
#include <cstdint>
namespace DRAMUtils::MemSpec {
enum class RefModeTypeDDR5 { REF_MODE_1, REF_MODE_2, INVALID = -1 };
NLOHMANN_JSON_SERIALIZE_ENUM(RefModeTypeDDR5, {{RefModeTypeDDR5::INVALID, nullptr},{RefModeTypeDDR5::REF_MODE_1, 1},{RefModeTypeDDR5::REF_MODE_2, 2}})
struct MemArchitectureSpecTypeDDR5 {
    uint64_t nbrOfBanks{};
    uint64_t nbrOfRows{};
    uint64_t nbrOfColumns{};
    uint64_t nbrOfDevices{};
    uint64_t burstLength{};
    uint64_t dataRate{};
    uint64_t width{};
    uint64_t nbrOfBankGroups{};
    uint64_t nbrOfRanks{};
    RefModeTypeDDR5 RefMode{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemArchitectureSpecTypeDDR5, nbrOfBanks, nbrOfRows, nbrOfColumns, nbrOfDevices, burstLength, dataRate, width, nbrOfBankGroups, nbrOfRanks, RefMode)
struct MemTimingSpecTypeDDR5 {
    double tCK{};
    uint64_t RAS{};
    uint64_t RCD{};
    uint64_t RTP{};
    uint64_t WL{};
    uint64_t WR{};
    uint64_t RP{};
    uint64_t RFCsb_slr{};
    uint64_t RFC1_slr{};
    uint64_t RFC2_slr{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemTimingSpecTypeDDR5, tCK, RAS, RCD, RTP, WL, WR, RP, RFCsb_slr, RFC1_slr, RFC2_slr)
struct MemPowerSpecTypeDDR5 {
    double vdd{};
    double vpp{};
    double vddq{};
    double idd0{};
    double idd2n{};
    double idd3n{};
    double idd4r{};
    double idd4w{};
    double idd6n{};
    double idd2p{};
    double idd3p{};
    double idd5b{};
    double idd5f{};
    double idd5c{};
    double ipp0{};
    double ipp2n{};
    double ipp3n{};
    double ipp4r{};
    double ipp4w{};
    double ipp6n{};
    double ipp2p{};
    double ipp3p{};
    double ipp5b{};
    double ipp5f{};
    double ipp5c{};
    std::optional<double> iBeta_vdd{};
    std::optional<double> iBeta_vpp{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemPowerSpecTypeDDR5, vdd, vpp, vddq, idd0, idd2n, idd3n, idd4r, idd4w, idd6n, idd2p, idd3p, idd5b, idd5f, idd5c, ipp0, ipp2n, ipp3n, ipp4r, ipp4w, ipp6n, ipp2p, ipp3p, ipp5b, ipp5f, ipp5c, iBeta_vdd, iBeta_vpp)
struct BankWiseSpecTypeDDR5 {
    std::optional<double> factRho{};
};
NLOHMANN_JSONIFY_ALL_THINGS(BankWiseSpecTypeDDR5, factRho)
struct MemImpedanceSpecTypeDDR5 {
    bool ck_termination{};
    double ck_R_eq{};
    double ck_dyn_E{};
    bool ca_termination{};
    double ca_R_eq{};
    double ca_dyn_E{};
    bool rdq_termination{};
    double rdq_R_eq{};
    double rdq_dyn_E{};
    bool wdq_termination{};
    double wdq_R_eq{};
    double wdq_dyn_E{};
    bool wdqs_termination{};
    double wdqs_R_eq{};
    double wdqs_dyn_E{};
    bool rdqs_termination{};
    double rdqs_R_eq{};
    double rdqs_dyn_E{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemImpedanceSpecTypeDDR5, ck_termination, ck_R_eq, ck_dyn_E, ca_termination, ca_R_eq, ca_dyn_E, rdq_termination, rdq_R_eq, rdq_dyn_E, wdq_termination, wdq_R_eq, wdq_dyn_E, wdqs_termination, wdqs_R_eq, wdqs_dyn_E, rdqs_termination, rdqs_R_eq, rdqs_dyn_E)
struct DataRateSpecTypeDDR5 {
    uint64_t ca_bus_rate{};
    uint64_t dq_bus_rate{};
    uint64_t dqs_bus_rate{};
};
NLOHMANN_JSONIFY_ALL_THINGS(DataRateSpecTypeDDR5, ca_bus_rate, dq_bus_rate, dqs_bus_rate)
struct MemSpecDDR5 {
    static constexpr const char* id = "DDR5";
    std::string memoryId{};
    MemArchitectureSpecTypeDDR5 memarchitecturespec{};
    MemPowerSpecTypeDDR5 mempowerspec{};
    MemTimingSpecTypeDDR5 memtimingspec{};
    std::optional<BankWiseSpecTypeDDR5> bankwisespec{};
    MemImpedanceSpecTypeDDR5 memimpedancespec{};
    std::optional<DataRateSpecTypeDDR5> dataratespec{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemSpecDDR5, memoryId, memarchitecturespec, mempowerspec, memtimingspec, bankwisespec, memimpedancespec, dataratespec)
}
#endif
