#ifndef SHIM_DRAMUTILS_MEMSPEC_H
#define SHIM_DRAMUTILS_MEMSPEC_H
#include <DRAMUtils/memspec/standards/MemSpecDDR4.h>
#include <DRAMUtils/memspec/standards/MemSpecDDR5.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR4.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR5.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR6.h>
#include <filesystem>
#include <fstream>
#include <optional>
#include <variant>
namespace DRAMUtils::MemSpec {
struct MemSpecVariant {
    using Variant = std::variant<MemSpecDDR4, MemSpecDDR5, MemSpecLPDDR4, MemSpecLPDDR5, MemSpecLPDDR6>;
    Variant v;
    MemSpecVariant() = default;
    template <typename T> MemSpecVariant(const T& t) : v(t) {}
    Variant& getVariant() { return v; }
    const Variant& getVariant() const { return v; }
};
inline bool memspec_from_json(const json_t& j, MemSpecVariant& out) {
    std::string type = j.at("memoryType").get<std::string>();
    if (type == "DDR4") { out.v = j.get<MemSpecDDR4>(); return true; }
    if (type == "DDR5") { out.v = j.get<MemSpecDDR5>(); return true; }
    if (type == "LPDDR4") { out.v = j.get<MemSpecLPDDR4>(); return true; }
    if (type == "LPDDR5") { out.v = j.get<MemSpecLPDDR5>(); return true; }
    if (type == "LPDDR6") { out.v = j.get<MemSpecLPDDR6>(); return true; }
    return false;
}
inline json_t memspec_to_json(const MemSpecVariant& m) {
    json_t j;
    std::visit([&](const auto& a) { j["memspec"] = a; j["memspec"]["memoryType"] = std::decay_t<decltype(a)>::id; }, m.v);
    return j;
}
}
namespace DRAMUtils {
inline std::optional<MemSpec::MemSpecVariant> parse_memspec_from_file(const std::filesystem::path& path) {
    std::ifstream file(path);
    if (!file.is_open()) return std::nullopt;
    json_t j = json_t::parse(file, nullptr, true, true);
    MemSpec::MemSpecVariant r;
    if (!MemSpec::memspec_from_json(j.at("memspec"), r)) return std::nullopt;
    return r;
}
}
#endif
