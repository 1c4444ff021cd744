#!/usr/bin/env python3
"""Generates the DRAMUtils stand-in headers (DRAMUtils is not installed here and cannot be fetched).
Only the names /repo uses are provided.  Output is committed; rerun after editing."""
import os
here=os.path.dirname(os.path.abspath(__file__))
def w(p,s):
    p=os.path.join(here,'DRAMUtils',p); os.makedirs(os.path.dirname(p),exist_ok=True); open(p,'w').write(s)

w('util/types.h','''#ifndef SHIM_DRAMUTILS_UTIL_TYPES_H
#define SHIM_DRAMUTILS_UTIL_TYPES_H
#include <type_traits>
#include <cstddef>
#include <cstdint>
#include <numeric>
#include <optional>
#include <string>
#include <vector>
#include <variant>
#include <iostream>
namespace DRAMUtils::util {
template <typename... Ts> struct type_sequence { static constexpr std::size_t size = sizeof...(Ts); };
template <typename... Ts> struct always_false : std::false_type {};
template <typename T, typename Seq> struct is_one_of : std::false_type {};
template <typename T, typename... Ts> struct is_one_of<T, type_sequence<Ts...>> : std::bool_constant<(std::is_same_v<T, Ts> || ...)> {};
template <typename... Ts> struct unique_types : std::true_type {};
template <typename T, typename... Ts> struct unique_types<T, Ts...> : std::bool_constant<(!std::is_same_v<T, Ts> && ...) && unique_types<Ts...>::value> {};
}
#endif
''')
w('util/json.h','''#ifndef SHIM_DRAMUTILS_UTIL_JSON_H
#define SHIM_DRAMUTILS_UTIL_JSON_H
#include <nlohmann/json.hpp>
using json_t = nlohmann::json;
#endif
''')
w('util/json_utils.h','''#ifndef SHIM_DRAMUTILS_UTIL_JSON_UTILS_H
#define SHIM_DRAMUTILS_UTIL_JSON_UTILS_H
#include <DRAMUtils/util/json.h>
#include <optional>
#include <numeric>
#include <iostream>
#include <vector>
#include <string>
namespace shim_json {
template <typename T> void put(json_t& j, const char* k, const T& v) { j[k] = v; }
template <typename T> void put(json_t& j, const char* k, const std::optional<T>& v) { if (v) j[k] = *v; }
template <typename T> void get(const json_t& j, const char* k, T& v) { j.at(k).get_to(v); }
template <typename T> void get(const json_t& j, const char* k, std::optional<T>& v) {
    auto it = j.find(k);
    if (it == j.end() || it->is_null()) v = std::nullopt; else v = it->template get<T>();
}
}
#define SHIM_JSON_TO(v1) shim_json::put(nlohmann_json_j, #v1, nlohmann_json_t.v1);
#define SHIM_JSON_FROM(v1) shim_json::get(nlohmann_json_j, #v1, nlohmann_json_t.v1);
#define NLOHMANN_JSONIFY_ALL_THINGS(Type, ...) \\
    inline void to_json(json_t& nlohmann_json_j, const Type& nlohmann_json_t) { NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(SHIM_JSON_TO, __VA_ARGS__)) } \\
    inline void from_json(const json_t& nlohmann_json_j, Type& nlohmann_json_t) { NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(SHIM_JSON_FROM, __VA_ARGS__)) }
#endif
''')
w('config/toggling_rate.h','''#ifndef SHIM_DRAMUTILS_CONFIG_TOGGLING_RATE_H
#define SHIM_DRAMUTILS_CONFIG_TOGGLING_RATE_H
#include <DRAMUtils/util/json_utils.h>
#include <DRAMUtils/util/types.h>
namespace DRAMUtils::Config {
enum class TogglingRateIdlePattern { L, H, Z, LAST_PATTERN, Invalid = -1 };
NLOHMANN_JSON_SERIALIZE_ENUM(TogglingRateIdlePattern, {
    {TogglingRateIdlePattern::Invalid, nullptr},
    {TogglingRateIdlePattern::L, "L"}, {TogglingRateIdlePattern::H, "H"},
    {TogglingRateIdlePattern::Z, "Z"}, {TogglingRateIdlePattern::LAST_PATTERN, "LAST_PATTERN"}})
struct ToggleRateDefinition {
    double togglingRateRead;
    double togglingRateWrite;
    double dutyCycleRead;
    double dutyCycleWrite;
    TogglingRateIdlePattern idlePatternRead;
    TogglingRateIdlePattern idlePatternWrite;
};
NLOHMANN_JSONIFY_ALL_THINGS(ToggleRateDefinition, togglingRateRead, togglingRateWrite, dutyCycleRead, dutyCycleWrite, idlePatternRead, idlePatternWrite)
}
#endif
''')

def expand(base, sufs): return [b+s for s in sufs for b in base]
pw_ddr=['idd0','idd2n','idd3n','idd4r','idd4w','idd6n','idd2p','idd3p']
stds={
 'DDR4':dict(arch=[('RefMode','RefModeTypeDDR4')],
   timing=['RAS','RCD','RTP','WL','WR','RP','AL','RFC1','RFC2','RFC4'],
   power=['vdd','vpp','vddq']+[x for i in ('idd','ipp') for x in [i+s for s in ('0','2n','3n','4r','4w','6n','2p','3p','5B','5F2','5F4')]],
   popt=['iBeta_vdd','iBeta_vpp'], bw=[('factRho','double')],
   imp=['ck','ca','rdq','wdq','wdqs','rdqs','wdbi','rdbi']),
 'DDR5':dict(arch=[('RefMode','RefModeTypeDDR5')],
   timing=['RAS','RCD','RTP','WL','WR','RP','RFCsb_slr','RFC1_slr','RFC2_slr'],
   power=['vdd','vpp','vddq']+[x for i in ('idd','ipp') for x in [i+s for s in ('0','2n','3n','4r','4w','6n','2p','3p','5b','5f','5c')]],
   popt=['iBeta_vdd','iBeta_vpp'], bw=[('factRho','double')],
   imp=['ck','ca','rdq','wdq','wdqs','rdqs']),
 'LPDDR4':dict(arch=[],timing=['RAS','RCD','RL','RTP','WL','WR','RPpb','RFCpb','RFCab','REFI'],
   power=['vdd1','vdd2','vddq']+expand(['idd0','idd2n','idd3n','idd4r','idd4w','idd5','idd5pb','idd6','idd2p','idd3p'],['1','2']),
   popt=['iBeta_vdd1','iBeta_vdd2'], bw=[('factRho','double'),('factSigma','double'),('pasrMode','uint64_t'),('hasPASR','bool')],
   imp=['ck','ca','rdq','wdq','wdqs','rdqs','wdbi','rdbi']),
 'LPDDR5':dict(arch=[('WCKalwaysOn','bool')],timing=['WCK2CK','RAS','RCD_S','RBTP','WL','WR','RPpb','RFCpb','RFCab','REFI'],
   power=['vdd1','vdd2h','vdd2l','vddq']+expand(['idd0','idd2n','idd3n','idd4r','idd4w','idd5','idd5pb','idd6','idd6ds','idd2p','idd3p'],['1','2h','2l']),
   popt=['iBeta_vdd1','iBeta_vdd2h','iBeta_vdd2l'], bw=[('factRho','double')],
   imp=['ck','ca','rdq','wdq','wck','rdqs','wdbi','rdbi']),
 'LPDDR6':dict(arch=[('WCKalwaysOn','bool')],timing=['WCK2CK','RAS','RCD_r','RCD_w','RBTP','WL','WR','RPpb','RFCdb','RFCab','REFI'],
   power=['vdd1','vdd2c','vdd2d','vddq']+expand(['idd0','idd2n','idd3n','idd4r','idd4w','idd5','idd5pdb','idd6','idd6ds','idd2p','idd3p'],['1','2c','2d']),
   popt=['iBeta_vdd1','iBeta_vdd2c','iBeta_vdd2d'], bw=[('factRho','double')],
   imp=['ck','ca','rdq','wdq','wck','rdqs']),
}
common_arch=['nbrOfBanks','nbrOfRows','nbrOfColumns','nbrOfDevices','burstLength','dataRate','width','nbrOfBankGroups','nbrOfRanks']
for s,d in stds.items():
    o=f'#ifndef SHIM_DRAMUTILS_MEMSPEC{s}_H\n#define SHIM_DRAMUTILS_MEMSPEC{s}_H\n#include <DRAMUtils/util/json_utils.h>\n#include <DRAMUtils/util/types.h>\n#include <cstdint>\nnamespace DRAMUtils::MemSpec {{\n'
    if s=='DDR4':
        o+='enum class RefModeTypeDDR4 { REF_MODE_1, REF_MODE_2, REF_MODE_4, INVALID = -1 };\nNLOHMANN_JSON_SERIALIZE_ENUM(RefModeTypeDDR4, {{RefModeTypeDDR4::INVALID, nullptr},{RefModeTypeDDR4::REF_MODE_1, 1},{RefModeTypeDDR4::REF_MODE_2, 2},{RefModeTypeDDR4::REF_MODE_4, 4}})\n'
    if s=='DDR5':
        o+='enum class RefModeTypeDDR5 { REF_MODE_1, REF_MODE_2, INVALID = -1 };\nNLOHMANN_JSON_SERIALIZE_ENUM(RefModeTypeDDR5, {{RefModeTypeDDR5::INVALID, nullptr},{RefModeTypeDDR5::REF_MODE_1, 1},{RefModeTypeDDR5::REF_MODE_2, 2}})\n'
    if s=='LPDDR4':
        d['bw']=[(a,'pasrModesType' if a=='pasrMode' else t) for a,t in d['bw']]
        o+='enum class pasrModesType { PASR_0, PASR_1, PASR_2, PASR_3, PASR_4, PASR_5, PASR_6, PASR_7, Invalid = -1 };\nNLOHMANN_JSON_SERIALIZE_ENUM(pasrModesType, {{pasrModesType::Invalid, nullptr},{pasrModesType::PASR_0, 0},{pasrModesType::PASR_1, 1},{pasrModesType::PASR_2, 2},{pasrModesType::PASR_3, 3},{pasrModesType::PASR_4, 4},{pasrModesType::PASR_5, 5},{pasrModesType::PASR_6, 6},{pasrModesType::PASR_7, 7}})\n'
    def struct(name,fields):
        r=f'struct {name}{s} {{\n'
        for t,n in fields: r+=f'    {t} {n}{{}};\n'
        r+='};\n'
        # NLOHMANN_JSON_PASTE takes up to 63 names
        r+=f'NLOHMANN_JSONIFY_ALL_THINGS({name}{s}, {", ".join(n for _,n in fields)})\n'
        return r
    o+=struct('MemArchitectureSpecType',[('uint64_t',x) for x in common_arch]+[(t,n) for n,t in d['arch']])
    o+=struct('MemTimingSpecType',[('double','tCK')]+[('uint64_t',x) for x in d['timing']])
    o+=struct('MemPowerSpecType',[('double',x) for x in d['power']]+[('std::optional<double>',x) for x in d['popt']])
    o+=struct('BankWiseSpecType',[('std::optional<%s>'%t,n) for n,t in d['bw']])
    o+=struct('MemImpedanceSpecType',[(t,x+e) for x in d['imp'] for t,e in (('bool','_termination'),('double','_R_eq'),('double','_dyn_E'))])
    extra=[]
    if s=='DDR4':
        o+=struct('PrePostambleType',[('double',f'{a}_{b}') for a in('read','write') for b in('zeroes','ones')]+[('uint64_t',f'{a}_{b}') for a in('read','write') for b in('zeroes_to_ones','ones_to_zeroes')]+[('uint64_t','readMinTccd'),('uint64_t','writeMinTccd')])
        extra=[('PrePostambleTypeDDR4','prepostamble')]
    if s=='DDR5':
        o+=struct('DataRateSpecType',[('uint64_t',x) for x in('ca_bus_rate','dq_bus_rate','dqs_bus_rate')])
        extra=[('std::optional<DataRateSpecTypeDDR5>','dataratespec')]
    o+=f'''struct MemSpec{s} {{
    static constexpr const char* id = "{s}";
    std::string memoryId{{}};
    MemArchitectureSpecType{s} memarchitecturespec{{}};
    MemPowerSpecType{s} mempowerspec{{}};
    MemTimingSpecType{s} memtimingspec{{}};
    std::optional<BankWiseSpecType{s}> bankwisespec{{}};
    MemImpedanceSpecType{s} memimpedancespec{{}};
''' + ''.join(f'    {t} {n}{{}};\n' for t,n in extra) + '};\n'
    o+=f'NLOHMANN_JSONIFY_ALL_THINGS(MemSpec{s}, memoryId, memarchitecturespec, mempowerspec, memtimingspec, bankwisespec, memimpedancespec{"".join(", "+n for _,n in extra)})\n'
    o+='}\n#endif\n'
    w(f'memspec/standards/MemSpec{s}.h',o)
w('memspec/MemSpec.h','#ifndef SHIM_DRAMUTILS_MEMSPEC_H\n#define SHIM_DRAMUTILS_MEMSPEC_H\n'+''.join(f'#include <DRAMUtils/memspec/standards/MemSpec{s}.h>\n' for s in stds)+'''#include <filesystem>
#include <fstream>
#include <optional>
#include <variant>
namespace DRAMUtils::MemSpec {
struct MemSpecVariant {
    using Variant = std::variant<'''+', '.join('MemSpec'+s for s in stds)+'''>;
    Variant v;
    MemSpecVariant() = default;
    template <typename T> MemSpecVariant(const T& t) : v(t) {}
    Variant& getVariant() { return v; }
    const Variant& getVariant() const { return v; }
};
inline bool memspec_from_json(const json_t& j, MemSpecVariant& out) {
    std::string type = j.at("memoryType").get<std::string>();
'''+''.join(f'    if (type == "{s}") {{ out.v = j.get<MemSpec{s}>(); return true; }}\n' for s in stds)+'''    return false;
}
inline json_t memspec_to_json(const MemSpecVariant& m) {
    json_t j;
    std::visit([&](const auto& a) { j["memspec"] = a; j["memspec"]["memoryType"] = std::decay_t<decltype(a)>::id; }, m.v);
    return j;
}
}
namespace DRAMUtils {
inline std::optional<MemSpec::MemSpecVariant> parse_memspec_from_file(const std::filesystem::path& path) {
    std::ifstream file(path);
    if (!file.is_open()) return std::nullopt;
    json_t j = json_t::parse(file, nullptr, true, true);
    MemSpec::MemSpecVariant r;
    if (!MemSpec::memspec_from_json(j.at("memspec"), r)) return std::nullopt;
    return r;
}
}
#endif
''')
