#ifndef SHIM_DRAMUTILS_UTIL_JSON_UTILS_H
#define SHIM_DRAMUTILS_UTIL_JSON_UTILS_H
#include <DRAMUtils/util/json.h>
#include <optional>
#include <numeric>
#include <iostream>
#include <vector>
#include <string>
namespace shim_json {
template <typename T> void put(json_t& j, const char* k, const T& v) { j[k] = v; }
template <typename T> void put(json_t& j, const char* k, const std::optional<T>& v) { if (v) j[k] = *v; }
template <typename T> void get(const json_t& j, const char* k, T& v) { j.at(k).get_to(v); }
template <typename T> void get(const json_t& j, const char* k, std::optional<T>& v) {
    auto it = j.find(k);
    if (it == j.end() || it->is_null()) v = std::nullopt; else v = it->template get<T>();
}
}
#define SHIM_JSON_TO(v1) shim_json::put(nlohmann_json_j, #v1, nlohmann_json_t.v1);
#define SHIM_JSON_FROM(v1) shim_json::get(nlohmann_json_j, #v1, nlohmann_json_t.v1);
#define NLOHMANN_JSONIFY_ALL_THINGS(Type, ...) \
    inline void to_json(json_t& nlohmann_json_j, const Type& nlohmann_json_t) { NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(SHIM_JSON_TO, __VA_ARGS__)) } \
    inline void from_json(const json_t& nlohmann_json_j, Type& nlohmann_json_t) { NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(SHIM_JSON_FROM, __VA_ARGS__)) }
#endif
