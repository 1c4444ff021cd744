#ifndef SHIM_DRAMUTILS_UTIL_JSON_H
#define SHIM_DRAMUTILS_UTIL_JSON_H
#include <nlohmann/json.hpp>
using json_t = nlohmann::json;
#endif
