#ifndef SHIM_DRAMUTILS_UTIL_TYPES_H
#define SHIM_DRAMUTILS_UTIL_TYPES_H
#include <type_traits>
#include <cstddef>
#include <cstdint>
#include <numeric>
#include <optional>
#include <string>
#include <vector>
#include <variant>
#include <iostream>
namespace DRAMUtils::util {
template <typename... Ts> struct type_sequence { static constexpr std::size_t size = sizeof...(Ts); };
template <typename... Ts> struct always_false : std::false_type {};
template <typename T, typename Seq> struct is_one_of : std::false_type {};
template <typename T, typename... Ts> struct is_one_of<T, type_sequence<Ts...>> : std::bool_constant<(std::is_same_v<T, Ts> || ...)> {};
template <typename... Ts> struct unique_types : std::true_type {};
template <typename T, typename... Ts> struct unique_types<T, Ts...> : std::bool_constant<(!std::is_same_v<T, Ts> && ...) && unique_types<Ts...>::value> {};
}
#endif
