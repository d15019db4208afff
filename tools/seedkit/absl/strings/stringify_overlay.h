// Overlay: AbslStringify support for the installed abseil (20220623).
#ifndef VERIF_ABSL_STRINGIFY_OVERLAY_H_
#define VERIF_ABSL_STRINGIFY_OVERLAY_H_
#include <string>
#include <type_traits>
#include <utility>
#include "absl/strings/string_view.h"
namespace verif_shim {
struct StringifySink {
  std::string out;
  void Append(absl::string_view s) { out.append(s.data(), s.size()); }
  void Append(size_t n, char c) { out.append(n, c); }
  friend void AbslFormatFlush(StringifySink* s, absl::string_view v) { s->Append(v); }
};
template <typename T, typename = void>
struct HasStringify : std::false_type {};
template <typename T>
struct HasStringify<T, std::enable_if_t<(std::is_class<T>::value || std::is_enum<T>::value) &&
    std::is_void<decltype(AbslStringify(std::declval<StringifySink&>(), std::declval<const T&>()))>::value>>
    : std::true_type {};
template <typename T>
std::string Stringify(const T& v) { StringifySink s; AbslStringify(s, v); return std::move(s.out); }
}  // namespace verif_shim
#endif
