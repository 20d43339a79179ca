// Compatibility layer: apt's abseil (20220623) predates AbslStringify and %v.
// The repository needs both.  The three headers in this directory include the
// real abseil header and then put a thin front end before the functions whose
// newer form the repository uses.  Everything else in abseil is the real thing.
#ifndef VERIF_SHIM_STRINGIFY_COMPAT_H_
#define VERIF_SHIM_STRINGIFY_COMPAT_H_
#include <string>
#include <type_traits>
#include <utility>

#include "absl/strings/string_view.h"

namespace verif_shim {
struct Sink {
  std::string out;
  void Append(absl::string_view s) { out.append(s.data(), s.size()); }
  void Append(size_t n, char c) { out.append(n, c); }
};
template <typename T, typename = void>
struct HasStringify : std::false_type {};
template <typename T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(
                           std::declval<Sink&>(), std::declval<const T&>()))>>
    : std::true_type {};
// User types become strings; everything else is passed through by reference.
template <typename T>
decltype(auto) Lower(const T& v) {
  if constexpr (HasStringify<T>::value) {
    Sink s;
    AbslStringify(s, v);
    return std::string(std::move(s.out));
  } else {
    return static_cast<const T&>(v);
  }
}
}  // namespace verif_shim
#endif
