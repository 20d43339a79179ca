#ifndef VERIF_SHIM_STR_CAT_H_
#define VERIF_SHIM_STR_CAT_H_
#include "absl/strings/stringify_compat.h"
#include_next "absl/strings/str_cat.h"
// Overloads chosen only when an argument is a user type with AbslStringify.
namespace absl {
template <typename... A, typename = std::enable_if_t<
                             (verif_shim::HasStringify<A>::value || ...)>>
std::string StrCat(const A&... a) {
  return StrCat(AlphaNum(verif_shim::Lower(a))...);
}
template <typename... A, typename = std::enable_if_t<
                             (verif_shim::HasStringify<A>::value || ...)>>
void StrAppend(std::string* out, const A&... a) {
  StrAppend(out, AlphaNum(verif_shim::Lower(a))...);
}
}  // namespace absl
#endif
