#ifndef VERIF_SHIM_SUBSTITUTE_H_
#define VERIF_SHIM_SUBSTITUTE_H_
#include "absl/strings/stringify_compat.h"
#define Substitute VerifRealSubstitute
#define SubstituteAndAppend VerifRealSubstituteAndAppend
#include_next "absl/strings/substitute.h"
#undef Substitute
#undef SubstituteAndAppend
namespace absl {
template <typename... A>
std::string Substitute(absl::string_view format, const A&... a) {
  return VerifRealSubstitute(format, verif_shim::Lower(a)...);
}
template <typename... A>
void SubstituteAndAppend(std::string* out, absl::string_view format,
                         const A&... a) {
  VerifRealSubstituteAndAppend(out, format, verif_shim::Lower(a)...);
}
}  // namespace absl
#endif
