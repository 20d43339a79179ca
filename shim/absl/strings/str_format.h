#ifndef VERIF_SHIM_STR_FORMAT_H_
#define VERIF_SHIM_STR_FORMAT_H_
#include <string>
#include <vector>

#include "absl/strings/stringify_compat.h"
#define StrFormat VerifRealStrFormat
#include_next "absl/strings/str_format.h"
#undef StrFormat

namespace verif_shim {
// One conversion with %v: strings as %s, bool as true/false, char as %c,
// enums and integers as %d, floating point as %g.
template <typename T>
std::string FormatV(const T& v) {
  using D = std::decay_t<T>;
  if constexpr (HasStringify<D>::value) {
    return Lower(v);
  } else if constexpr (std::is_same_v<D, bool>) {
    return v ? "true" : "false";
  } else if constexpr (std::is_enum_v<D>) {
    return std::to_string(static_cast<long long>(v));
  } else if constexpr (std::is_integral_v<D>) {
    return std::to_string(v);
  } else if constexpr (std::is_floating_point_v<D>) {
    return absl::VerifRealStrFormat("%g", v);
  } else {
    return std::string(absl::string_view(v));
  }
}
template <typename T>
std::string FormatOne(const std::string& spec, const T& v) {
  if (spec.back() == 'v') return FormatV(v);
  if constexpr (HasStringify<std::decay_t<T>>::value) {
    return Lower(v);
  } else {
    std::string out;
    (void)absl::FormatUntyped(&out, absl::UntypedFormatSpec(spec),
                        {absl::FormatArg(v)});
    return out;
  }
}
}  // namespace verif_shim

namespace absl {
template <typename... A>
std::string StrFormat(absl::string_view format, const A&... a) {
  std::string out;
  size_t pos = 0;
  // Copies literal text up to the next conversion, and returns that conversion.
  auto next_spec = [&]() -> std::string {
    while (pos < format.size()) {
      if (format[pos] != '%') {
        out += format[pos++];
        continue;
      }
      if (pos + 1 < format.size() && format[pos + 1] == '%') {
        out += '%';
        pos += 2;
        continue;
      }
      size_t end = pos + 1;
      while (end < format.size() &&
             absl::string_view("-+ #0123456789.hlLqjzt").find(format[end]) !=
                 absl::string_view::npos) {
        ++end;
      }
      std::string spec(format.substr(pos, end - pos + 1));
      pos = end + 1;
      return spec;
    }
    return "";
  };
  (void)std::initializer_list<int>{0, ([&] {
                                     std::string spec = next_spec();
                                     if (!spec.empty())
                                       out += verif_shim::FormatOne(spec, a);
                                   }(),
                                   0)...};
  next_spec();
  return out;
}
}  // namespace absl
#endif
