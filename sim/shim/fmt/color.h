#pragma once
#include_next <fmt/color.h>
// fmt 9 -> 11 compatibility: styled print with a checked format string
FMT_BEGIN_NAMESPACE
template <typename... T> inline void print(std::FILE *f, const text_style &ts, format_string<T...> s, T &&...args) {
  vprint(f, ts, string_view(s), fmt::make_format_args(args...));
}
template <typename... T> inline void print(const text_style &ts, format_string<T...> s, T &&...args) {
  vprint(stdout, ts, string_view(s), fmt::make_format_args(args...));
}
FMT_END_NAMESPACE
