// Stand-in for lemire/fast_double_parser (an empty submodule here): only
// parse_number is used by StochasticTree (common.h, AtofPrecise).
#ifndef VERIF_FAST_DOUBLE_PARSER_SHIM_H
#define VERIF_FAST_DOUBLE_PARSER_SHIM_H
#include <cstdlib>
namespace fast_double_parser {
inline const char* parse_number(const char* p, double* out) {
  const char* q = p;
  if (*q == '-') ++q;
  if (*q < '0' || *q > '9') return nullptr;
  char* end = nullptr;
  *out = std::strtod(p, &end);
  return end == p ? nullptr : end;
}
}  // namespace fast_double_parser
#endif
