// Number reading shared by the text readers (strtod is not part of what is analysed).
#ifndef READER_HPP
#define READER_HPP
inline double se_parse_double(const char *&p) {
  double m = 0; int e = 0; bool neg = false, eneg = false; int x = 0;
  if (*p == '-') { neg = true; ++p; }
  while (*p >= '0' && *p <= '9') m = m * 10 + (*p++ - '0');
  if (*p == '.') { ++p; while (*p >= '0' && *p <= '9') { m = m * 10 + (*p++ - '0'); --e; } }
  if (*p == 'e' && (p[1] == '-' || p[1] == '+' || (p[1] >= '0' && p[1] <= '9'))) { ++p; if (*p == '-') { eneg = true; ++p; } else if (*p == '+') ++p; while (*p >= '0' && *p <= '9') x = x * 10 + (*p++ - '0'); e += eneg ? -x : x; }
  double s = 1; for (int i = e < 0 ? -e : e; i > 0; --i) s *= 10; m = e < 0 ? m / s : m * s;
  return neg ? -m : m; }
#endif
