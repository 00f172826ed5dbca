// Native replay runtime: reads the counterexample file named in $SE_INPUT.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <exception>
#include <typeinfo>
#include <new>
#include <unistd.h>
extern "C" { void se_main(); }
static FILE *in; static bool failed = false; static long live = 0; static double tol = 1e-6;
static bool next(const char *kind, char *val) { char k[32], n[512]; if (!in || fscanf(in, "%31s %511s %127s", k, n, val) != 3) return false; if (strcmp(k, kind)) { printf("REPLAY-MISMATCH wanted %s got %s %s\n", kind, k, n); exit(3); } return true; }
static void *al(size_t n) { void *p = malloc(n ? n : 1); live++; return p; }
#ifndef SE_NOHEAPCOUNT
void *operator new(size_t n) { return al(n); } void *operator new[](size_t n) { return al(n); }
void operator delete(void *p) noexcept { if (p) live--; free(p); } void operator delete[](void *p) noexcept { if (p) live--; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) live--; free(p); } void operator delete[](void *p, size_t) noexcept { if (p) live--; free(p); }
#endif
extern "C" {
double se_real(const char *) { char v[128]; if (!next("real", v)) return 1.25; return strtod(v, 0); }
unsigned long se_u64(const char *) { char v[128]; if (!next("u64", v)) return 0; return strtoul(v, 0, 10); }
unsigned long se_choice(unsigned long n, const char *) { char v[128]; if (!next("choice", v)) return 0; unsigned long x = strtoul(v, 0, 10); return x < n ? x : n - 1; }
void se_stop() { fflush(stdout); _exit(failed ? 1 : 0); }
void se_assume(bool b) { if (!b) { if (!failed) printf("REPLAY-ASSUME\n"); fflush(stdout); _exit(failed ? 1 : 2); } }
void se_assert(bool b, const char *m) { if (!b) { printf("REPLAY-FAIL assert: %s\n", m); failed = true; } }
static void eq(double r, double g, const char *m, bool strict) { if (!std::isfinite(r)) return; if (!std::isfinite(g) && !strict) return; if (!(fabs(r - g) <= tol * (1 + fabs(r) + fabs(g)))) { printf("REPLAY-FAIL eq: %s: expected %.12g got %.12g\n", m, r, g); failed = true; } }
void se_eq(double r, double g, const char *m) { eq(r, g, m, true); }
void se_eqw(double r, double g, const char *m) { eq(r, g, m, false); }
void se_eqr(double r, double g, const char *m) { if (std::isfinite(r) && !(fabs(r - g) <= 1e-5 * (fabs(r) + fabs(g)))) { printf("REPLAY-FAIL eq: %s: expected %.12g got %.12g\n", m, r, g); failed = true; } }
void se_defined(double v) { se_assume(std::isfinite(v)); }
void se_note(const char *s) { printf("note: %s\n", s); }
void se_reach(const char *) {}
unsigned long se_heap() { return live; }
double se_token(long) { printf("REPLAY-TOKEN\n"); exit(3); }
unsigned long se_token_u64(long) { printf("REPLAY-TOKEN\n"); exit(3); }
void se_print(const char *s) { printf("print: %s\n", s); }
void se_reuse(int) {}
int se_sym() { return 0; }
}
int main() { if (getenv("SE_INPUT")) in = fopen(getenv("SE_INPUT"), "r"); if (getenv("SE_TOL")) tol = atof(getenv("SE_TOL"));
  try { se_main(); } catch (std::exception &e) { printf("REPLAY-FAIL uncaught exception %s: %s\n", typeid(e).name(), e.what()); fflush(stdout); _exit(1); } catch (...) { printf("REPLAY-FAIL uncaught exception\n"); fflush(stdout); _exit(1); }
  if (!failed) printf("REPLAY-OK\n"); fflush(stdout); _exit(failed ? 1 : 0); }
