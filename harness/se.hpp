// Harness interface.  Symbolic build (-DSE_SYMBOLIC): intrinsics of the executor.  Native build: values are read from
// the counterexample file, checks are evaluated with real doubles, failures are printed and make the process exit 1.
#ifndef SE_HPP
#define SE_HPP
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <memory>
extern "C" {
  double se_real(const char *name);                 // any double (exact-real semantics)
  unsigned long se_u64(const char *name);           // any 64-bit value
  unsigned long se_choice(unsigned long n, const char *name); // any of 0..n-1
  void se_assume(bool b);
  void se_assert(bool b, const char *msg);
  void se_eq(double ref, double got, const char *msg);   // got==ref wherever ref is defined; got must be defined there
  void se_eqr(double ref, double got, const char *msg);  // the same number up to the digits that are printed
  void se_eqw(double ref, double got, const char *msg);  // got==ref wherever both are defined
  void se_defined(double v);                        // assume v is a defined value
  void se_note(const char *s);
  void se_reach(const char *s);
  unsigned long se_heap();                          // number of live heap allocations
  double se_token(long k);          // the number printed as <#k>
  unsigned long se_token_u64(long k);
  void se_stop();
  void se_print(const char *s);
  void se_reuse(int on);            // freed memory is handed out again, the last block first (as real allocators do)
  int se_sym();
  void se_main();
}
#ifdef SE_SYMBOLIC
#include "support.inc"
#endif
#endif
