// C12, C14: the same misuse again and again: reported every time, nothing leaks, and correct use afterwards works.
#include "oracle.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/runtime/symbolic_interval.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"
using namespace oracle; using namespace viennamath;
static O *integral_of(O *f) { return UI(U_INT, f, 0, VC(K(0), VC(K(1), 0))); }
static O *offending(unsigned k) { switch (k) { case 0: return B(B_ADD, V(0), V(5)); case 1: return B(B_MUL, F(0), V(0)); case 2: return B(B_ADD, V(0), K(1)); case 3: return B(B_MUL, U(U_FABS, V(0)), V(0)); case 4: return B(B_ADD, V(0), V(1)); case 5: return B(B_SUB, integral_of(V(0)), UI(U_SINT, V(0), 2));
  case 6: return U(U_EXP, integral_of(V(0))); case 7: return VC(V(0), VC(K(2), 0)); case 8: return B(B_ADD, F(1), V(0)); case 9: return B(B_SUB, K(1), UI(U_SINT, V(1), 3)); case 10: return B(B_ADD, integral_of(B(B_MUL, V(0), V(1))), integral_of(V(0))); case 11: return B(B_ADD, integral_of(V(0)), B(B_SUB, integral_of(K(2)), V(3))); default: return B(B_MUL, integral_of(V(0)), K(2)); } }
static double P[2];
static int kind(unsigned k) { return k == 2 ? 1 : k == 3 || k == 8 ? 2 : k == 4 || k == 5 || k >= 10 ? 3 : 0; }
static void wrong(unsigned k, expr const &e, numerical_quadrature const &q, bool scalar) {
  switch (kind(k)) { case 0: if (scalar) e.get()->eval(P[0]); else { std::vector<double> v(P, P + 2); viennamath::eval(e, v); } break; case 1: e.get()->unwrap(); break; case 2: { expr d = diff(e, variable(0)); break; } default: q(e); } }
extern "C" void se_main() {
  P[0] = se_real("p0"); P[1] = se_real("p1"); unsigned k = se_choice(13, "misuse"); bool scalar = se_choice(2, "scalar"); if (scalar && kind(k) != 0) return;
  O *o = offending(k), *good = B(B_MUL, B(B_ADD, V(0), K(2)), V(1)); unsigned long h0 = se_heap();
  { expr e(build(o)), g(build(good)); numerical_quadrature q(new gauss_quad_1()); unsigned long h1 = se_heap();
    for (unsigned i = 0; i < 24; ++i) { bool thrown = false; try { wrong(k, e, q, scalar); } catch (...) { thrown = true; }
#if PROP == 14
      se_assert(thrown, "misuse is reported however often it happens");
#else
      if (kind(k) != 2) se_assert(se_heap() == h1, "reported misuse leaks nothing");
#endif
    }
#if PROP == 14
    std::vector<double> v(P, P + 2); se_eq(val(good, P), viennamath::eval(g, v), "value of a correct evaluation afterwards"); { expr d = diff(g, variable(0)); se_eq(P[1], viennamath::eval(d, v), "derivative afterwards"); } se_eq(0.5, q(expr(integral(interval(expr(0.0), expr(1.0)), expr(variable(0)), variable(0)))), "integral afterwards"); se_eq(0.0, q(expr(0.0)), "zero afterwards"); se_eq(5.0, expr(expr(2.0) + expr(3.0)).get()->unwrap(), "number afterwards");
#else
    O *back = read(e.get()); se_assert(back && same(back, o), "the expression is unchanged"); del(back);
#endif
  }
#if PROP == 12
  if (kind(k) != 2) se_assert(se_heap() == h0, "no memory is leaked");
#endif
  del(o); del(good); }
