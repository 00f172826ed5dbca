// C04, unary functions: f(operand) has the value f applied to the operand's value, for every kind of operand and every function.
#include "oracle.hpp"
#include "viennamath/manipulation/eval.hpp"
using namespace oracle; using namespace viennamath;
static double P[3], C0, C1;
template <class T> static void fns(T const &t, double r) {
  std::vector<double> v(P, P + 3); unsigned f = se_choice(8, "function");
#define FN(I, NAME) if (f == I) { se_eq(std::NAME(r), NAME(t)(v), #NAME " of an operand"); rt_unary_expr<> u(NAME(t)); expr e(NAME(t)); e = NAME(t); se_eq(std::NAME(r), e(v), #NAME " of an operand, wrapped"); se_eq(std::NAME(std::NAME(r) * 2.0), NAME(NAME(t) * expr(2.0))(v), #NAME " of a product with " #NAME); se_eq(std::NAME(std::NAME(r)), NAME(u)(v), #NAME " of " #NAME); }
  FN(0, exp) FN(1, sin) FN(2, cos) FN(3, tan) FN(4, fabs) FN(5, sqrt) FN(6, log) FN(7, log10) }
static void is(rt_unary_expr<> const &u, O *want, const char *m) { O *r = read(&u); se_assert(r && same(r, want), m); del(r); del(want); }
static void formal() {
  unsigned long id = se_u64("id"); se_assume(id < (1ul << 62)); unsigned long h0 = se_heap();
  { function_symbol u(id, unknown_tag<0>()), v(id, test_tag<0>()); rt_unary_expr<> gu(grad(u)); rt_binary_expr<> sum(expr(u) + expr(v)); expr e(sum), eu(u);
    is(grad(u), U(U_GRAD, F(2 * id)), "gradient of a function symbol"); is(grad(v), U(U_GRAD, F(2 * id + 1)), "gradient of a test function"); is(div(u), U(U_DIV, F(2 * id)), "divergence of a function symbol"); is(div(gu), U(U_DIV, U(U_GRAD, F(2 * id))), "divergence of a gradient");
    is(laplace(v), U(U_DIV, U(U_GRAD, F(2 * id + 1))), "Laplace operator"); is(laplace(eu), U(U_DIV, U(U_GRAD, F(2 * id))), "Laplace operator of an expression wrapper"); is(grad(gu), U(U_GRAD, U(U_GRAD, F(2 * id))), "gradient of a unary expression");
    is(grad(e), U(U_GRAD, B(B_ADD, F(2 * id), F(2 * id + 1))), "gradient of an expression wrapper"); is(div(sum), U(U_DIV, B(B_ADD, F(2 * id), F(2 * id + 1))), "divergence of a binary expression"); is(div(e), U(U_DIV, B(B_ADD, F(2 * id), F(2 * id + 1))), "divergence of an expression wrapper"); }
  se_assert(se_heap() == h0, "no memory is leaked"); }
extern "C" void se_main() {
  P[0] = se_real("p0"); P[1] = se_real("p1"); P[2] = se_real("p2"); C0 = se_real("c0"); C1 = se_real("c1");
  unsigned k = se_choice(16, "operand"); if (k == 15) { formal(); return; } unsigned long h0 = se_heap();
  { variable x0(0), x1(1); rt_constant<double> rc(C0); ct_variable<0> cx; ct_variable<2> cz; ct_constant<3> c3;
    rt_binary_expr<> be(new rt_variable<>(0), new op_binary<op_minus<double>, IF>(), new rt_constant<double>(C1)); rt_unary_expr<> ue(new rt_variable<>(1), new op_unary<op_sin<double>, IF>());
    switch (k) { case 0: fns(rc, C0); break; case 1: fns(x1, P[1]); break; case 2: fns(cx, P[0]); break; case 3: fns(cz, P[2]); break; case 4: fns(ue, std::sin(P[1])); break; case 5: fns(be, P[0] - C1); break;
      case 6: fns(expr(be), P[0] - C1); break; case 7: fns(expr(ue), std::sin(P[1])); break; case 8: fns(expr(rc), C0); break; case 9: fns(expr(x0), P[0]); break;
      case 10: fns(cx * cz, P[0] * P[2]); break; case 11: fns(c3 - cx, 3.0 - P[0]); break; case 12: fns(cz / c3, P[2] / 3.0); break; case 13: fns((cx + cz) * (cx - c3), (P[0] + P[2]) * (P[0] - 3.0)); break; default: fns(x0 * x1 + cx, P[0] * P[1] + P[0]); } }
  se_assert(se_heap() == h0, "no memory is leaked");
}
