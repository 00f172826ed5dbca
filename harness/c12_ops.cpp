// C12 (operations): every library operation, and every chain of two, leaves its arguments as they were and releases what it allocated.
#include "oracle.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/integrate.hpp"
#include "viennamath/manipulation/latex.hpp"
#include "viennamath/runtime/equation.hpp"
#include "viennamath/manipulation/apply_coordinate_system.hpp"
#include "viennamath/runtime/symbolic_interval.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"
#include "viennamath/runtime/functor_wrapper.hpp"
#include <sstream>
using namespace oracle; using namespace viennamath;
typedef rt_binary_expr<> BE; typedef rt_unary_expr<> UE; typedef rt_vector_expr<> RV;
struct Walk : rt_traversal_interface<> { void operator()(const IF *) const {} };
struct Claim : rt_manipulation_interface<> { IF *operator()(const IF *e) const { return e->clone(); } bool modifies(const IF *e) const { return dynamic_cast<const rt_unary_expr<> *>(e) != 0; } };
static bool thrown;
static const unsigned NOPS = 30;
static expr op(unsigned k, expr const &e, expr const &q) {
  const BE *b = dynamic_cast<const BE *>(e.get()); const UE *u = dynamic_cast<const UE *>(e.get()); const RV *v = dynamic_cast<const RV *>(e.get());
  variable x(0), y(1); function_symbol f(0, unknown_tag<0>()), g(0, test_tag<0>());
  switch (k) {
    case 0: if (b) { expr t(*b); inplace_simplify(t); expr s = simplify(*b); } if (u) { expr s = simplify(*u); } return simplify(e);
    case 1: { expr t(e); inplace_simplify(t); return t; }
    case 2: if (b) expr(diff(*b, x)); if (u) expr(diff(*u, x)); return diff(e, x);
    case 3: if (b) expr(diff(*b, ct_variable<1>())); if (u) expr(diff(*u, ct_variable<1>())); return diff(e, ct_variable<1>());
    case 4: if (b) expr(diff(*b, f)); if (u) expr(diff(*u, f)); return diff(e, f);
    case 5: return diff(e, g);
    case 6: { expr r = substitute(x, q, e); return r; }
    case 7: { expr r = substitute(f, q, e); return r; }
    case 8: { std::vector<expr> s(2), t(2); s[0] = x; s[1] = y; t[0] = q; t[1] = x; return substitute(s, t, e); }
    case 9: { expr p(x); return substitute(p, q, e); }
    case 10: return substitute(e, q, e);
    case 11: { se_assert(e.get()->deep_equal(e.get()) && e.get()->shallow_equal(e.get()), "an expression equals itself"); (void)e.get()->deep_equal(q.get()); (void)q.get()->deep_equal(e.get()); return e; }
    case 12: { std::string s = e.get()->deep_str() + e.get()->shallow_str(); std::stringstream t; t << e; if (b) t << *b; if (u) t << *u; if (v) t << *v; return e; }
    case 13: { rt_latex_translator<IF> l; l.customize(x, "x"); l.customize(f, "u"); rt_latex_translator<IF> m(l); std::string s = m(e); return e; }
    case 14: return apply_coordinate_system(cartesian<1>(), e);
    case 15: return apply_coordinate_system(cartesian<2>(), e);
    case 16: if (b) { expr s = apply_coordinate_system(cartesian<3>(), *b); } if (u) { expr s = apply_coordinate_system(cartesian<3>(), *u); } return apply_coordinate_system(cartesian<3>(), e);
    case 17: { rt_traversal_wrapper<> w(new Walk()); e.get()->recursive_traversal(w); return e; }
    case 18: { rt_manipulation_wrapper<> w(new Claim()); return expr(e.get()->recursive_manipulation(w)); }
    case 19: { equation eq(e, q), c(eq), d; d = c; std::stringstream t; t << d; return expr(d.rhs()); }
    case 20: { interval iv(e, q), c(iv), d; d = c; std::stringstream t; t << d; return d.upper(); }
    case 21: { std::vector<double> p(3, 1.5); double r = viennamath::eval(e, p); (void)r; return e; }
    case 22: { bool c = e.get()->is_constant(); double r = e.get()->unwrap(); (void)c; (void)r; return e; }
    case 23: { symbolic_interval om(3); expr i = integral(om, e); return substitute(om, std::make_pair(interval(expr(0.0), q), x), i); }
    case 24: { expr i = integral(interval(expr(0.0), expr(2.0)), e, x); numerical_quadrature nq(new gauss_quad_1()); expr s = i + i; double r = nq(s); (void)r; return i; }
    case 25: { RV a(2); a[0] = e; a[1] = q; RV c(a), d(1); d = c; expr s = a * c; RV t = a + d, m = t - a, z = m * 2.0; std::stringstream w; w << z; return s; }
    case 26: { expr s = e + q, d = e - q, p = e * q, r = e / q; return s + d - p * r; }
    case 27: { expr s = exp(e); if (b) { expr t = sin(*b); } if (u) { expr t = sqrt(*u); } return s + fabs(e); }
    case 28: { expr s = e * 2.0 + 1.0 / x - ct_variable<1>() + ct_constant<3>() - e; return s; }
    default: { expr s = grad(f) * e, t = div(g) + s; return diff(t, f); } } }
#ifdef SE_THOROUGH
static const bool THO = true;
#else
static const bool THO = false;
#endif
static O *some(unsigned which) {
  switch (which) { case 0: { Rich g(3, 1u << U_SIN, (1u << B_ADD) | (1u << B_DIV), true); return g.tree(1); }
    case 1: { Rich g(1, 1u << U_EXP, 1u << B_SUB, false); return B(B_MUL, g.tree(1), g.tree(1)); }
    case 2: { Rich g(2, 1u << U_LOG, 1u << B_SUB, true); return U(U_COS, g.tree(1)); }
    case 3: { unsigned n = 1 + se_choice(3, "size"); O *r = 0; for (unsigned i = 0; i < n; ++i) r = VC(i ? V(i) : K(se_real("c")), r); return r; }
    case 4: { Rich g(2, 1u << U_TAN, 1u << B_ADD, false); return UI(U_INT, g.tree(1), se_choice(2, "var"), VC(g.tree(1), VC(V(1), 0))); }
    case 5: return UI(U_SINT, B(B_ADD, V(0), F(0)), se_choice(2, "dom"));
    default: { Rich g(3, (1u << U_N) - 1, 15, false); return g.tree(1); } } }
extern "C" void se_main() {
  unsigned kind = se_choice(8, "kind"); bool deep = kind == 7; O *o = deep ? Deep(2, (1u << U_SIN) | (1u << U_ID), 15, 6, false, 2).tree() : some(kind); unsigned w = deep ? 0 : se_choice(3, "second"); O *q = w == 0 ? V(1) : w == 1 ? B(B_MUL, V(0), K(2.0)) : U(U_EXP, K(0.0));
  unsigned k1 = se_choice(NOPS, "first operation"), k2 = NOPS; 
  if (w == 0 && !deep) k2 = se_choice(THO ? NOPS + 1 : 6, "second operation"); if (!THO && w == 0 && k2 == 5) k2 = NOPS;
  unsigned long h0 = se_heap(); bool ok = false;
  { expr e(build(o)), p(build(q));
    try { expr r = op(k1, e, p); expr keep(r); O *rr = r.get() ? read(r.get()) : 0; if (k2 < NOPS) { expr s = op(k2, r, e); O *r2 = read(r.get()); se_assert((!rr && !r2) || (rr && r2 && same(rr, r2)), "an operation leaves the result of an earlier one as it was"); del(r2); } del(rr); ok = true; } catch (...) { }
    O *a = read(e.get()), *c = read(p.get()); se_assert(a && same(a, o), "argument is unchanged"); se_assert(c && same(c, q), "second argument is unchanged"); del(a); del(c); }
  if (ok) se_assert(se_heap() == h0, "no memory is leaked");
  del(o); del(q);
}
