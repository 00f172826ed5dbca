// C07: differentiation of run-time expressions with respect to a variable gives the partial derivative.
#include "oracle.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/diff.hpp"
using namespace oracle; using namespace viennamath;
static double P[2];
static void value(const IF *e, double ref, const char *m) { std::vector<double> v(P, P + 2); se_eq(ref, e->eval(v), m); }
// every operation is differentiable at the point (sqrt at zero is not)
static void differentiable(const O *o) { if (o->k == UN) { se_defined(uderiv(o->op, val(o->a, P))); differentiable(o->a); } if (o->k == BIN) { differentiable(o->a); differentiable(o->b); } }
static void check(const O *o) {
  unsigned long id = se_choice(2, "wrt"); unsigned long h0 = se_heap();
  double f = val(o, P); se_defined(f); differentiable(o); double ref = der(o, P, VAR, id); se_defined(ref);
  { IF *raw = build(o); expr e(raw); variable x(id);
    { IF *d = raw->diff(&x); std::vector<double> v(P, P + 2); se_eqw(ref, d->eval(v), "value of the bare derivative"); delete d; }
    { expr d = diff(e, x); value(d.get(), ref, "value of diff(expression, variable)"); }
    if (id == 0) { expr d = diff(e, ct_variable<0>()); value(d.get(), ref, "value of diff(expression, compile-time variable)"); }
    else { expr d = diff(e, ct_variable<1>()); value(d.get(), ref, "value of diff(expression, compile-time variable)"); }
    if (rt_binary_expr<> *b = dynamic_cast<rt_binary_expr<> *>(raw)) { expr d = diff(*b, x); value(d.get(), ref, "value of diff(binary expression, variable)");
      expr d2 = id ? diff(*b, ct_variable<1>()) : diff(*b, ct_variable<0>()); value(d2.get(), ref, "value of diff(binary expression, compile-time variable)"); }
    if (rt_unary_expr<> *u = dynamic_cast<rt_unary_expr<> *>(raw)) { expr d = diff(*u, x); value(d.get(), ref, "value of diff(unary expression, variable)");
      expr d2 = id ? diff(*u, ct_variable<1>()) : diff(*u, ct_variable<0>()); value(d2.get(), ref, "value of diff(unary expression, compile-time variable)"); }
    if (o->k == VAR) { expr d = diff(variable(o->id), x); value(d.get(), ref, "value of diff(variable, variable)"); }
    if (o->k == CONST) { expr d = diff(constant(o->c), x); value(d.get(), ref, "value of diff(constant, variable)"); expr d2 = diff(o->c, x); value(d2.get(), ref, "value of diff(number, variable)"); }
    O *back = read(e.get()); se_assert(back && same(o, back), "argument is unchanged"); del(back); se_assert(x.id() == id, "variable is unchanged");
  }
  se_assert(se_heap() == h0, "no memory is leaked"); }
// one of the operations alone
static void once(const O *o, unsigned k, unsigned long id) { double ref = der(o, P, VAR, id); IF *raw = build(o); variable x(id);
  if (k == 0) { IF *d = raw->diff(&x); std::vector<double> v(P, P + 2); se_eqw(ref, d->eval(v), "value of the bare derivative"); delete d; delete raw; return; }
  expr e(raw); if (k == 1) { expr d = diff(e, x); value(d.get(), ref, "value of diff(expression, variable)"); } else if (k == 2) { e = diff(e, x); value(e.get(), ref, "value of a derivative assigned to its argument"); }
  else if (rt_binary_expr<> *b = dynamic_cast<rt_binary_expr<> *>(raw)) { expr d = diff(*b, x); value(d.get(), ref, "value of diff(binary expression, variable)"); } }
// variables of any number
static unsigned long A, C; static double PA, PC;
static double aval(const O *o) { switch (o->k) { case CONST: return o->c; case VAR: return o->id == A ? PA : PC; case UN: return uapply(o->op, aval(o->a)); default: return bapply(o->op, aval(o->a), aval(o->b)); } }
static double ader(const O *o, unsigned long w) { switch (o->k) { case CONST: return 0; case VAR: return o->id == w ? 1.0 : 0.0; case UN: return uderiv(o->op, aval(o->a)) * ader(o->a, w); default: { double x = aval(o->a), y = aval(o->b), dx = ader(o->a, w), dy = ader(o->b, w);
  return o->op == B_ADD ? dx + dy : o->op == B_SUB ? dx - dy : o->op == B_MUL ? dx * y + x * dy : (dx * y - x * dy) / (y * y); } } }
static void anynumber() {
  A = se_u64("a"); C = se_u64("c"); unsigned long w = se_u64("w"); PA = P[0]; PC = P[1]; if (A == C) PC = PA; unsigned s = se_choice(4, "shape"); unsigned long h0 = se_heap();
  { O *o = s == 0 ? V(A) : s == 1 ? B(B_MUL, V(A), B(B_ADD, V(C), V(A))) : s == 2 ? U(U_SIN, B(B_MUL, K(2), V(C))) : B(B_SUB, U(U_EXP, V(A)), U(U_ID, V(C))); double ref = ader(o, w); IF *raw = build(o); expr e(raw); variable x(w);
    { IF *d = raw->diff(&x); O *r = read(d); se_assert(r != 0, "derivative is made of known nodes"); if (r) se_eq(ref, aval(r), "value of the derivative by a variable of any number"); del(r); delete d; }
    { expr d = diff(e, x); O *r = read(d.get()); se_assert(r != 0, "derivative is made of known nodes"); if (r) se_eq(ref, aval(r), "value of diff(expression, variable) for a variable of any number"); del(r); }
    del(o); }
  se_assert(se_heap() == h0, "no memory is leaked"); }
// several derivatives one after the other, second derivatives
static void again() {
  O *o = Gen(2, 1u << U_EXP, 15, false).node(1), *o2 = B(B_MUL, V(0), B(B_ADD, V(1), V(0))); double f = val(o, P); se_defined(f); { expr e(build(o)), g(build(o2));
    double d0 = der(o, P, VAR, 0), d1 = der(o, P, VAR, 1); se_defined(d0); se_defined(d1);
    expr a = diff(e, variable(0)); value(a.get(), d0, "first derivative"); expr b = diff(e, variable(1)); value(b.get(), d1, "derivative by another variable"); expr c = diff(g, variable(1)); value(c.get(), P[0], "derivative of another expression"); expr h = diff(e, variable(0)); value(h.get(), d0, "derivative taken again");
    O *ra = read(a.get()); se_assert(ra != 0, "derivative is made of known nodes"); if (ra) { double dd = der(ra, P, VAR, 1); se_defined(dd); expr ab = diff(a, variable(1)); value(ab.get(), dd, "mixed second derivative"); double d2 = der(ra, P, VAR, 0); se_defined(d2); expr aa = diff(a, variable(0)); value(aa.get(), d2, "second derivative"); } del(ra);
    a = diff(a, variable(0)); e = diff(e, variable(1)); value(e.get(), d1, "derivative stored over its argument"); } del(o); del(o2); }
static const unsigned ALLU = ((1u << U_N) - 1) & ~(1u << U_FABS);
#ifdef SE_THOROUGH
static const unsigned DEEP = 8;
#else
static const unsigned DEEP = 5;
#endif
extern "C" void se_main() {
  unsigned special_ = se_choice(3, "memory or length"); if (special_ == 2) { P[0] = se_real("p0"); P[1] = se_real("p1"); O *o = verylong(40, true, U_SIN); for (unsigned i = 0; i < 4; ++i) once(o, i, 0); del(o); return; }
  if (special_) { P[0] = se_real("p0"); P[1] = se_real("p1"); unsigned k = se_choice(4, "operation"), id = se_choice(2, "wrt"); reused([k, id](O *o) { once(o, k, id); }); return; }
  P[0] = se_real("p0"); P[1] = se_real("p1");
  unsigned part = se_choice(3, "part"); if (part == 1) { anynumber(); return; } if (part == 2) { again(); return; }
#ifdef SE_THOROUGH
  unsigned mode = se_choice(5, "mode");
#else
  unsigned mode = se_choice(4, "mode"); if (mode == 3) mode = 4;
#endif
  O *o;
  if (mode == 0) o = Gen(2, 0, 15).tree(2);                 // all binary operations, depth 2
  else if (mode == 1) o = Gen(2, ALLU, 0).tree(2);          // compositions of unary operations
  else if (mode == 2) { Gen g(2, ALLU, 15);                 // one binary operation inside or around a unary one
    unsigned s = se_choice(4, "shape"); Gen l(2, 0, 0), u(2, ALLU, 0), b(2, 0, 15);
    if (s == 3) o = l.leaf(); else if (s == 0) o = U(Gen::nth(ALLU, se_choice(__builtin_popcount(ALLU), "u")), b.node(1));
    else { unsigned op = se_choice(4, "b"); O *p = u.node(1), *q = l.leaf(); o = s == 1 ? B(op, p, q) : B(op, q, p); } }
  else if (mode == 4) o = Deep(2, ALLU & ~(1u << U_FABS), 15, DEEP).tree();   // long trees
  else { unsigned op = se_choice(4, "b"); Gen u(2, ALLU, 15); O *p = u.node(1), *q = u.node(1); o = B(op, p, q); }
  check(o); del(o);
}
