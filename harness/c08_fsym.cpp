// C08: function symbols differentiate as independent values; d(symbol)/d(variable) is the partial-derivative term.
#include "oracle.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/substitute.hpp"
using namespace oracle; using namespace viennamath;
static double P[1], FV[4], GV[4], G1;
static bool isgrad(const O *o) { return o->k == UN && o->op == U_GRAD; }
// values, with grad(symbol) and grad(1) as formal quantities of their own
static double gval(const O *o) {
  switch (o->k) { case CONST: return o->c; case VAR: return P[o->id]; case FSYM: return FV[o->id];
    case UN: if (isgrad(o)) { if (o->a->k == FSYM) return GV[o->a->id]; se_assert(o->a->k == CONST, "gradient of a symbol or of a number"); if (o->a->k != CONST) se_stop(); return G1 * o->a->c; }
      return uapply(o->op, gval(o->a));
    default: return bapply(o->op, gval(o->a), gval(o->b)); } }
static double gder(const O *o, unsigned long w) {
  if (!depends(o, FSYM, w)) return 0.0;
  switch (o->k) { case FSYM: return 1.0; case UN: if (isgrad(o)) return G1; return uderiv(o->op, gval(o->a)) * gder(o->a, w);
    default: { double x = gval(o->a), y = gval(o->b), dx = gder(o->a, w), dy = gder(o->b, w);
      switch (o->op) { case B_ADD: return dx + dy; case B_SUB: return dx - dy; case B_MUL: return dx * y + x * dy; default: return (dx * y - x * dy) / (y * y); } } } }
static void differentiable(const O *o) { if (o->k == UN && !isgrad(o)) { se_defined(uderiv(o->op, gval(o->a))); differentiable(o->a); } if (o->k == BIN) { differentiable(o->a); differentiable(o->b); } }
static void value(const expr &d, double ref, const char *m) { O *r = read(d.get()); se_assert(r != 0, "derivative is made of known nodes"); if (!r) se_stop(); se_eq(ref, gval(r), m); del(r); }
struct G : Gen { G(unsigned u, unsigned b) : Gen(1, u, b, true, 3) {}
  O *leaf() const { unsigned i = se_choice(8, "leaf"); if (i == 0) return V(0); if (i == 1) return K(se_real("c")); if (i < 5) return F(i - 2); return U(U_GRAD, F(i - 5)); }
  O *tree(int d) const { if (d == 0) return leaf(); unsigned un = __builtin_popcount(uops), bn = __builtin_popcount(bops), i = se_choice(1 + un + bn, "node"); if (i == 0) return leaf();
    i--; if (i < un) return U(nth(uops, i), tree(d - 1)); int op = nth(bops, i - un); O *l = tree(d - 1), *r = tree(d - 1); return B(op, l, r); } };
static const unsigned ALLU = ((1u << U_N) - 1) & ~(1u << U_FABS);
static void by_symbol() {
  unsigned mode = se_choice(4, "mode"); O *o;
#ifdef SE_THOROUGH
  bool deep = true;
#else
  bool deep = false;
#endif
  if (mode == 0) o = G(ALLU, 15).tree(1);
  else if (mode == 3) o = Deep(1, ALLU, 15, deep ? 8 : 5, true, 3).tree();
  else if (mode == 1) { unsigned op = se_choice(4, "b"); G g(0, 15); O *p, *q; if (deep) { p = g.tree(1); q = g.tree(1); } else if (se_choice(2, "side")) { p = g.tree(1); q = g.leaf(); } else { p = g.leaf(); q = g.tree(1); } o = B(op, p, q); }
  else { unsigned u = Gen::nth(ALLU, se_choice(__builtin_popcount(ALLU), "u")); G g(deep ? ALLU : 0, 15); o = U(u, g.tree(1)); }
  unsigned long w = se_choice(4, "wrt"); unsigned long h0 = se_heap();
  se_defined(gval(o)); differentiable(o); double ref = gder(o, w); se_defined(ref);
  { IF *raw = build(o); expr e(raw); function_symbol f = mk_fsym(w);
    value(diff(e, f), ref, "value of diff(expression, function symbol)");
    if (rt_binary_expr<> *b = dynamic_cast<rt_binary_expr<> *>(raw)) value(diff(*b, f), ref, "value of diff(binary expression, function symbol)");
    if (rt_unary_expr<> *u = dynamic_cast<rt_unary_expr<> *>(raw)) value(diff(*u, f), ref, "value of diff(unary expression, function symbol)");
    if (o->k == FSYM) value(diff(mk_fsym(o->id), f), ref, "value of diff(function symbol, function symbol)");
    O *back = read(e.get()); se_assert(back && same(o, back), "argument is unchanged"); del(back);
    se_assert(f.id() == w >> 1 && f.tag_id() == (w & 1), "symbol is unchanged"); }
  se_assert(se_heap() == h0, "no memory is leaked"); del(o); }
// any identifiers, also families beyond the two predefined ones
static void identifiers() {
  unsigned long a = se_u64("a"), ta = se_u64("ta"), b = se_u64("b"), tb = se_u64("tb"); unsigned long h0 = se_heap();
  se_assume(a < (1ul << 60) && b < (1ul << 60));
  { function_symbol f(a, ta), g(b, tb); bool eq = a == b && ta == tb;
    double val = se_real("value"); std::vector<double> none;
    expr d = diff(f, g); se_eq(eq ? 1.0 : 0.0, d.get()->eval(none), "derivative of one symbol by another is 1 or 0");
    expr p = f * f; expr dp = substitute(f, val, diff(p, g)); se_eq(eq ? 2 * val : 0.0, dp.get()->eval(none), "derivative of a square by a symbol"); }
  se_assert(se_heap() == h0, "no memory is leaked"); }
static void by_variable() {
  unsigned long a = se_u64("a"), t = se_u64("t"), v = se_u64("v"); unsigned k = se_choice(3, "arg"); unsigned long h0 = se_heap();
  { function_symbol f(a, t); if (k == 1) v = 0; if (k == 2) v = 2;
    expr d = k == 0 ? diff(f, variable(v)) : k == 1 ? diff(f, ct_variable<0>()) : diff(f, ct_variable<2>());
    const rt_unary_expr<> *u = dynamic_cast<const rt_unary_expr<> *>(d.get()); se_assert(u != 0, "derivative of a symbol is a unary expression"); if (!u) se_stop();
    const rt_function_symbol<> *g = dynamic_cast<const rt_function_symbol<> *>(u->lhs());
    se_assert(g && g->id() == a && g->tag_id() == t, "partial derivative acts on exactly that symbol");
    const op_unary<op_partial_deriv<double>, IF> *op = dynamic_cast<const op_unary<op_partial_deriv<double>, IF> *>(u->op());
    se_assert(op && op->op().id() == v, "partial derivative is with respect to exactly that variable"); }
  se_assert(se_heap() == h0, "no memory is leaked"); }
extern "C" void se_main() {
  P[0] = se_real("p0"); for (int i = 0; i < 4; ++i) { FV[i] = se_real("f"); GV[i] = se_real("g"); } G1 = se_real("g1");
  unsigned k = se_choice(3, "part"); if (k == 0) by_symbol(); else if (k == 1) identifiers(); else by_variable();
}
