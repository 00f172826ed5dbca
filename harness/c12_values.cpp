// C12: expressions are values.  Copies are independent, assignment (also to itself or from a part of itself) keeps the
// assigned tree, nothing leaks, const arguments stay as they are.
#include "oracle.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/simplify.hpp"
using namespace oracle; using namespace viennamath;
static void is(const IF *e, const O *o, const char *m) { O *r = e ? read(e) : 0; se_assert(r && same(r, o), m); del(r); }
typedef rt_binary_expr<> BIN_; typedef rt_unary_expr<> UNA_;
static const IF *child(const IF *e, bool right) { if (const BIN_ *b = dynamic_cast<const BIN_ *>(e)) return right ? b->rhs() : b->lhs(); if (const UNA_ *u = dynamic_cast<const UNA_ *>(e)) return right ? 0 : u->lhs(); return 0; }
static O *ochild(const O *o, bool right) { return right ? o->b : o->a; }
// wrapper: copy, assign, self-assign, assign over
static void wrapper(const O *o, const O *q) {
  expr *e = new expr(build(o)); expr c(*e); expr d; d = *e; expr x(build(q)); x = *e;
  IF *cl = e->get()->clone();
  expr keep(build(q)); *e = keep; is(c.get(), o, "copy survives assignment to the original"); is(e->get(), q, "assignment takes the new tree"); is(keep.get(), q, "assigned-from expression is unchanged");
  delete e; is(c.get(), o, "copy survives the original"); is(d.get(), o, "assigned expression survives the original"); is(x.get(), o, "overwritten expression survives the original"); is(cl, o, "clone survives the original");
  expr &alias = c; c = alias; is(c.get(), o, "self-assignment keeps the tree");
  inplace_simplify(c); is(d.get(), o, "simplifying a copy in place leaves the other"); c = 3.0; is(d.get(), o, "assigning a number to a copy leaves the other");
  d = cl; is(d.get(), o, "taking ownership of a clone"); }
// nodes: copy construction and assignment of the concrete classes, also from a part of themselves
template <typename N> static void node(const O *o, const O *q) {
  IF *raw = build(o); N *n = dynamic_cast<N *>(raw);
  { N *c = new N(*n); IF *q2 = build(q); N *m = dynamic_cast<N *>(q2);
    if (m) { N t(*m); t = *n; is(&t, o, "node assignment takes the tree"); is(n, o, "assigned-from node is unchanged"); is(m, q, "copied-from node is unchanged"); }
    delete q2; N &self = *c; *c = self; is(c, o, "self-assignment of a node keeps the tree");
    for (int right = 0; right < 2; ++right) { const N *sub = dynamic_cast<const N *>(child(c, right)); if (!sub) continue;
      N t(*n); const N *s = dynamic_cast<const N *>(child(&t, right)); t = *s; is(&t, ochild(o, right), "node assigned from its own operand holds that operand");
      expr w(n->clone()); const N *ws = dynamic_cast<const N *>(child(w.get(), right)); w = *ws; is(w.get(), ochild(o, right), "wrapper assigned from a part of its own tree holds that part"); }
    delete raw; is(c, o, "copied node survives the original"); expr w(*c); expr w2; w2 = *c; delete c; is(w.get(), o, "wrapper made from a node owns a copy"); is(w2.get(), o, "wrapper assigned from a node owns a copy"); } }
static void leaves(const O *o) {
  if (o->k == VAR) { expr w, v; { variable x(o->id); expr z(x); w = x; v = z; } is(w.get(), o, "wrapper assigned from a variable"); is(v.get(), o, "wrapper of a variable"); }
  if (o->k == CONST) { expr w, v, t, u(o->c); { constant x(o->c); expr z(x); w = x; v = z; t = o->c; } is(w.get(), o, "wrapper assigned from a constant"); is(v.get(), o, "wrapper of a constant"); is(t.get(), o, "wrapper assigned from a number"); is(u.get(), o, "wrapper of a number"); }
  if (o->k == FSYM) { expr w, v; { function_symbol x = mk_fsym(o->id); expr z(x); w = x; v = z; } is(w.get(), o, "wrapper assigned from a function symbol"); is(v.get(), o, "wrapper of a function symbol"); }
  if (o->k == VEC) { expr w, v; { IF *raw = build(o); rt_vector_expr<> x(*dynamic_cast<rt_vector_expr<> *>(raw)); delete raw; expr z(x); w = x; v = z; rt_vector_expr<> y(1); y = x; is(&y, o, "vector assigned from a vector"); y[0] = variable(7); is(&x, o, "changing a copy of a vector leaves the other"); } is(w.get(), o, "wrapper assigned from a vector"); is(v.get(), o, "wrapper of a vector"); }
  if (o->k == UN) { expr w, v; { IF *raw = build(o); UNA_ x(*dynamic_cast<UNA_ *>(raw)); delete raw; expr z(x); w = x; v = z; } is(w.get(), o, "wrapper assigned from a unary expression"); is(v.get(), o, "wrapper of a unary expression"); }
  if (o->k == BIN) { expr w, v; { IF *raw = build(o); BIN_ x(*dynamic_cast<BIN_ *>(raw)); delete raw; expr z(x); w = x; v = z; } is(w.get(), o, "wrapper assigned from a binary expression"); is(v.get(), o, "wrapper of a binary expression"); } }
// operations with an operand that aliases another
static void aliasing(const O *o) {
  expr e(build(o)); expr s = e + e, p = e * e; O *oc = copy(o), *o2 = copy(o); O *want = B(B_ADD, oc, o2); is(e.get(), o, "operands are unchanged");
  s = s; e = e * e; e = e; expr t = e; t = t - t; (void)p; del(want);
  expr x(build(o)); x = substitute(x, x, x); O *back = read(x.get()); se_assert(back != 0, "substituting an expression for itself"); del(back);
}
// expressions fixed at compile time, numbers and constants assigned over whatever was there, again and again
template <class S, bool bin = true> static void over(S const &src, double want, const double *p, const O *o, const O *q) {
  std::vector<double> v(p, p + 3);
  if constexpr (bin) { O *t = B(B_DIV, copy(o), copy(q)); IF *raw = build(t); BIN_ *b = dynamic_cast<BIN_ *>(raw); BIN_ c(*b); c = src; se_eq(want, c(v), "assigned over a binary expression"); is(b, t, "a copy assigned to leaves the original"); *b = c; *b = src; *b = src; se_eq(want, (*b)(v), "assigned over itself"); c = *b; se_eq(want, c(v), "copied afterwards"); delete raw; del(t);
    BIN_ d(variable(1) - constant(7.0)), f(constant(3.0) * constant(4.0)); d = src; f = src; se_eq(want, d(v), "assigned over an expression with a number on the right"); se_eq(want, f(v), "assigned over an expression of two numbers"); }
  expr e(build(o)), k(e), z; k = src; z = src; is(e.get(), o, "a copy assigned to leaves the original"); e = src; e = src; se_eq(want, e(v), "assigned over an expression"); k = z; se_eq(want, k(v), "assigned over the same"); z = 2.0; z = src; se_eq(want, z(v), "assigned over a number"); }
static void fixed(const O *o, const O *q) {
  double p[3] = {se_real("p"), se_real("p"), se_real("p")}; ct_variable<0> x; ct_variable<1> y; ct_variable<2> z; ct_constant<3> c3; ct_constant<-5> c5; ct_constant<3000000000L> cb;
  switch (se_choice(16, "source")) {
    case 0: over(x * c3, p[0] * 3, p, o, q); break; case 1: over(c5 - y, -5 - p[1], p, o, q); break; case 2: over(ct_binary_expr<ct_constant<3>, op_div<double>, ct_constant<-5> >(c3, c5), 3.0 / -5.0, p, o, q); break;
    case 3: over(x / y, p[0] / p[1], p, o, q); break; case 4: over((x + y) * c3, (p[0] + p[1]) * 3, p, o, q); break; case 5: over(cb / (y - z), 3e9 / (p[1] - p[2]), p, o, q); break;
    case 6: over((x - c3) / (y * z), (p[0] - 3) / (p[1] * p[2]), p, o, q); break; case 7: over((x + y) * z, (p[0] + p[1]) * p[2], p, o, q); break; case 8: over(z - (c3 * x), p[2] - 3 * p[0], p, o, q); break;
    case 9: over(((x + c3) * (y - c5)) / c3, (p[0] + 3) * (p[1] + 5) / 3, p, o, q); break;
    case 10: over(c5, -5, p, o, q); break; case 11: over(p[2], p[2], p, o, q); break; case 12: over(rt_constant<double>(p[1]), p[1], p, o, q); break; case 13: over<ct_variable<2>, false>(z, p[2], p, o, q); break; case 14: over<variable, false>(variable(1), p[1], p, o, q); break;
    default: { IF *raw = build(o); UNA_ *u = dynamic_cast<UNA_ *>(raw); std::vector<double> v(p, p + 3); if (u) { UNA_ a(*u), b(*u), c(*u), d(*u); a = p[2]; b = c5; c = rt_constant<double>(p[0]); se_eq(p[2], a(v), "number assigned over a unary expression"); se_eq(-5, b(v), "compile-time number assigned over a unary expression"); se_eq(p[0], c(v), "constant assigned over a unary expression"); a = p[1]; b = p[1]; se_eq(p[1], a(v), "number assigned over a number"); c = *u; is(&c, o, "unary expression assigned over a number"); is(u, o, "a copy assigned to leaves the original"); UNA_ g(variable(0)), h(c3); se_eq(3, h(v), "unary expression of a compile-time number"); UNA_ i(variable(2)); g = c3; h = *u; i = p[0]; se_eq(3, g(v), "compile-time number assigned over a variable"); is(&h, o, "unary expression assigned over a compile-time number"); se_eq(p[0], i(v), "number assigned over a variable"); } delete raw; } } }
static O *some(unsigned which) {
  switch (which) { case 0: { Rich g(3, 1u << U_SIN, (1u << B_ADD) | (1u << B_DIV), true); return g.tree(1); }
    case 1: { Rich g(1, 1u << U_EXP, 1u << B_SUB, false); return B(B_MUL, g.tree(1), g.tree(1)); }
    case 2: { Rich g(2, 1u << U_LOG, 1u << B_SUB, true); return U(U_COS, g.tree(1)); }
    case 3: { unsigned n = 1 + se_choice(3, "size"); Rich g(3, 1u << U_SQRT, 1u << B_MUL, false); O *r = 0; for (unsigned i = 0; i < n; ++i) r = VC(i ? V(i) : g.tree(1), r); return r; }
    case 4: { Rich g(2, 1u << U_TAN, 1u << B_ADD, false); return UI(U_INT, g.tree(1), se_choice(2, "var"), VC(g.tree(1), VC(V(1), 0))); }
    case 5: return UI(U_SINT, B(B_ADD, V(0), F(0)), se_choice(2, "dom"));
    case 6: return Deep(2, (1u << U_SIN) | (1u << U_ID), 15, 9, true, 2).tree();
    default: { Rich g(3, 1u << U_ID, 15, false);
#ifdef SE_THOROUGH
      return g.tree(2);
#else
      return g.tree(1);
#endif
    } } }
extern "C" void se_main() {
  O *o = some(se_choice(8, "kind")); unsigned w = se_choice(4, "second"); O *q = w == 0 ? V(1) : w == 1 ? B(B_MUL, V(0), K(2.0)) : w == 2 ? U(U_EXP, V(0)) : VC(V(0), 0);
  unsigned long h0 = se_heap(); unsigned part = se_choice(5, "part"); if (part == 4) { if (w == 1 || w == 2) fixed(o, q); } else if (part == 0) wrapper(o, q); else if (part == 1) { if (o->k == BIN) node<BIN_>(o, q); else if (o->k == UN) node<UNA_>(o, q); } else if (part == 2) leaves(o); else if (w == 0 && o->k != VEC) aliasing(o);
  se_assert(se_heap() == h0, "no memory is leaked"); del(o); del(q);
}
