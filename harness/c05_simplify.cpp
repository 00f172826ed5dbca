// C05 (-DPROP=5): run-time simplification preserves the value.  C06 (-DPROP=6): it ends and leaves nothing trivial.
#include "oracle.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/simplify.hpp"
using namespace oracle; using namespace viennamath;
static bool isconst(const O *o) { return o->k == CONST || (o->k == BIN && isconst(o->a) && isconst(o->b)); }
static double cv(const O *o) { return o->k == CONST ? o->c : bapply(o->op, cv(o->a), cv(o->b)); }
// nothing trivial left (the documented rules)
static void clean(const O *o) {
  if (o->k == UN) { clean(o->a); return; }
  if (o->k == VEC) { clean(o->a); if (o->b) clean(o->b); return; }
  if (o->k != BIN) return;
  se_assert(!(isconst(o->a) && isconst(o->b)), "no operation on two constants is left");
  bool l0 = o->a->k == CONST && o->a->c == 0.0, r0 = o->b->k == CONST && o->b->c == 0.0, l1 = o->a->k == CONST && o->a->c == 1.0, r1 = o->b->k == CONST && o->b->c == 1.0;
  if (o->op == B_ADD) se_assert(!l0 && !r0, "no sum with a zero operand is left");
  if (o->op == B_SUB) se_assert(!l0 && !r0, "no difference with a zero operand is left");
  if (o->op == B_MUL) se_assert(!l0 && !r0 && !l1 && !r1, "no product with a zero or unit factor is left");
  if (o->op == B_DIV) se_assert(!l0 && !r1, "no quotient with a zero numerator or unit denominator is left");
  clean(o->a); clean(o->b); }
// results that hold x/0 are outside the claim
static void finite(const O *o) { if (o->k == CONST) se_defined(o->c); if (o->a) finite(o->a); if (o->b) finite(o->b); }
static double F0[2];
static double P[2];
// value of a library expression, also when it holds function symbols
static void value(const IF *e, double ref, bool fs, const char *m) {
  if (!fs) { std::vector<double> v(P, P + 2); se_eq(ref, e->eval(v), m); }
  O *r = read(e); se_assert(r != 0, "result is made of known nodes"); if (!r) se_stop();
  se_eq(ref, val(r, P, F0), m); del(r); }
// entries of a vector
static void vvalue(const O *o, const IF *e, const char *m) {
  O *r = read(e); se_assert(r != 0 && r->k == VEC, "simplified vector is a vector"); if (!r) se_stop();
  const O *x = o, *y = r; for (; x && y; x = x->b, y = y->b) se_eq(val(x->a, P, F0), val(y->a, P, F0), m);
  se_assert(!x && !y, "simplified vector has the same number of entries"); del(r); }
static void vcheck(O *o) {
  unsigned long h0 = se_heap();
  { IF *raw = build(o); expr e(raw);
#if PROP == 5
    IF *one = raw->simplify(); vvalue(o, one, "entries after one simplification step"); delete one;
    expr s = simplify(e); vvalue(o, s.get(), "entries of simplify(vector)");
    expr c(e); inplace_simplify(c); vvalue(o, c.get(), "entries after inplace_simplify(vector)");
    O *back = read(e.get()); se_assert(back && same(o, back), "argument is unchanged"); del(back);
#else
    expr s = simplify(e); O *r = read(s.get()); se_assert(r != 0, "result is made of known nodes"); if (!r) se_stop();
    finite(r); clean(r); se_assert(!s.get()->can_simplify(), "result reports that nothing is left to simplify");
    expr s2 = simplify(s); O *r2 = read(s2.get()); se_assert(r2 && same(r, r2), "simplifying again changes nothing"); del(r2); del(r);
#endif
  }
  se_assert(se_heap() == h0, "no memory is leaked"); }
static void check(O *o) {
  if (o->k == VEC) { vcheck(o); return; }
  bool fs = has_kind(o, FSYM); unsigned long h0 = se_heap();
  { double ref = val(o, P, F0);
    IF *raw = build(o); expr e(raw);
#if PROP == 5
    IF *one = raw->simplify(); value(one, ref, fs, "value after one simplification step"); delete one;
    expr s = simplify(e); value(s.get(), ref, fs, "value of simplify(e)");
    expr c(e); inplace_simplify(c); value(c.get(), ref, fs, "value after inplace_simplify(e)");
    if (rt_binary_expr<> *b = dynamic_cast<rt_binary_expr<> *>(raw)) { expr t = simplify(*b); value(t.get(), ref, fs, "value of simplify(binary expression)"); rt_binary_expr<> ib(*b); inplace_simplify(ib); value(&ib, ref, fs, "value after inplace_simplify(binary expression)"); }
    if (rt_unary_expr<> *u = dynamic_cast<rt_unary_expr<> *>(raw)) { expr t = simplify(*u); value(t.get(), ref, fs, "value of simplify(unary expression)"); rt_unary_expr<> iu(*u); inplace_simplify(iu); value(&iu, ref, fs, "value after inplace_simplify(unary expression)"); }
    O *back = read(e.get()); se_assert(back && same(o, back), "argument is unchanged"); del(back);
#else
    expr s = simplify(e); O *r = read(s.get()); se_assert(r != 0, "result is made of known nodes"); if (!r) se_stop();
    finite(r); clean(r); se_assert(!s.get()->can_simplify(), "result reports that nothing is left to simplify");
    IF *again = s.get()->simplify(); 
    expr s2 = simplify(s); O *r2 = read(s2.get()); se_assert(r2 && same(r, r2), "simplifying again changes nothing"); del(r2); del(r); delete again;
    expr c(e); inplace_simplify(c); se_assert(c.get()->deep_equal(s.get()), "in-place and copying simplification agree");
#endif
  }
  se_assert(se_heap() == h0, "no memory is leaked"); }
// one of the operations alone
static void result(const IF *e, double ref) {
#if PROP == 5
  value(e, ref, false, "value of the simplified expression");
#else
  O *r = read(e); se_assert(r != 0, "result is made of known nodes"); if (!r) se_stop(); finite(r); clean(r); del(r); se_assert(!e->can_simplify(), "result reports that nothing is left to simplify");
#endif
}
static void once(const O *o, unsigned k) { double ref = val(o, P, F0); IF *raw = build(o);
  if (k == 0) { expr e(raw); inplace_simplify(e); result(e.get(), ref); } else if (k == 1) { expr e(raw); expr s = simplify(e); result(s.get(), ref); }
  else if (k == 2) { if (rt_binary_expr<> *b = dynamic_cast<rt_binary_expr<> *>(raw)) { expr t = simplify(*b); result(t.get(), ref); } delete raw; }
  else { if (rt_binary_expr<> *b = dynamic_cast<rt_binary_expr<> *>(raw)) { inplace_simplify(*b); 
#if PROP == 5
      value(b, ref, false, "value after inplace_simplify(binary expression)");
#endif
    } delete raw; } }
// one-step trees around arbitrary operands: constants meet every operation in every position
#ifdef SE_THOROUGH
static const unsigned DEEP = 11;
#else
static const unsigned DEEP = 7;
#endif
extern "C" void se_main() {
  unsigned special_ = se_choice(3, "memory or length"); if (special_ == 2) { P[0] = se_real("p0"); P[1] = se_real("p1"); O *o = verylong(); check(o); del(o); return; }
  if (special_) { P[0] = se_real("p0"); P[1] = se_real("p1"); unsigned k = se_choice(4, "operation"); reused([k](O *o) { once(o, k); }); return; }
  P[0] = se_real("p0"); P[1] = se_real("p1"); F0[0] = se_real("f0"); F0[1] = se_real("f1");
  unsigned mode = se_choice(6, "mode"); O *o;
  if (mode == 0) o = Gen(1, 0, 15, true, 0).tree(2);                                   // x, constants, all binary operations, depth 2
  else if (mode == 1) o = Gen(1, (1u << U_EXP) | (1u << U_ID), 15, true, 1).node(1);    // with function symbols
  else if (mode == 4) { Gen g(1, 1u << U_EXP, 15, true, 0); if (se_choice(2, "long vector")) { unsigned n = 3 + se_choice(4, "entries"), at = se_choice(n, "to be simplified"), k = se_choice(4, "kind"); o = 0; for (unsigned i = n; i-- > 0;) o = VC(i != at ? V(i % 2) : k == 0 ? B(B_ADD, V(1), K(0)) : k == 1 ? B(B_MUL, K(2), K(3)) : k == 2 ? U(U_EXP, B(B_MUL, V(0), K(1))) : B(B_SUB, V(1), B(B_MUL, K(0), V(0))), o); }
    else { O *a = g.tree(1); o = VC(a, se_choice(2, "entries") ? VC(g.tree(1), 0) : 0); } }  // vectors
  else if (mode == 5) o = Deep(2, (1u << U_SIN) | (1u << U_EXP) | (1u << U_ID), 15, DEEP).tree();
  else if (mode == 2) o = Gen(2, (1u << U_N) - 1, 15, true, 0).tree(1);                 // all unary operations
  else {                                                                               // spine of depth 3: (t op leaf) or (leaf op t), with a unary inside
#ifdef SE_THOROUGH
    unsigned d = 3;
#else
    unsigned d = 2;
#endif
    Gen g(1, 0, 15, true, 0); o = Gen(1, 0, 15, true, 0).node(1);
    for (unsigned i = 0; i < d; ++i) { unsigned k = se_choice(9, "wrap"); if (k == 8) o = U(U_SIN, o); else if (k < 4) o = B(k, o, g.leaf()); else o = B(k - 4, g.leaf(), o); } }
  check(o); del(o);
}
