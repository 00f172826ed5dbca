// C28: traversal calls the visitor once for every node it is told to step into; rewriting replaces exactly the claimed nodes.
#include "oracle.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/runtime/functor_wrapper.hpp"
using namespace oracle; using namespace viennamath;
static const IF *node[64]; static unsigned nn; static unsigned parent[64], dec[64], visits[64]; static const O *onode[64];
static bool leafy(const O *o) { return o->k != UN && o->k != BIN && o->k != VEC; }
static void collect(const IF *e, const O *o, unsigned par) {
  unsigned me = nn++; node[me] = e; onode[me] = o; parent[me] = par; dec[me] = 2; visits[me] = 0;
  if (o->k == UN) { const rt_unary_expr<> *u = dynamic_cast<const rt_unary_expr<> *>(e); collect(u->lhs(), o->a, me); }
  else if (o->k == BIN) { const rt_binary_expr<> *b = dynamic_cast<const rt_binary_expr<> *>(e); collect(b->lhs(), o->a, me); collect(b->rhs(), o->b, me); }
  else if (o->k == VEC) { const rt_vector_expr<> *v = dynamic_cast<const rt_vector_expr<> *>(e); unsigned i = 0; for (const O *q = o; q; q = q->b) collect((*v)[i++].get(), q->a, me); } }
static unsigned find(const IF *e) { for (unsigned i = 0; i < nn; ++i) if (node[i] == e) return i; se_assert(false, "the functor is called with nodes of the expression only"); se_stop(); return 0; }
static unsigned long mask; // one bit per node: what the functor answers for it
static unsigned decide(unsigned i) { if (dec[i] == 2) { if ((mask >> i) & 1) dec[i] = 1; else dec[i] = 0; } return dec[i]; }
static unsigned dead;
struct Visit : rt_traversal_interface<> { ~Visit() { ++dead; }
  void operator()(const IF *e) const { visits[find(e)]++; } bool step_into(const IF *e) const { return decide(find(e)); } };
struct VisitAll : rt_traversal_interface<> { void operator()(const IF *e) const { visits[find(e)]++; } };
static double repl_c; static unsigned repl_kind, calls[64]; static bool claimleaf;
struct Rewrite : rt_manipulation_interface<> { ~Rewrite() { ++dead; }
  IF *operator()(const IF *e) const { unsigned i = find(e); calls[i]++; if (!decide2(i)) return e->clone();
    switch (repl_kind) { case 0: return new rt_constant<double, IF>(repl_c); case 1: return new rt_unary_expr<>(e->clone(), new op_unary<op_fabs<double>, IF>()); default: return new rt_binary_expr<>(new rt_variable<>(7), new op_binary<op_div<double>, IF>(), e->clone()); } }
  bool modifies(const IF *e) const { return decide2(find(e)); }
  static bool decide2(unsigned i) { return decide(i); } };
static O *repl1(const O *o) { return repl_kind == 0 ? K(repl_c) : repl_kind == 1 ? U(U_FABS, copy(o)) : B(B_DIV, V(7), copy(o)); }
static unsigned at_;
static O *expected(const O *o) { // same order as collect
  unsigned me = at_++; 
  if (dec[me] == 1) { O *r = repl1(o); unsigned q = me + 1; while (q < nn) { unsigned p = parent[q]; bool in = false; while (p != ~0u) { if (p == me) { in = true; break; } p = parent[p]; } if (!in) break; ++q; } at_ = q; return r; }
  if (leafy(o)) return copy(o);
  if (o->k == UN) { O *a = expected(o->a); return mk(UN, o->op, 0, o->id, a, copy(o->b)); }
  if (o->k == BIN) { O *a = expected(o->a), *b = expected(o->b); return B(o->op, a, b); }
  O *r = 0; O **t = &r; for (const O *q = o; q; q = q->b) { *t = VC(expected(q->a), 0); t = &(*t)->b; } return r; }
// calling back by kind of node
static const IF *got_; static unsigned ncalled;
struct Back { template <class T> void operator()(T const &t) const { ncalled++; got_ = &t; } };
template <class T> static void kind(unsigned i, bool is) { got_ = 0; ncalled = 0; bool r = callback_if_castable<T>::apply(node[i], Back()); se_assert(r == is, "the call back reports whether the node is of the kind"); se_assert(ncalled == (is ? 1u : 0u) && got_ == (is ? node[i] : 0), "the call back gets exactly the nodes of its kind"); }
static unsigned seen[6];
struct Kinds : rt_traversal_interface<> {
  void operator()(const IF *e) const { if (callback_if_castable<binary_expr>::apply(e, *this)) return; if (callback_if_castable<variable>::apply(e, *this)) return; if (callback_if_castable<constant>::apply(e, *this)) return; if (callback_if_castable<unary_expr>::apply(e, *this)) return; if (callback_if_castable<function_symbol>::apply(e, *this)) return; if (callback_if_castable<rt_vector_expr<> >::apply(e, *this)) return; se_assert(false, "every node is of one of the kinds"); }
  void operator()(binary_expr const &) const { seen[0]++; } void operator()(variable const &) const { seen[1]++; } void operator()(constant const &) const { seen[2]++; } void operator()(unary_expr const &) const { seen[3]++; } void operator()(function_symbol const &) const { seen[4]++; } void operator()(rt_vector_expr<> const &) const { seen[5]++; } };
static void place(void *p, unsigned k) { switch (k) { case 0: new (p) rt_constant<double, IF>(2.0); break; case 1: new (p) rt_variable<>(1); break; case 2: new (p) rt_function_symbol<>(3, unknown_tag<>()); break; case 3: new (p) rt_unary_expr<>(new rt_variable<>(0), new op_unary<op_sin<double>, IF>()); break; default: new (p) rt_binary_expr<>(new rt_variable<>(0), new op_binary<op_plus<double>, IF>(), new rt_variable<>(1)); } }
// a node living where one of another kind was before
static void reuse() { static const int KD[5] = {CONST, VAR, FSYM, UN, BIN}; alignas(64) static unsigned char buf[256]; node[0] = (const IF *)(void *)buf; for (unsigned i = 0; i < 5; ++i) for (unsigned j = 0; j < 5; ++j) for (unsigned s = 0; s < 2; ++s) { int k = KD[s ? j : i]; place(buf, s ? j : i); kind<constant>(0, k == CONST); kind<variable>(0, k == VAR); kind<function_symbol>(0, k == FSYM); kind<unary_expr>(0, k == UN); kind<binary_expr>(0, k == BIN); ((IF *)(void *)buf)->~IF(); } }
static void kinds() {
  for (unsigned i = 0; i < nn; ++i) { int k = onode[i]->k; kind<unary_expr>(i, k == UN); kind<binary_expr>(i, k == BIN); kind<variable>(i, k == VAR); kind<constant>(i, k == CONST); kind<function_symbol>(i, k == FSYM); kind<rt_vector_expr<> >(i, k == VEC); kind<IF>(i, true); }
  rt_traversal_wrapper<> w(new Kinds()); for (unsigned t = 1; t < 3; ++t) { if (t == 1) for (unsigned j = 0; j < 6; ++j) seen[j] = 0; node[0]->recursive_traversal(w); static const int KD[6] = {BIN, VAR, CONST, UN, FSYM, VEC}; for (unsigned j = 0; j < 6; ++j) { unsigned n = 0; for (unsigned i = 0; i < nn; ++i) n += onode[i]->k == KD[j]; se_assert(seen[j] == t * n, "a visitor calling back by kind sees every node of each kind once per walk"); } } }
#ifdef SE_THOROUGH
static const bool THO = true;
#else
static const bool THO = false;
#endif
static O *vecs(Rich const &g, int d) { unsigned n = 1 + se_choice(2, "entries"); O *r = 0; while (n--) r = VC(g.tree(d), r); return r; }
static bool deep_;
static O *shape() {
  if (se_choice(2, "reuse")) { reuse(); return 0; }
  if (se_choice(2, "long")) { deep_ = true; if (se_choice(2, "very long")) return verylong(30); return Deep(2, (1u << U_SIN) | (1u << U_ID), 15, 6, false, 2).tree(); }
#ifdef SE_THOROUGH
  switch (se_choice(7, "shape")) { case 6: { Rich g(1, 1u << U_EXP, 1u << B_SUB, false); return g.tree(3); }
#else
  switch (se_choice(6, "shape")) {
#endif
    case 5: { unsigned n = 3 + se_choice(2, "entries"), w = se_choice(4, "pattern"); O *r = 0; for (unsigned i = 0; i < n; ++i) r = VC(w == 0 ? V(0) : w == 1 ? (i % 2 ? V(0) : K(1)) : w == 2 ? (i == 1 ? F(0) : U(U_SIN, V(2))) : V(i), r); return se_choice(2, "inside") ? B(B_MUL, r, V(0)) : r; } // repeated entries
    case 0: { Rich g(6, (1u << U_N) - 1, 15, true); return g.tree(1); } case 1: { Rich g(2, 1u << U_SIN, THO ? 9 : 8, false); return g.tree(2); }
    case 2: { Rich g(1, 1u << U_EXP, 1u << B_MUL, THO); return vecs(g, 1); } case 3: { Rich g(THO ? 2 : 1, 1u << U_EXP, 1u << B_SUB, false); O *v = vecs(g, 1); return se_choice(2, "op") ? B(B_MUL, v, vecs(g, 0)) : U(U_GRAD, v); }
    default: { Rich g(1, 1u << U_COS, 1u << B_ADD, false); O *t = g.tree(1); return se_choice(2, "integral") ? UI(U_INT, t, 1, VC(K(se_real("lo")), VC(V(1), 0))) : UI(U_SINT, t, 3); } } }
extern "C" void se_main() {
  O *o = shape(); if (!o) return; unsigned long h0 = se_heap();
  { expr e(build(o)); nn = 0; if (!deep_) mask = se_u64("answers"); collect(e.get(), o, ~0u); dead = 0; unsigned m = se_choice(4, "mode"); if (m == 3) kinds(); else { if (deep_) { unsigned long bit = 1ul << se_choice(nn, "node"); mask = m == 0 ? ~bit : bit; }
    if (m == 0) { { rt_traversal_wrapper<> w(new Visit()); e.get()->recursive_traversal(w); se_assert(dead == 0, "the functor lives as long as its wrapper"); } se_assert(dead == 1, "the wrapper releases its functor");
      for (unsigned i = 0; i < nn; ++i) { bool want = true; for (unsigned p = parent[i]; p != ~0u; p = parent[p]) if (dec[p] != 1) want = false; se_assert(visits[i] == (want ? 1u : 0u), "every node below nodes stepped into is visited once, no other"); } }
    else if (m == 1) { rt_traversal_wrapper<> w(new VisitAll()); e.get()->recursive_traversal(w); for (unsigned i = 0; i < nn; ++i) se_assert(visits[i] == 1, "by default every node is visited once"); }
    else { repl_kind = se_choice(3, "replacement"); repl_c = se_real("r"); for (unsigned i = 0; i < nn; ++i) calls[i] = 0;
      { rt_manipulation_wrapper<> w(new Rewrite()); expr r(e.get()->recursive_manipulation(w)); se_assert(dead == 0, "the functor lives as long as its wrapper");
        for (unsigned i = 0; i < nn; ++i) se_assert(calls[i] <= 1 && (calls[i] == 0 || dec[i] == 1 || leafy(onode[i])), "the functor is applied once, to claimed nodes only");
        at_ = 0; for (unsigned i = 0; i < nn; ++i) if (dec[i] == 2) { bool below = false; for (unsigned p = parent[i]; p != ~0u; p = parent[p]) if (dec[p] == 1) below = true; if (!below) se_assert(false, "every node outside replaced ones is offered to the functor"); dec[i] = 0; }
        O *x = expected(o), *got = read(r.get()); se_assert(got && same(got, x), "the result is the expression with exactly the claimed nodes replaced"); del(x); del(got); }
      se_assert(dead == 1, "the wrapper releases its functor"); } }
    O *back = read(e.get()); se_assert(back && same(o, back), "the expression itself is unchanged"); del(back); }
  se_assert(se_heap() == h0, "no memory is leaked"); del(o);
}
