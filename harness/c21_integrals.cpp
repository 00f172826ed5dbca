// C21 (-DPROP=21): numerical quadrature.  C22 (-DPROP=22): integrals keep their parts; substitution of symbolic domains.
#include "oracle.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/runtime/symbolic_interval.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"
using namespace oracle; using namespace viennamath;
#if PROP == 21
// a rule that records what it is asked to integrate and returns an arbitrary number
struct Call { O *lo, *hi, *e; unsigned long id; double r; };
static Call calls[16]; static unsigned ncalls, clones; static double answers[16];
struct Recorder : numerical_quadrature_interface<IF> {
  numerical_quadrature_interface<IF> *clone() const { ++clones; return new Recorder(); }
  double eval(rt_interval<IF> const &i, rt_expr<IF> const &e, rt_variable<IF> const &v) const {
    Call &c = calls[ncalls]; c.lo = read(i.lower().get()); c.hi = read(i.upper().get()); c.e = read(e.get()); c.id = v.id(); c.r = answers[ncalls]; ncalls++; return c.r; } };
static bool few; // thorough: long sums of one kind of integral
static O *bound() { if (few) return K(se_real("b")); switch (se_choice(3, "bound")) { case 0: return K(se_real("b")); case 1: return V(1); default: return B(B_SUB, V(0), K(se_real("b"))); } }
static O *leafI(unsigned n) { // an integral, or the constant zero
  unsigned k = few ? 2 * se_choice(2, "integral") : se_choice(n == 0 ? 4 : 3, "integral"); if (k == 2) return K(0.0);
  O *e = k == 0 ? V(0) : k == 1 ? U(U_EXP, V(1)) : B(B_MUL, K(se_real("c")), V(0));
  return UI(U_INT, e, se_u64("var"), VC(bound(), VC(bound(), 0))); }
static const O *leaves[16]; static unsigned nleaves;
static double expect(const O *o, unsigned &k) {
  if (o->k == CONST) return 0.0; if (o->k == UN) { leaves[nleaves++] = o; return answers[k++]; }
  double l = expect(o->a, k); double r = expect(o->b, k); return o->op == B_ADD ? l + r : l - r; }
static O *sum(int d, unsigned n) { unsigned k = d == 0 ? 0 : se_choice(3, "sum"); if (k == 0) return leafI(n); O *l = sum(d - 1, n + 1), *r = sum(d - 1, n + 1); return B(k == 1 ? B_ADD : B_SUB, l, r); }
static void calls_ok() { for (unsigned i = 0; i < ncalls; ++i) { const O *l = leaves[i]; Call &c = calls[i];
    se_assert(c.e && same(c.e, l->a), "the rule gets the integrand"); se_assert(c.lo && c.hi && same(c.lo, l->b->a) && same(c.hi, l->b->b->a), "the rule gets the interval"); se_assert(c.id == l->id, "the rule gets the integration variable");
    del(c.e); del(c.lo); del(c.hi); } }
// long sums and differences: combs and zigzags of up to eight integrals
static O *chain() { unsigned n = 3 + se_choice(6, "integrals"), shape = se_choice(3, "shape"), ops = se_choice(3, "operations"); O *o = 0;
  for (unsigned i = 0; i < n; ++i) { O *l = i % 4 == 3 ? K(0) : UI(U_INT, i % 2 ? V(i) : B(B_MUL, K(i + 1), V(0)), i % 3, VC(K(i), VC(V(i + 1), 0))); int op = ops == 0 ? B_SUB : ops == 1 ? B_ADD : i % 2 ? B_SUB : B_ADD; o = !o ? l : shape == 0 || (shape == 2 && i % 2) ? B(op, o, l) : B(op, l, o); }
  return o; }
static void dispatch() {
#ifdef SE_THOROUGH
  few = se_choice(2, "few"); O *o = few ? sum(3, 1) : se_choice(2, "chain") ? chain() : sum(1, 0);
#else
  O *o = se_choice(2, "chain") ? chain() : se_choice(2, "deep") ? B(B_SUB, sum(0, 1), B(se_choice(2, "op"), sum(0, 1), UI(U_INT, V(0), 0, VC(K(0), VC(K(1), 0))))) : sum(1, 0);
#endif
  for (unsigned i = 0; i < 8; ++i) answers[i] = se_real("answer");
  unsigned long h0 = se_heap();
  { expr e(build(o)); numerical_quadrature q0(new Recorder()), q; numerical_quadrature c1(q0); q = c1; unsigned k = 0; nleaves = 0; double ref = expect(o, k);
    unsigned w = se_choice(3, "handle"); ncalls = 0; double got = w == 0 ? q0(e) : w == 1 ? c1(e) : q(e);
    se_assert(ncalls == k, "every integral is evaluated once"); se_eq(ref, got, "sums and differences of integrals"); calls_ok();
    O *back = read(e.get()); se_assert(back && same(o, back), "argument is unchanged"); del(back); }
  se_assert(se_heap() == h0, "no memory is leaked"); del(o); }
static void defaulted() { numerical_quadrature a; numerical_quadrature b(a); b = a; numerical_quadrature c(new gauss_quad_1()); a = c; b = a; double x = se_real("a"), y = se_real("b");
  se_eq(y - x, b(interval(expr(x), expr(y)), expr(1.0), variable(0)), "a rule assigned to a default-constructed quadrature"); c = numerical_quadrature(); 
  std::vector<numerical_quadrature> v(2); v[1] = b; v.resize(3); v[0] = v[1]; se_eq(y - x, v[0](interval(expr(x), expr(y)), expr(1.0), variable(0)), "quadrature rules in containers"); }
// offending node: anything but sums and differences of integrals
static void misuse() {
  O *bad; unsigned k = se_choice(8, "bad"); bool symb = k == 7; double c = 0;
  switch (k) { case 0: c = se_real("c"); se_assume(c != 0.0); bad = K(c); break; case 1: bad = V(se_u64("id")); break; case 2: bad = F(2 * 3 + 1); break; case 3: bad = U(se_choice(U_N, "uop"), V(0)); break;
    case 4: bad = B(B_MUL, K(2), UI(U_INT, V(0), 0, VC(K(0), VC(K(1), 0)))); break; case 5: bad = B(B_DIV, UI(U_INT, V(0), 0, VC(K(0), VC(K(1), 0))), K(2)); break; case 6: bad = VC(V(0), 0); break;
    default: bad = UI(U_SINT, V(0), se_u64("domain")); }
  O *o = bad; unsigned w = se_choice(5, "where"); O *ok = UI(U_INT, V(0), 0, VC(K(0), VC(K(1), 0)));
  if (w == 1) o = B(B_ADD, ok, bad); else if (w == 2) o = B(B_SUB, bad, ok); else if (w == 3) o = B(B_ADD, K(0), B(B_SUB, ok, bad)); else if (w == 4) o = B(B_SUB, B(B_ADD, bad, ok), K(0));
  expr e(build(o)); numerical_quadrature q(new gauss_quad_1()); int r = 0;
  try { q(e); } catch (integration_without_integral_exception const &x) { r = 1; se_assert(x.what() && x.what()[0], "what() names the problem"); } catch (symbolic_integral_evaluation_not_possible_exception const &x) { r = 2; se_assert(x.what() && x.what()[0], "what() names the problem"); }
  se_assert(r == (symb ? 2 : 1), symb ? "an integral over a symbolic domain is rejected" : "an expression without integral is rejected"); }
static void midpoint() {
  unsigned m = se_choice(4, "integrand"); O *f;
  if (m == 0) f = Gen(1, (1u << U_N) - 1, 15, true).tree(1); else if (m == 1) { Gen g(1, 0, 15, true); O *l = g.tree(1); unsigned op = se_choice(B_N, "bop"); f = B(op, l, g.leaf()); }
#ifdef SE_THOROUGH
  else if (m == 2) f = Gen(1, (1u << U_SIN) | (1u << U_SQRT), 15, true).tree(2);
#endif
  else f = U(U_EXP, Gen(1, 1u << U_SIN, 15, true).tree(1));
  double p[2] = {0, 0}, a = se_real("a"), b = se_real("b"); O *lo = K(a), *hi = K(b); bool sums = se_choice(2, "bounds"); double d = 0; if (sums) { d = se_real("d"); lo = B(B_ADD, K(a), K(d)); hi = B(B_MUL, K(d), K(b)); }
  double l = sums ? a + d : a, h = sums ? d * b : b; p[0] = (l + h) / 2.0; double ref = (h - l) * val(f, p); se_defined(ref);
  O *o = UI(U_INT, f, 0, VC(lo, VC(hi, 0))); unsigned long h0 = se_heap();
  { numerical_quadrature q(new gauss_quad_1()); interval iv = build_interval(o->b); expr e(build(f)); expr ie(build(o));
    se_eq(ref, q(ie), "midpoint rule on an integral"); se_eq(ref, q(iv, e, variable(0)), "midpoint rule on interval, integrand and variable"); se_eq(ref, q(iv, e, ct_variable<0>()), "midpoint rule with a compile-time variable");
    O *back = read(ie.get()); se_assert(back && same(o, back), "argument is unchanged"); del(back); }
  se_assert(se_heap() == h0, "no memory is leaked"); del(o); }
static void affine() { // exact for affine integrands, other variables' ids
  double a = se_real("a"), b = se_real("b"), s = se_real("s"), t = se_real("t"); numerical_quadrature q(new gauss_quad_1()); unsigned k = se_choice(3, "id"); unsigned long id = k == 0 ? 0 : k == 1 ? 2 : se_u64("id");
  expr x = variable(id); expr f = s * x + t; double ref = s * (b * b - a * a) / 2.0 + t * (b - a);
  se_eq(ref, q(interval(expr(a), expr(b)), f, variable(id)), "affine integrands are integrated exactly");
  se_eq(ref, q(integral(interval(expr(a), expr(b)), f, variable(id))), "affine integrands are integrated exactly");
  se_eq(-ref, q(integral(interval(expr(b), expr(a)), f, variable(id))), "reversing the interval changes the sign");
  expr z = variable(id + 1); int r = 0; try { q(interval(expr(a), expr(b)), f + z, variable(id)); } catch (expression_not_unwrappable_exception const &) { r = 1; } se_assert(r == 1, "an integrand with another variable is rejected"); }
extern "C" void se_main() { switch (se_choice(5, "mode")) { case 0: dispatch(); break; case 1: midpoint(); break; case 2: affine(); break; case 3: defaulted(); break; default: misuse(); } }
#else
static O *bound(unsigned k) { return k == 0 ? K(se_real("b")) : k == 1 ? V(1) : B(B_ADD, V(0), K(se_real("b"))); }
static void is(expr const &e, O *want, const char *m) { O *r = read(e.get()); se_assert(r && same(r, want), m); del(r); del(want); }
static O *iv(const O *lo, const O *hi) { return VC(copy(lo), VC(copy(hi), 0)); }
static void concrete() {
  Rich g(4, 1u << U_SIN, 15, false); O *lo = bound(se_choice(3, "lo")), *hi = bound(se_choice(3, "hi")), *f = g.tree(1); unsigned long id = se_u64("var"), h0 = se_heap();
  { O *b = iv(lo, hi); interval i = build_interval(b); del(b); interval j; j = i; interval k(j); expr e(build(f));
    expr r = integral(k, e, variable(id)); is(r, UI(U_INT, copy(f), id, iv(lo, hi)), "integral over a run-time variable keeps its parts");
    expr s = integral(i, e, ct_variable<3>()); is(s, UI(U_INT, copy(f), 3, iv(lo, hi)), "integral over a compile-time variable keeps its parts");
    if (const rt_binary_expr<> *q = dynamic_cast<const rt_binary_expr<> *>(e.get())) is(integral(i, *q, ct_variable<2>()), UI(U_INT, copy(f), 2, iv(lo, hi)), "integral of a binary expression keeps its parts");
    is(e, copy(f), "integrand is unchanged"); se_assert(r.get()->deep_equal(integral(k, e, variable(id)).get()), "equal integrals compare equal"); 
    int t = 0; std::vector<double> v(3); try { r.get()->eval(v); } catch (std::exception const &) { t = 1; } se_assert(t == 1, "analytic evaluation of an integral is rejected"); }
  se_assert(se_heap() == h0, "no memory is leaked"); del(lo); del(hi); del(f); }
template <id_type id> static void ctid(expr const &e, interval const &i, const O *lo, const O *hi, const O *f) {
  is(integral(i, e, ct_variable<id>()), UI(U_INT, copy(f), id, iv(lo, hi)), "integral over a compile-time variable of any number"); 
  if (const rt_binary_expr<> *q = dynamic_cast<const rt_binary_expr<> *>(e.get())) is(integral(i, *q, ct_variable<id>()), UI(U_INT, copy(f), id, iv(lo, hi)), "integral of a binary expression over a compile-time variable of any number");
  rt_symbolic_interval<> s(7); expr r = integral(s, e); is(substitute(s, std::make_pair(i, ct_variable<id>()), r), UI(U_INT, copy(f), id, iv(lo, hi)), "domain replaced with a compile-time variable of any number"); }
static void ctids() { O *f = se_choice(2, "binary") ? B(B_MUL, V(1), K(se_real("c"))) : U(U_SIN, V(2)), *lo = bound(se_choice(2, "lo")), *hi = K(2); O *b = iv(lo, hi); interval i = build_interval(b); del(b); expr e(build(f));
  switch (se_choice(7, "id")) { case 0: ctid<0>(e, i, lo, hi, f); break; case 1: ctid<1>(e, i, lo, hi, f); break; case 2: ctid<13>(e, i, lo, hi, f); break; case 3: ctid<257>(e, i, lo, hi, f); break; case 4: ctid<70003>(e, i, lo, hi, f); break; case 5: ctid<2147483653UL>(e, i, lo, hi, f); break; default: ctid<12884901889UL>(e, i, lo, hi, f); }
  del(f); del(lo); del(hi); }
static O *pooled() { unsigned k = se_choice(5, "bound"); return k == 0 ? K(se_real("b")) : k == 1 ? V(1) : k == 2 ? V(2) : k == 3 ? K(0) : B(B_ADD, V(1), K(1)); }
static void compared() { // two integrals are the same exactly if all their parts are
  O *a = UI(U_INT, V(0), se_u64("var"), 0), *b = UI(U_INT, V(0), 0, 0); unsigned m = se_choice(3, "kind");
  a->b = iv(K(0), K(1)); if (m == 0) { O *l = pooled(), *h = se_choice(2, "empty") ? copy(l) : pooled(); a->b = VC(l, VC(h, 0)); l = pooled(); h = se_choice(2, "empty") ? copy(l) : pooled(); b->b = VC(l, VC(h, 0)); b->id = a->id; }
  else if (m == 1) { b->b = copy(a->b); b->id = se_u64("var"); } else { a->op = b->op = U_SINT; a->b = 0; b->id = se_u64("var"); }
  { expr x(build(a)), y(build(b)); bool eq = same(a, b); se_assert(x.get()->deep_equal(y.get()) == eq, "integrals are equal exactly if all their parts are"); se_assert(y.get()->deep_equal(x.get()) == eq, "integrals are equal exactly if all their parts are"); }
  del(a); del(b); }
static void symbolic() {
  unsigned long id = se_u64("domain"); rt_symbolic_interval<> s(id); unsigned k = se_choice(6, "kind"); double c = se_real("c"); expr r; O *w = 0; variable x(2);
  switch (k) { case 0: { expr e = sin(expr(x)) + expr(c); r = integral(s, e); w = B(B_ADD, U(U_SIN, V(2)), K(c)); break; }
    case 1: { rt_binary_expr<> b(x.clone(), mk_bop(B_DIV), new constant(c)); r = integral(s, b); w = B(B_DIV, V(2), K(c)); break; }
    case 2: { rt_unary_expr<> u(x.clone(), mk_uop(U_COS)); r = integral(s, u); w = U(U_COS, V(2)); break; }
    case 3: r = integral(s, constant(c)); w = K(c); break; case 4: r = integral(s, x); w = V(2); break;
    default: r = integral(s, mk_fsym(5)); w = F(5); }
  is(r, UI(U_SINT, w, id), "integral over a symbolic domain keeps its parts");
  int t = 0; std::vector<double> v(3); try { r.get()->eval(v); } catch (std::exception const &) { t = 1; } se_assert(t == 1, "evaluation of an integral over a symbolic domain is rejected");
  symbolic_interval d; is(integral(d, expr(x)), UI(U_SINT, V(2), 0), "the default symbolic domain has id 0"); }
// trees with symbolic integrals over domains of arbitrary id at any node
struct G { unsigned ops;
  O *leaf() { unsigned k = se_choice(3, "leaf"); return k == 0 ? V(0) : k == 1 ? K(se_real("c")) : F(1); }
  O *tree(int d) { if (d == 0) return leaf(); unsigned k = se_choice(ops, "node");
    switch (k) { case 0: return leaf(); case 1: return UI(U_SINT, tree(d - 1), se_u64("domain")); case 2: { O *l = tree(d - 1), *r = tree(d - 1); return B(B_ADD, l, r); } case 3: { O *l = tree(d - 1), *r = tree(d - 1); return B(B_MUL, l, r); }
      case 4: return U(U_SIN, tree(d - 1)); case 5: { O *l = tree(d - 1); return VC(l, VC(tree(d - 1), 0)); } case 6: return U(U_GRAD, tree(d - 1)); default: return UI(U_INT, tree(d - 1), 4, VC(V(7), VC(K(2), 0))); } } };
static O *subst(const O *o, unsigned long id, const O *b, unsigned long var) { if (!o) return 0;
  if (o->k == UN && o->op == U_SINT && o->id == id) return UI(U_INT, subst(o->a, id, b, var), var, copy(b));
  return mk(o->k, o->op, o->c, o->id, subst(o->a, id, b, var), o->k == UN ? copy(o->b) : subst(o->b, id, b, var)); }
static void domains() {
#ifdef SE_THOROUGH
  G g = {8}; O *o = se_choice(2, "nest") ? UI(U_SINT, g.tree(2), se_u64("domain")) : g.tree(2);
#else
  unsigned n = se_choice(3, "shape"); G g = {8}; O *o = n == 0 ? UI(U_SINT, g.tree(1), se_u64("domain")) : n == 1 ? B(B_SUB, g.tree(1), UI(U_SINT, g.tree(1), se_u64("domain"))) : se_choice(2, "root") ? U(U_SIN, g.tree(1)) : VC(UI(U_SINT, V(0), se_u64("domain")), VC(g.tree(1), 0));
#endif
  unsigned long id = se_u64("search"), var = se_u64("var"); O *b = iv(V(3), K(5)); unsigned long h0 = se_heap();
  { expr e(build(o)); interval i = build_interval(b); rt_symbolic_interval<> s(id);
    expr r = substitute(s, std::make_pair(i, variable(var)), e); is(r, subst(o, id, b, var), "exactly the integrals over the given domain are replaced");
    expr q = substitute(s, std::make_pair(i, ct_variable<6>()), e); is(q, subst(o, id, b, 6), "domain replaced with a compile-time variable");
    is(e, copy(o), "argument is unchanged"); }
  se_assert(se_heap() == h0, "no memory is leaked"); del(o); del(b); }
extern "C" void se_main() { switch (se_choice(5, "mode")) { case 0: concrete(); break; case 1: symbolic(); break; case 2: ctids(); break; case 3: compared(); break; default: domains(); } }
#endif
