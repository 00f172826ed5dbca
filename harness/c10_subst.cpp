// C10: substituting a general expression replaces every structurally equal subexpression and nothing else.
#include "oracle.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/substitute.hpp"
using namespace oracle; using namespace viennamath;
static Env E;
static void value(const expr &e, double ref, const char *m) { O *r = read(e.get()); se_assert(r != 0, "result is made of known nodes"); if (!r) se_stop(); se_eq(ref, fval(r, E), m); del(r); }
static void raw(const IF *t, const O *want, const char *m) { O *r = read(t); se_assert(r && same(want, r), m); del(r); }
static void unchanged(const expr &e, const O *o) { O *b = read(e.get()); se_assert(b && same(o, b), "arguments are unchanged"); del(b); }
static void once(const O *o, O *s, O *r, unsigned k) { O *want = repl(o, &s, &r, 1); double ref = fval(want, E); { expr e(build(o)), se(build(s)), re(build(r));
    if (k == 0) { IF *t = e.get()->substitute(se.get(), re.get()); raw(t, want, "exactly the equal subexpressions are replaced"); delete t; } else if (k == 1) value(substitute(se, re, e), ref, "value of substitute(expression, expression, expression)");
    else { std::vector<expr> sv(1, se), rv(1, re); value(substitute(sv, rv, e), ref, "value of substitute(list, list, expression)"); } unchanged(e, o); unchanged(se, s); unchanged(re, r); } del(want); }
static O *subtree(O *o) { if (o->k == BIN) { unsigned i = se_choice(3, "sub"); return i == 0 ? o : subtree(i == 1 ? o->a : o->b); } if (o->k == UN) return se_choice(2, "sub") ? subtree(o->a) : o; return o; }
static O *subtree_n(O *o, unsigned w) { O *all[256]; unsigned n = 0; nodes(o, all, n); if (w == 0) return copy(all[n / 2]); if (w == 1) { unsigned i = n; while (all[--i]->k != BIN && all[i]->k != UN && i); return copy(all[i]); } if (w == 2) return V(0); return copy(all[n > 2 ? 2 : 0]); }
// longer lists of search expressions of every kind
static O *term(unsigned i) { switch (i) { case 0: return V(0); case 1: return VC(V(1), VC(F(0), 0)); case 2: return F(2); case 3: return U(U_SIN, V(2)); case 4: return UI(U_INT, V(2), 1, VC(K(0), VC(V(3), 0))); case 5: return B(B_SUB, V(1), K(2)); case 6: return U(U_GRAD, F(1)); case 7: return K(7);
  case 8: return UI(U_SINT, B(B_MUL, F(0), V(2)), 4); default: return UI(U_PD, F(0), 1); } }
static double xval(const O *o) { switch (o->k) { case CONST: return o->c; case VAR: return 1.5 + 0.7 * o->id; case FSYM: return 0.3 + 1.1 * o->id; case VEC: return 0.6 * xval(o->a) + (o->b ? 0.3 * xval(o->b) : 5); case UN: { double x = xval(o->a); return o->op < U_N ? uapply(o->op, x) : 3 * x + o->op + 0.1 * o->id; } default: return bapply(o->op, xval(o->a), xval(o->b)); } }
static void xvalue(const expr &e, const O *want) { O *r = read(e.get()); se_assert(r != 0, "result is made of known nodes"); if (r) se_eq(xval(want), xval(r), "value of substitute(list, list, expression), long lists"); del(r); }
static void lists() {
  unsigned n = 2 + se_choice(4, "pairs"), first = se_choice(10, "first search"), step = se_choice(2, "order") ? 9 : 3, shape = se_choice(3, "shape"), a = se_choice(10, "a"), b = shape == 2 ? (a + 1 + se_choice(3, "b")) % 10 : se_choice(10, "b"); unsigned long h0 = se_heap();
  { O *o = shape == 0 ? B(B_MUL, B(B_ADD, term(a), U(U_EXP, term(b))), V(5)) : shape == 1 ? B(B_SUB, term(a), B(B_DIV, V(4), term(b))) : VC(V(4), VC(term(a), VC(U(U_LOG, term(b)), VC(V(5), VC(term((a + b) % 10), VC(B(B_ADD, K(3), term(b)), 0))))));
    O *sl[5], *rl[5]; std::vector<expr> sv, rv; bool swap = se_choice(2, "exchanged"); for (unsigned i = 0; i < n; ++i) { sl[i] = term((first + step * i) % 10); rl[i] = swap ? term((first + step * ((i + 1) % n)) % 10) : i & 1 ? B(B_MUL, copy(sl[i]), V(10 + i)) : V(20 + i); sv.push_back(expr(build(sl[i]))); rv.push_back(expr(build(rl[i]))); }
    O *want = repl(o, sl, rl, n); expr e(build(o)); std::vector<const IF *> sp, rp; for (unsigned i = 0; i < n; ++i) { sp.push_back(sv[i].get()); rp.push_back(rv[i].get()); }
    { IF *t = e.get()->substitute(sp, rp); raw(t, want, "exactly the equal subexpressions are replaced (long lists)"); delete t; }
    expr f = substitute(sv, rv, e); xvalue(f, want);
    // once more, the lists the other way round
    std::vector<const IF *> sq(sp.rbegin(), sp.rend()), rq(rp.rbegin(), rp.rend()); { IF *t = e.get()->substitute(sq, rq); raw(t, want, "the order of distinct pairs does not matter"); delete t; }
    { IF *t = f.get()->substitute(sp[0], e.get()); O *s1[1] = {sl[0]}, *r1[1] = {o}; O *fo = read(f.get()), *w2 = repl(fo, s1, r1, 1); raw(t, w2, "substitution into the result of a substitution"); delete t; del(fo); del(w2); }
    unchanged(e, o); del(o); del(want); for (unsigned i = 0; i < n; ++i) { unchanged(sv[i], sl[i]); unchanged(rv[i], rl[i]); del(sl[i]); del(rl[i]); } }
  se_assert(se_heap() == h0, "no memory is leaked"); }
extern "C" void se_main() {
  unsigned special_ = se_choice(3, "memory or length"); if (special_ == 2) { E.init(4, 3); O *o = verylong(), *s = se_choice(2, "search") ? V(0) : K(1.5), *r = se_choice(2, "replacement") ? V(3) : B(B_SUB, V(2), K(7)); for (unsigned i = 0; i < 3; ++i) once(o, s, r, i); del(o); del(s); del(r); return; }
  if (special_) { E.init(4, 3); O *s = se_choice(2, "search") ? V(0) : B(B_MUL, V(0), V(1)), *r = se_choice(2, "replacement") ? V(3) : B(B_SUB, V(2), K(7)); unsigned k = se_choice(3, "operation"); reused([s, r, k](O *o) { once(o, s, r, k); }); del(s); del(r); return; }
  if (se_choice(2, "long lists")) { lists(); return; }
  E.init(4, 3); unsigned mode = se_choice(5, "mode"), all = (1u << U_N) - 1; O *o, *s, *s2 = 0; bool exchanged = false;
#ifdef SE_THOROUGH
  int dd = 2;
#else
  int dd = 1;
#endif
  Rich atoms(6, 0, 0, false);
  if (mode == 0) { o = Rich(3, (1u << U_SIN) | (1u << U_EXP), 15, true).tree(dd); s = Rich(3, 1u << U_SIN, (1u << B_ADD) | (1u << B_SUB), true).tree(1); }       // any search in any tree
  else if (mode == 1) { o = Rich(2, all, 0, true).node(1); s = Rich(2, all, 0, true).node(1); }                                       // all unary operations against each other
  else if (mode == 4) { o = Deep(3, (1u << U_SIN) | (1u << U_ID), 15, 7, true, 2).tree(); s = subtree_n(o, se_choice(4, "search")); }
  else if (mode == 2) { Rich g(3, 1u << U_SIN, (1u << B_ADD) | (1u << B_MUL), false); o = B(se_choice(4, "b"), g.tree(1), g.leaf()); s = copy(subtree(o)); }  // search occurs
  else { Rich g(6, 0, 15, false); o = g.tree(1); s = atoms.leaf(); s2 = atoms.leaf(); exchanged = se_choice(2, "exchanged"); }                                               // two leaves at once
  unsigned rk = exchanged ? 0 : se_choice(3, "replacement"); O *r = exchanged ? copy(s2) : rk == 0 ? V(3) : rk == 1 ? K(se_real("r")) : B(B_MUL, copy(s), V(3));             // the replacement may contain the search
  O *sl[2] = {s, s2}, *r2 = exchanged ? copy(s) : V(2), *rl[2] = {r, r2}; unsigned n = s2 ? 2 : 1; unsigned long h1 = se_heap(); O *want = repl(o, sl, rl, n); unsigned long h0 = se_heap();
  double ref = fval(want, E);
  { expr e(build(o)), se(build(s)), re(build(r)); IF *sp = const_cast<IF *>(se.get());
    if (n == 1) {
      { IF *t = e.get()->substitute(se.get(), re.get()); raw(t, want, "exactly the equal subexpressions are replaced"); delete t; }
      value(substitute(se, re, e), ref, "value of substitute(expression, expression, expression)");
      if (rt_unary_expr<> *u = dynamic_cast<rt_unary_expr<> *>(sp)) { value(substitute(*u, re, e), ref, "value of substitute(unary, expression, expression)");
        if (rk == 0) value(substitute(*u, variable(3), e), ref, "value of substitute(unary, variable, expression)"); }
      if (rt_binary_expr<> *b = dynamic_cast<rt_binary_expr<> *>(sp)) { if (rk == 0) value(substitute(*b, variable(3), e), ref, "value of substitute(binary, variable, expression)"); if (rk == 1) value(substitute(*b, constant(r->c), e), ref, "value of substitute(binary, constant, expression)"); }
      if (s->k == FSYM) { value(substitute(mk_fsym(s->id), re, e), ref, "value of substitute(function symbol, expression, expression)"); if (rk == 1) value(substitute(mk_fsym(s->id), r->c, e), ref, "value of substitute(function symbol, number, expression)"); } }
    std::vector<expr> sv, rv; std::vector<const IF *> sp2, rp2; sv.push_back(se); rv.push_back(re); if (n == 2) { sv.push_back(expr(build(s2))); rv.push_back(expr(build(r2))); }
    for (unsigned i = 0; i < n; ++i) { sp2.push_back(sv[i].get()); rp2.push_back(rv[i].get()); }
    { IF *t = e.get()->substitute(sp2, rp2); raw(t, want, "exactly the equal subexpressions are replaced (lists)"); delete t; }
    value(substitute(sv, rv, e), ref, "value of substitute(list, list, expression)");
    unchanged(e, o); unchanged(se, s); unchanged(re, r); }
  se_assert(se_heap() == h0, "no memory is leaked"); del(want); (void)h1; del(o); del(s); del(s2); del(r); del(r2);
}
