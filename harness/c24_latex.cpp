// C24: the LaTeX text of an expression, read with the usual precedence rules, has the value of the expression.
#include "oracle.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/runtime/equation.hpp"
#include "viennamath/manipulation/latex.hpp"
#include "reader.hpp"
using namespace oracle; using namespace viennamath;
static const char *nameX0, *nameX1, *nameU0, *nameV0;   // customised names, or 0
static bool named;   // the customised names are the only ones
// ---- reader
struct Reader {
  const char *p; bool ok; bool sym; unsigned long sid;
  Reader(const std::string &s) : p(s.c_str()), ok(true) {}
  void ws() { while (*p == ' ') ++p; }
  bool eat(const char *t) { ws(); const char *q = p; while (*t) { if (*q != *t) return false; ++q; ++t; } char last = t[-1]; if (((last >= 'a' && last <= 'z') || (last >= 'A' && last <= 'Z')) && ((*q >= 'a' && *q <= 'z') || (*q >= 'A' && *q <= 'Z'))) return false; p = q; return true; }
  O *fail() { ok = false; return K(0); }
  void need(const char *t) { if (ok && !eat(t)) ok = false; }
  long tok() { long k = 0; p += 2; while (*p >= '0' && *p <= '9') k = k * 10 + (*p++ - '0'); if (*p == '>') ++p; else ok = false; return k; }
  bool isnum() { ws(); return (*p >= '0' && *p <= '9') || (p[0] == '<' && p[1] == '#'); }
  double num() { ws(); if (*p == '<') return se_token(tok()); return se_parse_double(p); }
  unsigned long ident() { ws(); if (*p == '<') return se_token_u64(tok()); unsigned long k = 0; if (!(*p >= '0' && *p <= '9')) ok = false; while (*p >= '0' && *p <= '9') k = k * 10 + (unsigned long)(*p++ - '0'); return k; }
  unsigned long var() { O *v = factor(); unsigned long id = v->id; if (v->k != VAR) ok = false; del(v); return id; }
  O *expr_() { O *l = term(); while (ok) { if (eat("+")) { O *r = term(); l = B(B_ADD, l, r); } else if (eat("-")) { O *r = term(); l = B(B_SUB, l, r); } else break; } return l; }
  O *term() { O *l = factor(); while (ok && eat("\\cdot")) { O *r = factor(); l = B(B_MUL, l, r); } return l; }
  O *factor() {
    if (!ok) return K(0);
    if (named) { const char *q = p; if (eat("x_{0}") || eat("x_{1}") || eat("u_{0}") || eat("v_{0}")) return fail(); p = q; }
    if (nameX0 && eat(nameX0)) return V(0); if (nameX1 && eat(nameX1)) return V(1); if (nameU0 && eat(nameU0)) return F(0); if (nameV0 && eat(nameV0)) return F(1);
    if (eat("-")) { if (!isnum()) return fail(); return K(-num()); }
    if (isnum()) return K(num());
    if (eat("(")) { O *e = expr_(); need(")"); return e; }
    if (eat("\\left(")) { O *e = expr_(); need("\\right)"); return e; }
    if (eat("\\left|")) { O *e = expr_(); need("\\right|"); return U(U_FABS, e); }
    if (eat("\\sqrt{")) { O *e = expr_(); need("}"); return U(U_SQRT, e); }
    if (eat("\\frac{")) {
      if (eat("\\partial")) { O *e = factor(); need("}{"); need("\\partial"); unsigned long i = var(); need("}"); return UI(U_PD, e, i); }
      O *n = expr_(); need("}{"); O *d = expr_(); need("}"); return B(B_DIV, n, d); }
    if (eat("\\exp")) return U(U_EXP, factor()); if (eat("\\sin")) return U(U_SIN, factor()); if (eat("\\cos")) return U(U_COS, factor()); if (eat("\\tan")) return U(U_TAN, factor());
    if (eat("\\ln")) return U(U_LOG, factor()); if (eat("\\log")) return U(U_LOG10, factor());
    if (eat("\\nabla")) { if (eat("\\cdot")) return U(U_DIV, factor()); return U(U_GRAD, factor()); }
    if (eat("\\int_{")) {
      if (eat("\\Omega_{")) { unsigned long i = ident(); need("}}"); O *e = expr_(); need("\\:"); need("\\mathrm{d}"); need("\\Omega"); return UI(U_SINT, e, i); }
      need("["); O *a = expr_(); need(";"); O *b = expr_(); need("]"); need("}"); O *e = expr_(); need("\\:"); need("\\mathrm{d}"); unsigned long i = var(); return UI(U_INT, e, i, VC(a, VC(b, 0))); }
    if (eat("x_{")) { unsigned long i = ident(); need("}"); return V(i); }
    if (eat("u_{")) { unsigned long i = ident(); need("}"); return F(2 * i); }
    if (eat("v_{")) { unsigned long i = ident(); need("}"); return F(2 * i + 1); }
    return fail(); }
  O *whole() { O *e = expr_(); ws(); if (*p) ok = false; return e; }
};
// ---- values: formal operations are arbitrary affine functions of the values of their parts
static double P[2], FV[4], W[10][4];
static double value(const O *o) {
  switch (o->k) { case CONST: return o->c; case VAR: if (o->id > 1) se_stop(); return P[o->id]; case FSYM: if (o->id > 3) se_stop(); return FV[o->id];
    case UN: { double x = value(o->a); if (o->op < U_N) return uapply(o->op, x); if (o->id > 1) { se_assert(false, "known operation"); se_stop(); }
      const double *w = W[(o->op - U_N) * 2 + o->id]; double r = w[0] + w[1] * x; if (o->op == U_INT) r = r + w[2] * value(o->b->a) + w[3] * value(o->b->b->a); return r; }
    default: return bapply(o->op, value(o->a), value(o->b)); } }
static void same_value(const std::string &s, const O *o, const char *m) {
  Reader r(s); O *q = r.whole(); if (!r.ok) { se_note(s.c_str()); se_print(s.c_str()); } se_assert(r.ok, "the text is a formula"); if (r.ok) { if (o->k == CONST) se_eqr(o->c, value(q), m); else se_eq(value(o), value(q), m); } del(q); }
static void names(latex_translator &t) { nameX0 = "X"; nameX1 = "Y"; nameU0 = "\\eta"; nameV0 = "w"; if (se_choice(2, "named before")) { t.customize(variable(1), "A"); t.customize(mk_fsym(1), "B"); t.customize(variable(0), "C"); t.customize(mk_fsym(0), "D"); std::string s = t(variable(0)); }
  t.customize(variable(0), "X"); t.customize(variable(1), " Y "); t.customize(mk_fsym(0), "\\eta"); t.customize(mk_fsym(1), "w"); named = true; }
static void check(const O *o) {
  unsigned long h0 = se_heap();
  { expr e(build(o)); latex_translator t; unsigned w = se_choice(4, "translator");
    nameX0 = nameX1 = nameU0 = nameV0 = 0; named = false;
    if (w == 0) same_value(t(e), o, "LaTeX text");
    else if (w == 1) { names(t); same_value(t(e), o, "LaTeX text with customised names"); }
    else if (w == 2) { names(t); latex_translator c(t); latex_translator d; d = c; same_value(d(e), o, "LaTeX text of a copied translator"); same_value(c(e), o, "LaTeX text of a copied translator"); }
    else { same_value(t(e, true), o, "LaTeX text in parentheses");
      if (const rt_binary_expr<> *b = dynamic_cast<const rt_binary_expr<> *>(e.get())) { same_value(t(*b), o, "LaTeX text of a binary expression"); se_assert(t(*b) == t(e), "text does not depend on the handle"); }
      if (const rt_unary_expr<> *b = dynamic_cast<const rt_unary_expr<> *>(e.get())) same_value(t(*b), o, "LaTeX text of a unary expression");
      if (const variable *b = dynamic_cast<const variable *>(e.get())) same_value(t(*b), o, "LaTeX text of a variable");
      if (const constant *b = dynamic_cast<const constant *>(e.get())) same_value(t(*b), o, "LaTeX text of a constant");
      if (const rt_function_symbol<> *b = dynamic_cast<const rt_function_symbol<> *>(e.get())) same_value(t(*b), o, "LaTeX text of a function symbol"); }
    O *back = read(e.get()); se_assert(back && same(o, back), "argument is unchanged"); del(back); }
  se_assert(se_heap() == h0, "no memory is leaked"); }
static void ids() { // identifiers of any size
  latex_translator t; unsigned long i = se_u64("id"), j = se_u64("id2"), k = se_u64("id3"); nameX0 = nameX1 = nameU0 = nameV0 = 0; named = false; bool custom = se_choice(2, "custom"); if (custom) { se_assume(j != i && k != i); t.customize(variable(i), "X"); t.customize(mk_fsym(2 * 6 + 1), "w"); }
  // a customised variable is written by its name wherever it occurs, others by their number
  std::string s = t(variable(j)); { Reader r(s); O *q = r.whole(); se_assert(r.ok && q->k == VAR && q->id == j, "variable by its number"); del(q); }
  s = t(variable(i)); if (custom) se_assert(s == "X", "customised variable"); else { Reader r(s); O *q = r.whole(); se_assert(r.ok && q->k == VAR && q->id == i, "variable by its number"); del(q); }
  unsigned tag = se_choice(2, "tag"); rt_function_symbol<> f = tag ? rt_function_symbol<>(k, test_tag<0>()) : rt_function_symbol<>(k, unknown_tag<0>()); s = t(f);
  if (custom && tag && k == 6) se_assert(s == "w", "customised function symbol"); else { Reader r(s); r.ws(); char c = *r.p; r.factor(); se_assert(r.ok && c == (tag ? 'v' : 'u'), "function symbol by its kind"); Reader q(s); q.eat("u_{") || q.eat("v_{"); se_assert(q.ident() == k, "function symbol by its number"); }
  rt_symbolic_interval<> d(k); s = t(integral(d, expr(1.0))); { Reader r(s); O *q = r.whole(); se_assert(r.ok && q->k == UN && q->op == U_SINT && q->id == k, "symbolic domain by its number"); del(q); }
  { expr e(new rt_unary_expr<>(constant(3).clone(), mk_uop(U_PD, j))); s = t(e); Reader r(s); O *q = r.whole(); se_assert(r.ok && q->k == UN && q->op == U_PD && q->id == j, "partial derivative by its variable"); del(q); }
  { expr e(integral(interval(expr(0.0), expr(1.0)), expr(2.0), variable(j))); s = t(e); Reader r(s); O *q = r.whole(); se_assert(r.ok && q->k == UN && q->op == U_INT && q->id == j, "integration variable by its number"); del(q); } }
// many customised names in one translator, some given anew
static void many() { latex_translator t; unsigned n = 6 + 7 * se_choice(3, "names"), w = se_choice(3, "order"); char s[3] = {0, 0, 0};
  for (unsigned i = 0; i < n; ++i) { unsigned j = w == 0 ? i : w == 1 ? n - 1 - i : i * 3 % n == 0 && i ? i : i; s[0] = 'A' + j; s[1] = 'a'; t.customize(variable(j), s); s[1] = 'b'; t.customize(mk_fsym(2 * j + 1), s); s[1] = 'c'; t.customize(mk_fsym(2 * j), s); }
  if (w == 2) for (unsigned i = 0; i < n; i += 2) { s[0] = 'A' + i; s[1] = 'd'; t.customize(variable(i), s); s[1] = 'e'; t.customize(mk_fsym(2 * i + 1), s); }
  latex_translator c(t), d; d = t; for (unsigned i = 0; i < n; ++i) { s[0] = 'A' + i; bool anew = w == 2 && i % 2 == 0; for (unsigned k = 0; k < 3; ++k) { latex_translator const &u = k == 0 ? t : k == 1 ? c : d; s[1] = anew ? 'd' : 'a'; se_assert(u(variable(i)) == s, "every customised variable has its name"); s[1] = anew ? 'e' : 'b'; se_assert(u(mk_fsym(2 * i + 1)) == s, "every customised test function has its name"); s[1] = 'c'; se_assert(u(mk_fsym(2 * i)) == s, "every customised unknown function has its name"); } } }
struct VecProc : rt_latex_processor_interface<> { rt_latex_processor_interface<> *clone() const { return new VecProc(); }
  std::string process(IF const *e, bool, rt_latex_translator<> const &t) const { const rt_vector_expr<> *v = dynamic_cast<const rt_vector_expr<> *>(e); if (!v) return ""; return "(" + t((*v)[0]) + ")"; } };
static void others(const O *a, const O *b) {
  nameX0 = nameX1 = nameU0 = nameV0 = 0; named = false; unsigned long h0 = se_heap();
  { latex_translator t; expr x(build(a)), y(build(b)); equation q(x, y); std::string s = t(q); size_t at = s.find('='); se_assert(at != std::string::npos && at > 0, "an equation has two sides"); same_value(s.substr(0, at), a, "left hand side"); same_value(s.substr(at + 1), b, "right hand side");
    interval i(x, y); s = t(i); size_t l = s.find('['), m = s.find(';'), h = s.rfind(']'); se_assert(l < m && m < h && h != std::string::npos, "an interval has two bounds"); same_value(s.substr(l + 1, m - l - 1), a, "lower bound"); same_value(s.substr(m + 1, h - m - 1), b, "upper bound");
    // user-defined processors take part everywhere, also in copies
    t.add_processor(new VecProc()); rt_vector_expr<> v(1); v[0] = x; expr ve(v); expr prod(new rt_binary_expr<>(ve.get()->clone(), mk_bop(B_SUB), y.get()->clone())); O *w = B(B_SUB, copy(a), copy(b)); latex_translator c(t); same_value(c(prod), w, "user-defined processor"); del(w); }
  se_assert(se_heap() == h0, "no memory is leaked"); }
extern "C" void se_main() {
  unsigned special_ = se_choice(3, "memory or length"); if (special_ == 2) { for (int i = 0; i < 2; ++i) P[i] = se_real("p"); O *o = verylong(); if (se_choice(2, "names")) { del(o); many(); return; } expr e(build(o)); latex_translator t; same_value(t(e), o, "LaTeX text of a long expression"); del(o); return; }
  if (special_) { for (int i = 0; i < 2; ++i) P[i] = se_real("p"); for (int i = 0; i < 4; ++i) FV[i] = se_real("f"); bool one = se_choice(2, "one translator"); latex_translator t; reused([&t, one](O *o) { expr e(build(o)); if (one) same_value(t(e), o, "LaTeX text"); else { latex_translator u; same_value(u(e), o, "LaTeX text"); } }); return; }
  for (int i = 0; i < 2; ++i) P[i] = se_real("p"); for (int i = 0; i < 4; ++i) FV[i] = se_real("f"); for (int i = 0; i < 10; ++i) for (int j = 0; j < 4; ++j) W[i][j] = se_real("w");
  unsigned mode = se_choice(9, "mode"); O *o;
  const unsigned allu = (1u << U_N) - 1;
  if (mode == 0) { o = Rich(5, allu, 15, true).tree(1); check(o); del(o); }
  else if (mode == 1) { // operators below operators
#ifdef SE_THOROUGH
    o = Rich(2, 1u << U_ID, 15, false).tree(2);
#else
    Rich g(2, 0, 15, false), h(1, 1u << U_ID, 15, false); unsigned op = se_choice(B_N, "bop"); O *l = se_choice(2, "left") ? g.node(1) : g.leaf(); O *r = l->k == BIN ? (se_choice(2, "right") ? h.node(1) : g.leaf()) : g.node(1); o = B(op, l, r);
#endif
    check(o); del(o); }
  else if (mode == 2 && se_choice(2, "two unary operations")) { Rich u(1, (1u << U_ID) | (1u << U_SIN) | (1u << U_FABS), 0, false); o = B(se_choice(4, "inner"), V(0), F(0)); for (int i = 0; i < 2; ++i) { O *w = u.node(1); w->a = o; o = w; } unsigned op = se_choice(4, "outer"); o = se_choice(2, "swap") ? B(op, V(1), o) : B(op, o, V(1)); check(o); del(o); }
  else if (mode == 2) { Rich g(2, allu, 15, true), h(2, 0, 15, false); O *l = g.node(1); unsigned op = se_choice(B_N + 1, "bop"); if (op == B_N) o = U(U_ID, l); else o = se_choice(2, "swap") ? B(op, h.leaf(), l) : B(op, l, h.leaf()); check(o); del(o); } // unary inside
  else if (mode == 3) { Rich g(2, (1u << U_SIN) | (1u << U_ID), 15, false), h(1, allu, 0, true); o = h.node(1); del(o->a); o->a = g.node(1); check(o); del(o); } // unary around
  else if (mode == 4) { Rich g(2, 1u << U_SIN, 15, false), h(2, 0, 1u << B_SUB, false); O *f = g.tree(1); O *i = se_choice(2, "kind") ? UI(U_SINT, f, se_choice(2, "domain")) : UI(U_INT, f, se_choice(2, "var"), VC(h.tree(1), VC(h.leaf(), 0)));
    unsigned w = se_choice(4, "around"); o = w == 0 ? i : w == 1 ? B(B_MUL, i, V(1)) : w == 2 ? B(B_SUB, K(2), i) : U(U_SQRT, i); check(o); del(o); }
  else if (mode == 7) { o = Deep(2, (1u << U_SIN) | (1u << U_ID) | (1u << U_SQRT), 15, 6, true, 1, false).tree(); check(o); del(o); }
  else if (mode == 8) { // formal operations around formal operations, with one ordinary operation anywhere
    static const int OPS[7] = {U_PD, U_PD, U_GRAD, U_DIV, U_SINT, U_SIN, U_ID}; unsigned n = 3, at = se_choice(n + 2, "binary at"); o = se_choice(2, "leaf") ? F(2) : V(0);
    for (unsigned i = 0; i < n; ++i) { if (at == i) o = se_choice(2, "left") ? B(B_SUB, o, K(se_real("c"))) : B(B_MUL, V(1), o); unsigned k = se_choice(7, "formal"); o = OPS[k] == U_SIN || OPS[k] == U_ID ? U(OPS[k], o) : UI(OPS[k], o, k == 1 || (k == 4 && i % 2)); } if (at == n) o = B(B_DIV, o, F(0));
    check(o); del(o); }
  else if (mode == 5) ids();
  else { Rich g(3, 1u << U_LOG, 15, false); O *a = g.tree(1), *b = g.leaf(); others(a, b); del(a); del(b); }
}
