// C25: the text an expression prints as, read back, is the expression (every node kind, every handle, compile time and run time).
#include "oracle.hpp"
#include "ctref.hpp"
#include "viennamath/runtime/equation.hpp"
#include "viennamath/runtime/interval.hpp"
#include "viennamath/compiletime/ct_vector.hpp"
#include "viennamath/compiletime/ct_equation.hpp"
#include "viennamath/compiletime/ct_interval.hpp"
#include "viennamath/compiletime/ct_function_symbol.hpp"
#include "reader.hpp"
#include <sstream>
using namespace oracle; using namespace viennamath;
struct Reader {
  const char *p; bool ok;
  Reader(const std::string &s) : p(s.c_str()), ok(true) {}
  void ws() { while (*p == ' ') ++p; }
  bool eat(const char *t) { ws(); const char *q = p; while (*t) { if (*q != *t) return false; ++q; ++t; } p = q; return true; }
  void need(const char *t) { if (ok && !eat(t)) ok = false; }
  O *fail() { ok = false; return K(0); }
  long tok() { long k = 0; p += 2; if (!(*p >= '0' && *p <= '9')) ok = false; while (*p >= '0' && *p <= '9') k = k * 10 + (*p++ - '0'); if (*p == '>') ++p; else ok = false; return k; }
  double num() { ws(); if (!ok) return 0; bool neg = false; if (p[0] == '-' && p[1] == '<') { neg = true; ++p; } double v; if (*p == '<' && p[1] == '#') v = se_token(tok()); else { if (!((*p >= '0' && *p <= '9') || *p == '-')) ok = false; v = se_parse_double(p); } return neg ? -v : v; }
  unsigned long ident() { ws(); if (!ok) return 0; if (p[0] == '<' && p[1] == '#') return se_token_u64(tok()); unsigned long k = 0; if (!(*p >= '0' && *p <= '9')) ok = false; while (*p >= '0' && *p <= '9') k = k * 10 + (unsigned long)(*p++ - '0'); return k; }
  int bop() { if (eat("+")) return B_ADD; if (eat("-")) return B_SUB; if (eat("*")) return B_MUL; if (eat("/")) return B_DIV; ok = false; return 0; }
  O *arg(int op) { if (!ok) return K(0); need("("); O *e = node(); need(")"); return U(op, e); }
  O *vec(unsigned long n) { if (!ok || n == 0 || n > 20) return fail(); O *a = node(); O *r = 0; if (n > 1) { need(","); r = vec(n - 1); } return VC(a, r); }
  O *node() {
    if (!ok) return K(0);
    if (eat("expr") || eat("unary")) return node();
    if (eat("ct_constant<")) { double v = num(); need(">"); return K(v); }
    if (eat("ct_variable<")) { unsigned long i = ident(); need(">"); return V(i); }
    if (eat("constant(")) { double v = num(); need(")"); return K(v); }
    if (eat("variable(")) { unsigned long i = ident(); need(")"); return V(i); }
    if (eat("function_symbol<unknown(")) { unsigned long i = ident(); need(")>"); return F(2 * i); }
    if (eat("function_symbol<test(")) { unsigned long i = ident(); need(")>"); return F(2 * i + 1); }
    if (eat("unknown[")) { unsigned long i = ident(); need("]"); return F(2 * i); }
    if (eat("test[")) { unsigned long i = ident(); need("]"); return F(2 * i + 1); }
    if (eat("partial_deriv<")) { unsigned long i = ident(); need(">"); O *e = arg(U_PD); e->id = i; return e; }
    if (eat("symbolic_integral[symbolic_interval[")) { unsigned long i = ident(); need("]]"); O *e = arg(U_SINT); e->id = i; return e; }
    if (eat("rt_integral[interval(")) { O *l = node(); need(","); O *h = node(); need("),"); O *v = node(); if (v->k != VAR) ok = false; unsigned long i = v->id; del(v); need("]"); O *e = arg(U_INT); e->id = i; e->b = VC(l, VC(h, 0)); return e; }
    if (eat("id")) return arg(U_ID); if (eat("exp")) return arg(U_EXP); if (eat("sin")) return arg(U_SIN); if (eat("cos")) return arg(U_COS); if (eat("tan")) return arg(U_TAN);
    if (eat("fabs")) return arg(U_FABS); if (eat("sqrt")) return arg(U_SQRT); if (eat("log10")) return arg(U_LOG10); if (eat("log")) return arg(U_LOG); if (eat("grad")) return arg(U_GRAD); if (eat("div")) return arg(U_DIV);
    bool sq = false; ws(); if (*p == '[') { const char *q = p + 1; while (*q >= '0' && *q <= '9') ++q; if (q > p + 1 && q[0] == ']' && q[1] == '(') { ++p; unsigned long n = ident(); need("]("); O *e = vec(n); need(")"); return e; } sq = true; }
    if (eat(sq ? "[" : "(")) { O *l = node(); if (!sq && eat(")")) return l; int op = bop(); O *r = node(); need(sq ? "]" : ")"); return B(op, l, r); }
    return fail(); }
  O *whole() { O *e = node(); ws(); if (*p) ok = false; return e; }
};
// same tree; constants compared as values (digits beyond the stream precision are not part of the text)
static void same_tree(const O *x, const O *y, const char *m) {
  if (!x || !y) { se_assert(!x && !y, m); return; }
  bool k = x->k == y->k; se_assert(k, m); if (!k) return;
  if (x->k == CONST) { se_eqr(x->c, y->c, m); return; }
  se_assert(x->id == y->id && x->op == y->op, m); same_tree(x->a, y->a, m); same_tree(x->b, y->b, m); }
static void denotes(const std::string &s, const O *o, const char *m) { Reader r(s); O *q = r.whole(); if (!r.ok) { se_note(s.c_str()); se_print(s.c_str()); } se_assert(r.ok, "the text is that of an expression"); if (r.ok) same_tree(o, q, m); del(q); }
template <class T> static std::string text(const T &t) { std::ostringstream s; s << t; return s.str(); }
static const char *shallow(const O *o) { return o->k == BIN ? "binary_expr" : o->k == UN ? "unary_expr" : "vector_expr"; }
static void check(const O *o) {
  unsigned long h0 = se_heap();
  { expr e(build(o)); denotes(e.get()->deep_str(), o, "text of the node"); std::string s = text(e); denotes(s, o, "text of the wrapper"); se_assert(text(expr(e)) == s, "a copy has the same text");
    if (const rt_binary_expr<> *b = dynamic_cast<const rt_binary_expr<> *>(e.get())) denotes(text(*b), o, "text of a binary expression");
    if (const rt_unary_expr<> *b = dynamic_cast<const rt_unary_expr<> *>(e.get())) denotes(text(*b), o, "text of a unary expression");
    if (const rt_vector_expr<> *b = dynamic_cast<const rt_vector_expr<> *>(e.get())) denotes(text(*b), o, "text of a vector");
    if (const variable *b = dynamic_cast<const variable *>(e.get())) denotes(text(*b), o, "text of a variable");
    if (const constant *b = dynamic_cast<const constant *>(e.get())) denotes(text(*b), o, "text of a constant");
    if (const rt_function_symbol<> *b = dynamic_cast<const rt_function_symbol<> *>(e.get())) denotes(text(*b), o, "text of a function symbol");
    if (o->k >= UN) se_assert(e.get()->shallow_str() == shallow(o), "short text names the kind of the node"); else denotes(e.get()->shallow_str(), o, "short text of a leaf");
    O *back = read(e.get()); se_assert(back && same(o, back), "argument is unchanged"); del(back); }
  se_assert(se_heap() == h0, "no memory is leaked"); }
static void pairs(const O *a, const O *b) {
  unsigned long h0 = se_heap();
  { expr x(build(a)), y(build(b)); equation q(x, y); std::string s = text(q); { Reader r(s); r.need("equation("); O *l = r.node(); r.need("="); O *h = r.node(); r.need(")"); r.ws(); if (*r.p) r.ok = false; se_assert(r.ok, "text of an equation"); if (r.ok) { same_tree(a, l, "left hand side"); same_tree(b, h, "right hand side"); } del(l); del(h); }
    interval i(x, y); s = text(i); { Reader r(s); r.need("interval("); O *l = r.node(); r.need(","); O *h = r.node(); r.need(")"); r.ws(); if (*r.p) r.ok = false; se_assert(r.ok, "text of an interval"); if (r.ok) { same_tree(a, l, "lower bound"); same_tree(b, h, "upper bound"); } del(l); del(h); } }
  se_assert(se_heap() == h0, "no memory is leaked"); }
static void ids() {
  unsigned long i = se_u64("id"), j = se_u64("id2"); se_assume(i < (1ul << 60) && j < (1ul << 60));
  // through a reader position, so that identifiers are compared as numbers of any size
  { std::string s = text(variable(i)); Reader r(s); r.need("variable("); se_assert(r.ident() == i && r.eat(")") && r.ok && !*r.p, "variable by its number"); }
  { std::string s = text(expr(variable(i))); O *o = V(i); denotes(s, o, "variable by its number"); del(o); }
  { O *o = F(2 * i + 1); std::string s = text(rt_function_symbol<>(i, test_tag<0>())); denotes(s, o, "test function by its number"); del(o); }
  { O *o = F(2 * j); std::string s = text(expr(rt_function_symbol<>(j, unknown_tag<0>()))); denotes(s, o, "unknown function by its number"); del(o); }
  { O *o = UI(U_PD, V(j), i); expr e(build(o)); denotes(text(e), o, "derivative by its variable"); del(o); }
  { O *o = UI(U_SINT, V(j), i); expr e(build(o)); denotes(text(e), o, "domain by its number"); del(o); }
  { O *o = UI(U_INT, V(1), i, VC(V(j), VC(K(2), 0))); expr e(build(o)); denotes(text(e), o, "integration variable and bounds"); del(o); }
  { std::string s = text(rt_symbolic_interval<>(i)); Reader r(s); r.need("symbolic_interval["); se_assert(r.ident() == i && r.eat("]") && r.ok && !*r.p, "symbolic interval by its number"); } }
// compile-time expressions: tree of a type
template <class E> struct tree_of;
template <long v> struct tree_of<ct_constant<v> > { static O *get() { return K((double)v); } };
template <id_type i> struct tree_of<ct_variable<i> > { static O *get() { return V(i); } };
template <id_type i> struct tree_of<ct_function_symbol<unknown_tag<i> > > { static O *get() { return F(2 * i); } };
template <id_type i> struct tree_of<ct_function_symbol<test_tag<i> > > { static O *get() { return F(2 * i + 1); } };

template <class L, class R> struct tree_of<ct_binary_expr<L, ctref::P_, R> > { static O *get() { O *l = tree_of<L>::get(); return B(B_ADD, l, tree_of<R>::get()); } };
template <class L, class R> struct tree_of<ct_binary_expr<L, ctref::M_, R> > { static O *get() { O *l = tree_of<L>::get(); return B(B_SUB, l, tree_of<R>::get()); } };
template <class L, class R> struct tree_of<ct_binary_expr<L, ctref::T_, R> > { static O *get() { O *l = tree_of<L>::get(); return B(B_MUL, l, tree_of<R>::get()); } };
template <class L, class R> struct tree_of<ct_binary_expr<L, ctref::D_, R> > { static O *get() { O *l = tree_of<L>::get(); return B(B_DIV, l, tree_of<R>::get()); } };
struct Print { template <class E> struct accept { static const bool value = ctref::wellformed<E>::value; };
  template <class E> static void run(const double *) { E e; O *o = tree_of<E>::get(); denotes(text(e), o, "text of a compile-time expression"); expr x(e); denotes(text(x), o, "text of its run-time conversion"); del(o); } };
template <class A, class B> static void ctpair() {
  O *a = tree_of<A>::get(), *b = tree_of<B>::get(); A x; B y;
  { std::string s = text(ct_equation<A, B>()); Reader r(s); r.need("ct_equation("); O *l = r.node(); r.need("="); O *h = r.node(); r.need(")"); se_assert(r.ok && !*r.p, "text of a compile-time equation"); if (r.ok) { same_tree(a, l, "left hand side"); same_tree(b, h, "right hand side"); } del(l); del(h); }
  { std::string s = text(ct_interval<A, B>()); Reader r(s); r.need("ct_interval("); O *l = r.node(); r.need(","); O *h = r.node(); r.need(")"); se_assert(r.ok && !*r.p, "text of a compile-time interval"); if (r.ok) { same_tree(a, l, "lower bound"); same_tree(b, h, "upper bound"); } del(l); del(h); }
  { std::string s = text(make_vector(x, y)); Reader r(s); r.need("vector<"); O *l = r.node(); r.need(","); O *h = r.node(); r.need(">"); se_assert(r.ok && !*r.p, "text of a compile-time vector"); if (r.ok) { same_tree(a, l, "first entry"); same_tree(b, h, "second entry"); } del(l); del(h); }
  { std::string s = text(make_vector(x)); Reader r(s); r.need("vector<"); O *l = r.node(); r.need(">"); se_assert(r.ok && !*r.p, "text of a compile-time vector"); if (r.ok) same_tree(a, l, "first entry"); del(l); }
  { std::string s = text(make_vector(x, y, x)); Reader r(s); r.need("vector<"); O *l = r.node(); r.need(","); O *h = r.node(); r.need(","); O *k = r.node(); r.need(">"); se_assert(r.ok && !*r.p, "text of a compile-time vector"); if (r.ok) { same_tree(a, l, "first entry"); same_tree(b, h, "second entry"); same_tree(a, k, "third entry"); } del(l); del(h); del(k); }
  del(a); del(b); }
extern "C" void se_main() {
  unsigned special_ = se_choice(3, "memory or length"); if (special_ == 2) { O *o = verylong(); check(o); del(o); return; }
  if (special_) { reused([](O *o) { check(o); }); return; }
  unsigned mode = se_choice(10, "mode"); O *o; const unsigned allu = (1u << U_N) - 1;
  if (mode == 0) { o = Rich(6, allu, 15, true).tree(1); check(o); del(o); }
  else if (mode == 1) { // operators below operators
#ifdef SE_THOROUGH
    Rich g(3, 1u << U_SIN, 15, false); o = g.tree(2);
#else
    Rich g(2, 0, 15, false), h(1, 1u << U_LOG, 15, false); unsigned op = se_choice(B_N, "bop"); O *l = se_choice(2, "left") ? g.node(1) : g.leaf(); O *r = l->k == BIN ? (se_choice(2, "right") ? h.node(1) : g.leaf()) : g.node(1); o = B(op, l, r);
#endif
    check(o); del(o); }
  else if (mode == 2 && se_choice(2, "two unary operations")) { Rich u(1, (1u << U_ID) | (1u << U_SIN) | (1u << U_FABS), 0, false); o = B(se_choice(4, "inner"), V(0), F(0)); for (int i = 0; i < 2; ++i) { O *w = u.node(1); w->a = o; o = w; } unsigned op = se_choice(4, "outer"); o = se_choice(2, "swap") ? B(op, V(1), o) : B(op, o, V(1)); check(o); del(o); }
  else if (mode == 2) { Rich g(2, allu, 15, true); o = Rich(1, allu, 0, true).node(1); del(o->a); o->a = g.node(1); check(o); del(o); } // below unary
  else if (mode == 3) { Rich g(2, 1u << U_SIN, 15, false), h(2, 0, 1u << B_SUB, false); O *f = g.tree(1); O *i = se_choice(2, "kind") ? UI(U_SINT, f, se_choice(2, "domain")) : UI(U_INT, f, se_choice(2, "var"), VC(h.tree(1), VC(h.leaf(), 0)));
    unsigned w = se_choice(4, "around"); o = w == 0 ? i : w == 1 ? B(B_MUL, i, V(1)) : w == 2 ? B(B_SUB, K(2), i) : U(U_SQRT, i); check(o); del(o); }
  else if (mode == 4) { Rich g(3, 1u << U_LOG10, 15, true); unsigned n = 1 + se_choice(3, "entries"); o = 0; for (unsigned i = 0; i < n; ++i) o = VC(i == 0 ? g.tree(1) : g.leaf(), o);
    unsigned w = se_choice(4, "around"); if (w == 1) o = B(B_SUB, V(1), o); else if (w == 2) o = U(U_DIV, o); else if (w == 3) o = VC(V(0), VC(o, 0)); check(o); del(o); }
  else if (mode == 5) { Rich g(4, (1u << U_LOG) | (1u << U_ID), 15, true); O *a = g.tree(1), *b = g.leaf(); if (se_choice(2, "swap")) pairs(b, a); else pairs(a, b); del(a); del(b); }
  else if (mode == 8) { o = Deep(2, (1u << U_SIN) | (1u << U_ID), 15, 6, true, 1, false).tree(); check(o); del(o); }
  else if (mode == 9) { // long vectors: entries that repeat, next to each other or apart
    unsigned n = 4 + se_choice(3, "length") * 4, per = 1 + se_choice(4, "period"), kind = se_choice(3, "kind"); o = 0; double c = kind == 1 ? se_real("c") : 0;
    for (unsigned i = n; i-- > 0;) { unsigned k = (i / (per == 4 ? 2 : 1)) % (per == 4 ? 2 : per); O *x = k == 2 ? F(3) : k == 1 ? V(1) : kind == 0 ? V(0) : kind == 1 ? K(c) : B(B_SUB, V(0), K(2)); o = VC(x, o); }
    if (se_choice(2, "inside")) o = B(B_MUL, V(2), o); check(o); del(o); }
  else if (mode == 6) ids();
  else { double p[1] = {0}; typedef ctref::list<ct_constant<0>, ct_constant<2>, ct_constant<-3>, ct_variable<0>, ct_variable<1> > L; typedef ctref::list<ct_constant<-3>, ct_variable<1> > L2; typedef ctref::d1<L2, L2>::type D1;
    switch (se_choice(6, "part")) { case 4: ctref::each<Print>(ctref::all<3, 0, ctref::list<ct_variable<0>, ct_variable<11>, ct_constant<2>, ct_variable<0> > >::type(), p); break; case 5: ctref::each<Print>(ctref::all<3, 0, ctref::list<ct_constant<-6>, ct_variable<1>, ct_constant<5000000000L>, ct_constant<-3000000000L> > >::type(), p); break; case 0: ctref::cross<Print>(L(), L(), p); break; case 1: ctref::cross<Print>(D1(), L2(), p); break; case 2: ctref::cross<Print>(L2(), D1(), p); break;
      default: typedef ct_binary_expr<ct_constant<2>, op_minus<double>, ct_variable<3> > S; typedef ct_function_symbol<unknown_tag<3> > F3; typedef ct_function_symbol<test_tag<4> > G4; typedef ct_variable<12> X;
        ctpair<S, X>(); ctpair<X, S>(); ctpair<ct_constant<-7>, F3>(); ctpair<F3, G4>(); ctpair<G4, ct_constant<0> >(); ctpair<S, S>(); } }
}
