// C09: substitution of variables is evaluation at the substituted values.
#include "oracle.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/substitute.hpp"
using namespace oracle; using namespace viennamath;
static double P[3];
static void value(const expr &e, double ref, const char *m) { std::vector<double> v(P, P + 3); se_eq(ref, e.get()->eval(v), m); }
static void unchanged(const expr &e, const O *o) { O *b = read(e.get()); se_assert(b && same(o, b), "expression is unchanged"); del(b); }
template <typename R> static void bare(unsigned long i, const R &r, IF *raw, double ref) {
  variable x(i);
  if (rt_binary_expr<> *b = dynamic_cast<rt_binary_expr<> *>(raw)) { expr s = substitute(x, r, *b); value(s, ref, "value of substitute(variable, replacement, binary expression)"); }
  if (rt_unary_expr<> *b = dynamic_cast<rt_unary_expr<> *>(raw)) { expr s = substitute(x, r, *b); value(s, ref, "value of substitute(variable, replacement, unary expression)"); } }
static void once(const O *o, unsigned k) { double p[3] = {P[2], P[1], P[2]}, q[3] = {4, P[1], P[2]}; IF *raw = build(o); variable x(0), z(2);
  if (k == 0) { expr e(raw); expr s = substitute(x, z, e); value(s, val(o, p), "value of substitute(variable, variable, expression)"); unchanged(e, o); } else if (k == 1) { expr e(raw); expr s = substitute(x, 4.0, e); value(s, val(o, q), "value of substitute(variable, number, expression)"); }
  else if (k == 2) { expr e(raw); std::vector<expr> sv, rv; sv.push_back(expr(x)); rv.push_back(expr(z)); expr s = substitute(sv, rv, e); value(s, val(o, p), "value of substitute(list, list, expression)"); }
  else { expr e(raw); e = substitute(x, z, e); value(e, val(o, p), "value of a substitution assigned to its argument"); } }
// one variable replaced, every kind of replacement
static void single(const O *o) {
  unsigned long i = se_choice(3, "which"); unsigned k = se_choice(6, "replacement"); unsigned long h0 = se_heap(); double c = se_real("r");
  { expr e(build(o)); IF *raw = const_cast<IF *>(e.get()); variable x(i); O *r = 0;
    double p[3] = {P[0], P[1], P[2]}, before = P[i];
    if (k == 0 || k == 1) p[i] = c; else if (k == 2) p[i] = P[(i + 1) % 3]; else if (k == 3) { r = B(B_ADD, V(i), K(c)); p[i] = P[i] + c; }
    else if (k == 4) { r = U(U_SIN, V(1)); p[i] = std::sin(P[1]); } else { r = B(B_MUL, V(0), V(i)); p[i] = P[0] * before; }
    double ref = val(o, p);
    if (k == 0) { expr s = substitute(x, c, e); value(s, ref, "value of substitute(variable, number, expression)"); }
    else if (k == 1) { constant kc(c); expr s = substitute(x, kc, e); value(s, ref, "value of substitute(variable, constant, expression)"); bare(i, kc, raw, ref); }
    else if (k == 2) { variable y((i + 1) % 3); expr s = substitute(x, y, e); value(s, ref, "value of substitute(variable, variable, expression)"); bare(i, y, raw, ref); }
    else { expr re(build(r));
      if (rt_binary_expr<> *b = dynamic_cast<rt_binary_expr<> *>(const_cast<IF *>(re.get()))) { expr s = substitute(x, *b, e); value(s, ref, "value of substitute(variable, binary expression, expression)"); bare(i, *b, raw, ref); }
      if (rt_unary_expr<> *u = dynamic_cast<rt_unary_expr<> *>(const_cast<IF *>(re.get()))) { expr s = substitute(x, *u, e); value(s, ref, "value of substitute(variable, unary expression, expression)"); bare(i, *u, raw, ref); }
      { expr s = substitute(x, re, e); value(s, ref, "value of substitute(variable, expression, expression)"); }
      { expr xe(x); expr s = substitute(xe, re, e); value(s, ref, "value of substitute(expression, expression, expression)"); }
      unchanged(re, r); }
    unchanged(e, o); se_assert(x.id() == i, "variable is unchanged"); del(r); }
  se_assert(se_heap() == h0, "no memory is leaked"); }
// several variables replaced simultaneously
static void multi(const O *o) {
  unsigned k = se_choice(6, "lists"); unsigned long h0 = se_heap(); double c = se_real("r"), d = se_real("s");
  { expr e(build(o)); double p[3] = {P[0], P[1], P[2]}; std::vector<expr> s, r; O *ro[4] = {0, 0, 0, 0};
    if (k == 0) { s.push_back(expr(variable(0))); s.push_back(expr(variable(1))); ro[0] = V(1); ro[1] = V(0); p[0] = P[1]; p[1] = P[0]; }                  // exchange
    else if (k == 1) { s.push_back(expr(variable(0))); s.push_back(expr(variable(1))); s.push_back(expr(variable(2))); ro[0] = V(1); ro[1] = V(2); ro[2] = V(0); p[0] = P[1]; p[1] = P[2]; p[2] = P[0]; }
    else if (k == 2) { s.push_back(expr(variable(1))); s.push_back(expr(variable(0))); ro[0] = B(B_ADD, V(0), K(c)); ro[1] = B(B_SUB, V(1), K(d)); p[1] = P[0] + c; p[0] = P[1] - d; }
    else if (k == 3) { s.push_back(expr(variable(1))); ro[0] = U(U_EXP, V(1)); p[1] = std::exp(P[1]); }
    else if (k == 5) { // the same variable twice: whichever replacement counts, it is the same one everywhere
      for (unsigned i = 0; i < 4; ++i) s.push_back(expr(variable(i % 2))); ro[0] = V(1); ro[1] = V(2); ro[2] = V(2); ro[3] = B(B_MUL, V(0), K(c)); std::vector<expr> q; for (unsigned i = 0; i < 4; ++i) q.push_back(expr(build(ro[i])));
      for (unsigned i = 0; i < 2; ++i) { expr one = substitute(s, q, expr(variable(i))); O *w = read(one.get()); se_assert(w && (same(w, ro[i]) || same(w, ro[i + 2])), "a variable given twice is replaced by one of its replacements"); p[i] = w && same(w, ro[i]) ? P[i + 1] : i ? P[0] * c : P[2]; del(w); } }
    else { s.push_back(expr(variable(0))); s.push_back(expr(variable(2))); ro[0] = K(c); ro[1] = K(d); p[0] = c; p[2] = d; }
    for (unsigned i = 0; i < s.size(); ++i) r.push_back(expr(build(ro[i])));
    double ref = val(o, p);
    expr t = substitute(s, r, e); value(t, ref, "value of substitute(list, list, expression)");
    unchanged(e, o); for (unsigned i = 0; i < r.size(); ++i) unchanged(r[i], ro[i]);
    for (unsigned i = 0; i < 4; ++i) del(ro[i]); }
  se_assert(se_heap() == h0, "no memory is leaked"); }
// longer lists, variables of any number, several substitutions one after the other
static void wide() {
  static const unsigned long S[4] = {0, 3, 1ul << 20, (1ul << 33) + 1}; unsigned n = 3 + se_choice(4, "pairs"), rot = se_choice(n, "first pair"); unsigned long base = S[se_choice(4, "numbers")]; bool back = se_choice(2, "order"); unsigned kind = se_choice(3, "replacement"); unsigned long h0 = se_heap();
  { double q[12]; for (unsigned i = 0; i < 12; ++i) q[i] = se_real("q"); std::vector<double> v(q, q + 12);
    O *o = V(2); for (unsigned k = 0; k < n; ++k) o = k & 1 ? B(B_ADD, o, B(B_MUL, K(k + 2), V(base + k))) : k & 2 ? B(B_SUB, U(U_ID, V(base + k)), o) : B(B_MUL, o, B(B_SUB, V(base + k), K(1)));
    expr e(build(o));
    for (unsigned round = 0; round < 2; ++round) {
      std::vector<expr> s, r; O *ro[8]; double w[12]; for (unsigned i = 0; i < 12; ++i) w[i] = q[i]; double rep[8];
      for (unsigned j = 0; j < n; ++j) { unsigned k = ((back ? n - 1 - j : j) + rot) % n, t = (k + 1 + round) % n;
        if (kind == 0 || base > 3) { if (base > 3 && kind == 1 && !round) { ro[j] = V(k); rep[k] = q[k]; } else { rep[k] = j == n - 1 ? se_real("r") : 2.25 + 1.5 * j + round; ro[j] = K(rep[k]); } }
        else if (kind == 1) { ro[j] = V(base + t); rep[k] = q[base + t]; }
        else { ro[j] = B(B_SUB, V(base + t), B(B_MUL, V(base + k), K(3))); rep[k] = q[base + t] - q[base + k] * 3; }
        s.push_back(expr(variable(base + k))); r.push_back(expr(build(ro[j]))); }
      // value with the replaced values, written out
      double x = base <= 2 && base + n > 2 ? rep[2 - base] : q[2]; for (unsigned k = 0; k < n; ++k) x = k & 1 ? x + (k + 2) * rep[k] : k & 2 ? rep[k] - x : x * (rep[k] - 1);
      expr t = substitute(s, r, e); se_eq(x, t.get()->eval(v), "value of substitute(list, list, expression) with a long list");
      for (unsigned j = 0; j < n; ++j) { unchanged(r[j], ro[j]); del(ro[j]); } }
    unchanged(e, o); del(o); }
  se_assert(se_heap() == h0, "no memory is leaked"); }
extern "C" void se_main() {
  unsigned special_ = se_choice(3, "memory or length"); if (special_ == 2) { for (int i = 0; i < 3; ++i) P[i] = se_real("p"); O *o = verylong(); for (unsigned i = 0; i < 4; ++i) once(o, i); del(o); return; }
  if (special_) { for (int i = 0; i < 3; ++i) P[i] = se_real("p"); unsigned k = se_choice(4, "operation"); reused([k](O *o) { once(o, k); }); return; }
  for (int i = 0; i < 3; ++i) P[i] = se_real("p");
  unsigned mode = se_choice(5, "mode"); if (mode == 4) { wide(); return; } O *o; unsigned all = (1u << U_N) - 1;
  if (mode == 0) o = Gen(3, 0, 15).tree(
#ifdef SE_THOROUGH
    2
#else
    1
#endif
    );
  else if (mode == 1) o = Gen(3, all, 0).tree(2);
  else if (mode == 3) o = Deep(3, (1u << U_SIN) | (1u << U_ID) | (1u << U_FABS), 15, 8).tree();
  else { Gen g(2, 1u << U_SIN, 15), l(2, 0, 0); unsigned op = se_choice(4, "b"); O *p, *q; if (se_choice(2, "side")) { p = g.node(1); q = l.leaf(); } else { p = l.leaf(); q = g.node(1); } o = B(op, p, q); }
  if (se_choice(2, "form")) single(o); else multi(o); del(o);
}
