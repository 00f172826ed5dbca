// C14: misuse is reported by the library's exceptions, in every position of the tree (PROP=14).
// C13: constants are recognised consistently and unwrap to their value (PROP=13).
#include "oracle.hpp"
#include <string>
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/exception.hpp"
using namespace oracle; using namespace viennamath;
enum { OOB = 1, NEVAL = 2, NUNWRAP = 4, NDIFF = 8, ANALYTIC = 16, SYMBOLIC = 32, FORMAL = 64, OTHER = 128 };
static double P[3];
static unsigned formal(int op) { return op == U_INT ? ANALYTIC : op == U_SINT ? SYMBOLIC : FORMAL; }
static unsigned m_eval(const O *o, unsigned n) { switch (o->k) { case CONST: return 0; case VAR: return o->id < n ? 0 : OOB; case FSYM: case VEC: return NEVAL; case UN: return m_eval(o->a, n) | (o->op >= U_N ? formal(o->op) : 0); default: return m_eval(o->a, n) | m_eval(o->b, n); } }
static unsigned m_unwrap(const O *o) { switch (o->k) { case CONST: return 0; case VAR: case FSYM: case VEC: return NUNWRAP; case UN: return m_unwrap(o->a) | (o->op >= U_N ? formal(o->op) : 0); default: return m_unwrap(o->a) | m_unwrap(o->b); } }
static unsigned m_diff(const O *o, bool byf) { switch (o->k) { case CONST: case VAR: return 0; case FSYM: return byf ? 0 : NDIFF; case VEC: return m_diff(o->a, byf) | (o->b ? m_diff(o->b, byf) : 0);
  case UN: if (o->op == U_FABS || o->op > U_GRAD || (o->op == U_GRAD && !byf)) return NDIFF; return m_diff(o->a, byf); default: return m_diff(o->a, byf) | m_diff(o->b, byf); } }
static std::string text;
template <typename Fn> static unsigned caught(Fn f) {
  text = "";
  try { f(); return 0; }
  catch (variable_index_out_of_bounds_exception const &e) { text = static_cast<std::exception const &>(e).what(); return OOB; }
  catch (expression_not_evaluable_exception const &e) { text = static_cast<std::exception const &>(e).what(); return NEVAL; }
  catch (expression_not_unwrappable_exception const &e) { text = static_cast<std::exception const &>(e).what(); return NUNWRAP; }
  catch (expression_not_differentiable_exception const &e) { text = static_cast<std::exception const &>(e).what(); return NDIFF; }
  catch (analytic_integration_not_supported_exception const &e) { text = e.what(); return ANALYTIC; }
  catch (symbolic_integral_evaluation_not_possible_exception const &e) { text = e.what(); return SYMBOLIC; }
  catch (const char *s) { text = s; return FORMAL; }
  catch (...) { return OTHER; } }
static void expect(unsigned want, unsigned got, const char *none, const char *some) {
  if (want == 0) se_assert(got == 0, none); else { se_assert(got != 0 && (got & want) == got, some); if (got) se_assert(text.size() > 8, "the exception carries a message"); } }
static double R; static const IF *T; static const expr *X; static std::vector<double> *VP; static IF *D; static const IF *W; static double S;
static void f_eval() { R = T->eval(*VP); } static void f_call() { R = (*X)(*VP); } static void f_scalar() { R = T->eval(S); } static void f_scall() { R = (*X)(S); } static void f_unwrap() { R = T->unwrap(); } static void f_diff() { D = T->diff(W); }
static void f_free() { if (const rt_variable<> *v = dynamic_cast<const rt_variable<> *>(W)) { expr d = diff(*X, *v); } else { expr d = diff(*X, *dynamic_cast<const rt_function_symbol<> *>(W)); } }
static void f_eval_free() { R = viennamath::eval(*X, *VP); }
static O *offender() { switch (se_choice(10, "offender")) { case 0: return V(2); case 1: return F(0); case 2: return VC(V(0), VC(K(1), 0)); case 3: return U(U_GRAD, F(1)); case 4: return U(U_DIV, V(0)); case 5: return UI(U_PD, F(0), 1); case 6: return UI(U_INT, V(0), 0, VC(K(0), VC(K(1), 0)));
  case 7: return UI(U_SINT, V(0), 0); case 8: return U(U_FABS, V(1)); default: return V(1); } }
static O *around(O *o) { // any operation, in any operand position
  unsigned k = se_choice(U_N + 8 + 4, "wrap"); if (k < U_N) return U(k, o); k -= U_N; if (k < 4) return B(k, o, V(0)); k -= 4; if (k < 4) return B(k, K(se_real("c")), o); k -= 4; return k == 0 ? U(U_GRAD, o) : k == 1 ? UI(U_PD, o, 0) : k == 2 ? UI(U_SINT, o, 3) : B(B_MUL, o, copy(o)); }
static O *wrapped(O *o, unsigned k) { switch (k) { case 0: return U(U_SIN, o); case 1: return B(B_ADD, V(0), o); case 2: return B(B_MUL, o, K(2)); case 3: return U(U_SQRT, o); case 4: return B(B_DIV, o, V(0)); case 5: return B(B_SUB, K(3), o); case 6: return U(U_EXP, o); default: return B(B_SUB, o, V(0)); } }
static void misuse(const O *o) {
  unsigned what = se_choice(5, "operation"); IF *raw = build(o); expr e(raw); T = raw; X = &e;
  if (what == 0) { unsigned n = se_choice(4, "size"); std::vector<double> v(P, P + n); VP = &v; unsigned want = m_eval(o, n);
    unsigned got = caught(f_eval); expect(want, got, "evaluation within the coordinates does not throw", "evaluation reports the offending part"); if (!want && !got) se_eq(val(o, P), R, "value of the evaluation");
    got = caught(f_call); expect(want, got, "calling within the coordinates does not throw", "calling reports the offending part"); if (!want && !got) se_eq(val(o, P), R, "value of the call");
    got = caught(f_eval_free); expect(want, got, "free evaluation within the coordinates does not throw", "free evaluation reports the offending part"); if (!want && !got) se_eq(val(o, P), R, "value of the free evaluation"); }
  else if (what == 1) { S = P[0]; unsigned want = m_eval(o, 1), got = caught(f_scalar); expect(want, got, "scalar evaluation does not throw", "scalar evaluation reports the offending part"); if (!want && !got) se_eq(val(o, P), R, "value of the scalar evaluation");
    got = caught(f_scall); expect(want, got, "scalar call does not throw", "scalar call reports the offending part"); if (!want && !got) se_eq(val(o, P), R, "value of the scalar call"); }
  else if (what == 2) { unsigned want = m_unwrap(o), got = caught(f_unwrap); expect(want, got, "unwrapping numbers does not throw", "unwrapping reports the offending part"); if (!want && !got) se_eq(val(o, P), R, "unwrapped value"); }
  else { bool byf = what == 4; variable x(0); function_symbol u = mk_fsym(0); W = byf ? static_cast<const IF *>(&u) : static_cast<const IF *>(&x); unsigned want = m_diff(o, byf), got = caught(f_diff);
    expect(want, got, "differentiation does not throw", "differentiation reports the offending part"); if (!got) delete D; if (o->k != VEC) { got = caught(f_free); expect(want, got, "free differentiation does not throw", "free differentiation reports the offending part"); } }
  se_assert(raw->deep_equal(raw), "expression is still intact"); }
static void messages() {
  unsigned long id = se_choice(3, "id") + 10; unsigned n = se_choice(3, "size"); variable x(id); std::vector<double> v(n, 1.0); if (se_choice(2, "spare capacity")) { v.reserve(9); v.resize(7); v.resize(n); } VP = &v; expr e(x); X = &e; T = e.get();
  unsigned got = caught(f_call); se_assert(got == OOB, "missing coordinate is reported"); char a[3] = {char('0' + id / 10), char('0' + id % 10), 0};
  se_assert(text.find(a) != std::string::npos, "the message names the variable"); char b[2] = {char('0' + n), 0}; se_assert(text.find(b) != std::string::npos, "the message names the number of coordinates");
  for (unsigned i = 0; i < text.size(); ++i) if (text[i] >= '0' && text[i] <= '9') { unsigned long k = 0; for (; i < text.size() && text[i] >= '0' && text[i] <= '9'; ++i) k = k * 10 + (text[i] - '0'); se_assert(k == id || k == n || k + 1 == n, "the message names no other number"); } }
// variables of any number
static void anynumber() {
  unsigned long id = se_u64("id"); unsigned n = se_choice(5, "size"), w = se_choice(4, "around"); bool bad = id >= n; unsigned long i = bad ? 0 : id; double q[5]; for (unsigned k = 0; k < 5; ++k) q[k] = se_real("q"); std::vector<double> v(q, q + n); VP = &v;
  variable x(id); O *o = V(id); o = w == 0 ? o : w == 1 ? U(U_EXP, o) : w == 2 ? B(B_SUB, K(2), o) : B(B_MUL, o, K(3)); IF *raw = build(o); expr e(raw); T = raw; X = &e;
  unsigned got = caught(f_eval); se_assert(got == (bad ? OOB : 0), "evaluation throws exactly for a missing coordinate"); if (!got) { double y = q[0]; for (unsigned k = 1; k < n; ++k) if (k == i) y = q[k]; double ref = w == 0 ? y : w == 1 ? std::exp(y) : w == 2 ? 2 - y : y * 3; se_eq(ref, R, "value of the variable"); }
  got = caught(f_call); se_assert(got == (bad ? OOB : 0), "calling throws exactly for a missing coordinate"); got = caught(f_eval_free); se_assert(got == (bad ? OOB : 0), "free evaluation throws exactly for a missing coordinate");
  S = q[0]; got = caught(f_scalar); se_assert(got == (id >= 1 ? OOB : 0), "scalar evaluation throws exactly for a variable other than the first"); if (!got) se_eq(w == 0 ? S : w == 1 ? std::exp(S) : w == 2 ? 2 - S : S * 3, R, "scalar value of the variable");
  got = caught(f_scall); se_assert(got == (id >= 1 ? OOB : 0), "scalar call throws exactly for a variable other than the first"); got = caught(f_unwrap); se_assert(got == NUNWRAP, "a variable cannot be unwrapped"); del(o); }
// every entry point: handles (wrapper, binary node, unary node, variable, compile-time expression) and kinds of points
struct uvec { typedef double value_type; const double *d; std::size_t n; std::size_t size() const { return n; } double operator[](std::size_t i) const { return d[i]; } };
template <class H, class V> struct Call { static const H *h; static const V *v; static void go() { R = (double)(*h)(*v); } static void ev() { R = viennamath::eval(*h, *v); } };
template <class H, class V> const H *Call<H, V>::h; template <class H, class V> const V *Call<H, V>::v;
template <class H, class V> static void at(H const &h, V const &v, bool bad, double ref) { Call<H, V>::h = &h; Call<H, V>::v = &v; unsigned got = caught(Call<H, V>::go); se_assert(got == (bad ? OOB : 0), "calling any handle throws exactly for a missing coordinate"); if (!got) se_eq(ref, R, "value of the call"); }
template <class H, class V> static void atv(H const &h, V const &v, bool bad, double ref) { at(h, v, bad, ref); unsigned got = caught(Call<H, V>::ev); se_assert(got == (bad ? OOB : 0), "free evaluation of any handle throws exactly for a missing coordinate"); if (!got) se_eq(ref, R, "value of the free evaluation"); }
template <class H> static void points(H const &h, unsigned need, double (*f)(const double *), const double *q, bool isvar) {
  double z[4] = {q[0], q[1], q[2], q[3]}; unsigned k = se_choice(4, "point"), n = se_choice(5, "size");
  if (k == 0) { std::vector<double> v(z, z + n); atv(h, v, need > n, f(z)); if (n == 4) { v.reserve(9); v.resize(need ? need - 1 : 0); if (need) atv(h, v, true, 0); } }
  else if (k == 1) { uvec u = {z, n}; atv(h, u, need > n, f(z)); }
  else if (k == 2) { if (n == 1) atv(h, make_vector(z[0]), need > 1, f(z)); else if (n == 2) atv(h, make_vector(z[0], z[1]), need > 2, f(z)); else if (n == 3) atv(h, make_vector(z[0], z[1], z[2]), need > 3, f(z)); }
  else if (n < 3 && need > 0) { double y[4] = {n == 2 ? 4.0 : z[0], 0, 0, 0}; if (n == 0 && !(isvar && need > 1)) at(h, z[0], need > 1, f(y)); else if (n == 1) at(h, rt_constant<double>(z[0]), need > 1, f(y)); else if (n == 2) at(h, ct_constant<4>(), need > 1, f(y)); } }
static unsigned I_; static double fv(const double *q) { return q[I_]; } static double fb(const double *q) { return q[0] * 2 - q[I_]; } static double fu(const double *q) { return std::exp(q[I_]); }
template <int i> static double cb(const double *q) { return (q[0] - q[i]) * 3; }
static void entries() {
  double q[4]; for (unsigned k = 0; k < 4; ++k) q[k] = se_real("q"); I_ = se_choice(4, "id"); variable x(I_), x0(0);
  switch (se_choice(6, "handle")) { case 0: points(x, I_ + 1, fv, q, true); break; case 1: points(rt_binary_expr<>(expr(x0 * 2.0).get()->clone(), mk_bop(B_SUB), x.clone()), I_ + 1, fb, q, false); break; case 2: points(rt_unary_expr<>(x.clone(), mk_uop(U_EXP)), I_ + 1, fu, q, false); break;
    case 3: points(expr(x), I_ + 1, fv, q, false); break; case 4: points(expr(x0 * 2.0 - x), I_ + 1, fb, q, false); break;
    default: { std::vector<double> v(q, q + se_choice(5, "size")); ct_variable<0> a; ct_constant<3> c; if (I_ == 0) atv(c * a, v, v.size() < 1, q[0] * 3); else if (I_ == 1) atv((a - ct_variable<1>()) * c, v, v.size() < 2, cb<1>(q)); else if (I_ == 2) atv((a - ct_variable<2>()) * c, v, v.size() < 3, cb<2>(q)); else { atv((a - ct_variable<3>()) * c, v, v.size() < 4, cb<3>(q)); at(ct_variable<3>(), v, v.size() < 4, q[3]); uvec u = {q, v.size()}; at(ct_variable<3>(), u, v.size() < 4, q[3]); } } } }
#if PROP == 13
static O *tree(int d, bool vars) { Gen g(vars ? 2 : 0, (1u << U_N) - 1, 15, true, vars ? 1 : 0); return g.tree(d); }
static bool numbers(const O *o) { return !has_kind(o, VAR) && !has_kind(o, FSYM); }
static void constants(const O *o) {
  unsigned long h0 = se_heap();
  { IF *raw = build(o); expr e(raw);
    if (numbers(o)) { double ref = val(o, P); se_defined(ref); se_eq(ref, raw->unwrap(), "an expression of numbers unwraps to its value"); std::vector<double> none; se_eq(ref, raw->eval(none), "an expression of numbers evaluates without coordinates"); }
    if (o->k == CONST) se_assert(raw->is_constant(), "a number is constant"); if (o->k == VAR || o->k == FSYM) se_assert(!raw->is_constant(), "variables and function symbols are not constant");
    if (o->k == BIN) se_assert(raw->is_constant() == (dynamic_cast<rt_binary_expr<> *>(raw)->lhs()->is_constant() && dynamic_cast<rt_binary_expr<> *>(raw)->rhs()->is_constant()), "a binary expression is constant exactly if both operands are");
    if (raw->is_constant()) { T = raw; unsigned got = caught(f_unwrap); se_assert(got == 0, "a constant expression can be unwrapped"); std::vector<double> p(P, P + 2), q(2); q[0] = se_real("q0"); q[1] = se_real("q1"); se_assert(numbers(o), "a constant expression has neither variables nor function symbols");
      if (numbers(o)) { double ref = val(o, P); se_eq(ref, R, "value a constant expression unwraps to"); se_eq(ref, raw->eval(p), "value of a constant expression"); se_eq(ref, raw->eval(q), "value of a constant expression elsewhere"); se_eq(ref, raw->eval(p[0]), "scalar value of a constant expression"); } } }
  se_assert(se_heap() == h0, "no memory is leaked"); }
#endif
extern "C" void se_main() {
#if PROP == 13
  unsigned special_ = se_choice(3, "memory or length"); if (special_ == 2) { for (int i = 0; i < 3; ++i) P[i] = se_real("p"); O *o = verylong(40, se_choice(2, "variables")); constants(o); del(o); return; }
  if (special_) { for (int i = 0; i < 3; ++i) P[i] = se_real("p"); reused([](O *o) { constants(o); }); return; }
#endif
  for (int i = 0; i < 3; ++i) P[i] = se_real("p");
#if PROP == 13
#ifdef SE_THOROUGH
  int d = 2;
#else
  int d = 1;
#endif
  unsigned m = se_choice(4, "mode"); O *o = m == 3 ? Deep(se_choice(2, "numbers"), (1u << U_EXP) | (1u << U_ID) | (1u << U_FABS), 15, 8).tree() : m == 0 ? tree(1, true) : m == 1 ? Gen(1, 1u << U_SIN, 15, true, 0).tree(2) : d == 2 ? tree(2, false) : Gen(0, (1u << U_EXP) | (1u << U_SQRT), 15, true, 0).tree(2);
  constants(o); del(o);
#else
  unsigned part = se_choice(4, "part"); if (part == 3) { entries(); return; } if (part == 1) { messages(); return; } if (part == 2) { anynumber(); return; }
#ifdef SE_THOROUGH
  unsigned d = se_choice(5, "depth");
#else
  unsigned d = se_choice(4, "depth");
#endif
  O *o = offender(); if (d == 0 && se_choice(2, "far below")) { unsigned s = se_choice(8, "first wrap"); for (unsigned i = 0; i < 8; ++i) o = wrapped(o, (s + i) % 8); }
  else for (unsigned i = 0; i < d; ++i) o = around(o);
  misuse(o); del(o);
#endif
}
