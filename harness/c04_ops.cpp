// C04: arithmetic operators between any mix of operand kinds build an expression whose value is the operation applied
// to the operands' values, whatever shortcut (constant condensing, cancellation) the overload takes.
#include "oracle.hpp"
#include "viennamath/manipulation/eval.hpp"
using namespace oracle; using namespace viennamath;
static double P[3], C0, C1;
template <class T> struct W { T t; double ref; };
template <class T> static W<T> w(T const &t, double r) { W<T> x = {t, r}; return x; }
struct no {};
#define OPER(NAME, SYM) struct NAME { template <class A, class B> static auto go(A const &a, B const &b, int) -> decltype(a SYM b) { return a SYM b; } template <class A, class B> static no go(A const &, B const &, long) { return no(); } static double ref(double a, double b) { return a SYM b; } };
OPER(Add, +) OPER(Sub, -) OPER(Mul, *) OPER(Div, /)
template <class T> static auto call(T const &t, std::vector<double> const &v, int) -> decltype(static_cast<double>(t(v))) { return t(v); }
static double call(double t, std::vector<double> const &, int) { return t; }
static unsigned long used, unusable;
template <class R> static void see(R const &r, double ref, const char *m) { std::vector<double> v(P, P + 3); used++; se_eq(ref, call(r, v, 0), m); }
static void see(no, double, const char *m) { unusable++; se_reach("unusable"); }
template <class T> struct isv { static const bool value = std::is_arithmetic<T>::value; };
template <class A, class B> struct skip { static const bool value = isv<A>::value && isv<B>::value; };
template <class Op, class A, class B, bool s> struct ap { typedef decltype(Op::go(*(A *)0, *(B *)0, 0)) R; static void go(W<A> const &a, W<B> const &b, const char *m) { see(Op::go(a.t, b.t, 0), Op::ref(a.ref, b.ref), m); } };
template <class Op, class A, class B> struct ap<Op, A, B, true> { static void go(W<A> const &, W<B> const &, const char *) {} };
template <class A, class B> static void pair(W<A> const &a, W<B> const &b) {
  ap<Add, A, B, skip<A, B>::value>::go(a, b, "a + b"); ap<Sub, A, B, skip<A, B>::value>::go(a, b, "a - b");
  ap<Mul, A, B, skip<A, B>::value>::go(a, b, "a * b"); ap<Div, A, B, skip<A, B>::value>::go(a, b, "a / b"); }
template <class F> struct Lst { F f; };
#define X1 ct_variable<0>()
#if PART < 2
template <class F> static void operands(F f) {
  variable x0(0), x1(1); rt_constant<double> k(C0);
  expr e0(new rt_constant<double>(C0)); expr e1(rt_unary_expr<>(new rt_variable<>(1), new op_unary<op_exp<double>, IF>()));
  rt_binary_expr<> be(new rt_variable<>(0), new op_binary<op_minus<double>, IF>(), new rt_constant<double>(C1));
  rt_unary_expr<> ue(new rt_variable<>(0), new op_unary<op_sin<double>, IF>());
  f(w(C1, C1)); f(w(k, C0)); f(w(ct_constant<3>(), 3.0)); f(w(ct_constant<-2>(), -2.0)); f(w(ct_constant<0>(), 0.0)); f(w(ct_constant<1>(), 1.0));
  f(w(ct_variable<0>(), P[0])); f(w(ct_variable<1>(), P[1])); f(w(x0, P[0])); f(w(x1, P[1]));
  f(w(expr(x0), P[0])); f(w(e0, C0)); f(w(e1, std::exp(P[1]))); f(w(be, P[0] - C1)); f(w(ue, std::sin(P[0])));
  f(w(ct_constant<3>() + ct_variable<0>(), 3.0 + P[0])); f(w(ct_constant<2>() - ct_variable<1>(), 2.0 - P[1]));
  f(w(ct_variable<0>() + ct_variable<1>(), P[0] + P[1])); f(w(ct_variable<0>() * ct_variable<1>(), P[0] * P[1])); f(w(ct_variable<1>() / ct_variable<0>(), P[1] / P[0]));
  f(w(ct_variable<0>() + ct_constant<5>(), P[0] + 5.0)); f(w(ct_variable<1>() - ct_variable<0>(), P[1] - P[0]));
  f(w(3, 3.0)); f(w(-7L, -7.0)); f(w(2u, 2.0)); f(w(0.25f, 0.25)); f(w(0, 0.0)); f(w(1, 1.0)); f(w((short)-5, -5.0));
}
extern "C" void se_main() {
  P[0] = se_real("p0"); P[1] = se_real("p1"); P[2] = se_real("p2"); C0 = se_real("c0"); C1 = se_real("c1");
  unsigned n = 29, i = se_choice(n, "left"), j = se_choice(n, "right"), a = 0;
  unsigned long h0 = se_heap();
  operands([&](auto const &l) { if (a++ == i) { unsigned b = 0; operands([&](auto const &r) { if (b++ == j) pair(l, r); }); } });
  se_assert(se_heap() == h0, "no memory is leaked by operator expressions");
  if (used) se_reach("used");
}
#else
// two operations: (a op1 b) op2 c and c op2 (a op1 b) over the operand kinds with special overloads
template <class F> static void ops1(F f) {
  rt_constant<double> k(C0); ct_constant<3> c3; ct_constant<-2> c2; ct_variable<0> x; ct_variable<1> y; variable rx(0);
#define PR(a, ra, b, rb) f(w((a) + (b), (ra) + (rb))); f(w((a) - (b), (ra) - (rb))); f(w((a) * (b), (ra) * (rb))); f(w((a) / (b), (ra) / (rb)));
  PR(c3, 3.0, x, P[0]) PR(x, P[0], c3, 3.0) PR(x, P[0], y, P[1]) PR(c2, -2.0, y, P[1]) PR(k, C0, rx, P[0]) PR(c3, 3.0, rx, P[0])
  f(w(k + (c3 + x), C0 + (3.0 + P[0]))); f(w(k - (c3 + x), C0 - (3.0 + P[0]))); f(w(k + (c3 - x), C0 + (3.0 - P[0]))); f(w(k - (c3 - x), C0 - (3.0 - P[0])));
  f(w(c3 + (c2 + x), 3.0 + (-2.0 + P[0]))); f(w(c3 - (c2 + x), 3.0 - (-2.0 + P[0]))); f(w(c3 + (c2 - y), 3.0 + (-2.0 - P[1]))); f(w(c3 - (c2 - y), 3.0 - (-2.0 - P[1])));
}
template <class F> static void small(F f) { rt_constant<double> k(C1), k0(C0); f(w(k, C1)); f(w(ct_constant<3>(), 3.0)); f(w(ct_constant<-2>(), -2.0)); f(w(ct_variable<0>(), P[0])); f(w(ct_variable<1>(), P[1])); f(w(variable(0), P[0])); }
extern "C" void se_main() {
  P[0] = se_real("p0"); P[1] = se_real("p1"); P[2] = se_real("p2"); C0 = se_real("c0"); C1 = se_real("c1");
  unsigned i = se_choice(32, "first"), j = se_choice(6 + 32, "second"), side = se_choice(2, "side"), a = 0;
  if (j < 6) ops1([&](auto const &l) { if (a++ == i) { unsigned b = 0; small([&](auto const &r) { if (b++ == j) { if (side) pair(l, r); else pair(r, l); } }); } });
#ifdef PART3
  else if (side) ops1([&](auto const &l) { if (a++ == i) { unsigned b = 6; ops1([&](auto const &r) { if (b++ == j) pair(l, r); }); } });
#else
  else se_assume(false);
#endif
  if (used) se_reach("used");
}
#endif
