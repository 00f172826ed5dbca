// C27: equations and intervals hold the two parts they were built from, in order, for every combination of operand kinds.
#include "oracle.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/runtime/equation.hpp"
#include "viennamath/compiletime/ct_equation.hpp"
#include "viennamath/compiletime/ct_interval.hpp"
#include <sstream>
using namespace oracle; using namespace viennamath;
static double C0, C1, D0, D1; static unsigned long ID, ID2;
template <class T> struct W { T t; O *o; };
template <class T> static W<T> w(T const &t, O *o) { W<T> x = {t, o}; return x; }
static void part(expr const &e, const O *want, const char *m) { O *b = e.get() ? read(e.get()) : 0; se_assert(b && same(b, want), m); del(b); }
static void eq(rt_equation<> const &e, const O *l, const O *r) {
  part(e.lhs(), l, "left hand side of an equation"); part(e.rhs(), r, "right hand side of an equation");
  rt_equation<> c(e), d; d = c; { rt_equation<> t(e); d = t; } part(d.lhs(), l, "left hand side of an assigned equation"); part(d.rhs(), r, "right hand side of an assigned equation"); part(c.lhs(), l, "left hand side of a copied equation"); part(c.rhs(), r, "right hand side of a copied equation");
  rt_equation<> *s = &d; d = *s; part(d.lhs(), l, "left hand side after self-assignment"); part(d.rhs(), r, "right hand side after self-assignment"); { expr L(e.lhs()), R(e.rhs()), N(7.0); rt_equation<> p1(R, L), p2(L, N), p3(N, R), p4(L, L), p5(R, R); p1 = e; p2 = e; p3 = e; p4 = e; p5 = e; rt_equation<> *q[5] = {&p1, &p2, &p3, &p4, &p5}; for (unsigned i = 0; i < 5; ++i) { part(q[i]->lhs(), l, "left hand side of an equation assigned over another"); part(q[i]->rhs(), r, "right hand side of an equation assigned over another"); } }
  rt_equation<> none; d = none; part(c.lhs(), l, "copies of equations are independent"); }
static void iv(rt_interval<> const &e, const O *l, const O *r) {
  part(e.lower(), l, "lower bound of an interval"); part(e.upper(), r, "upper bound of an interval");
  rt_interval<> c(e), d, u; { rt_interval<> t(e); d = t; } part(d.lower(), l, "lower bound of an assigned interval"); part(d.upper(), r, "upper bound of an assigned interval"); part(c.lower(), l, "lower bound of a copied interval"); part(c.upper(), r, "upper bound of a copied interval");
  rt_interval<> *s = &d; d = *s; part(d.lower(), l, "lower bound after self-assignment"); part(d.upper(), r, "upper bound after self-assignment"); O *z = K(0), *o = K(1);
  { expr L(e.lower()), R(e.upper()), N(7.0); rt_interval<> p1(R, L), p2(L, N), p3(N, R), p4(L, L), p5(R, R); p1 = e; p2 = e; p3 = e; p4 = e; p5 = e; rt_interval<> *q[5] = {&p1, &p2, &p3, &p4, &p5}; for (unsigned i = 0; i < 5; ++i) { part(q[i]->lower(), l, "lower bound of an interval assigned over another"); part(q[i]->upper(), r, "upper bound of an interval assigned over another"); } }
  (d = u); part(d.lower(), z, "the default interval starts at zero"); part(d.upper(), o, "the default interval ends at one"); part(c.lower(), l, "copies of intervals are independent"); del(z); del(o); }
// run-time operands
template <class FN> static void rts(FN f, bool right = false) {
  double C0 = right ? D0 : ::C0, C1 = right ? D1 : ::C1; unsigned long ID = right ? ID2 : ::ID;
  rt_constant<double> k(C0); variable v(ID); function_symbol s(ID, test_tag<0>()); rt_unary_expr<> ue(new rt_variable<>(ID), new op_unary<op_sin<double>, IF>());
  rt_binary_expr<> be(new rt_variable<>(right ? 4 : 0), new op_binary<op_minus<double>, IF>(), new rt_constant<double>(C1)); expr e(be), e2(k), e3(v);
  f(w(k, K(C0))); f(w(v, V(ID))); f(w(ue, U(U_SIN, V(ID)))); f(w(be, B(B_SUB, V(right ? 4 : 0), K(C1)))); f(w(e, B(B_SUB, V(right ? 4 : 0), K(C1)))); f(w(e2, K(C0))); f(w(e3, V(ID)));
  f(w(s, F(2 * ID + 1))); }
// compile-time operands that convert to run-time ones
template <class FN> static void cts(FN f) {
  f(w(ct_variable<1>(), V(1))); f(w(ct_constant<-4>(), K(-4))); f(w(ct_variable<0>() - ct_variable<1>(), B(B_SUB, V(0), V(1)))); f(w(ct_constant<2>() / ct_variable<1>(), B(B_DIV, K(2), V(1)))); }
#ifdef EQ
#define MAKE make_equation
#define CHECK eq
#else
#define MAKE make_interval
#define CHECK iv
#endif
template <class L, class R> static void one(W<L> const &l, W<R> const &r) { unsigned long h0 = se_heap(); CHECK(MAKE(l.t, r.t), l.o, r.o); se_assert(se_heap() == h0, "no memory is leaked"); del(l.o); del(r.o); }
// two compile-time operands: the pair is a type that names both, printed as such
template <class L, class R> static void ctpair() {
#ifdef EQ
  typedef ct_equation<L, R> want; const char *h = "ct_equation(", *mid = " = ";
#else
  typedef ct_interval<L, R> want; const char *h = "ct_interval(", *mid = ", ";
#endif
  se_assert(std::is_same<decltype(MAKE(L(), R())), want>::value, "two compile-time operands give the compile-time pair of their types");
  std::stringstream a, b; a << MAKE(L(), R()); b << h << L() << mid << R() << ")"; se_assert(a.str() == b.str(), "printed compile-time pair names both parts"); }
typedef ct_variable<0> CX; typedef ct_variable<3> CY; typedef ct_constant<-4> CK; typedef ct_constant<7> CK2; typedef ct_function_symbol<unknown_tag<2> > CU; typedef ct_function_symbol<test_tag<5> > CV;
typedef ct_binary_expr<CX, op_plus<double>, CK> CB; typedef ct_binary_expr<CY, op_div<double>, CB> CB2;
template <class L> static void ctrow() { ctpair<L, CX>(); ctpair<L, CY>(); ctpair<L, CK>(); ctpair<L, CK2>(); ctpair<L, CU>(); ctpair<L, CV>(); ctpair<L, CB>(); ctpair<L, CB2>(); }
extern "C" void se_main() {
  C0 = se_real("c0"); C1 = se_real("c1"); ID = se_u64("id"); se_assume(ID < (1ul << 62)); D0 = se_real("d0"); D1 = se_real("d1"); ID2 = se_u64("id2"); se_assume(ID2 < (1ul << 62)); unsigned mode = se_choice(7, "operands"), i, j, a = 0; double d = se_real("d");
#define RIGHT_rts , true
#define RIGHT_cts
#define PICK(LISTL, NL, LISTR, NR) { i = se_choice(NL, "left"); j = se_choice(NR, "right"); unsigned done = 0; LISTL([&](auto const &l) { if (a++ == i) { unsigned b = 0; LISTR([&](auto const &r) { if (b++ == j) { one(l, r); done = 1; } else del(r.o); } RIGHT_##LISTR); } else del(l.o); }); se_assert(done, "operand kinds enumerated"); }
  switch (mode) {
    case 0: PICK(rts, 8, rts, 8) break;
    case 1: PICK(rts, 8, cts, 4) break;
    case 2: PICK(cts, 4, rts, 8) break;
    case 3: { i = se_choice(8, "left"); rts([&](auto const &l) { if (a++ == i) one(l, w(d, K(d))); else del(l.o); }); break; }
    case 4: { i = se_choice(4, "left"); cts([&](auto const &l) {
#ifdef EQ
        if (a++ == i) one(l, w(d, K(d))); else
#else
        if constexpr (std::is_same<typename std::decay<decltype(l.t)>::type, ct_variable<1> >::value || std::is_same<typename std::decay<decltype(l.t)>::type, ct_constant<-4> >::value) { if (a++ == i) one(l, w(d, K(d))); else del(l.o); } else
#endif
        del(l.o); }); break; }
    case 5: ctrow<CX>(); ctrow<CK>(); ctrow<CU>(); ctrow<CB>(); ctrow<CV>(); ctrow<CB2>(); break;
    default: { i = se_choice(9, "right"); rts([&](auto const &r) { if constexpr (!std::is_same<typename std::decay<decltype(r.t)>::type, function_symbol>::value) { if (a++ == i) one(w(d, K(d)), r); else del(r.o); } else del(r.o); }); if (i == 7) one(w(d, K(d)), w(ct_variable<1>(), V(1)));
#ifndef EQ
        if (i == 8) one(w(d, K(d)), w(C1, K(C1)));
#endif
        break; }
  }
}
