// C02: compile-time expressions evaluate to their value at run-time points, at mixed points and at compile-time points.
// C03 (-DC03): conversion of a compile-time expression to a run-time expression preserves the value.
#include "ctref.hpp"
#include "oracle.hpp"
using namespace ctref; using namespace viennamath;
typedef list<ct_constant<0>, ct_constant<2>, ct_constant<-3>, ct_variable<0>, ct_variable<1> > LEAVES;
typedef list<ct_constant<2>, ct_constant<-3>, ct_variable<0>, ct_variable<1> > LV2;
typedef d1<LV2, LV2>::type D1;
struct Eval {
  template <class E> struct accept { static const bool value = wellformed<E>::value; };
  template <class E> static void run(const double *p) {
    E e; double r = ref<E>::val(p);
    std::vector<double> v(p, p + 2);
#ifdef C03
    v.push_back(p[2]);
    expr x(e); se_eq(r, viennamath::eval(x, v), "run-time conversion at std::vector");
    expr y; y = e; se_eq(r, y(v), "assignment to run-time wrapper");
    rt_binary_expr<> b(e); se_eq(r, b(v), "rt_binary_expr from compile-time expression");
    rt_binary_expr<> c(variable(1) * variable(0)), g(variable(1) - variable(1)); c = e; se_eq(r, c(v), "compile-time expression assigned over a product"); g = e; se_eq(r, g(v), "compile-time expression assigned over a difference");
    { double k0 = se_real("k0"), k1 = se_real("k1"); rt_constant<double> a(k0), d(k1); rt_binary_expr<> h(a * variable(0)), i(variable(1) / d), j(expr(a) + variable(2)); h = e; i = e; j = e; se_eq(r, h(v), "compile-time expression assigned over a product with a constant"); se_eq(r, i(v), "compile-time expression assigned over a quotient by a constant"); se_eq(r, j(v), "compile-time expression assigned over a sum with a constant"); expr f(a); f = e; se_eq(r, f(v), "compile-time expression assigned over a constant"); h = k0; se_eq(k0, h(v), "number assigned over an expression"); j = a; se_eq(k0, j(v), "constant assigned over an expression"); i = ct_constant<-4>(); se_eq(-4.0, i(v), "compile-time constant assigned over an expression"); h = e; se_eq(r, h(v), "compile-time expression assigned over a number"); }
    expr z(c); se_eq(r, z(v), "assigned expression wrapped");
    std::string s1 = x.get()->deep_str(); se_assert(s1 == b.deep_str(), "same structure from both conversions");
    rt_expr<> t(e), w; w = e; se_eq(r, t(v) , "second run-time conversion"); se_assert(w.get()->deep_str() == s1 && t.get()->deep_str() == s1, "same structure from every conversion");
#else
    se_eq(r, viennamath::eval(e, v), "compile-time expression at std::vector");
    se_eq(r, viennamath::eval(e, make_vector(p[0], p[1])), "compile-time expression at vector of doubles");
    se_eq(r, viennamath::eval(e, make_vector(p[0], p[1], p[2])), "compile-time expression at 3-vector of doubles");
#endif
  }
};
// evaluation at compile-time points (constants only): exact rational arithmetic
template <long A, long B> struct ctpt {
  template <class E> struct subst;  // replaces variables
};
template <class E, long A, long B, long C = 1> struct at;
template <long v, long A, long B, long C> struct at<ct_constant<v>, A, B, C> { typedef ct_constant<v> type; };
template <long A, long B, long C> struct at<ct_variable<0>, A, B, C> { typedef ct_constant<A> type; };
template <long A, long B, long C> struct at<ct_variable<1>, A, B, C> { typedef ct_constant<B> type; };
template <long A, long B, long C> struct at<ct_variable<2>, A, B, C> { typedef ct_constant<C> type; };
template <class L, class O, class R, long A, long B, long C> struct at<ct_binary_expr<L, O, R>, A, B, C> { typedef ct_binary_expr<typename at<L, A, B, C>::type, O, typename at<R, A, B, C>::type> type; };
template <long A, long B> struct EvalCt {
  template <class E> struct accept { static const bool value = wellformed<E>::value && wellformed<typename at<E, A, B>::type>::value; };
  template <class E> static void run(const double *) {
    typedef rat<typename at<E, A, B>::type> r; E e; ct_constant<A> a; ct_constant<B> b;
    double want = (double)(long)r::n / (double)(long)r::d;
    se_eq(want, viennamath::eval(e, make_vector(a, b)), "compile-time expression at compile-time point");
    se_eq(want, viennamath::eval(e, make_vector(a, b, ct_constant<7>())), "compile-time expression at compile-time 3-point");
  }
};
// points that mix compile-time constants, numbers, integers and run-time constants
#ifndef C03
struct Mixed {
  template <class E> struct accept { static const bool value = wellformed<E>::value; };
  template <class E, class V> static void go(E const &e, V const &v, double a, double b, double c) { double q[3] = {a, b, c}; double r = ref<E>::val(q); se_eq(r, viennamath::eval(e, v), "compile-time expression at a mixed point"); se_eq(r, e(v), "compile-time expression called with a mixed point"); V w(v); se_eq(r, e(w), "compile-time expression called with a copied point"); }
  template <class E> static void run(const double *p) { E e; rt_constant<double> k(p[1]);
    go(e, make_vector(ct_constant<4>(), p[1], p[2]), 4, p[1], p[2]); go(e, make_vector(p[0], ct_constant<-6>(), p[2]), p[0], -6, p[2]); go(e, make_vector(p[0], p[1], ct_constant<5>()), p[0], p[1], 5);
    go(e, make_vector(ct_constant<4>(), ct_constant<3>(), p[2]), 4, 3, p[2]); go(e, make_vector(ct_constant<4>(), p[1], ct_constant<-7>()), 4, p[1], -7); go(e, make_vector(p[0], ct_constant<-2>(), ct_constant<9>()), p[0], -2, 9);
    go(e, make_vector(3L, p[1], -5), 3, p[1], -5); go(e, make_vector(7, 2L, -5L), 7, 2, -5); go(e, make_vector(p[0], ct_constant<3>(), 8L), p[0], 3, 8);
    std::vector<double> w(p, p + 3); w.push_back(11); se_eq(ref<E>::val(p), e(w), "compile-time expression at a longer point");
    std::vector<long> l(3); l[0] = 7; l[1] = 2; l[2] = -5; double q[3] = {7, 2, -5}; se_eq(ref<E>::val(q), viennamath::eval(e, l), "compile-time expression at a vector of integers"); }
};
struct Mixed2 {
  template <class E> struct accept { static const bool value = wellformed<E>::value; };
  template <class E> static void run(const double *p) { E e; Mixed::go(e, make_vector(ct_constant<4>(), p[1]), 4, p[1], 0); Mixed::go(e, make_vector(p[0], ct_constant<-6>()), p[0], -6, 0); Mixed::go(e, make_vector(7L, -2), 7, -2, 0); }
};
struct Mixed1 {
  template <class E> struct accept { static const bool value = wellformed<E>::value && wellformed<typename at<E, 6, 1>::type>::value; };
  template <class E> static void run(const double *p) { E e; Mixed::go(e, make_vector(p[0]), p[0], 0, 0); Mixed::go(e, make_vector(-3L), -3, 0, 0); double q[3] = {6, 0, 0}; se_eq(ref<E>::val(q), e(ct_constant<6>()), "compile-time expression called with a compile-time number"); se_eq(ref<E>::val(q), viennamath::eval(e, make_vector(ct_constant<6>())), "compile-time expression at a compile-time 1-point"); }
};
template <long A, long B, long C> struct EvalCt3 {
  template <class E> struct accept { static const bool value = wellformed<E>::value && wellformed<typename at<E, A, B, C>::type>::value; };
  template <class E> static void run(const double *) { E e; double q[3] = {A, B, C}; se_eq(ref<E>::val(q), viennamath::eval(e, make_vector(ct_constant<A>(), ct_constant<B>(), ct_constant<C>())), "compile-time expression at a compile-time 3-point"); }
};
#endif
typedef list<ct_constant<2>, ct_constant<-3>, ct_variable<0>, ct_variable<1>, ct_variable<2> > LV3;
typedef list<ct_variable<0>, ct_variable<1>, ct_variable<2> > VARS;
typedef list<ct_constant<3>, ct_variable<0> > L1;
typedef ct_variable<0> X; typedef ct_variable<1> Y; typedef ct_variable<2> Z;
// longer points
struct Far { template <class E> struct accept { static const bool value = wellformed<E>::value; };
  template <class E> static void run(const double *) { double q[12]; for (unsigned i = 0; i < 12; ++i) q[i] = se_real("q"); std::vector<double> v(q, q + 12); E e; double r = ref<E>::val(q);
#ifdef C03
    expr x(e); se_eq(r, viennamath::eval(x, v), "run-time conversion at a long point"); expr y; y = e; se_eq(r, y(v), "assignment at a long point"); x = variable(0) + e; se_eq(q[0] + r, x(v), "added to a run-time variable"); y = e * variable(4); se_eq(r * q[4], y(v), "multiplied by a run-time variable");
#else
    se_eq(r, viennamath::eval(e, v), "compile-time expression at a long point"); se_eq(r, e(v), "compile-time expression called with a long point"); std::vector<double> w(q, q + 10); se_eq(r, viennamath::eval(e, w), "compile-time expression at a point of just sufficient length");
#endif
  } };
extern "C" void se_main() {
  double p[3] = {se_real("p0"), se_real("p1"), se_real("p2")};
#if PART == 0
#ifdef C03
  if (se_choice(2, "leaves")) { std::vector<double> v(p, p + 3); rt_unary_expr<> a(ct_constant<-7>{}), b(exp(variable(0))), k(rt_constant<double>{p[1]}), x(variable(2)); se_eq(-7.0, a(v), "unary expression of a compile-time constant"); b = ct_constant<3000000000L>(); se_eq(3e9, b(v), "compile-time constant assigned to a unary expression"); se_eq(p[1], k(v), "unary expression of a constant"); se_eq(p[2], x(v), "unary expression of a variable"); expr e(a); se_eq(-7.0, e(v), "wrapped");
    expr c(ct_constant<4>{}), d, w(ct_variable<2>{}), u(variable(0)); d = ct_constant<-4>(); u = ct_variable<1>(); se_eq(4.0, c(v), "wrapper of a compile-time constant"); se_eq(-4.0, d(v), "wrapper assigned from a compile-time constant"); se_eq(p[2], w(v), "wrapper of a compile-time variable"); se_eq(p[1], u(v), "wrapper assigned from a compile-time variable"); se_stop(); }
#endif
  cross<Eval>(LEAVES(), LEAVES(), p); cross<Eval>(D1(), LV2(), p);
#elif PART == 1
  cross<Eval>(LV2(), D1(), p);
#ifdef C03
  cross<Eval>(LV3(), LV3(), p); cross<Eval>(d1<VARS, VARS>::type(), list<ct_variable<2> >(), p); cross<Eval>(list<ct_variable<2> >(), d1<VARS, VARS>::type(), p);
#else
  cross<Mixed>(LV3(), LV3(), p); cross<Mixed2>(list<ct_constant<2>, ct_variable<0>, ct_variable<1> >(), list<ct_constant<2>, ct_variable<0>, ct_variable<1> >(), p); cross<Mixed1>(L1(), L1(), p); cross<Mixed1>(L1(), d1<L1, L1>::type(), p);
#endif
// every tree of three operations
#elif PART == 2
  each<Eval>(all<3, 0, list<X, Y, ct_constant<2>, X> >::type(), p); each<Eval>(all<3, 0, list<Y, X, X, Y> >::type(), p);
#elif PART == 3
  each<Eval>(all<3, 0, list<ct_constant<6>, X, ct_constant<-4>, Y> >::type(), p); each<Eval>(all<3, 0, list<ct_constant<0>, Y, ct_constant<1>, X> >::type(), p);
#elif PART == 4
  // constants beyond 32 bits, in every position
  typedef list<ct_constant<5000000000L>, ct_constant<-3000000000L>, ct_constant<4294967296L>, ct_constant<2147483648L>, ct_constant<-70000L>, X, Y> BIG; cross<Eval>(BIG(), BIG(), p);
  each<Eval>(all<2, 0, list<X, ct_constant<5000000000L>, Y> >::type(), p); each<Eval>(all<2, 0, list<ct_constant<-3000000000L>, X, ct_constant<8589934593L> > >::type(), p); each<Eval>(all<3, 0, list<ct_constant<5000000000L>, X, ct_constant<-3000000000L>, Y> >::type(), p);
#elif PART == 5
  each<Eval>(all<3, 0, list<ct_constant<2>, ct_constant<-6>, Y, X> >::type(), p); each<Eval>(all<3, 0, list<X, Y, ct_constant<3>, ct_constant<5> > >::type(), p);
#elif PART == 6
  each<Eval>(all<4, 0, list<X, Y, ct_constant<-3>, X, Y> >::type(), p);
#elif PART == 11
  // variables of any position
  typedef list<ct_variable<2>, ct_variable<5>, ct_variable<9>, ct_constant<3> > FAR; cross<Far>(FAR(), FAR(), p); each<Far>(all<2, 0, list<ct_variable<9>, ct_variable<1>, ct_variable<5> > >::type(), p); each<Far>(list<ct_variable<0>, ct_variable<3>, ct_variable<9> >(), p);
#elif !defined(C03) && PART == 7
  cross<Mixed>(d1<VARS, VARS>::type(), list<ct_variable<2> >(), p); cross<Mixed>(list<ct_variable<1>, ct_constant<-4> >(), d1<VARS, VARS>::type(), p); cross<EvalCt3<4, -6, 5> >(LV3(), LV3(), p); cross<EvalCt3<7, 2, -3> >(d1<VARS, VARS>::type(), VARS(), p);
#elif !defined(C03) && PART == 8
  cross<EvalCt<4, -6> >(LEAVES(), LEAVES(), p); cross<EvalCt<4, -6> >(D1(), list<ct_constant<-3>, ct_variable<0>, ct_variable<1> >(), p); cross<EvalCt<-5, 2> >(list<ct_constant<2>, ct_variable<0>, ct_variable<1> >(), D1(), p);
      // plain operands
      { std::vector<double> v(p, p + 2); ct_constant<5> c; ct_variable<0> x; ct_variable<1> y;
        se_eq(5.0, viennamath::eval(c, v), "ct_constant"); se_eq(p[0], viennamath::eval(x, v), "ct_variable<0>"); se_eq(p[1], viennamath::eval(y, v), "ct_variable<1>");
        se_eq(p[1], viennamath::eval(y, make_vector(p[0], p[1])), "ct_variable at ct_vector_2"); se_eq(p[0], viennamath::eval(x, make_vector(p[0])), "ct_variable at ct_vector_1");
        ct_variable<2> z; se_eq(p[2], viennamath::eval(z, make_vector(p[0], p[1], p[2])), "ct_variable at ct_vector_3"); se_eq(p[2], z(std::vector<double>(p, p + 3)), "ct_variable operator()");
        se_eq(p[0], (double)x(rt_constant<double>(p[0])), "ct_variable at rt_constant"); se_eq(7.0, (double)x(ct_constant<7>()), "ct_variable at ct_constant");
        // points kept in a variable, built from temporaries
        auto w1 = make_vector(p[0] * p[1]); auto w2 = make_vector(p[0] + p[1], p[1] * p[2]); auto w3 = make_vector(p[0] - p[2], p[1] + 1, p[2] * p[2]);
        se_eq(p[0] * p[1], viennamath::eval(x, w1), "kept vector of one temporary"); se_eq(p[0] + p[1] + 5 * p[1] * p[2], viennamath::eval(x + c * y, w2), "kept vector of two temporaries");
        se_eq((p[0] - p[2]) * (p[1] + 1) - p[2] * p[2], viennamath::eval(x * y - z, w3), "kept vector of three temporaries");
        se_assert(w1.size() == 1 && w2.size() == 2 && w3.size() == 3, "size of compile-time vectors");
        auto e2 = make_vector(x + y, x * c); auto f2 = e2; se_eq(p[0] + p[1], viennamath::eval(f2[ct_index<0>()], v), "first entry of a copied vector"); se_eq(5 * p[0], viennamath::eval(f2[ct_index<1>()], v), "second entry of a copied vector"); }

#elif !defined(C03) && PART == 9
  each<EvalCt<4, -6> >(all<3, 0, list<X, ct_constant<2>, Y, ct_constant<-3> > >::type(), p); each<EvalCt<-5, 2> >(all<3, 0, list<Y, X, Y, X> >::type(), p); each<EvalCt3<3, -2, 7> >(all<3, 0, list<Z, X, Y, Z> >::type(), p);
#elif !defined(C03) && PART == 10
  each<Mixed>(all<2, 0, list<X, Z, Y> >::type(), p); each<Mixed>(all<2, 0, list<ct_constant<-4>, Y, Z> >::type(), p); each<Mixed>(all<2, 0, list<Z, Z, X> >::type(), p);
#endif
}
