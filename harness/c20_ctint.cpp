// Compile-time integration: result equals the exact integral (Newton-Cotes rule with 9 nodes, exact up to degree 9, exact in the executor's arithmetic).
#include "ctref.hpp"
#include "viennamath/manipulation/expand.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/compiletime/ct_interval.hpp"
#include "viennamath/manipulation/integrate.hpp"
using namespace ctref; using namespace viennamath;
typedef ct_variable<0> X; typedef ct_variable<1> Y; typedef ct_variable<2> Z;
template <long v> using C = ct_constant<v>;
template <class A, class B> using ad = ct_binary_expr<A, P_, B>; template <class A, class B> using su = ct_binary_expr<A, M_, B>;
template <class A, class B> using mu = ct_binary_expr<A, T_, B>; template <class A, class B> using di = ct_binary_expr<A, D_, B>;
// denominators must not contain an integration variable
template <class E, class W> struct has { static const bool value = same<E, W>::value; };
template <class L, class O, class R, class W> struct has<ct_binary_expr<L, O, R>, W> { static const bool value = has<L, W>::value || has<R, W>::value; };
template <class E, class W> struct poly { static const bool value = true; };
template <class L, class O, class R, class W> struct poly<ct_binary_expr<L, O, R>, W> { static const bool value = poly<L, W>::value && poly<R, W>::value && !(same<O, D_>::value && has<R, W>::value); };
template <class L, class U, class E, int i> struct Int { static double val(const double *p) {
  static const int w[9] = {989, 5888, -928, 10496, -4540, 10496, -928, 5888, 989};
  double a = ref<L>::val(p), b = ref<U>::val(p), s = 0, q[4] = {p[0], p[1], p[2], p[3]};
  for (int k = 0; k < 9; ++k) { q[i] = a + (b - a) * (k * 0.125); s += w[k] * E::val(q); }
  return s * (b - a) / 28350; } };
template <class L, class U, class E, int i> inline void one(const double *p) {
  typedef ct_variable<i> W; typedef typename result_of::integrate<L, U, E, W>::type S;
  double want = Int<L, U, ref<E>, i>::val(p);
  se_eq(want, ref<S>::val(p), "value of the integrated expression");
  std::vector<double> v(p, p + 3); L l; U u; E e; W w;
  se_eq(want, viennamath::eval(viennamath::integrate(viennamath::make_interval(l, u), e, w), v), "integrate() function on an interval");
}
#ifndef BOUNDS
#define BOUNDS 0
#endif
template <class E> inline void allb(const double *p) {
#if BOUNDS == 0
  one<C<0>, C<1>, E, 0>(p); one<C<-3>, C<2>, E, 0>(p);
#elif BOUNDS == 1
  one<Z, C<2>, E, 0>(p); one<C<1>, su<C<1>, Z>, E, 0>(p);
#elif BOUNDS == 2
  one<Z, Y, E, 0>(p); one<X, mu<C<2>, Y>, E, 0>(p);
#else
  one<C<0>, C<2>, E, 1>(p); one<di<C<1>, C<2> >, su<C<1>, X>, E, 1>(p); one<C<0>, C<1>, E, 2>(p);
#endif
}
#if BOUNDS == 3
typedef Y W0; 
template <class E> struct okint { static const bool value = wellformed<E>::value && poly<E, Y>::value && poly<E, Z>::value; };
#else
template <class E> struct okint { static const bool value = wellformed<E>::value && poly<E, X>::value; };
#endif
struct Fun { template <class E> struct accept { static const bool value = okint<E>::value; };
  template <class E> static void run(const double *p) { allb<E>(p); } };
template <class... T> inline void deep(const double *p) { each<Fun>(list<T...>(), p); }
template <class L, class U, class E, class W> using I_ = typename result_of::integrate<L, U, E, W>::type;
// nested: outer over variable 0, inner over variable 1
template <class A, class B, class L, class U, class E> inline void nest(const double *p) {
  typedef I_<A, B, I_<L, U, E, Y>, X> S;
  se_eq(Int<A, B, Int<L, U, ref<E>, 1>, 0>::val(p), ref<S>::val(p), "nested integral");
}
template <class A, class B, class L, class U, class M, class N, class E> inline void nest3(const double *p) {
  typedef I_<A, B, I_<L, U, I_<M, N, E, Z>, Y>, X> S;
  se_eq(Int<A, B, Int<L, U, Int<M, N, ref<E>, 2>, 1>, 0>::val(p), ref<S>::val(p), "threefold nested integral");
}
template <class E> inline void nests(const double *p) {
  nest<C<0>, C<1>, C<0>, su<C<1>, X>, E>(p); nest<C<-1>, C<2>, X, C<3>, E>(p); nest<C<0>, Z, di<X, C<2> >, X, E>(p); nest<C<1>, C<4>, C<-2>, C<5>, E>(p); }
typedef list<C<0>, C<1>, C<-3>, X, Y> LV; typedef list<C<2>, X, Y> LV2; typedef d1<LV2, LV2>::type D1;
extern "C" void se_main() {
  double p[4] = {se_real("p0"), se_real("p1"), se_real("p2"), 0};
#if PART == 0
  each<Fun>(list<C<0>, C<1>, C<7>, X, Y, Z>(), p);
  cross<Fun>(LV(), LV(), p);
#elif PART == 1
  cross<Fun>(D1(), LV2(), p);
#elif PART == 2
  cross<Fun>(LV2(), D1(), p);
#elif PART == 3
  typedef mu<X, X> X2; typedef mu<X2, X> X3; typedef su<X, Y> D; typedef mu<D, D> DD; typedef ad<C<1>, X> S;
  deep<X3, mu<X2, X2>, mu<X2, mu<Y, X2> >, mu<mu<S, S>, S>, mu<DD, D>, mu<DD, DD>, di<mu<S, D>, C<6> >, di<mu<S, D>, Y>, ad<mu<C<5>, mu<X2, Y> >, su<mu<C<2>, X>, di<C<7>, C<3> > > >,
    mu<di<X, C<2> >, di<X, C<3> > >, mu<di<X, Y>, S>, su<Y, mu<X, su<Y, X> > >, mu<mu<mu<Y, Y>, Z>, C<4> >, su<su<su<X, Y>, X>, X>, mu<di<C<1>, Y>, X2>, di<di<X2, C<2> >, C<5> >, mu<X3, mu<X3, X2> >,
    mu<X2, X3>, mu<mu<X3, X>, X2>, mu<X3, mu<X2, X2> >, mu<mu<X2, X3>, Y>, ad<mu<X2, X3>, mu<C<3>, mu<X2, X2> > > >(p);
#elif PART == 5
  each<Fun>(ctref::all<3, 0, list<X, Y, C<2>, X> >::type(), p); each<Fun>(ctref::all<3, 0, list<C<6>, X, X, C<-4> > >::type(), p);
#elif PART == 6
  each<Fun>(ctref::all<3, 0, list<Y, X, Y, X> >::type(), p); each<Fun>(ctref::all<3, 0, list<X, Z, C<3>, Y> >::type(), p);
#elif PART == 8
  each<Fun>(ctref::all<4, 0, list<X, Y, C<2>, X, Y> >::type(), p);
#elif PART == 7
  each<Fun>(ctref::all<3, 0, list<X, C<-2>, X, X> >::type(), p); each<Fun>(ctref::all<3, 0, list<C<1>, C<0>, X, C<5> > >::type(), p);
#else
  typedef mu<X, Y> XY; typedef su<su<C<1>, X>, Y> L3;
  nests<C<1> >(p); nests<X>(p); nests<Y>(p); nests<XY>(p); nests<ad<X, Y> >(p); nests<mu<XY, Y> >(p); nests<mu<su<X, Y>, su<X, Y> > >(p); nests<mu<L3, Y> >(p); nests<mu<Z, XY> >(p); nests<di<XY, C<3> > >(p);
  nest3<C<0>, C<1>, C<0>, su<C<1>, X>, C<0>, L3, C<1> >(p); nest3<C<0>, C<1>, C<0>, su<C<1>, X>, C<0>, L3, mu<XY, Z> >(p); nest3<C<0>, C<1>, X, C<2>, X, Y, ad<X, mu<Y, Z> > >(p); nest3<C<0>, C<2>, C<-1>, X, XY, C<1>, mu<X, Z> >(p);
#endif
}
