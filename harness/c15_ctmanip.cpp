// Compile-time manipulation of expression types: -DPROP=1 simplify, 2 expand, 3 diff, 4 substitute, 5 coefficient/drop.
#include "ctref.hpp"
#include "viennamath/manipulation/expand.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/coefficient.hpp"
#include "viennamath/manipulation/drop_dependent_terms.hpp"
using namespace ctref; using namespace viennamath;
typedef ct_variable<0> X; typedef ct_variable<1> Y; typedef ct_variable<2> Z;
template <class A, class O, class B> using E3 = ct_binary_expr<A, O, B>;
template <class F, class E> struct contains { static const bool value = same<F, E>::value; };
template <class F, class L, class O, class R> struct contains<F, ct_binary_expr<L, O, R> > { static const bool value = same<F, ct_binary_expr<L, O, R> >::value || contains<F, L>::value || contains<F, R>::value; };
#if PROP == 1
struct Fun { template <class E> struct accept { static const bool value = wellformed<E>::value; };
  template <class E> static void run(const double *p) {
    typedef typename result_of::simplify<E>::type S; typedef typename result_of::simplify<S>::type S2;
    se_eq(ref<E>::val(p), ref<S>::val(p), "simplified expression has the same value");
    se_assert(same<S, S2>::value, "simplification is idempotent");
    std::vector<double> v(p, p + 3); E e;
    se_eq(ref<E>::val(p), viennamath::eval(viennamath::simplify(e), v), "simplify() function result evaluates to the same value");
  } };
#elif PROP == 2
template <class E> struct nosum { static const bool value = true; };
template <class L, class R> struct nosum<ct_binary_expr<L, P_, R> > { static const bool value = false; };
template <class L, class R> struct nosum<ct_binary_expr<L, M_, R> > { static const bool value = false; };
template <class L, class R> struct nosum<ct_binary_expr<L, T_, R> > { static const bool value = nosum<L>::value && nosum<R>::value; };
template <class L, class R> struct nosum<ct_binary_expr<L, D_, R> > { static const bool value = nosum<L>::value; };
template <class E> struct expanded { static const bool value = true; };
template <class L, class R> struct expanded<ct_binary_expr<L, P_, R> > { static const bool value = expanded<L>::value && expanded<R>::value; };
template <class L, class R> struct expanded<ct_binary_expr<L, M_, R> > { static const bool value = expanded<L>::value && expanded<R>::value; };
template <class L, class R> struct expanded<ct_binary_expr<L, T_, R> > { static const bool value = nosum<L>::value && nosum<R>::value; };
template <class L, class R> struct expanded<ct_binary_expr<L, D_, R> > { static const bool value = expanded<L>::value; };
struct Fun { template <class E> struct accept { static const bool value = wellformed<E>::value; };
  template <class E> static void run(const double *p) {
    typedef typename result_of::expand<E>::type S; E e;
    se_eq(ref<E>::val(p), ref<S>::val(p), "expanded expression has the same value");
    se_assert(expanded<S>::value, "no product of sums remains");
    std::vector<double> v(p, p + 3);
    se_eq(ref<E>::val(p), viennamath::eval(viennamath::expand(e), v), "expand() function result evaluates to the same value");
  } };
#elif PROP == 3
struct Fun { template <class E> struct accept { static const bool value = wellformed<E>::value; };
  template <class E> static void run(const double *p) {
    typedef typename result_of::diff<E, X>::result_type D0; typedef typename result_of::diff<E, Y>::result_type D1;
    se_eq(dref<E, 0>::val(p), ref<D0>::val(p), "derivative with respect to variable 0");
    se_eq(dref<E, 1>::val(p), ref<D1>::val(p), "derivative with respect to variable 1");
    std::vector<double> v(p, p + 3); E e; X x; Z z;
    se_eq(dref<E, 0>::val(p), viennamath::eval(viennamath::diff(e, x), v), "diff() function result evaluates to the derivative");
    se_eq(dref<E, 2>::val(p), viennamath::eval(viennamath::diff(e, z), v), "derivative with respect to variable 2");
  } };
#elif PROP == 4
template <class R, class E> inline void sub(const double *p) {
  typedef typename result_of::substitute<X, R, E>::type S; double q[3] = {ref<R>::val(p), p[1], p[2]};
  se_eq(ref<E>::val(q), ref<S>::val(p), "value after substituting a variable");
  se_assert(contains<X, R>::value || !contains<X, S>::value, "no occurrence of the replaced variable remains");
  std::vector<double> v(p, p + 3); X x; R r; E e; se_eq(ref<E>::val(q), viennamath::eval(viennamath::substitute(x, r, e), v), "substitute() function"); }
template <class K, class R, class E> struct rep { typedef typename std::conditional<same<K, E>::value, R, E>::type type; };
template <class K, class R, class A, class O, class B> struct rep<K, R, ct_binary_expr<A, O, B> > { typedef typename std::conditional<same<K, ct_binary_expr<A, O, B> >::value, R, ct_binary_expr<typename rep<K, R, A>::type, O, typename rep<K, R, B>::type> >::type type; };
template <class K, class E> inline void search() { se_assert(same<typename result_of::substitute<K, ct_variable<5>, E>::type, typename rep<K, ct_variable<5>, E>::type>::value, "substituting an operation of two leaves replaces exactly its occurrences"); }
struct Fun { template <class E> struct accept { static const bool value = wellformed<E>::value; };
  template <class E> static void run(const double *p) {
    sub<ct_constant<5>, E>(p); sub<Z, E>(p); sub<ct_binary_expr<X, P_, Y>, E>(p);
    typedef ct_variable<7> A7; se_assert(same<typename result_of::substitute<A7, Y, E>::type, E>::value, "substituting an absent variable changes nothing");
    se_assert(same<typename result_of::substitute<E, Z, E>::type, Z>::value, "substituting the whole expression yields the replacement");
    se_assert(same<typename result_of::substitute<typename E::lhs_type, Z, E>::type, typename rep<typename E::lhs_type, Z, E>::type>::value, "substituting the left operand replaces exactly its occurrences");
    se_assert(same<typename result_of::substitute<typename E::rhs_type, Z, E>::type, typename rep<typename E::rhs_type, Z, E>::type>::value, "substituting the right operand replaces exactly its occurrences");
    search<ct_binary_expr<ct_constant<2>, M_, X>, E>(); search<ct_binary_expr<X, M_, ct_constant<2> >, E>(); search<ct_binary_expr<Y, T_, X>, E>(); search<ct_binary_expr<X, T_, Y>, E>(); search<ct_binary_expr<ct_constant<2>, P_, X>, E>(); search<ct_binary_expr<X, D_, ct_constant<2> >, E>(); search<ct_binary_expr<X, M_, Y>, E>(); search<ct_binary_expr<Y, P_, X>, E>(); search<ct_constant<-2>, E>(); search<ct_constant<1>, E>();
    typedef ct_binary_expr<Z, T_, E> W; se_assert(same<typename result_of::substitute<E, ct_constant<9>, W>::type, ct_binary_expr<Z, T_, ct_constant<9> > >::value, "substituting a nested sub-expression");
    se_assert(same<typename result_of::substitute<ct_constant<2>, Z, E>::type, typename rep<ct_constant<2>, Z, E>::type>::value, "substituting a constant");
  } };
#else
template <class F, class E> struct xden { static const bool value = false; };
template <class F, class L, class O, class R> struct xden<F, ct_binary_expr<L, O, R> > { static const bool value = xden<F, L>::value || xden<F, R>::value || (same<O, D_>::value && contains<F, R>::value); };
template <bool ok, class F, int i> struct Co { template <class E> static void go(const double *p) {
    typedef typename result_of::coefficient<F, E>::type C; typedef typename result_of::drop_dependent_terms<F, E>::type D; E e; F f;
    double q[3] = {p[0], p[1], p[2]}; q[i] = 0;
    se_eq(ref<E>::val(p), ref<C>::val(p) * p[i] + ref<D>::val(p), "expression == coefficient * factor + remaining terms");
    se_eq(ref<E>::val(q), ref<D>::val(p), "remaining terms == expression with the factor set to zero");
    se_assert(!contains<F, D>::value, "remaining terms do not contain the factor");
    std::vector<double> v(p, p + 3);
    se_eq(ref<E>::val(p), viennamath::eval(viennamath::coefficient(f, e), v) * p[i] + viennamath::eval(viennamath::drop_dependent_terms(f, e), v), "coefficient() and drop_dependent_terms() functions"); } };
template <class F, int i> struct Co<false, F, i> { template <class E> static void go(const double *) {} };
struct Fun { template <class E> struct accept { static const bool value = wellformed<E>::value; };
  template <class E> static void run(const double *p) { Co<!xden<X, E>::value, X, 0>::template go<E>(p); Co<!xden<Y, E>::value, Y, 1>::template go<E>(p); } };
#endif
// hand-picked deeper types
template <class... T> inline void deep(const double *p) { each<Fun>(list<T...>(), p); }
typedef E3<X, P_, Y> XpY; typedef E3<X, M_, Y> XmY; typedef E3<X, T_, Y> XtY; typedef E3<X, D_, Y> XdY; typedef E3<Y, P_, Z> YpZ;
typedef E3<XpY, T_, XmY> Q1; typedef E3<E3<ct_constant<1>, D_, ct_constant<2> >, P_, E3<ct_constant<1>, D_, ct_constant<3> > > H1;
#ifdef SE_THOROUGH
typedef list<ct_constant<2>, ct_constant<-3>, X, Y> LV2;
#else
typedef list<ct_constant<-3>, X, Y> LV2;
#endif
typedef list<ct_constant<0>, ct_constant<1>, ct_constant<-1>, ct_constant<4>, ct_constant<-6>, X, Y> LV;
typedef d1<LV2, LV2>::type D1;
typedef d1<list<ct_constant<0>, ct_constant<1>, ct_constant<6>, X, Y>, list<ct_constant<0>, ct_constant<1>, ct_constant<-4>, X, Y> >::type D1S;
extern "C" void se_main() {
  double p[3] = {se_real("p0"), se_real("p1"), se_real("p2")};
#if PART == 0
      cross<Fun>(LV(), LV(), p);
#elif PART == 1
      cross<Fun>(D1(), LV2(), p);
#elif PART == 2
      cross<Fun>(LV2(), D1(), p);
#elif PART == 5
      each<Fun>(all<3, 0, list<X, Y, ct_constant<2>, X> >::type(), p);
#elif PART == 6
      each<Fun>(all<3, 0, list<ct_constant<6>, X, ct_constant<-4>, Y> >::type(), p);
#elif PART == 7
      each<Fun>(all<3, 0, list<X, ct_constant<1>, Z, ct_constant<0> > >::type(), p);
#elif PART == 8
      each<Fun>(all<3, 0, list<ct_constant<0>, Y, ct_constant<1>, X> >::type(), p);
#elif PART == 9
      each<Fun>(all<3, 0, list<ct_constant<2>, ct_constant<-6>, ct_constant<4>, X> >::type(), p);
#elif PART == 10
      each<Fun>(all<3, 0, list<Y, X, X, Z> >::type(), p);
#elif PART == 11
      each<Fun>(all<4, 0, list<X, Y, ct_constant<-3>, X, Z> >::type(), p);
#elif PART == 12
      each<Fun>(all<4, 0, list<ct_constant<6>, X, ct_constant<-4>, Y, ct_constant<1> > >::type(), p);
#elif PART == 13
      each<Fun>(all<4, 0, list<Y, X, ct_constant<0>, X, Z> >::type(), p);
#elif PART == 14
      each<Fun>(cat<all<3, 0, list<X, ct_constant<2>, X, ct_constant<5> > >::type, all<3, 0, list<X, Y, X, Y> >::type>::type(), p);
#elif PART == 15
      each<Fun>(cat<all<3, 0, list<ct_constant<5>, X, ct_constant<2>, X> >::type, all<3, 0, list<X, Y, Y, X> >::type>::type(), p);
#elif PART == 16
      each<Fun>(cat<all<3, 0, list<ct_constant<3>, ct_constant<4>, ct_constant<1>, ct_constant<2> > >::type, all<3, 0, list<ct_constant<-4>, ct_constant<6>, ct_constant<9>, ct_constant<3> > >::type>::type(), p);
#elif PART == 17
      each<Fun>(cat<all<3, 0, list<ct_constant<5>, ct_constant<-2>, ct_constant<-7>, ct_constant<4> > >::type, all<3, 0, list<X, ct_constant<3>, X, ct_constant<3> > >::type>::type(), p);
#elif PART == 18
      each<Fun>(cat<all<4, 0, list<ct_constant<3>, ct_constant<4>, ct_constant<-1>, ct_constant<2>, ct_constant<6> > >::type, all<3, 0, list<X, X, X, X> >::type>::type(), p);
#elif PART == 19 // numbers behind, between and before compound operands
      each<Fun>(cat<all<3, 0, list<X, Y, ct_constant<3>, ct_constant<4> > >::type, all<3, 0, list<ct_constant<3>, ct_constant<-5>, X, Y> >::type>::type(), p);
#elif PART == 20
      each<Fun>(cat<all<3, 0, list<ct_constant<7>, X, Y, ct_constant<4> > >::type, all<3, 0, list<X, ct_constant<5>, ct_constant<-2>, Y> >::type>::type(), p);
#elif PART == 21 // products and quotients of five factors in every shape, products of six
      each<Fun>(cats<prods<4, 0, list<X, Y, Z, Y, Z>, true>::type, prods<4, 0, list<Y, X, ct_constant<2>, Y, Z> >::type, prods<4, 0, list<Y, Z, X, Y, ct_constant<3> > >::type, prods<4, 0, list<ct_constant<4>, Z, Y, X, Y> >::type, prods<4, 0, list<Y, Z, Y, Z, X> >::type, prods<5, 0, list<Y, Z, Z, Y, Z, X> >::type, prods<5, 0, list<Y, Z, Z, X, Z, Y> >::type>::type(), p);
#elif PART == 22 // the same operands on both sides
      each<Fun>(twins<d1<list<XpY, XtY, E3<X, M_, ct_constant<3> > >, list<XpY, E3<Y, T_, Z>, X, ct_constant<3>, E3<X, M_, Z> > >::type>::type(), p);
#elif PART == 23
      each<Fun>(twins<d1<list<X, ct_constant<2>, XdY>, list<X, Y, ct_constant<2>, XmY, E3<ct_constant<3>, T_, Y> > >::type>::type(), p);
#elif PART == 4
      #if PROP == 1
      cross<Fun>(list<E3<ct_constant<0>, M_, X>, E3<ct_constant<1>, D_, X>, E3<ct_constant<1>, D_, ct_constant<4> >, E3<ct_constant<6>, D_, ct_constant<-4> >, E3<X, T_, ct_constant<0> >, E3<ct_constant<1>, T_, Y>, XdY, XmY, ct_constant<0>, ct_constant<1>, ct_constant<-3>, X>(),
                 list<E3<ct_constant<0>, M_, Y>, E3<ct_constant<1>, D_, Y>, E3<ct_constant<5>, D_, ct_constant<6> >, E3<ct_constant<-3>, D_, ct_constant<-9> >, E3<Y, P_, ct_constant<0> >, E3<X, D_, ct_constant<1> >, XtY, E3<ct_constant<2>, M_, Y>, Y>(), p);
#elif PROP == 2 || PROP == 5
      cross<Fun>(list<XpY, XmY, XtY, E3<ct_constant<2>, T_, X>, E3<XtY, P_, ct_constant<3> >, E3<XpY, T_, Y>, E3<XpY, D_, Z> >(), list<XpY, YpZ, XmY, E3<Y, T_, XpY>, E3<ct_constant<4>, M_, X>, E3<YpZ, D_, ct_constant<7> > >(), p);
#else
      cross<Fun>(list<XpY, XmY, XtY, XdY, E3<XpY, T_, XmY> >(), list<XpY, YpZ, XtY, XdY, E3<Y, D_, XpY>, E3<X, T_, X> >(), p);
#endif
#elif PART == 3
      deep<E3<Q1, T_, XpY>, E3<Q1, P_, Q1>, E3<XpY, T_, E3<YpZ, T_, XmY> >, E3<E3<XpY, T_, Z>, T_, YpZ>, E3<E3<XpY, D_, Z>, T_, XmY>, E3<XpY, T_, E3<XmY, D_, Z> >, E3<E3<XpY, T_, XmY>, D_, YpZ>, E3<H1, T_, X>, E3<X, M_, H1>, E3<E3<H1, T_, H1>, P_, Q1>,
        E3<E3<ct_constant<5>, T_, E3<X, T_, E3<X, T_, Y> > >, M_, E3<E3<ct_constant<2>, T_, X>, P_, ct_constant<7> > >, E3<E3<X, T_, X>, T_, E3<X, P_, ct_constant<1> > >, E3<E3<E3<X, M_, Y>, T_, E3<X, M_, Z> >, M_, E3<E3<X, P_, Y>, T_, Z> > >(p);
#if PROP == 1
      deep<E3<E3<ct_constant<100000>, D_, ct_constant<3> >, T_, E3<ct_constant<100000>, D_, ct_constant<7> > >, E3<E3<ct_constant<1>, D_, ct_constant<100003> >, P_, E3<ct_constant<1>, D_, ct_constant<100019> > >, E3<ct_constant<3000000000>, M_, E3<ct_constant<1>, D_, ct_constant<2> > >, E3<E3<ct_constant<4000000000>, D_, ct_constant<3> >, D_, ct_constant<2> >,
        E3<E3<ct_constant<1>, D_, X>, T_, E3<ct_constant<1>, D_, Y> >, E3<E3<E3<X, P_, ct_constant<0> >, T_, E3<Y, T_, ct_constant<1> > >, M_, E3<ct_constant<0>, M_, Z> >, E3<E3<ct_constant<0>, M_, E3<X, T_, Y> >, M_, E3<ct_constant<0>, M_, Z> >, E3<ct_constant<0>, T_, E3<XpY, D_, Z> >, E3<E3<ct_constant<0>, T_, X>, P_, E3<ct_constant<1>, T_, Y> > >(p);
#endif
#endif
}
