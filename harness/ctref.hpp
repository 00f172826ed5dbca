// Reference semantics of compile-time expression types, and enumeration of expression types.
#ifndef CTREF_HPP
#define CTREF_HPP
#include "se.hpp"
#include "viennamath/expression.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/simplify.hpp"
namespace ctref {
namespace vm = viennamath;
typedef vm::op_plus<double> P_; typedef vm::op_minus<double> M_; typedef vm::op_mult<double> T_; typedef vm::op_div<double> D_;
template <class E> struct ref;   // value at point p
template <long v> struct ref<vm::ct_constant<v> > { static double val(const double *) { return (double)v; } static const bool defd = true; };
template <vm::id_type i> struct ref<vm::ct_variable<i> > { static double val(const double *p) { return p[i]; } };
template <class L, class R> struct ref<vm::ct_binary_expr<L, P_, R> > { static double val(const double *p) { return ref<L>::val(p) + ref<R>::val(p); } };
template <class L, class R> struct ref<vm::ct_binary_expr<L, M_, R> > { static double val(const double *p) { return ref<L>::val(p) - ref<R>::val(p); } };
template <class L, class R> struct ref<vm::ct_binary_expr<L, T_, R> > { static double val(const double *p) { return ref<L>::val(p) * ref<R>::val(p); } };
template <class L, class R> struct ref<vm::ct_binary_expr<L, D_, R> > { static double val(const double *p) { return ref<L>::val(p) / ref<R>::val(p); } };
// derivative with respect to variable i by the textbook rules
template <class E, int i> struct dref;
template <long v, int i> struct dref<vm::ct_constant<v>, i> { static double val(const double *) { return 0.0; } };
template <vm::id_type j, int i> struct dref<vm::ct_variable<j>, i> { static double val(const double *) { return j == (vm::id_type)i ? 1.0 : 0.0; } };
template <class L, class R, int i> struct dref<vm::ct_binary_expr<L, P_, R>, i> { static double val(const double *p) { return dref<L, i>::val(p) + dref<R, i>::val(p); } };
template <class L, class R, int i> struct dref<vm::ct_binary_expr<L, M_, R>, i> { static double val(const double *p) { return dref<L, i>::val(p) - dref<R, i>::val(p); } };
template <class L, class R, int i> struct dref<vm::ct_binary_expr<L, T_, R>, i> { static double val(const double *p) { return dref<L, i>::val(p) * ref<R>::val(p) + ref<L>::val(p) * dref<R, i>::val(p); } };
template <class L, class R, int i> struct dref<vm::ct_binary_expr<L, D_, R>, i> { static double val(const double *p) { return (dref<L, i>::val(p) * ref<R>::val(p) - ref<L>::val(p) * dref<R, i>::val(p)) / (ref<R>::val(p) * ref<R>::val(p)); } };
template <class A, class B> struct same { static const bool value = false; };
template <class A> struct same<A, A> { static const bool value = true; };
template <class E> struct depth { static const int value = 0; };
template <class L, class O, class R> struct depth<vm::ct_binary_expr<L, O, R> > { static const int value = 1 + (depth<L>::value > depth<R>::value ? depth<L>::value : depth<R>::value); };
// does the type contain a given leaf / operator
template <class E> struct has_div { static const bool value = false; };
template <class L, class O, class R> struct has_div<vm::ct_binary_expr<L, O, R> > { static const bool value = has_div<L>::value || has_div<R>::value; };
template <class L, class R> struct has_div<vm::ct_binary_expr<L, D_, R> > { static const bool value = true; };
// exact rational value of constant sub-expressions: used to exclude division by a literal zero (a compile-time error by design)
template <class E> struct rat { static const bool isconst = false; static const bool bad = false; static const __int128 n = 1, d = 1; };
template <long v> struct rat<vm::ct_constant<v> > { static const bool isconst = true; static const bool bad = false; static const __int128 n = v, d = 1; };
template <class L, class O, class R> struct rat<vm::ct_binary_expr<L, O, R> > {
  typedef rat<L> l; typedef rat<R> r;
  static const int op = same<O, P_>::value ? 0 : same<O, M_>::value ? 1 : same<O, T_>::value ? 2 : 3;
  static const bool lz = l::isconst && l::n == 0, rz = r::isconst && r::n == 0;
  static const bool zero = op == 2 ? lz || rz : op == 3 && lz;    // nothing but zero, whatever the other operand is
  static const bool isconst = zero || (l::isconst && r::isconst);
  static const bool divzero = op == 3 && rz;
  static const bool bad = l::bad || r::bad || divzero;
  static const __int128 n0 = zero || !isconst ? 0 : op == 0 ? l::n * r::d + r::n * l::d : op == 1 ? l::n * r::d - r::n * l::d : op == 2 ? l::n * r::n : l::n * r::d;
  static const __int128 d0 = zero || !isconst ? 1 : op == 3 ? (r::n == 0 ? 1 : l::d * r::n) : l::d * r::d;
  static const __int128 n = !isconst ? 1 : n0, d = n == 0 ? 1 : d0; };
// ---- type lists and enumeration
template <class... T> struct list {};
struct none {};
// list of all depth-1 types over given leaves and ops
template <class A, class B> struct cat; template <class... A, class... B> struct cat<list<A...>, list<B...> > { typedef list<A..., B...> type; };
template <class L, class RL> struct d1r; template <class L, class... R> struct d1r<L, list<R...> > { typedef list<vm::ct_binary_expr<L, P_, R>..., vm::ct_binary_expr<L, M_, R>..., vm::ct_binary_expr<L, T_, R>..., vm::ct_binary_expr<L, D_, R>...> type; };
template <class LL, class RL> struct d1; template <class RL> struct d1<list<>, RL> { typedef list<> type; };
template <class L, class... Ls, class RL> struct d1<list<L, Ls...>, RL> { typedef typename cat<typename d1r<L, RL>::type, typename d1<list<Ls...>, RL>::type>::type type; };
// every tree shape with n operations and every choice of the operations; the leaves are those of a list, from left to right
template <int i, class L> struct nth_; template <int i, class A, class... R> struct nth_<i, list<A, R...> > { typedef typename nth_<i - 1, list<R...> >::type type; }; template <class A, class... R> struct nth_<0, list<A, R...> > { typedef A type; };
template <int n, int s, class L> struct all; template <int n, int k, int s, class L> struct all_split { typedef typename cat<typename d1<typename all<k, s, L>::type, typename all<n - 1 - k, s + k + 1, L>::type>::type, typename all_split<n, k + 1, s, L>::type>::type type; };
template <int n, int s, class L> struct all_split<n, n, s, L> { typedef list<> type; };
template <int n, int s, class L> struct all { typedef typename all_split<n, 0, s, L>::type type; };
template <int s, class L> struct all<0, s, L> { typedef list<typename nth_<s, L>::type> type; };
// the same with the operations limited to products (DIVS: and quotients)
template <class L, class RL, bool divs> struct p1r; template <class L, class... R> struct p1r<L, list<R...>, false> { typedef list<vm::ct_binary_expr<L, T_, R>...> type; }; template <class L, class... R> struct p1r<L, list<R...>, true> { typedef list<vm::ct_binary_expr<L, T_, R>..., vm::ct_binary_expr<L, D_, R>...> type; };
template <class LL, class RL, bool divs> struct p1; template <class RL, bool divs> struct p1<list<>, RL, divs> { typedef list<> type; };
template <class L, class... Ls, class RL, bool divs> struct p1<list<L, Ls...>, RL, divs> { typedef typename cat<typename p1r<L, RL, divs>::type, typename p1<list<Ls...>, RL, divs>::type>::type type; };
template <int n, int s, class L, bool divs = false> struct prods; template <int n, int k, int s, class L, bool divs> struct prods_split { typedef typename cat<typename p1<typename prods<k, s, L, divs>::type, typename prods<n - 1 - k, s + k + 1, L, divs>::type, divs>::type, typename prods_split<n, k + 1, s, L, divs>::type>::type type; };
template <int n, int s, class L, bool divs> struct prods_split<n, n, s, L, divs> { typedef list<> type; };
template <int n, int s, class L, bool divs> struct prods { typedef typename prods_split<n, 0, s, L, divs>::type type; };
template <int s, class L, bool divs> struct prods<0, s, L, divs> { typedef list<typename nth_<s, L>::type> type; };
template <class... L> struct cats; template <class A> struct cats<A> { typedef A type; }; template <class A, class B, class... R> struct cats<A, B, R...> { typedef typename cats<typename cat<A, B>::type, R...>::type type; };
// every operation applied to (S op T, S op2 T)
template <class L> struct twins; template <> struct twins<list<> > { typedef list<> type; };
template <class A, class O, class B, class... R> struct twins<list<vm::ct_binary_expr<A, O, B>, R...> > { typedef typename cat<typename d1<list<vm::ct_binary_expr<A, O, B> >, list<vm::ct_binary_expr<A, P_, B>, vm::ct_binary_expr<A, M_, B>, vm::ct_binary_expr<A, T_, B>, vm::ct_binary_expr<A, D_, B> > >::type, typename twins<list<R...> >::type>::type type; };
template <class L> struct size; template <class... T> struct size<list<T...> > { static const int value = sizeof...(T); };
// apply F to one element of a list, chosen: every element is a path of its own (an expression without a value ends only its own path); element n stands for "go on after the call"
typedef void (*fun_)(const double *);
template <class F, class E, bool ok> struct run_if { static fun_ get() { return &F::template run<E>; } };
template <class F, class E> struct run_if<F, E, false> { static fun_ get() { return 0; } };
template <class F, class... E> inline void each(list<E...>, const double *p) { unsigned i = se_choice(sizeof...(E) + 1, "expression"); if (i == sizeof...(E)) return; fun_ f[] = {run_if<F, E, F::template accept<E>::value>::get()...}; if (f[i]) f[i](p); se_stop(); }
template <class F, class LL, class RL> inline void cross(LL, RL, const double *p) { each<F>(typename d1<LL, RL>::type(), p); }
// valid operand: no literal division by zero anywhere
template <class E> struct wellformed { static const bool value = !rat<E>::bad; };
}
#endif
