// libstdc++ functions that live in libstdc++.so, provided as source so that the executor sees them.
#include <stdexcept>
#include <list>
#include <unordered_map>
#include <new>
#include <typeinfo>
#include <functional>
#include <cxxabi.h>
#include <cmath>
#include <cstdlib>
namespace __cxxabiv1 { extern "C" void __cxa_bad_cast() { throw std::bad_cast(); } extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); } }
namespace std {
  exception::~exception() noexcept {}
  const char *exception::what() const noexcept { return "std::exception"; }
  bad_exception::~bad_exception() noexcept {} const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
  bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
  bad_array_new_length::~bad_array_new_length() noexcept {} const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
  bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
  bad_typeid::~bad_typeid() noexcept {} const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
  bad_function_call::~bad_function_call() noexcept {} const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
  // the text of an exception: one allocation per object
  static char *se_text(const char *s) { unsigned long n = 0; while (s[n]) ++n; char *r = (char *)malloc(n + 1); for (unsigned long i = 0; i <= n; ++i) r[i] = s[i]; return r; }
  __cow_string::__cow_string() : _M_p(0) {}
  __cow_string::__cow_string(const char *s, size_t) : _M_p(se_text(s)) {}
  __cow_string::__cow_string(const std::string &s) : _M_p(se_text(s.c_str())) {}
  __cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(o._M_p ? se_text(o._M_p) : 0) {}
  __cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) { o._M_p = 0; }
  __cow_string &__cow_string::operator=(const __cow_string &o) noexcept { char *n = o._M_p ? se_text(o._M_p) : 0; if (_M_p) free((void *)_M_p); _M_p = n; return *this; }
  __cow_string &__cow_string::operator=(__cow_string &&o) noexcept { const char *t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
  __cow_string::~__cow_string() { if (_M_p) free((void *)_M_p); }
#define SE_BASE(T) T::T(const char *s) : _M_msg(s, 0) {} T::T(const std::string &s) : _M_msg(s) {} T::T(const T &o) noexcept : exception(), _M_msg(o._M_msg) {} T::T(T &&o) noexcept : _M_msg(static_cast<__cow_string &&>(o._M_msg)) {} \
  T &T::operator=(const T &o) noexcept { _M_msg = o._M_msg; return *this; } T &T::operator=(T &&o) noexcept { _M_msg = static_cast<__cow_string &&>(o._M_msg); return *this; } T::~T() noexcept {} const char *T::what() const noexcept { return _M_msg._M_p ? _M_msg._M_p : ""; }
#define SE_DER(T, B) T::T(const char *s) : B(s) {} T::T(const std::string &s) : B(s) {} T::~T() noexcept {}
  SE_BASE(logic_error) SE_BASE(runtime_error)
  SE_DER(domain_error, logic_error) SE_DER(invalid_argument, logic_error) SE_DER(length_error, logic_error) SE_DER(out_of_range, logic_error) SE_DER(range_error, runtime_error) SE_DER(overflow_error, runtime_error) SE_DER(underflow_error, runtime_error)
#undef SE_BASE
#undef SE_DER
  void __throw_length_error(const char *s) { throw length_error(s); }
  void __throw_logic_error(const char *s) { throw logic_error(s); }
  void __throw_runtime_error(const char *s) { throw runtime_error(s); }
  void __throw_domain_error(const char *s) { throw domain_error(s); }
  void __throw_range_error(const char *s) { throw range_error(s); }
  void __throw_out_of_range(const char *s) { throw out_of_range(s); }
  void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
  void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
  void __throw_bad_alloc() { throw bad_alloc(); }
  void __throw_bad_array_new_length() { throw bad_array_new_length(); }
  void __throw_bad_cast() { throw bad_cast(); }
  void __throw_bad_typeid() { throw bad_typeid(); }
  void __throw_bad_function_call() { throw bad_function_call(); }
  void __detail::_List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
  void __detail::_List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
  void __detail::_List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept { if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first; _List_node_base *t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
  void __detail::_List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
  void __detail::_List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    bool ex = x._M_next == &x, ey = y._M_next == &y; _List_node_base *xn = x._M_next, *xp = x._M_prev, *yn = y._M_next, *yp = y._M_prev;
    if (ey) x._M_next = x._M_prev = &x; else { x._M_next = yn; x._M_prev = yp; yn->_M_prev = &x; yp->_M_next = &x; }
    if (ex) y._M_next = y._M_prev = &y; else { y._M_next = xn; y._M_prev = xp; xn->_M_prev = &y; xp->_M_next = &y; } }
  size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char *)p; size_t h = seed ^ 14695981039346656037ul; for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ul; return h; }
  size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
  size_t __detail::_Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p = 13; while (p < n) p = p * 2 + 3; _M_next_resize = p; return p; }
  pair<bool, size_t> __detail::_Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { size_t m = ne + ni > 11 ? ne + ni : 11; if (m >= nb) return pair<bool, size_t>(true, _M_next_bkt(m + 1 > nb * 2 ? m + 1 : nb * 2)); _M_next_resize = nb; } return pair<bool, size_t>(false, 0); }
  static _Rb_tree_node_base *se_inc(_Rb_tree_node_base *x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
  static _Rb_tree_node_base *se_dec(_Rb_tree_node_base *x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
  _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return se_inc(x); }
  const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return se_inc(const_cast<_Rb_tree_node_base *>(x)); }
  _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return se_dec(x); }
  const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return se_dec(const_cast<_Rb_tree_node_base *>(x)); }
  // unbalanced insertion: ordering semantics are those of the real function, balance is irrelevant here
  void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    h._M_color = _S_red; }

  // unbalanced removal, the ordering semantics of the real function
  _Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
    bool first = h._M_left == z, last = h._M_right == z; _Rb_tree_node_base *nx = last ? 0 : se_inc(z), *pv = first ? 0 : se_dec(z);
    _Rb_tree_node_base *y; // the subtree that takes z's place
    if (!z->_M_left) y = z->_M_right; else if (!z->_M_right) y = z->_M_left;
    else { y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { y->_M_parent->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = y->_M_parent; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } y->_M_left = z->_M_left; z->_M_left->_M_parent = y; }
    _Rb_tree_node_base *p = z->_M_parent; if (y) y->_M_parent = p;
    if (p == &h) h._M_parent = y; else if (p->_M_left == z) p->_M_left = y; else p->_M_right = y;
    if (!h._M_parent) { h._M_left = &h; h._M_right = &h; } else { if (first) h._M_left = nx; if (last) h._M_right = pv; }
    return z; } }
extern "C" {
  double copysign(double x, double y) noexcept { double a = __builtin_fabs(x); return y < 0 ? -a : a; }
  double log2(double x) noexcept { return log(x) / log(2.0); } double exp2(double x) noexcept { return exp(x * log(2.0)); } double log1p(double x) noexcept { return log(1 + x); } double expm1(double x) noexcept { return exp(x) - 1; }
  double hypot(double x, double y) noexcept { return sqrt(x * x + y * y); } double fma(double x, double y, double z) noexcept { return x * y + z; } double fmin(double x, double y) noexcept { return y < x ? y : x; } double fmax(double x, double y) noexcept { return x < y ? y : x; }
  double sinh(double x) noexcept { return (exp(x) - exp(-x)) / 2; } double cosh(double x) noexcept { return (exp(x) + exp(-x)) / 2; } double tanh(double x) noexcept { return (exp(x) - exp(-x)) / (exp(x) + exp(-x)); }
  double ceil(double x) noexcept { return -floor(-x); } double trunc(double x) noexcept { return x < 0 ? -floor(-x) : floor(x); } double round(double x) noexcept { return x < 0 ? -floor(-x + 0.5) : floor(x + 0.5); } double fmod(double x, double y) noexcept { double q = x / y; return x - y * (q < 0 ? -floor(-q) : floor(q)); } }
