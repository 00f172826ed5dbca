// Compile-time variables of any number and compile-time constants of any size, wherever a run-time operation accepts them:
// C02 evaluation, C03 conversion, C04 operators, C07 differentiation, C08 derivatives of function symbols, C27 pairs.
// (the numbers are template arguments, hence a fixed list: around the limits of every narrower integer type)
#include "oracle.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/runtime/equation.hpp"
using namespace oracle; using namespace viennamath;
static double PA, PO, PX, C; // value of the variable of that number, of number 1, of any other
static double av(const O *o, unsigned long id) { switch (o->k) { case CONST: return o->c; case VAR: return o->id == id ? PA : o->id == 1 ? PO : PX; case UN: return uapply(o->op, av(o->a, id)); default: return bapply(o->op, av(o->a, id), av(o->b, id)); } }
static void has(const IF *e, double want, unsigned long id, const char *m) { O *r = e ? read(e) : 0; se_assert(r != 0, "made of known nodes"); if (r) se_eq(want, av(r, id), m); del(r); }
static void has(expr const &e, double want, unsigned long id, const char *m) { has(e.get(), want, id, m); }
typedef ct_constant<6000000000L> BIG; typedef ct_constant<-5000000001L> LOW;
#if PROP == 2
static double PT[512];
struct upoint { typedef double value_type; double const &operator[](std::size_t i) const { return PT[i]; } std::size_t size() const { return 512; } };
template <unsigned long id> static void go() { for (unsigned i = 0; i < 512; ++i) PT[i] = 0; PT[id] = PA; PT[1] = id == 1 ? PA : PO; ct_variable<id> x; ct_variable<1> y; std::vector<double> v(PT, PT + 512);
  se_eq(PA, viennamath::eval(x, v), "compile-time variable of any number"); se_eq(PA, x(v), "compile-time variable of any number called"); double b = PT[1]; PA = PT[id];
  se_eq(PA - b, viennamath::eval(x - y, v), "difference"); se_eq(b / PA, (y / x)(v), "quotient"); se_eq(PA * 6e9, (x * BIG())(v), "product with a large constant"); se_eq((PA + b) * -5000000001.0, ((x + y) * LOW())(v), "product with a large negative constant"); se_eq((PA + 1) * (b - PA), viennamath::eval((x + ct_constant<1>()) * (y - x), v), "nested");
  std::vector<double> exact(PT, PT + id + 2); se_eq(PA - b, viennamath::eval(x - y, exact), "at a point of just sufficient length"); }
#define IDS(X) X(0) X(1) X(13) X(127) X(128) X(255) X(256) X(257) X(300)
#elif PROP == 3
template <unsigned long id> static void go() { ct_variable<id> x; ct_variable<1> y; ct_constant<3> c; typedef ct_binary_expr<ct_variable<1>, op_minus<double>, ct_constant<3> > S; S s(y, c); double b = id == 1 ? PA : PO, m = b - 3;
  { expr e(x), f(2.0), g(variable(1) * C); f = x; g = x; has(e, PA, id, "wrapper of a compile-time variable"); has(f, PA, id, "assigned over a number"); has(g, PA, id, "assigned over an expression"); }
  { rt_expr<> k(BIG{}), l(2.0), m(LOW{}); l = LOW(); has(k, 6e9, id, "wrapper of a large constant"); has(l, -5000000001.0, id, "large constant assigned"); has(m, -5000000001.0, id, "wrapper of a large negative constant"); }
#define TWO(E, W, M) { auto t = E; double w_ = W; typedef decltype(t) T_; expr e(t), f(2.0), g(variable(1) * C); f = t; g = t; has(e, w_, id, M); has(f, w_, id, M); has(g, w_, id, M); rt_binary_expr<> h(t), i(variable(1) - C), j(variable(1) / variable(2)); i = t; j = t; has(&h, w_, id, M); has(&i, w_, id, M); has(&j, w_, id, M); }
#define BE(L, O, R) ct_binary_expr<decltype(L), O<double>, decltype(R) >(L, R)
  switch (se_choice(9, "shape")) { case 0: TWO(BE(x, op_mult, c), PA * 3, "variable and constant") break; case 1: TWO(BE(c, op_minus, x), 3 - PA, "constant and variable") break; case 2: TWO(BE(x, op_div, y), PA / b, "two variables") break; case 3: TWO(BE(y, op_minus, x), b - PA, "two variables") break;
    case 4: TWO(BE(x, op_mult, s), PA * m, "variable and expression") break; case 5: TWO(BE(s, op_div, x), m / PA, "expression and variable") break; case 6: TWO(BE(BE(x, op_minus, s), op_mult, BE(c, op_div, x)), (PA - m) * (3 / PA), "two expressions") break; case 7: TWO(BE(x, op_plus, BIG()), PA + 6e9, "variable and large constant") break;
    default: TWO(BE(LOW(), op_mult, BE(x, op_minus, BE(x, op_div, BIG()))), -5000000001.0 * (PA - PA / 6e9), "expression of large constants") } }
#elif PROP == 4
template <class A, class B_> static void ops(A const &a, double x, B_ const &b, double y, unsigned long id) { unsigned long h0 = se_heap(); se_defined(x / y); has(expr(a + b), x + y, id, "sum"); has(expr(a - b), x - y, id, "difference"); has(expr(a * b), x * y, id, "product"); has(expr(a / b), x / y, id, "quotient"); se_assert(se_heap() == h0, "no memory is leaked"); }
template <class A> static void with(A const &a, double x, unsigned long id) { variable v(1); double b = id == 1 ? PA : PO; rt_constant<double> k(C); expr e(v), s(v * C - C); rt_binary_expr<> be(v - k); ct_constant<3> c3; ct_variable<1> y;
  switch (se_choice(14, "other")) { case 0: ops(a, x, v, b, id); break; case 1: ops(v, b, a, x, id); break; case 2: ops(a, x, k, C, id); break; case 3: ops(k, C, a, x, id); break; case 4: ops(a, x, C, C, id); break; case 5: ops(C, C, a, x, id); break; case 6: ops(a, x, s, b * C - C, id); break; case 7: ops(s, b * C - C, a, x, id); break;
    case 8: ops(a, x, be, b - C, id); break; case 9: ops(be, b - C, a, x, id); break; case 10: ops(a, x, e, b, id); break; case 11: ops(e, b, a, x, id); break; case 12: { expr q(2.0); q = a - ct_constant<1>(); has(q, x - 1, id, "difference of compile-time operands"); q = c3 / a; has(q, 3 / x, id, "quotient of compile-time operands"); break; }
    default: { expr q(C); q = q + a; has(q, C + x, id, "compound sum"); q = q * a; has(q, (C + x) * x, id, "compound product"); q = q - a; has(q, (C + x) * x - x, id, "compound difference"); q = q / a; has(q, ((C + x) * x - x) / x, id, "compound quotient"); } } }
template <unsigned long id> static void go() { ct_variable<id> x; ct_constant<3> c3; ct_variable<1> y; double b = id == 1 ? PA : PO; typedef ct_binary_expr<ct_variable<id>, op_minus<double>, ct_constant<3> > S; S s(x, c3);
  se_defined(1 / PA);
  switch (se_choice(5, "operand")) { case 0: with(x, PA, id); break; case 1: with(s, PA - 3, id); break; case 2: with(BIG(), 6e9, id); break; case 3: with(LOW(), -5000000001.0, id); break;
    default: { has(expr(exp(x)), uapply(U_EXP, PA), id, "exp of a compile-time variable"); has(expr(sin(x)), uapply(U_SIN, PA), id, "sin"); has(expr(cos(x)), uapply(U_COS, PA), id, "cos"); has(expr(tan(x)), uapply(U_TAN, PA), id, "tan"); has(expr(fabs(x)), uapply(U_FABS, PA), id, "fabs"); has(expr(sqrt(x)), uapply(U_SQRT, PA), id, "sqrt"); has(expr(log(x)), uapply(U_LOG, PA), id, "log"); has(expr(log10(x)), uapply(U_LOG10, PA), id, "log10");
      has(expr(exp(s)), uapply(U_EXP, PA - 3), id, "exp of a compile-time expression"); has(expr(sin(s)), uapply(U_SIN, PA - 3), id, "sin"); has(expr(cos(s)), uapply(U_COS, PA - 3), id, "cos"); has(expr(tan(s)), uapply(U_TAN, PA - 3), id, "tan"); has(expr(fabs(s)), uapply(U_FABS, PA - 3), id, "fabs"); has(expr(sqrt(s)), uapply(U_SQRT, PA - 3), id, "sqrt"); has(expr(log(s)), uapply(U_LOG, PA - 3), id, "log"); has(expr(log10(s)), uapply(U_LOG10, PA - 3), id, "log10"); } } (void)y; (void)b; }
#elif PROP == 7
static double ad(const O *o, unsigned long w, unsigned long id) { switch (o->k) { case CONST: return 0; case VAR: return o->id == w ? 1.0 : 0.0; case UN: return uderiv(o->op, av(o->a, id)) * ad(o->a, w, id); default: { double x = av(o->a, id), y = av(o->b, id), dx = ad(o->a, w, id), dy = ad(o->b, w, id);
  return o->op == B_ADD ? dx + dy : o->op == B_SUB ? dx - dy : o->op == B_MUL ? dx * y + x * dy : (dx * y - x * dy) / (y * y); } } }
template <unsigned long id> static void go() { ct_variable<id> x; unsigned long near[6] = {0, 1, id & 0xff, id & 0xffff, id & 0xffffffffu, id + 1}, z = near[se_choice(6, "near")]; unsigned s = se_choice(5, "shape"); O *o = s == 0 ? V(id) : s == 1 ? B(B_MUL, V(id), B(B_ADD, V(z), V(id))) : s == 2 ? U(U_SIN, B(B_MUL, K(C), V(z))) : s == 3 ? B(B_SUB, U(U_EXP, V(id)), V(z)) : V(z); double ref = ad(o, id, id); se_defined(ref);
  { IF *raw = build(o); expr e(raw); expr d = diff(e, x); has(d, ref, id, "value of diff(expression, compile-time variable of any number)");
    if (rt_binary_expr<> *b = dynamic_cast<rt_binary_expr<> *>(raw)) has(expr(diff(*b, x)), ref, id, "value of diff(binary expression, compile-time variable of any number)");
    if (rt_unary_expr<> *u = dynamic_cast<rt_unary_expr<> *>(raw)) has(expr(diff(*u, x)), ref, id, "value of diff(unary expression, compile-time variable of any number)"); }
  del(o); }
#elif PROP == 8
template <unsigned long id> static void go() { unsigned long a = se_u64("symbol"), t = se_u64("tag"); function_symbol f(a, t); ct_variable<id> x; expr d = diff(f, x);
  const rt_unary_expr<> *u = dynamic_cast<const rt_unary_expr<> *>(d.get()); se_assert(u != 0, "derivative of a symbol is a unary expression"); if (!u) se_stop();
  const rt_function_symbol<> *g = dynamic_cast<const rt_function_symbol<> *>(u->lhs()); se_assert(g && g->id() == a && g->tag_id() == t, "partial derivative acts on exactly that symbol");
  const op_unary<op_partial_deriv<double>, IF> *op = dynamic_cast<const op_unary<op_partial_deriv<double>, IF> *>(u->op()); se_assert(op && op->op().id() == id, "partial derivative is with respect to exactly that variable"); }
#else
template <class E> static void pair(E const &e, double l, double r, unsigned long id) { has(e.lhs(), l, id, "left hand side"); has(e.rhs(), r, id, "right hand side"); E c(e), d; d = e; has(c.lhs(), l, id, "left hand side of a copy"); has(d.rhs(), r, id, "right hand side of an assigned one"); }
static void pair(interval const &e, double l, double r, unsigned long id) { has(e.lower(), l, id, "lower bound"); has(e.upper(), r, id, "upper bound"); interval c(e), d; d = e; has(c.lower(), l, id, "lower bound of a copy"); has(d.upper(), r, id, "upper bound of an assigned one"); }
template <class A> static void with(A const &a, double x, unsigned long id) { variable v(1); double b = id == 1 ? PA : PO; rt_constant<double> k(C); expr e(v); rt_binary_expr<> be(v - k); rt_unary_expr<> ue(sin(v)); double y = uapply(U_SIN, b);
  pair(make_equation(a, v), x, b, id); pair(make_equation(v, a), b, x, id); pair(make_equation(a, k), x, C, id); pair(make_equation(k, a), C, x, id); pair(make_equation(a, e), x, b, id); pair(make_equation(e, a), b, x, id); pair(make_equation(a, be), x, b - C, id); pair(make_equation(be, a), b - C, x, id); pair(make_equation(a, ue), x, y, id); pair(make_equation(ue, a), y, x, id); pair(make_equation(a, C), x, C, id);
  pair(make_interval(a, v), x, b, id); pair(make_interval(v, a), b, x, id); pair(make_interval(a, k), x, C, id); pair(make_interval(k, a), C, x, id); pair(make_interval(a, e), x, b, id); pair(make_interval(e, a), b, x, id); pair(make_interval(a, be), x, b - C, id); pair(make_interval(be, a), b - C, x, id); pair(make_interval(a, ue), x, y, id); pair(make_interval(ue, a), y, x, id); }
template <unsigned long id> static void go() { ct_variable<id> x; ct_constant<3> c3;
  switch (se_choice(4, "operand")) { case 0: with(x, PA, id); pair(make_equation(C, x), C, PA, id); pair(make_interval(C, x), C, PA, id); pair(make_interval(x, C), PA, C, id); break; case 1: with(x - c3, PA - 3, id); break; case 2: with(BIG(), 6e9, id); break; default: with(c3 / (LOW() + x), 3 / (PA - 5000000001.0), id); } }
#endif
#ifndef IDS
#define IDS(X) X(0) X(1) X(13) X(255) X(257) X(65535) X(70003) X(2147483653) X(4294967295) X(12884901889) X(4611686018427387907)
#endif
#define COUNT(i) +1
#define CASE(i) case __COUNTER__ - first - 1: go<i##UL>(); break;
extern "C" void se_main() { PA = se_real("pa"); PO = se_real("po"); PX = se_real("px"); C = se_real("c"); enum { first = __COUNTER__ }; switch (se_choice(0 IDS(COUNT), "number")) { IDS(CASE) } }
