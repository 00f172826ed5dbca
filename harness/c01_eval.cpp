// C01: run-time evaluation returns the value of the expression.
#include "oracle.hpp"
#include "viennamath/manipulation/eval.hpp"
using namespace oracle; using namespace viennamath;
#ifdef SE_THOROUGH
static const unsigned UD2 = (1u << U_EXP) | (1u << U_SIN) | (1u << U_COS) | (1u << U_SQRT) | (1u << U_LOG) | (1u << U_FABS);
#else
static const unsigned UD2 = (1u << U_EXP) | (1u << U_SQRT);
#endif
// long points: any number of coordinates up to 40, variables anywhere in them, as std::vector, as user vector and through bare nodes
struct longvec { const double *d; std::size_t n; std::size_t size() const { return n; } double operator[](std::size_t i) const { return d[i]; } };
static void wide(const double *p) {
  static const unsigned N[8] = {4, 5, 8, 9, 16, 17, 33, 40}; unsigned n = N[se_choice(8, "coordinates")], where = se_choice(4, "where"); unsigned i = where == 0 ? n - 1 : where == 1 ? n / 2 : where == 2 ? 3 : n - 2, j = se_choice(2, "other") ? 0 : n - 1;
  double q[40]; for (unsigned k = 0; k < n; ++k) q[k] = 100 + k; q[i] = p[0]; if (j != i) q[j] = p[1]; std::vector<double> v(q, q + n); longvec m = {q, n};
  O *o = B(se_choice(4, "b"), se_choice(2, "unary") ? U(U_EXP, V(i)) : V(i), B(B_SUB, V(j), V(i))); double ref = val(o, q); IF *raw = build(o); expr e(raw);
  se_eq(ref, e(v), "value at a long std::vector"); se_eq(ref, e(m), "value at a long user vector"); se_eq(ref, viennamath::eval(e, v), "eval at a long std::vector"); se_eq(ref, viennamath::eval(e, m), "eval at a long user vector"); se_eq(ref, raw->eval(v), "interface eval at a long std::vector");
  rt_binary_expr<> *b = dynamic_cast<rt_binary_expr<> *>(raw); se_eq(ref, (*b)(v), "rt_binary_expr at a long std::vector"); se_eq(ref, (*b)(m), "rt_binary_expr at a long user vector"); se_eq(ref, viennamath::eval(*b, m), "eval of rt_binary_expr at a long user vector");
  rt_unary_expr<> u(raw->clone(), mk_uop(U_SIN)); double ru = std::sin(ref); se_eq(ru, u(v), "rt_unary_expr at a long std::vector"); se_eq(ru, u(m), "rt_unary_expr at a long user vector"); se_eq(ru, viennamath::eval(u, m), "eval of rt_unary_expr at a long user vector");
  variable x(i); se_eq(q[i], x(v), "variable at a long std::vector"); se_eq(q[i], viennamath::eval(x, v), "eval of a variable at a long std::vector"); se_eq(q[i], x.eval(v), "interface eval of a variable"); del(o);
}
// the same objects evaluated again and again: at points which differ in one coordinate, after assignment, interleaved with others
static void again(const double *p) {
  O *o = Gen(3, 1u << U_EXP, 15, false).node(1), *o2 = B(B_MUL, V(0), B(B_ADD, V(1), V(2))); unsigned c = se_choice(3, "coordinate"); double q[3] = {p[0], p[1], p[2]}; q[c] = se_real("q");
  std::vector<double> v(p, p + 3), w(q, q + 3); IF *raw = build(o2); expr e(build(o)), g(raw); rt_binary_expr<> *b = dynamic_cast<rt_binary_expr<> *>(raw); double r1 = val(o, p), r2 = val(o, q), s1 = val(o2, p), s2 = val(o2, q);
  se_eq(r1, e(v), "first evaluation"); se_eq(r2, e(w), "evaluation after one coordinate changed"); se_eq(r1, e(v), "evaluation at the first point again"); se_eq(s1, g(v), "another expression at the same point"); se_eq(s2, (*b)(w), "bare node after one coordinate changed"); se_eq(s1, b->eval(v), "bare node at the first point again"); se_eq(s2, viennamath::eval(g, make_vector(q[0], q[1], q[2])), "ct_vector_3 after one coordinate changed"); se_eq(s1, viennamath::eval(g, make_vector(p[0], p[1], p[2])), "ct_vector_3 at the first point again");
  v[c] = q[c]; se_eq(r2, e(v), "evaluation at the changed point object"); e = g; se_eq(s2, e(v), "evaluation after assignment"); { expr t(e); se_eq(s1, t(std::vector<double>(p, p + 3)), "evaluation of a copy"); } e = expr(build(o)); se_eq(r2, e(w), "evaluation after a further assignment"); se_eq(p[0] + 1, (variable(0) + constant(1.0))(p[0]), "evaluation of a temporary"); se_eq(q[c] + 1, (variable(0) + constant(1.0))(q[c]), "evaluation of another temporary"); del(o); del(o2);
}
struct uvec { typedef double value_type; const double *d; std::size_t n; std::size_t size() const { return n; } double operator[](std::size_t i) const { return d[i]; } };
struct myvec { double d[3]; std::size_t n; std::size_t size() const { return n; } double operator[](std::size_t i) const { return d[i]; } };
static O *gen(unsigned nv) {
  unsigned d = se_choice(3, "deep"); if (d == 1) return Gen(nv, UD2).node(2);
  if (d == 2) return Deep(nv, (1u << U_EXP) | (1u << U_SIN) | (1u << U_ID) | (1u << U_FABS), 15, se_choice(2, "long") ? 12 : 5).tree();
  return Gen(nv).tree(1);
}
extern "C" void se_main() {
  unsigned special_ = se_choice(3, "memory or length"); if (special_ == 2) { double p[2]; p[0] = se_real("p0"); p[1] = se_real("p1"); std::vector<double> v(p, p + 2); O *o = verylong(); double ref = val(o, p); IF *raw = build(o); se_eq(ref, raw->eval(v), "value of a long bare object"); expr e(raw); se_eq(ref, e(v), "value of a long expression"); se_eq(ref, viennamath::eval(e, make_vector(p[0], p[1])), "value of a long expression at a ct_vector_2"); del(o); return; }
  if (special_) { double p[2]; p[0] = se_real("p0"); p[1] = se_real("p1"); reused([&p](O *o) { double ref = val(o, p); IF *raw = build(o); std::vector<double> v(p, p + 2); se_eq(ref, raw->eval(v), "value of a bare object"); expr e(raw); se_eq(ref, e(v), "value"); { expr c(e); se_eq(ref, viennamath::eval(c, v), "value of a copy"); } se_eq(ref, e(make_vector(p[0], p[1])), "value at a ct_vector_2");
      double q[2] = {p[1], p[1]}; if (!depends(o, VAR, 1)) se_eq(val(o, q), e(p[1]), "value at a scalar"); }); return; }
  double p[3]; p[0] = se_real("p0"); p[1] = se_real("p1"); p[2] = se_real("p2");
  unsigned mode = se_choice(9, "mode");
  if (mode == 0) {            // std::vector point, all trees; wrapped, cloned and raw object
    O *o = gen(2); double ref = val(o, p);
    IF *raw = build(o); expr e(raw);
    std::vector<double> v(p, p + 2);
    se_eq(ref, viennamath::eval(e, v), "value at std::vector");
    std::vector<double> v3(p, p + 3);
    se_eq(ref, raw->eval(v3), "value at longer std::vector (interface eval)");
    expr e2(e); se_eq(ref, e2(v), "value of a copy");
  } else if (mode == 1) {     // scalar point
    O *o = gen(1); double ref = val(o, p);
    expr e(build(o));
    se_eq(ref, viennamath::eval(e, p[0]), "value at a scalar");
    se_eq(ref, e.get()->eval(p[0]), "value at a scalar (interface eval)");
    rt_constant<double> rc(p[0]); se_eq(ref, e(rc), "value at rt_constant");
  } else if (mode == 2) {     // other vector kinds
    O *o = Gen(2, 1u << U_EXP).tree(1); double ref = val(o, p);
    expr e(build(o)); constant c0(p[0]), c1(p[1]), c2(p[2]);
    myvec m; m.d[0] = p[0]; m.d[1] = p[1]; m.d[2] = p[2]; m.n = 2;
    se_eq(ref, viennamath::eval(e, m), "value at a user vector type");
    se_eq(ref, viennamath::eval(e, make_vector(p[0], p[1])), "value at ct_vector_2");
    se_eq(ref, viennamath::eval(e, make_vector(p[0], p[1], p[2])), "value at ct_vector_3");
    double q[2] = {3, -2}; ct_constant<3> k3; ct_constant<-2> km2;
    se_eq(val(o, q), viennamath::eval(e, make_vector(k3, km2)), "value at a compile-time ct_vector_2");
  } else if (mode == 3) {     // typed objects: rt_binary_expr, rt_unary_expr, rt_variable
    O *o = Gen(2, (1u << U_N) - 1).node(1); double ref = val(o, p);
    IF *raw = build(o); std::vector<double> v(p, p + 2);
    if (rt_binary_expr<> *b = dynamic_cast<rt_binary_expr<> *>(raw)) {
      se_eq(ref, viennamath::eval(*b, v), "rt_binary_expr at std::vector");
      rt_binary_expr<> cp(*b); se_eq(ref, cp(v), "copy of rt_binary_expr");
      se_eq(ref, (*b)(make_vector(p[0], p[1])), "rt_binary_expr at ct_vector_2");
      se_eq(ref, (*b)(make_vector(p[0], p[1], p[2])), "rt_binary_expr at ct_vector_3");
    } else {
      rt_unary_expr<> *u = dynamic_cast<rt_unary_expr<> *>(raw);
      se_assert(u != 0, "node type");
      se_eq(ref, viennamath::eval(*u, v), "rt_unary_expr at std::vector");
      rt_unary_expr<> cp(*u); se_eq(ref, cp(v), "copy of rt_unary_expr");
      se_eq(ref, (*u)(make_vector(p[0], p[1])), "rt_unary_expr at ct_vector_2");
      se_eq(ref, (*u)(make_vector(p[0], p[1], p[2])), "rt_unary_expr at ct_vector_3");
    }
    delete raw;
  } else if (mode == 5) {     // three variables: every vector kind, wrapped and typed
    O *o = Gen(3, 1u << U_ID).node(1); double ref = val(o, p); IF *raw = build(o); std::vector<double> v(p, p + 3);
    myvec m; m.d[0] = p[0]; m.d[1] = p[1]; m.d[2] = p[2]; m.n = 3; ct_constant<3> k3; ct_constant<-2> km2; ct_constant<7> k7; double q[3] = {3, -2, 7}, qm[3] = {p[0], -2, p[2]};
    { expr e(raw->clone());
      se_eq(ref, viennamath::eval(e, v), "three variables at std::vector"); se_eq(ref, viennamath::eval(e, m), "three variables at a user vector type");
      se_eq(ref, viennamath::eval(e, make_vector(p[0], p[1], p[2])), "three variables at ct_vector_3"); se_eq(ref, e(v), "three variables, operator()");
      se_eq(val(o, q), viennamath::eval(e, make_vector(k3, km2, k7)), "three variables at a compile-time ct_vector_3");
      se_eq(val(o, qm), viennamath::eval(e, make_vector(p[0], km2, p[2])), "three variables at a mixed ct_vector_3"); }
    if (rt_binary_expr<> *b = dynamic_cast<rt_binary_expr<> *>(raw)) {
      se_eq(ref, (*b)(make_vector(p[0], p[1], p[2])), "rt_binary_expr of three variables at ct_vector_3"); se_eq(ref, (*b)(m), "rt_binary_expr at a user vector type");
      se_eq(val(o, q), (*b)(make_vector(k3, km2, k7)), "rt_binary_expr at a compile-time ct_vector_3"); se_eq(ref, (*b)(v), "rt_binary_expr operator()");
    } else if (rt_unary_expr<> *u = dynamic_cast<rt_unary_expr<> *>(raw)) {
      se_eq(ref, (*u)(make_vector(p[0], p[1], p[2])), "rt_unary_expr of three variables at ct_vector_3"); se_eq(ref, (*u)(m), "rt_unary_expr at a user vector type");
      se_eq(val(o, q), (*u)(make_vector(k3, km2, k7)), "rt_unary_expr at a compile-time ct_vector_3"); se_eq(ref, (*u)(v), "rt_unary_expr operator()");
    } else se_assert(false, "node type");
    delete raw;
  } else if (mode == 6) {     // one variable: vectors with one entry and scalars
    O *o = Gen(1, 1u << U_SQRT).node(1); double ref = val(o, p); IF *raw = build(o); std::vector<double> v(p, p + 1); rt_constant<double> rc(p[0]); ct_constant<4> k4; double q[1] = {4};
    myvec m; m.d[0] = p[0]; m.n = 1;
    { expr e(raw->clone()); se_eq(ref, viennamath::eval(e, v), "one variable at std::vector"); se_eq(ref, viennamath::eval(e, make_vector(p[0])), "one variable at ct_vector_1"); se_eq(ref, e(m), "one variable at a user vector type"); }
    if (rt_binary_expr<> *b = dynamic_cast<rt_binary_expr<> *>(raw)) {
      se_eq(ref, (*b)(make_vector(p[0])), "rt_binary_expr at ct_vector_1"); se_eq(ref, (*b)(p[0]), "rt_binary_expr at a scalar"); se_eq(ref, (*b)(rc), "rt_binary_expr at rt_constant"); se_eq(val(o, q), (*b)(k4), "rt_binary_expr at ct_constant");
      se_eq(ref, viennamath::eval(*b, p[0]), "eval of rt_binary_expr at a scalar");
    } else if (rt_unary_expr<> *u = dynamic_cast<rt_unary_expr<> *>(raw)) {
      se_eq(ref, (*u)(make_vector(p[0])), "rt_unary_expr at ct_vector_1"); se_eq(ref, (*u)(p[0]), "rt_unary_expr at a scalar"); se_eq(ref, (*u)(rc), "rt_unary_expr at rt_constant"); se_eq(val(o, q), (*u)(k4), "rt_unary_expr at ct_constant");
      se_eq(ref, viennamath::eval(*u, p[0]), "eval of rt_unary_expr at a scalar");
    } else se_assert(false, "node type");
    delete raw;
  } else if (mode == 7) wide(p);
  else if (mode == 8) again(p);
  else {                    // plain variables with arbitrary index, scalars and constants
    unsigned n = 1 + se_choice(3, "n"), id = se_choice(n, "id");
    std::vector<double> v(p, p + n); variable x(id);
    se_eq(p[id], viennamath::eval(x, v), "variable at std::vector");
    se_eq(p[id], x(v), "variable operator()");
    if (id == 0) se_eq(p[0], viennamath::eval(x, p[0]), "variable at scalar");
    if (n == 1) se_eq(p[0], x(make_vector(p[0])), "variable at ct_vector_1");
    if (n == 2) se_eq(p[id], x(make_vector(p[0], p[1])), "variable at ct_vector_2");
    if (n == 3) se_eq(p[id], x(make_vector(p[0], p[1], p[2])), "variable at ct_vector_3");
    double c = se_real("c"); constant k(c);
    se_eq(c, viennamath::eval(k, v), "constant at std::vector"); se_eq(c, viennamath::eval(c, v), "number at std::vector");
    expr e = x; se_eq(p[id], e(v), "variable wrapped by assignment"); uvec u = {p, n}; se_eq(p[id], x(u), "variable at a user vector"); se_eq(p[id], e(u), "wrapped variable at a user vector"); se_eq(p[id], viennamath::eval(x, u), "eval of a variable at a user vector");
    double z[3]; for (unsigned i = 0; i < n; ++i) z[i] = se_real("z"); std::vector<double> w(z, z + n); se_eq(z[id], x(w), "variable at another point"); x = variable(0); se_eq(p[0], x(v), "variable assigned from another"); se_eq(p[id], e(v), "wrapper made before");
    if (id == 0) { rt_constant<double> rc(p[1]); ct_constant<4> k4; ct_constant<-5000000000L> kb; expr f(k), g = x + k, h = exp(x);
      se_eq(p[1], x(p[1]), "variable called with a number"); se_eq(p[1], (double)x(rc), "variable called with a constant"); se_eq(4.0, (double)x(k4), "variable called with a compile-time constant"); se_eq(-5e9, (double)x(kb), "variable called with a large compile-time constant");
      se_eq(p[1], e(p[1]), "wrapped variable called with a number"); se_eq(p[1], e(rc), "wrapped variable called with a constant"); se_eq(4.0, e(k4), "wrapped variable called with a compile-time constant"); se_eq(-5e9, e(kb), "wrapped variable called with a large compile-time constant");
      se_eq(c, f(p[1]), "wrapped constant called with a number"); se_eq(c, f(k4), "wrapped constant called with a compile-time constant"); se_eq(c, f(rc), "wrapped constant called with a constant"); se_eq(c, (double)k(v), "constant called with a point"); se_eq(c, (double)k(), "constant called");
      se_eq(4 + c, g(k4), "sum called with a compile-time constant"); se_eq(p[1] + c, g(rc), "sum called with a constant"); se_eq(p[1] + c, g(p[1]), "sum called with a number"); se_eq(std::exp(4.0), h(k4), "function called with a compile-time constant"); se_eq(std::exp(p[1]), h(rc), "function called with a constant"); se_eq(7, viennamath::eval(7L, v), "integer at a point"); se_eq(c, viennamath::eval(k, p[1]), "constant at a scalar"); se_eq(p[1], viennamath::eval(x, p[1]), "eval of a variable at a scalar"); }
  }
}
