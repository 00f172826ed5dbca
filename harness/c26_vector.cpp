// C26: vector expressions are componentwise; the product of two vectors is their inner product.
#include "oracle.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/compiletime/ct_vector.hpp"
using namespace oracle; using namespace viennamath;
typedef rt_vector_expr<> RV;
static Env env; static unsigned N;
static std::vector<double> pt() { return std::vector<double>(env.p, env.p + 3); }
static double at(expr const &e) { std::vector<double> v(pt()); return e(v); }
#ifdef SE_THOROUGH
static const unsigned NK = 8, MAXN = 3;
#else
static const unsigned NK = 6, MAXN = 3;
#endif
static unsigned nk = NK, maxn = MAXN;
static bool wide; static unsigned long nth_entry;
static O *entry() { if (wide) return nth_entry++ % 3 == 0 ? V(nth_entry % 3) : nth_entry % 3 == 1 ? B(B_MUL, K(se_real("c")), V(1)) : K(se_real("c"));
  switch (se_choice(nk, "entry")) { case 0: return V(0); case 1: return K(se_real("c")); case 2: return B(B_MUL, V(1), K(se_real("c"))); case 3: return K(0.0); case 4: return U(U_SIN, V(2)); case 5: return B(B_SUB, V(0), B(B_DIV, V(1), V(2))); case 6: return K(1.0); default: return B(B_ADD, U(U_EXP, V(0)), K(0.0)); } }
static O *vec(unsigned n) { O *r = 0; O **t = &r; for (unsigned i = 0; i < n; ++i) { *t = VC(entry(), 0); t = &(*t)->b; } return r; }
static const O *nth(const O *v, unsigned i) { while (i--) v = v->b; return v->a; }
static RV mkv(const O *o) { unsigned n = 0; for (const O *q = o; q; q = q->b) ++n; RV v(n); for (unsigned i = 0; i < n; ++i) v[i] = expr(build(nth(o, i))); return v; }
static double rv(const O *o, unsigned i) { return fval(nth(o, i), env); }
static void unchanged(RV const &v, const O *o) { O *b = read(&v); se_assert(b && same(b, o), "operands are unchanged"); del(b); }
static void pairs() {
  O *a = vec(N), *b = vec(N); unsigned long h0 = se_heap();
  { RV x(mkv(a)), y(mkv(b));
    RV s = x + y, d = x - y; se_assert(s.size() == N && d.size() == N, "size of sum and difference");
    for (unsigned i = 0; i < N; ++i) { se_eq(rv(a, i) + rv(b, i), at(s[i]), "entry of a sum"); se_eq(rv(a, i) - rv(b, i), at(d[i]), "entry of a difference"); }
    double dot = 0; for (unsigned i = 0; i < N; ++i) dot = dot + rv(a, i) * rv(b, i);
    expr p = x * y; se_eq(dot, at(p), "product of two vectors is the inner product");
    unchanged(x, a); unchanged(y, b); }
  se_assert(se_heap() == h0, "no memory is leaked"); del(a); del(b); }
// products of vectors inside expressions become inner products on simplification
static void wrapped() {
  O *a = vec(N), *b = vec(N); unsigned long h0 = se_heap(); double dot = 0; for (unsigned i = 0; i < N; ++i) dot = dot + rv(a, i) * rv(b, i);
  { expr x(mkv(a)), y; y = mkv(b); unsigned w = se_choice(5, "where");
    expr p = x * y; double c = se_real("s"); 
    if (w == 0) se_eq(dot, at(simplify(p)), "simplified product of wrapped vectors");
    else if (w == 1) { expr q = simplify(p + expr(c)); se_eq(dot + c, at(q), "simplified product of wrapped vectors in a sum"); }
    else if (w == 2) { rt_binary_expr<> q(x.get()->clone(), new op_binary<op_mult<double>, IF>(), y.get()->clone()); se_eq(dot, at(simplify(q)), "simplified product of vectors held by a binary expression"); }
    else if (w == 3) { expr q = simplify(expr(variable(0)) * p - expr(c)); se_eq(env.p[0] * dot - c, at(q), "simplified product of wrapped vectors in a product"); }
    else { expr q = p; inplace_simplify(q); se_eq(dot, at(q), "product of wrapped vectors simplified in place"); } }
  se_assert(se_heap() == h0, "no memory is leaked"); del(a); del(b); }
// many entries
static void large() { unsigned n = 6 + se_choice(14, "entries"); N = n; O *a = 0, *b = 0; for (unsigned i = n; i-- > 0;) { a = VC(i % 3 == 2 ? K(1.5 + i) : i % 3 ? V(i % 2) : B(B_ADD, V(i % 2), K(i + 0.5)), a); b = VC(i % 4 == 3 ? B(B_MUL, V(0), K(2.25 + i)) : i % 4 == 1 ? K(0.5 + i) : V(2 - i % 2), b); }
  RV x(mkv(a)), y(mkv(b)); RV s = x + y, d = x - y, p = x * 3.0, q = 2.0 * x, r = x / variable(2); double dot = 0; for (unsigned i = 0; i < n; ++i) dot = dot + rv(a, i) * rv(b, i); se_assert(s.size() == n && d.size() == n && p.size() == n && q.size() == n && r.size() == n, "size of results of large vectors");
  expr w = x * y; se_eq(dot, at(w), "inner product of large vectors"); expr ex(x), ey(y); expr ws = simplify(ex * ey); se_eq(dot, at(ws), "simplified product of large wrapped vectors"); expr dx = diff(ex, variable(0)), sx = substitute(variable(0), variable(1), ex), rx = simplify(ex); const RV *dv = dynamic_cast<const RV *>(dx.get()), *sv = dynamic_cast<const RV *>(sx.get()), *mv = dynamic_cast<const RV *>(rx.get()); se_assert(dv && sv && mv && dv->size() == n && sv->size() == n && mv->size() == n, "large vectors stay vectors of their size"); if (!dv || !sv || !mv) se_stop();
  for (unsigned i = 0; i < n; ++i) { double u = rv(a, i), v = rv(b, i); se_eq(u + v, at(s[i]), "entry of a large sum"); se_eq(u - v, at(d[i]), "entry of a large difference"); se_eq(u * 3, at(p[i]), "entry of a large vector times scalar"); se_eq(2 * u, at(q[i]), "entry of scalar times large vector"); se_eq(u / env.p[2], at(r[i]), "entry of a large vector over scalar");
    se_eq(der(nth(a, i), env.p, VAR, 0), at((*dv)[i]), "entry of the derivative of a large vector"); se_eq(u, at((*mv)[i]), "entry of a simplified large vector"); double o0 = env.p[0]; env.p[0] = env.p[1]; double want = rv(a, i); env.p[0] = o0; se_eq(want, at((*sv)[i]), "entry of a large vector after substitution"); }
  unchanged(x, a); unchanged(y, b); del(a); del(b); }
template <class T> static void scale(RV const &x, const O *a, T const &t, double r) {
  RV p = x * t, q = t * x, d = x / t, e = t / x; se_assert(p.size() == N && q.size() == N && d.size() == N && e.size() == N, "size of scaled vectors");
  for (unsigned i = 0; i < N; ++i) { double v = rv(a, i); se_eq(v * r, at(p[i]), "entry of vector times scalar"); se_eq(r * v, at(q[i]), "entry of scalar times vector"); se_eq(v / r, at(d[i]), "entry of vector over scalar"); se_eq(r / v, at(e[i]), "entry of scalar over vector"); } }
static void scaling() {
  O *a = vec(N); double c = se_real("s"); unsigned k = se_choice(13, "scalar"); unsigned long h0 = se_heap();
  { RV x(mkv(a)); variable v0(0), v1(1); rt_constant<double> rc(c);
    switch (k) { case 0: scale(x, a, c, c); break; case 1: scale(x, a, rc, c); break; case 2: scale(x, a, v1, env.p[1]); break; case 3: scale(x, a, expr(rc), c); break; case 4: scale(x, a, ct_variable<2>(), env.p[2]); break;
      case 5: scale(x, a, ct_constant<-3>(), -3.0); break; case 6: { expr sv = v0 - rc; scale(x, a, sv, env.p[0] - c); break; } case 9: scale(x, a, 3, 3.0); break; case 10: scale(x, a, -7L, -7.0); break; case 11: scale(x, a, 5u, 5.0); break; case 12: scale(x, a, 0.25f, 0.25); break; case 7: scale(x, a, viennamath::exp(v1), std::exp(env.p[1])); break; default: scale(x, a, v0 - v1, env.p[0] - env.p[1]); }
    unchanged(x, a); }
  se_assert(se_heap() == h0, "no memory is leaked"); del(a); }
static const RV *asvec(expr const &e) { const RV *v = dynamic_cast<const RV *>(e.get()); se_assert(v != 0 && v->size() == N, "the result is a vector of the same size"); return v; }
static void handle() {
  O *a = vec(N); unsigned w = se_choice(7, "operation"); unsigned long id = w == 0 || w == 1 || w == 6 ? se_choice(3, "variable") : 0; unsigned long h0 = se_heap();
  { RV x(mkv(a)); expr e(x); O *r = w == 1 ? B(B_ADD, V((id + 1) % 3), K(2)) : 0;
    if (w == 0) { expr d = diff(e, variable(id)); const RV *v = asvec(d); for (unsigned i = 0; i < N; ++i) se_eq(der(nth(a, i), env.p, VAR, id), at((*v)[i]), "entry of the derivative"); }
    else if (w == 1) { expr by(build(r)); expr d = substitute(variable(id), by, e); const RV *v = asvec(d); double old = env.p[id], nw = fval(r, env);
      for (unsigned i = 0; i < N; ++i) { env.p[id] = nw; double want = rv(a, i); env.p[id] = old; se_eq(want, at((*v)[i]), "entry after substitution"); } del(r); }
    else if (w == 6) { std::vector<expr> from, to; double s0 = se_real("s0"), s1 = se_real("s1"); unsigned long other = (id + 1) % 3; bool twice = se_choice(2, "twice"); from.push_back(expr(variable(id))); to.push_back(expr(s0)); from.push_back(expr(variable(twice ? id : other))); to.push_back(expr(s1)); if (twice) { from.push_back(expr(variable(other))); to.push_back(expr(s1)); }
      expr d = substitute(from, to, e); const RV *v = asvec(d); double o0 = env.p[id], o1 = env.p[other]; for (unsigned i = 0; i < N; ++i) { env.p[id] = s0; env.p[other] = s1; double want = rv(a, i); env.p[id] = o0; env.p[other] = o1; se_eq(want, at((*v)[i]), "entry after replacing a list of variables"); } }
    else if (w == 2) { expr d = simplify(e); const RV *v = asvec(d); for (unsigned i = 0; i < N; ++i) se_eq(rv(a, i), at((*v)[i]), "entry after simplification"); }
    else if (w == 3) { expr f(e), g; g = f; RV y(x); y = x; expr h(y); const RV *v = asvec(g); for (unsigned i = 0; i < N; ++i) { se_eq(rv(a, i), at((*v)[i]), "entry of a copy"); se_eq(rv(a, i), at(y[i]), "entry of a copied vector"); }
      y[0] = expr(5.0); O *b = read(e.get()); se_assert(b && same(b, a), "copies are independent"); del(b); b = read(h.get()); se_assert(b && same(b, a), "wrapped copies are independent"); del(b); }
    else if (w == 4) { RV z(N); se_assert(z.size() == N, "size of a new vector"); for (unsigned i = 0; i < N; ++i) { se_eq(0.0, at(z[i]), "entries of a new vector are zero"); } }
    else { RV y(x); y = y + y; y = y - x; for (unsigned i = 0; i < N; ++i) se_eq(rv(a, i), at(y[i]), "self-assignment from own terms"); RV *self = &y; y = *self; for (unsigned i = 0; i < N; ++i) se_eq(rv(a, i), at(y[i]), "self-assignment"); }
    unchanged(x, a); }
  se_assert(se_heap() == h0, "no memory is leaked"); del(a); }
#ifdef SE_THOROUGH
static const unsigned WIDEST = 9;
#else
static const unsigned WIDEST = 6;
#endif
extern "C" void se_main() {
  env.init(3, 0, false); unsigned part = se_choice(5, "part"); if (part == 4) { large(); return; }
  unsigned shape = se_choice(WIDEST - 1, "size"), most = part == 0 || part == 1 ? 2 : 3; // short vectors of all entry kinds, then longer ones with generic entries
  if (shape < most) N = shape + 1; else { N = shape - most + 3; wide = true; if (N > WIDEST) return; }
#ifdef SE_THOROUGH
  if (part < 2 && se_choice(2, "three")) { nk = 3; N = 3; wide = false; }
#endif
  switch (part) { case 0: pairs(); break; case 1: wrapped(); break; case 2: if (N == 3 && !wide) nk = 4; scaling(); break; default: handle(); }
}
