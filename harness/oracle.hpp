// Independent oracle: a tiny expression AST with reference evaluation and forward-mode derivative, a generator that
// enumerates shapes through se_choice, and builders that create the corresponding ViennaMath run-time trees.
#ifndef ORACLE_HPP
#define ORACLE_HPP
#include "se.hpp"
#include "viennamath/expression.hpp"
#include "viennamath/runtime/vector_expr.hpp"
#include "viennamath/runtime/integral.hpp"
namespace oracle {
enum Kind { CONST, VAR, FSYM, UN, BIN, VEC };   // FSYM: id = 2*symbol id + tag (0 unknown, 1 test); VEC: a = first entry, b = rest
enum Uop { U_ID, U_EXP, U_SIN, U_COS, U_TAN, U_FABS, U_SQRT, U_LOG, U_LOG10, U_N, U_GRAD = U_N, U_DIV, U_PD /* id */, U_INT /* id = variable, b = [lower, upper] */, U_SINT /* id */, U_ALL };
enum Bop { B_ADD, B_SUB, B_MUL, B_DIV, B_N };
struct O { Kind k; int op; double c; unsigned long id; O *a, *b; };
inline O *mk(Kind k, int op, double c, unsigned long id, O *a, O *b) { O *o = new O; o->k = k; o->op = op; o->c = c; o->id = id; o->a = a; o->b = b; return o; }
inline O *K(double c) { return mk(CONST, 0, c, 0, 0, 0); }
inline O *V(unsigned long i) { return mk(VAR, 0, 0, i, 0, 0); }
inline O *F(unsigned long i) { return mk(FSYM, 0, 0, i, 0, 0); }
inline O *U(int op, O *a) { return mk(UN, op, 0, 0, a, 0); }
inline O *UI(int op, O *a, unsigned long id, O *b = 0) { return mk(UN, op, 0, id, a, b); }
inline O *VC(O *a, O *b) { return mk(VEC, 0, 0, 0, a, b); }
inline O *B(int op, O *a, O *b) { return mk(BIN, op, 0, 0, a, b); }
inline void del(O *o) { if (!o) return; del(o->a); del(o->b); delete o; }

inline double uapply(int op, double x) {
  switch (op) {
    case U_EXP: return std::exp(x); case U_SIN: return std::sin(x); case U_COS: return std::cos(x); case U_TAN: return std::tan(x);
    case U_FABS: return std::fabs(x); case U_SQRT: return std::sqrt(x); case U_LOG: return std::log(x); case U_LOG10: return std::log10(x);
    default: return x; } }
inline double bapply(int op, double x, double y) { switch (op) { case B_ADD: return x + y; case B_SUB: return x - y; case B_MUL: return x * y; default: return x / y; } }
// reference value; p = coordinates, f = values assumed for function symbols
inline double val(const O *o, const double *p, const double *f = 0) {
  switch (o->k) {
    case CONST: return o->c; case VAR: return p[o->id]; case FSYM: return f[o->id];
    case UN: return uapply(o->op, val(o->a, p, f)); default: return bapply(o->op, val(o->a, p, f), val(o->b, p, f)); } }
// reference derivative by the textbook rules: d p[i] given in dp (unit vector for a partial derivative)
inline double uderiv(int op, double x) {
  switch (op) {
    case U_EXP: return std::exp(x); case U_SIN: return std::cos(x); case U_COS: return -std::sin(x);
    case U_TAN: return 1.0 / (std::cos(x) * std::cos(x)); case U_SQRT: return 1.0 / (2.0 * std::sqrt(x)); case U_LOG: return 1.0 / x;
    case U_LOG10: return 1.0 / (x * std::log(10.0)); default: return 1.0; } }
inline bool depends(const O *o, Kind k, unsigned long id) {
  if (o->k == k && o->id == id && k != CONST) return true;
  return (o->a && depends(o->a, k, id)) || (o->b && depends(o->b, k, id)); }
inline double der(const O *o, const double *p, Kind wk, unsigned long wid, const double *f = 0) {
  if (!depends(o, wk, wid)) return 0.0;
  switch (o->k) {
    case CONST: return 0.0; case VAR: case FSYM: return (o->k == wk && o->id == wid) ? 1.0 : 0.0;
    case UN: return uderiv(o->op, val(o->a, p, f)) * der(o->a, p, wk, wid, f);
    default: { double x = val(o->a, p, f), y = val(o->b, p, f), dx = der(o->a, p, wk, wid, f), dy = der(o->b, p, wk, wid, f);
      switch (o->op) { case B_ADD: return dx + dy; case B_SUB: return dx - dy; case B_MUL: return dx * y + x * dy; default: return (dx * y - x * dy) / (y * y); } } } }
inline bool has_uop(const O *o, int op) { if (o->k == UN && o->op == op) return true; return (o->a && has_uop(o->a, op)) || (o->b && has_uop(o->b, op)); }
inline bool has_kind(const O *o, Kind k) { if (o->k == k) return true; return (o->a && has_kind(o->a, k)) || (o->b && has_kind(o->b, k)); }
inline bool same(const O *x, const O *y) {
  if (!x || !y) return !x && !y;
  if (x->k != y->k) return false;
  switch (x->k) { case CONST: return x->c == y->c; case VAR: case FSYM: return x->id == y->id;
    case UN: return x->op == y->op && x->id == y->id && same(x->a, y->a) && same(x->b, y->b); default: return x->op == y->op && same(x->a, y->a) && same(x->b, y->b); } }
inline O *copy(const O *o) { return o ? mk(o->k, o->op, o->c, o->id, copy(o->a), copy(o->b)) : 0; }

// replaces every maximal subtree equal to s by r (first match of a list wins); integrals are not entered by this reference
inline O *repl(const O *o, O *const *s, O *const *r, unsigned n) {
  for (unsigned i = 0; i < n; ++i) if (same(o, s[i])) return copy(r[i]);
  O *q = copy(o); if (q->a) { del(q->a); q->a = repl(o->a, s, r, n); } if (q->b) { del(q->b); q->b = o->k == VEC ? 0 : repl(o->b, s, r, n); }
  if (o->k == VEC) { O **t = &q->b; for (const O *w = o->b; w; w = w->b) { *t = VC(repl(w->a, s, r, n), 0); t = &(*t)->b; } }
  return q; }
// values of trees with formal nodes: gradient, divergence and partial derivatives are arbitrary affine functions
struct Env { double p[4], f[6], g[2], d[2], q[3][2];
  void init(unsigned np, unsigned nf, bool formal = true) { for (unsigned i = 0; i < np; ++i) p[i] = se_real("p"); for (unsigned i = 0; i < nf; ++i) f[i] = se_real("f");
    if (formal) for (unsigned i = 0; i < 2; ++i) { g[i] = se_real("g"); d[i] = se_real("d"); for (unsigned j = 0; j < 3; ++j) q[j][i] = se_real("q"); } } };
inline double fval(const O *o, const Env &e) {
  switch (o->k) { case CONST: return o->c; case VAR: return e.p[o->id]; case FSYM: return e.f[o->id];
    case UN: { double x = fval(o->a, e); if (o->op < U_N) return uapply(o->op, x); const double *k = o->op == U_GRAD ? e.g : o->op == U_DIV ? e.d : e.q[o->id]; return k[1] * x + k[0]; }
    default: return bapply(o->op, fval(o->a, e), fval(o->b, e)); } }

// ---- generator ------------------------------------------------------------------------------------------------
struct Gen {
  unsigned nv;        // variables 0..nv-1
  unsigned nf;        // function symbols 0..nf-1
  bool consts;        // symbolic constants
  unsigned uops;      // bitmask of unary operations
  unsigned bops;      // bitmask of binary operations
  Gen(unsigned nv_ = 2, unsigned u = (1u << U_N) - 1, unsigned b = 15, bool c = true, unsigned nf_ = 0) : nv(nv_), nf(nf_), consts(c), uops(u), bops(b) {}
  O *leaf() const { unsigned n = nv + nf + (consts ? 1 : 0); unsigned i = se_choice(n, "leaf");
    if (i < nv) return V(i); i -= nv; if (i < nf) return F(i); return K(se_real("c")); }
  O *tree(int depth) const {
    if (depth == 0) return leaf();
    unsigned un = __builtin_popcount(uops), bn = __builtin_popcount(bops); unsigned i = se_choice(1 + un + bn, "node");
    if (i == 0) return leaf();
    i--;
    if (i < un) { int op = nth(uops, i); return U(op, tree(depth - 1)); }
    int op = nth(bops, i - un); O *l = tree(depth - 1); O *r = tree(depth - 1); return B(op, l, r); }
  // root is an operation
  O *node(int depth) const {
    unsigned un = __builtin_popcount(uops), bn = __builtin_popcount(bops); unsigned i = se_choice(un + bn, "root");
    if (i < un) { int op = nth(uops, i); return U(op, tree(depth - 1)); }
    int op = nth(bops, i - un); O *l = tree(depth - 1); O *r = tree(depth - 1); return B(op, l, r); }
  static int nth(unsigned mask, unsigned i) { for (int b = 0;; ++b) if (mask >> b & 1) { if (i == 0) return b; --i; } }
};

// trees over every kind of node; lk = number of leaf kinds used of {x0, c, u0, x1, v0, u1}; formal: grad, div, d/dx0, d/dx1
struct Rich { unsigned lk, uops, bops; bool formal;
  Rich(unsigned l, unsigned u, unsigned b, bool f) : lk(l), uops(u), bops(b), formal(f) {}
  O *leaf() const { switch (se_choice(lk, "leaf")) { case 0: return V(0); case 1: return K(se_real("c")); case 2: return F(0); case 3: return V(1); case 4: return F(1); default: return F(2); } }
  O *op(int d, unsigned i) const { unsigned un = __builtin_popcount(uops);
    if (i < un) { int o = Gen::nth(uops, i); return U(o, tree(d - 1)); } i -= un;
    if (formal) { if (i < 4) return UI(i == 0 ? U_GRAD : i == 1 ? U_DIV : U_PD, tree(d - 1), i == 3); i -= 4; }
    int o = Gen::nth(bops, i); O *l = tree(d - 1), *r = tree(d - 1); return B(o, l, r); }
  unsigned nops() const { return __builtin_popcount(uops) + __builtin_popcount(bops) + (formal ? 4 : 0); }
  O *tree(int d) const { if (d == 0) return leaf(); unsigned i = se_choice(1 + nops(), "node"); return i ? op(d, i - 1) : leaf(); }
  O *node(int d) const { return op(d, se_choice(nops(), "root")); } };

// long trees: combs, zigzags, balanced trees and unary chains of 2^? up to len operations, operations all the same or rotating, variables, numbers and one or two
// symbolic constants as leaves; every one is a single path until the code under test branches
struct Deep { unsigned nv, uops, bops, len, nf; bool consts; bool alikes; mutable unsigned k, ko, sym, start, step, pat, rep;
  Deep(unsigned nv_, unsigned u, unsigned b, unsigned l = 7, bool c = true, unsigned nf_ = 0, bool al = true) : nv(nv_), uops(u), bops(b), len(l), nf(nf_), consts(c), alikes(al), k(0), ko(0), sym(0), start(0), step(0), pat(0), rep(0) {}
  O *leaf() const { unsigned i = k++; static const double N[4] = {2.5, -3.0, 0.5, 4.0};
    if (nf && i % 3 == 1) return F(i / 3 % nf);
    if (!nv) return K(i == sym ? se_real("c") : N[i % 4]);
    if (pat == 0) return V(i % nv);
    if (i == sym) return K(se_real("c"));
    if (pat == 1) return i % 2 ? V(i / 2 % nv) : K(N[i / 2 % 4]);
    return i % 3 == 2 ? K(N[i % 4]) : V(i % nv); }
  int bop() const { unsigned n = __builtin_popcount(bops); return Gen::nth(bops, (start + step * ko++) % n); }
  int uop() const { unsigned n = __builtin_popcount(uops), i = ko++; return Gen::nth(uops, (start + (rep == 0 ? i : rep == 1 ? i / 2 : 0)) % n); } // rotating, every one twice, always the same
  O *balanced(unsigned d) const { if (!d) return leaf(); int op = bop(); O *l = balanced(d - 1); O *r = balanced(d - 1); return B(op, l, r); }
  // one operation of two operands that differ only in the later digits of a number (and so print alike)
  O *side(double c) const { O *x = nv ? V(0) : K(2.5); unsigned w = pat; if (w == 0) return K(c); if (w == 1) return B(Gen::nth(bops, step), K(c), x); if (w == 2) return B(Gen::nth(bops, step), x, K(c)); del(x); return U(Gen::nth(uops, 0), K(c)); }
  O *alike() const { unsigned kinds = (bops ? 3 : 1) + (uops ? 1 : 0); pat = se_choice(kinds, "alike"); if (!bops && pat) pat = 3; step = pat == 1 || pat == 2 ? se_choice(__builtin_popcount(bops), "inner") : 0; bool swap = se_choice(2, "larger first"), small = se_choice(2, "magnitude");
    double c = small ? 0.1000006 : 1000006, d = small ? 0.1000014 : 1000014; if (swap) { double t = c; c = d; d = t; } if (!bops) return side(c);
    int op = Gen::nth(bops, se_choice(__builtin_popcount(bops), "outer")); O *l = side(c), *r = side(d); O *o = B(op, l, r); return uops && se_choice(2, "below") ? U(Gen::nth(uops, 0), o) : o; }
  O *tree() const { k = ko = 0; unsigned shapes = (bops ? 4 : 0) + (uops ? 1 : 0) + (uops && bops ? 1 : 0); unsigned s = se_choice(shapes + (consts && alikes ? 1 : 0), "skeleton"); if (s == shapes) return alike(); if (!bops) s = 4;
    start = s == 4 ? se_choice(__builtin_popcount(uops), "first operation") : se_choice(__builtin_popcount(bops), "first operation"); step = s == 4 ? 1 : se_choice(2, "operations");
    rep = s == 4 ? se_choice(3, "repeated operations") : 0; pat = consts ? se_choice(3, "leaves") : 0; sym = pat ? se_choice(3, "constant") : 0; if (sym) sym = sym == 1 ? len / 2 : len - (s == 3 ? 0 : 1); if (s == 4) sym = 0; if (s == 4 && pat == 2) pat = 1;
    if (s == 3) return balanced(len > 6 ? 3 : 2);
    O *o = leaf();
    for (unsigned i = 1; i < len; ++i) {
      if (s == 0) o = B(bop(), o, leaf()); else if (s == 1) o = B(bop(), leaf(), o); else if (s == 2) { int op = bop(); o = i % 2 ? B(op, o, leaf()) : B(op, leaf(), o); }
      else if (s == 4) o = U(uop(), o); else { if (i % 2) o = U(uop(), o); else { int op = bop(); o = i % 4 ? B(op, o, leaf()) : B(op, leaf(), o); } } }
    return o; } };

// expressions of the same few shapes, so that one takes the place of another in memory
inline O *pooled(unsigned i, double c) { switch (i) { case 0: return B(B_MUL, V(0), V(1)); case 1: return B(B_MUL, V(0), K(1)); case 2: return B(B_MUL, K(1), V(1)); case 3: return B(B_ADD, V(1), K(0)); case 4: return B(B_ADD, V(0), K(c)); case 5: return B(B_SUB, V(1), V(0));
  case 6: return U(U_EXP, V(0)); case 7: return U(U_SIN, V(1)); case 8: return B(B_MUL, V(0), B(B_ADD, V(1), K(c))); case 9: return B(B_MUL, V(1), B(B_MUL, V(0), K(1))); case 10: return B(B_MUL, K(3), B(B_SUB, K(5), K(c))); default: return B(B_DIV, V(1), K(2)); } }
// forty sums and differences in a row: left and right combs, zigzags; forty unary operations
inline O *verylong(unsigned n = 40, bool vars = true, int u1 = U_FABS) { unsigned s = se_choice(4, "very long"); O *o = vars ? V(0) : K(3);
  for (unsigned i = 0; i < n; ++i) { if (s == 3) { o = U(i % 3 ? U_ID : u1, o); continue; } O *l = vars && i % 3 ? V(i % 2) : K(1.5 + i); int op = i % 2 ? B_SUB : B_ADD; o = s == 0 || (s == 2 && i % 2) ? B(op, o, l) : B(op, l, o); }
  return o; }
// two of them in turn, each built, used and destroyed, in memory that is handed out again at once
template <class F> void reused(F check) { unsigned i = se_choice(12, "first expression"), j = se_choice(12, "second expression"); double c = se_real("number"); O *a = pooled(i, c), *b = pooled(j, c); se_reuse(1);
  check(a); check(b); check(a); check(b); se_reuse(0); del(a); del(b); }
inline void nodes(O *o, O **out, unsigned &n) { out[n++] = o; if (o->a) nodes(o->a, out, n); if (o->b) nodes(o->b, out, n); }
// a copy of the tree that differs in exactly the i-th node (counted from the root); in nothing if there is no such node
inline O *changed(const O *a, unsigned i, bool &differs) { O *r = copy(a), *all[256]; unsigned n = 0; nodes(r, all, n); differs = i < n; if (i >= n) return r; O *x = all[i];
  switch (x->k) { case CONST: x->c = x->c + 1; break; case VAR: x->id = x->id + 1; break; case FSYM: x->id = x->id ^ 1; break; case UN: x->op = x->op == U_SIN ? U_COS : x->op == U_ID ? U_FABS : U_SIN; break; default: { unsigned w = se_choice(2, "how"); if (w == 0) x->op = (x->op + 1) % B_N; else { O *s = x->a; x->a = x->b; x->b = s; } } }
  return r; }

// ---- builders --------------------------------------------------------------------------------------------------
namespace vm = viennamath;
typedef vm::rt_expression_interface<double> IF;
typedef vm::op_interface<IF> OPI;
inline OPI *mk_uop(int op, unsigned long id = 0) {
  switch (op) {
    case U_GRAD: return new vm::op_unary<vm::op_gradient<double>, IF>(); case U_DIV: return new vm::op_unary<vm::op_divergence<double>, IF>();
    case U_PD: return new vm::op_unary<vm::op_partial_deriv<double>, IF>(vm::op_partial_deriv<double>(id));
    case U_SINT: return new vm::op_unary<vm::op_rt_symbolic_integral<IF>, IF>(vm::op_rt_symbolic_integral<IF>(vm::rt_symbolic_interval<IF>(id)));
    case U_ID: return new vm::op_unary<vm::op_id<double>, IF>(); case U_EXP: return new vm::op_unary<vm::op_exp<double>, IF>();
    case U_SIN: return new vm::op_unary<vm::op_sin<double>, IF>(); case U_COS: return new vm::op_unary<vm::op_cos<double>, IF>();
    case U_TAN: return new vm::op_unary<vm::op_tan<double>, IF>(); case U_FABS: return new vm::op_unary<vm::op_fabs<double>, IF>();
    case U_SQRT: return new vm::op_unary<vm::op_sqrt<double>, IF>(); case U_LOG: return new vm::op_unary<vm::op_log<double>, IF>();
    default: return new vm::op_unary<vm::op_log10<double>, IF>(); } }
inline OPI *mk_bop(int op) {
  switch (op) {
    case B_ADD: return new vm::op_binary<vm::op_plus<double>, IF>(); case B_SUB: return new vm::op_binary<vm::op_minus<double>, IF>();
    case B_MUL: return new vm::op_binary<vm::op_mult<double>, IF>(); default: return new vm::op_binary<vm::op_div<double>, IF>(); } }
inline vm::rt_function_symbol<IF> mk_fsym(unsigned long id) { return id & 1 ? vm::rt_function_symbol<IF>(id >> 1, vm::test_tag<0>()) : vm::rt_function_symbol<IF>(id >> 1, vm::unknown_tag<0>()); }
inline IF *build(const O *o);
inline vm::rt_interval<IF> build_interval(const O *b) { vm::rt_expr<IF> lo(build(b->a)), hi(build(b->b->a)); return vm::rt_interval<IF>(lo, hi); }
inline IF *build(const O *o) {
  switch (o->k) {
    case CONST: return new vm::rt_constant<double, IF>(o->c);
    case VAR: return new vm::rt_variable<IF>(o->id);
    case FSYM: return mk_fsym(o->id).clone();
    case VEC: { unsigned n = 0; for (const O *q = o; q; q = q->b) ++n; vm::rt_vector_expr<IF> *v = new vm::rt_vector_expr<IF>(n);
      unsigned i = 0; for (const O *q = o; q; q = q->b) (*v)[i++] = vm::rt_expr<IF>(build(q->a)); return v; }
    case UN: { IF *a = build(o->a);
      if (o->op == U_INT) return new vm::rt_unary_expr<IF>(a, new vm::op_unary<vm::op_rt_integral<IF>, IF>(vm::op_rt_integral<IF>(build_interval(o->b), vm::rt_variable<IF>(o->id))));
      return new vm::rt_unary_expr<IF>(a, mk_uop(o->op, o->id)); }
    default: { IF *a = build(o->a); IF *b = build(o->b); return new vm::rt_binary_expr<IF>(a, mk_bop(o->op), b); } } }
// built through the public operator overloads / function calls on wrapped expressions
inline vm::expr build_ops(const O *o) {
  switch (o->k) {
    case CONST: return vm::expr(o->c); case VAR: return vm::expr(vm::variable(o->id));
    case FSYM: return vm::expr(mk_fsym(o->id));
    case UN: { vm::expr a = build_ops(o->a);
      switch (o->op) { case U_EXP: return vm::exp(a); case U_SIN: return vm::sin(a); case U_COS: return vm::cos(a); case U_TAN: return vm::tan(a);
        case U_FABS: return vm::fabs(a); case U_SQRT: return vm::sqrt(a); case U_LOG: return vm::log(a); case U_LOG10: return vm::log10(a); default: return a; } }
    default: { vm::expr a = build_ops(o->a); vm::expr b = build_ops(o->b);
      switch (o->op) { case B_ADD: return a + b; case B_SUB: return a - b; case B_MUL: return a * b; default: return a / b; } } } }
// reads a library tree back into the oracle AST (public accessors + operator strings only).  Returns 0 for unknown nodes.
inline O *read(const IF *e) {
  if (const vm::rt_constant<double, IF> *c = dynamic_cast<const vm::rt_constant<double, IF> *>(e)) return K(static_cast<double>(*c));
  if (const vm::rt_variable<IF> *v = dynamic_cast<const vm::rt_variable<IF> *>(e)) return V(v->id());
  if (const vm::rt_function_symbol<IF> *f = dynamic_cast<const vm::rt_function_symbol<IF> *>(e)) return f->tag_id() > 1 ? 0 : F(f->id() * 2 + f->tag_id());
  if (const vm::rt_unary_expr<IF> *u = dynamic_cast<const vm::rt_unary_expr<IF> *>(e)) {
    if (const vm::op_unary<vm::op_partial_deriv<double>, IF> *d = dynamic_cast<const vm::op_unary<vm::op_partial_deriv<double>, IF> *>(u->op())) { O *a = read(u->lhs()); return a ? UI(U_PD, a, d->op().id()) : 0; }
    if (const vm::op_unary<vm::op_rt_symbolic_integral<IF>, IF> *d = dynamic_cast<const vm::op_unary<vm::op_rt_symbolic_integral<IF>, IF> *>(u->op())) { O *a = read(u->lhs()); return a ? UI(U_SINT, a, d->op().interval().id()) : 0; }
    if (const vm::op_unary<vm::op_rt_integral<IF>, IF> *d = dynamic_cast<const vm::op_unary<vm::op_rt_integral<IF>, IF> *>(u->op())) {
      O *a = read(u->lhs()), *l = read(d->op().interval().lower().get()), *h = read(d->op().interval().upper().get());
      return a && l && h ? UI(U_INT, a, d->op().variable().id(), VC(l, VC(h, 0))) : 0; }
    for (int op = 0; op <= U_DIV; ++op) { OPI *t = mk_uop(op); bool eq = t->equal(u->op()); delete t; if (eq) { O *a = read(u->lhs()); if (!a) return 0; return U(op, a); } }
    return 0; }
  if (const vm::rt_vector_expr<IF> *v = dynamic_cast<const vm::rt_vector_expr<IF> *>(e)) { O *r = 0; for (unsigned i = v->size(); i-- > 0;) { O *x = read((*v)[i].get()); if (!x) return 0; r = VC(x, r); } return r; }
  if (const vm::rt_binary_expr<IF> *b = dynamic_cast<const vm::rt_binary_expr<IF> *>(e)) {
    for (int op = 0; op < B_N; ++op) { OPI *t = mk_bop(op); bool eq = t->equal(b->op()); delete t;
      if (eq) { O *l = read(b->lhs()); O *r = read(b->rhs()); if (!l || !r) return 0; return B(op, l, r); } }
    return 0; }
  return 0; }
}
#endif
