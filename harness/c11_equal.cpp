// C11: deep comparison is exactly structural equality; shallow comparison is equality of the kind of the root node.
#include "oracle.hpp"
#include "viennamath/manipulation/diff.hpp"
using namespace oracle; using namespace viennamath;
static O *rich_leaf(unsigned n) { switch (se_choice(n, "leaf")) { case 0: return V(se_u64("id")); case 1: return K(se_real("c")); default: { unsigned long t = se_choice(2, "tag"), i = se_u64("id"); se_assume(i < (1ul << 60)); return F(2 * i + t); } } }
static O *vec() { unsigned n = 1 + se_choice(3, "size"); O *r = 0; for (unsigned i = 0; i < n; ++i) r = VC(rich_leaf(2), r); return r; }
static O *integral_node() { O *a = rich_leaf(2); unsigned long id = se_u64("id"); O *l = rich_leaf(2); O *h = rich_leaf(2); return UI(U_INT, a, id, VC(l, VC(h, 0))); }
static O *sintegral_node() { O *a = rich_leaf(2); return UI(U_SINT, a, se_u64("id")); }
static O *pderiv_node() { O *a = rich_leaf(3); return UI(U_PD, a, se_u64("id")); }
static O *special() { switch (se_choice(8, "special")) { case 0: return vec(); case 1: return integral_node(); case 2: return sintegral_node(); case 3: return pderiv_node(); case 4: return U(U_GRAD, rich_leaf(3)); case 5: return U(U_DIV, vec());
    case 6: return B(B_MUL, V(0), integral_node()); default: return rich_leaf(3); } }
static void check(const O *a, const O *b) {
  unsigned long h0 = se_heap();
  { IF *x = build(a), *y = build(b); bool eq = same(a, b);
    se_assert(x->deep_equal(y) == eq, "deep comparison is structural equality"); se_assert(y->deep_equal(x) == eq, "deep comparison is symmetric");
    se_assert(x->shallow_equal(y) == (a->k == b->k), "shallow comparison is equality of node kind"); se_assert(x->deep_equal(x), "an expression equals itself");
    IF *z = x->clone(); se_assert(z->deep_equal(x) && x->deep_equal(z), "an expression equals its clone"); delete z;
    { expr ex(x), ey(y); se_assert(ex.get()->deep_equal(ey.get()) == eq, "wrapped expressions compare alike"); } }
  se_assert(se_heap() == h0, "no memory is leaked"); }
// vectors of up to seven entries that agree, differ in one entry, or differ in length; plain or below an operation
static O *entry(unsigned i) { return i % 4 == 0 ? V(10 + i) : i % 4 == 1 ? K(i + 0.5) : i % 4 == 2 ? U(U_SIN, V(i)) : F(i); }
static void vectors() {
  unsigned n = 1 + se_choice(7, "size"), how = se_choice(n + 3, "difference"), w = se_choice(4, "around"); O *a = 0, *b = 0; unsigned m = how == n + 1 ? n + 1 : how == n + 2 ? n - 1 : n; if (!m) return;
  for (unsigned i = n; i-- > 0;) a = VC(entry(i), a);
  for (unsigned i = m; i-- > 0;) { O *x = entry(i); if (i == how) { switch (x->k) { case CONST: x->c = se_real("c"); break; case VAR: case FSYM: x->id = se_u64("id"); se_assume(x->id < (1ul << 60)); break; default: x->a->id = se_u64("id"); } } b = VC(x, b); }
  if (w == 1) { a = B(B_MUL, a, V(0)); b = B(B_MUL, b, V(0)); } else if (w == 2) { a = U(U_DIV, a); b = U(U_DIV, b); } else if (w == 3) { a = VC(V(0), VC(a, 0)); b = VC(V(0), VC(b, 0)); }
  check(a, b); del(a); del(b); }
extern "C" void se_main() {
  unsigned special_ = se_choice(3, "memory or length"); if (special_ == 2) { O *a = verylong(); bool d; unsigned i = se_choice(82, "changed"); O *b = changed(a, i, d); check(a, b); del(a); del(b); return; }
  if (special_) { O *o = pooled(se_choice(12, "compared with"), 5); reused([o](O *x) { check(x, o); }); del(o); return; }
  unsigned mode = se_choice(6, "mode"), all = (1u << U_N) - 1; if (mode == 5) { vectors(); return; } O *a, *b;
  if (mode == 0) { Rich g(4, all, 15, true); a = g.tree(1); b = g.tree(1); }
  else if (mode == 4) { a = Deep(3, (1u << U_SIN) | (1u << U_ID), 15, 8, true, 2).tree(); bool d; b = changed(a, se_choice(17, "changed"), d); }
  else if (mode == 1) { a = special(); b = special(); }
  else if (mode == 2) {
#ifdef SE_THOROUGH
    Rich g(2, 1u << U_SIN, (1u << B_ADD) | (1u << B_SUB), false);
#else
    Rich g(2, 0, (1u << B_ADD) | (1u << B_SUB), false);
#endif
    a = g.tree(2); b = g.tree(2); }
  else { Rich g(1, (1u << U_SIN) | (1u << U_COS), 15, true); O *p = g.tree(1), *q = g.tree(1); unsigned w = se_choice(3, "wrap"); O *p2 = w == 0 ? U(U_EXP, p) : w == 1 ? B(B_SUB, p, V(1)) : B(B_DIV, V(0), p); O *q2 = w == 0 ? U(U_EXP, q) : w == 1 ? B(B_SUB, q, V(1)) : B(B_DIV, V(0), q); a = p2; b = q2; }
  check(a, b); del(a); del(b);
}
