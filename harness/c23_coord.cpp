// C23: Cartesian coordinates replace exactly the gradients and divergences of the unknown and the test function.
#include "oracle.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/runtime/equation.hpp"
#include "viennamath/manipulation/apply_coordinate_system.hpp"
using namespace oracle; using namespace viennamath;
// arguments of gradient and divergence: function symbols of any id and tag, or something that is not a symbol
static bool symonly;
static O *arg() { if (symonly) return F(se_u64("symbol")); return se_choice(3, "arg") ? F(se_u64("symbol")) : se_choice(2, "other") ? U(U_SIN, F(0)) : V(0); }
static unsigned kinds = 6;
static O *leaf() { switch (se_choice(kinds, "leaf")) { case 0: return U(U_GRAD, arg()); case 1: return U(U_DIV, arg()); case 2: return F(se_u64("symbol")); case 3: return K(se_real("c")); case 4: return V(0); default: return UI(U_PD, F(0), 1); } }
static O *tree(int d) { if (d == 0) return leaf(); switch (se_choice(symonly ? 6 : 7, "node")) { case 0: return leaf(); case 1: { O *l = tree(d - 1), *r = tree(d - 1); return B(B_ADD, l, r); } case 2: { O *l = tree(d - 1), *r = tree(d - 1); return B(B_MUL, l, r); }
    case 3: { O *l = tree(d - 1), *r = tree(d - 1); return B(B_SUB, l, r); } case 4: return U(U_SIN, tree(d - 1)); case 5: return UI(U_SINT, tree(d - 1), 3); default: { O *l = tree(d - 1); return VC(l, VC(tree(d - 1), 0)); } } }
static O *coord(const O *o, unsigned dim) { if (!o) return 0;
  if (o->k == UN && (o->op == U_GRAD || o->op == U_DIV) && o->a->k == FSYM && o->a->id < 2) { unsigned long f = o->a->id;
    if (dim == 1) return UI(U_PD, F(f), 0);
    if (o->op == U_GRAD) { O *r = 0; for (unsigned i = dim; i-- > 0;) r = VC(UI(U_PD, F(f), i), r); return r; }
    O *r = UI(U_PD, F(f), 0); for (unsigned i = 1; i < dim; ++i) r = B(B_ADD, r, UI(U_PD, F(f), i)); return r; }
  return mk(o->k, o->op, o->c, o->id, coord(o->a, dim), coord(o->b, dim)); }
static void is(expr const &e, const O *o, unsigned dim, const char *m) { // the library simplifies after replacing
  O *w = coord(o, dim); { expr x(build(w)); expr s = simplify(x); O *a = read(s.get()), *b = read(e.get()); se_assert(a && b && same(a, b), m); del(a); del(b); } del(w); }
template <class C> void run(unsigned dim) {
  unsigned k = se_choice(3, "handle");
#ifdef SE_THOROUGH
  const unsigned nsh = 5;
#else
  const unsigned nsh = 4;
#endif
  if (k == 0) { O *o; switch (se_choice(nsh, "shape")) { case 4: kinds = 2; symonly = true; o = tree(2); break; case 0: o = tree(1); break; case 1: kinds = 2; o = U(U_SIN, tree(1)); break; case 2: { kinds = 4; O *l = tree(1); kinds = 2; O *r = tree(0); o = B(B_SUB, l, r); break; } default: kinds = 2; o = UI(U_SINT, tree(1), 7); }
    unsigned long h0 = se_heap(); { expr e(build(o)); expr r = apply_coordinate_system(C(), e); is(r, o, dim, "coordinates applied to an expression");
      O *back = read(e.get()); se_assert(back && same(o, back), "argument is unchanged"); del(back); }
    se_assert(se_heap() == h0, "no memory is leaked"); del(o); }
  else if (k == 1) { O *o = tree(1); if (o->k != UN && o->k != BIN) se_stop(); unsigned long h0 = se_heap();
    { expr e(build(o)); if (const rt_unary_expr<> *u = dynamic_cast<const rt_unary_expr<> *>(e.get())) is(apply_coordinate_system(C(), *u), o, dim, "coordinates applied to a unary expression");
      else is(apply_coordinate_system(C(), *dynamic_cast<const rt_binary_expr<> *>(e.get())), o, dim, "coordinates applied to a binary expression"); }
    se_assert(se_heap() == h0, "no memory is leaked"); del(o); }
  else { kinds = 4; O *l = tree(0); O *r = se_choice(2, "rhs") ? tree(0) : B(B_MUL, U(U_GRAD, F(0)), U(U_GRAD, F(1))); unsigned long h0 = se_heap();
    { expr a(build(l)), b(build(r)); equation q(a, b); equation s = apply_coordinate_system(C(), q); is(s.lhs(), l, dim, "coordinates applied to the left hand side"); is(s.rhs(), r, dim, "coordinates applied to the right hand side");
      O *x = read(q.lhs().get()), *y = read(q.rhs().get()); se_assert(x && y && same(x, l) && same(y, r), "equation is unchanged"); del(x); del(y); }
    se_assert(se_heap() == h0, "no memory is leaked"); del(l); del(r); } }
extern "C" void se_main() { switch (se_choice(3, "dim")) { case 0: run<cartesian<1> >(1); break; case 1: run<cartesian<2> >(2); break; default: run<cartesian<3> >(3); } }
