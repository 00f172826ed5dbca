// vmse: exhaustive symbolic executor for the LLVM IR of ViennaMath harnesses.
//   LLVM 18 C++ API loads the bitcode, Z3 decides branch feasibility and assertions.
// Doubles are exact reals: concrete doubles stay concrete while the operation is exact, otherwise they
// become terms over Real with uninterpreted sin/cos/exp/... (axioms below).  Integers are bit-vectors.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3++.h>
#include <cfenv>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cinttypes>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <random>
#include <chrono>
#include <fstream>
#include <sstream>
#include <memory>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <atomic>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;
using namespace llvm;
using std::string; using std::vector; using std::map; using std::set;

static double now() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ options
struct Options {
  string bc, out = "out.json"; int workers = 8; double time_limit = 600; u64 step_limit = 30000000; unsigned depth_limit = 3000;
  unsigned solver_ms = 20000; int max_cand = 40; bool verbose = false; string entry = "se_main"; unsigned nprefix = 512;
} opt;

// ------------------------------------------------------------------ values
enum VK : u8 { UNDEF = 0, CONC = 1, SYM = 2, AGG = 3, RAW = 4 };
struct Val { VK k = UNDEF; u64 c = 0; };
static inline Val mk(u64 v) { Val r; r.k = CONC; r.c = v; return r; }
static inline Val undefv() { return Val(); }
static inline u64 maskb(u64 v, unsigned b) { return b >= 64 ? v : (v & ((1ull << b) - 1)); }
static inline i64 sext(u64 v, unsigned b) { return b >= 64 ? (i64)v : ((i64)(v << (64 - b)) >> (64 - b)); }
static inline double d_of(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline u64 of_d(double d) { u64 v; memcpy(&v, &d, 8); return v; }

struct SymCell { Z3_ast a; u32 size; };
struct RawSeg { vector<u8> data, st; map<u32, SymCell> cells; };

// ------------------------------------------------------------------ memory
enum ObjKind : u8 { OK_GLOBAL, OK_CONSTG, OK_STACK, OK_NEW, OK_NEWARR, OK_MALLOC, OK_FUNC, OK_EXN };
struct Obj { u64 size = 0; vector<u8> data, st; map<u32, SymCell> cells; bool live = true; ObjKind kind = OK_STACK; };
static const u64 OBJ_SHIFT = 26, OBJ_MID = 1ull << 25;
static inline u64 addr_of(u64 id, u64 off = 0) { return (id << OBJ_SHIFT) + OBJ_MID + off; }

// ------------------------------------------------------------------ decoded program
enum OpC : u16 { I_BAD, I_BIN, I_FBIN, I_FNEG, I_ICMP, I_FCMP, I_LOAD, I_STORE, I_GEP, I_CAST, I_SELECT, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL,
  I_INVOKE, I_ALLOCA, I_LPAD, I_RESUME, I_EXTRACT, I_INSERT, I_UNREACH, I_FREEZE, I_NOP, I_ARMW, I_CMPX };
struct DFunc; 
struct CaseT { u64 v; int blk; };
struct Aux { vector<std::pair<int, i64>> gep; vector<int> args; DFunc *callee = nullptr; int native = -1; bool indirect = false; int fnop = 0; vector<CaseT> cases;
  vector<std::pair<int, bool>> clauses; /*operand,isFilter*/ bool cleanup = false; vector<unsigned> idx; vector<unsigned> argbits; bool unsupported = false; string name; };
struct DInst { u16 op = I_BAD; u16 sub = 0; u16 bits = 0, sbits = 0; u8 tk = 0, stk = 0; /* type kinds: 0 int 1 ptr 2 double 3 agg 4 void 5 float*/ int dst = -1, a = 0, b = 0, c = 0; int aux = -1; i64 imm = 0; const Instruction *src = nullptr; };
struct Edge { vector<std::pair<int, int>> moves; };
struct DBlock { vector<DInst> ins; map<int, Edge> in; };
struct DFunc { Function *F = nullptr; string name; vector<DBlock> blocks; vector<Aux> aux; int nslots = 0; bool decoded = false; u64 addr = 0; int native = -2; };

static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static vector<std::unique_ptr<DFunc>> funcs;
static std::unordered_map<const Function *, DFunc *> fmap_;
static std::unordered_map<u64, DFunc *> faddr;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static vector<Obj> initObjs;           // initial images (id -> obj)
static vector<Val> consts; static std::unordered_map<const Constant *, int> constIdx;
static vector<vector<Val>> constAggs;  // AGG index < constAggs.size() refers here

struct PathEnd { string kind, msg; };   // thrown to end a path: "ok","infeasible","viol","limit","error"
[[noreturn]] static void fail(const string &m) { throw PathEnd{"error", m}; }

// ------------------------------------------------------------------ Z3 layer
struct Stats { u64 paths = 0, infeasible = 0, steps = 0, queries = 0, qsat = 0, qunsat = 0, qunknown = 0, cached = 0, asserts = 0, eqs = 0, forks = 0, syntactic = 0; double solver_s = 0; };
static Stats S;
static z3::context *Z; static Z3_context ZC;

enum { R_UNSAT = 0, R_SAT = 1, R_UNK = 2 };
struct UFRec { string f; z3::expr arg, var; };
struct Low { z3::expr n, d; };
struct Solver {
  z3::context &c; 
  std::unordered_map<unsigned, Low> lowmemo; vector<z3::expr> keep;
  std::unordered_map<unsigned, z3::expr> boolmemo, simpmemo;
  vector<UFRec> ufs; std::unordered_map<unsigned, int> ufByApp; std::unordered_map<unsigned, int> ufByVar;
  std::unordered_map<unsigned, vector<unsigned>> varsmemo; std::unordered_map<unsigned, z3::expr> varById;
  map<string, z3::func_decl> fdecl;
  map<vector<unsigned>, int> cache; bool narrowed = false, printed = false;
  Solver(z3::context &cc) : c(cc) {}
  z3::expr uf(const string &f, const z3::expr &a) {
    auto it = fdecl.find(f); if (it == fdecl.end()) it = fdecl.emplace(f, c.function(f.c_str(), c.real_sort(), c.real_sort())).first;
    return it->second(a);
  }
  static bool numeral(const z3::expr &e, double &v) { string t = Z3_get_numeral_decimal_string(e.ctx(), e, 17); if (!t.empty() && t.back() == '?') t.pop_back(); char *end; v = strtod(t.c_str(), &end); return end != t.c_str() && *end == 0; }
  void pin(const z3::expr &e) { keep.push_back(e); }
  // lower a Real term to numerator/denominator; UF applications become variables
  Low low(const z3::expr &e) {
    unsigned id = e.id(); auto it = lowmemo.find(id); if (it != lowmemo.end()) return it->second;
    Low r = low0(e); pin(e); pin(r.n); pin(r.d); lowmemo.emplace(id, r); return r;
  }
  bool isOne(const z3::expr &e) { return e.is_numeral() && e.get_decimal_string(3) == "1"; }
  bool isZero(const z3::expr &e) { return e.is_numeral() && e.get_decimal_string(3) == "0"; }
  z3::expr mul(const z3::expr &a, const z3::expr &b) { if (isOne(a)) return b; if (isOne(b)) return a; return a * b; }
  Low low0(const z3::expr &e) {
    z3::expr one = c.real_val(1);
    if (e.is_numeral()) return Low{e, one};
    Z3_decl_kind k = e.decl().decl_kind(); unsigned n = e.num_args();
    if (n == 0) return Low{e, one};
    switch (k) {
      case Z3_OP_ADD: case Z3_OP_SUB: {
        Low r = low(e.arg(0)); z3::expr rn = r.n, rd = r.d;
        for (unsigned i = 1; i < n; i++) { Low b = low(e.arg(i));
          bool sub = (k == Z3_OP_SUB);
          if (z3::eq(rd, b.d)) rn = sub ? rn - b.n : rn + b.n;
          else { z3::expr x = mul(rn, b.d), y = mul(b.n, rd); rn = sub ? x - y : x + y; rd = mul(rd, b.d); } }
        return Low{rn, rd}; }
      case Z3_OP_UMINUS: { Low a = low(e.arg(0)); return Low{-a.n, a.d}; }
      case Z3_OP_MUL: { Low r = low(e.arg(0)); z3::expr rn = r.n, rd = r.d; for (unsigned i = 1; i < n; i++) { Low b = low(e.arg(i)); rn = mul(rn, b.n); rd = mul(rd, b.d); } return Low{rn, rd}; }
      case Z3_OP_DIV: { Low a = low(e.arg(0)), b = low(e.arg(1)); return Low{mul(a.n, b.d), mul(a.d, b.n)}; }
      case Z3_OP_UNINTERPRETED: { 
        auto it = ufByApp.find(e.id()); int ix;
        if (it == ufByApp.end()) { ix = ufs.size(); z3::expr v = c.real_const(("uf!" + std::to_string(ix)).c_str()); ufs.push_back(UFRec{e.decl().name().str(), e.arg(0), v}); ufByApp[e.id()] = ix; ufByVar[v.id()] = ix; pin(e); pin(v); low(e.arg(0)); } else ix = it->second;
        return Low{ufs[ix].var, one}; }
      default: throw PathEnd{"error", "cannot lower real term " + e.to_string()};
    }
  }
  z3::expr lowb(const z3::expr &e) {
    auto it = boolmemo.find(e.id()); if (it != boolmemo.end()) return it->second;
    z3::expr r = lowb0(e); pin(e); pin(r); boolmemo.emplace(e.id(), r); return r;
  }
  z3::expr lowb0(const z3::expr &e) {
    if (!e.is_app()) return e;
    Z3_decl_kind k = e.decl().decl_kind(); unsigned n = e.num_args();
    if (k == Z3_OP_TRUE || k == Z3_OP_FALSE || n == 0) return e;
    if ((k == Z3_OP_EQ || k == Z3_OP_LE || k == Z3_OP_LT || k == Z3_OP_GE || k == Z3_OP_GT || k == Z3_OP_DISTINCT) && e.arg(0).is_real()) {
      Low a = low(e.arg(0)), b = low(e.arg(1)); z3::expr side = c.bool_val(true);
      bool da = isOne(a.d), db = isOne(b.d);
      if (k == Z3_OP_EQ || k == Z3_OP_DISTINCT) { z3::expr l = mul(a.n, b.d), r = mul(b.n, a.d); z3::expr q = (l == r); if (k == Z3_OP_DISTINCT) q = !q; return q; }
      z3::expr s = mul(a.d, b.d); // multiply by (da*db)^2
      z3::expr l = mul(a.n, b.d), r = mul(b.n, a.d);
      if (!(da && db)) { l = mul(l, s); r = mul(r, s); }
      if (k == Z3_OP_LE) return l <= r; if (k == Z3_OP_LT) return l < r; if (k == Z3_OP_GE) return l >= r; return l > r;
    }
    if (e.is_bool() && (k == Z3_OP_AND || k == Z3_OP_OR || k == Z3_OP_NOT || k == Z3_OP_ITE || k == Z3_OP_XOR || k == Z3_OP_IMPLIES || (k == Z3_OP_EQ && e.arg(0).is_bool()))) {
      z3::expr_vector v(c); for (unsigned i = 0; i < n; i++) v.push_back(lowb(e.arg(i)));
      return e.decl()(v);
    }
    return e;
  }
  // domain conditions (lowered) of a Real term
  std::unordered_map<unsigned, vector<z3::expr>> dommemo;
  const vector<z3::expr> &dom(const z3::expr &e) {
    auto it = dommemo.find(e.id()); if (it != dommemo.end()) return it->second;
    vector<z3::expr> r; std::unordered_set<unsigned> have;
    auto add = [&](const z3::expr &x) { if (have.insert(x.id()).second) r.push_back(x); };
    if (e.is_app()) { 
      unsigned n = e.num_args();
      for (unsigned i = 0; i < n; i++) { vector<z3::expr> s = dom(e.arg(i)); for (auto &x : s) add(x); }
      Z3_decl_kind k = e.decl().decl_kind();
      if (n > 0 && k == Z3_OP_DIV) { Low b = low(e.arg(1)); z3::expr q = simp(b.n != 0); if (!q.is_true()) add(q); }
      if (n == 1 && k == Z3_OP_UNINTERPRETED) { string f = e.decl().name().str(); z3::expr z = c.real_val(0);
        if (f == "log") add(simp(lowb(e.arg(0) > z))); else if (f == "sqrt") add(simp(lowb(e.arg(0) >= z)));
        else if (f == "asin" || f == "acos") { add(simp(lowb(e.arg(0) <= c.real_val(1)))); add(simp(lowb(e.arg(0) >= c.real_val(-1)))); } }
    }
    for (auto &x : r) pin(x); pin(e);
    return dommemo.emplace(e.id(), r).first->second;
  }
  z3::expr simp(const z3::expr &e) {
    auto it = simpmemo.find(e.id()); if (it != simpmemo.end()) return it->second;
    z3::params p(c); p.set("som", true); p.set("som_blowup", 200000u); p.set("arith_lhs", true); p.set("flat", true);
    z3::expr r = e.simplify(p); pin(e); pin(r); simpmemo.emplace(e.id(), r); return r;
  }
  const vector<unsigned> &vars(const z3::expr &e) {
    auto it = varsmemo.find(e.id()); if (it != varsmemo.end()) return it->second;
    set<unsigned> s;
    if (e.is_app()) { if (e.num_args() == 0) { if (e.decl().decl_kind() == Z3_OP_UNINTERPRETED) { s.insert(e.id()); varById.emplace(e.id(), e); } }
      else for (unsigned i = 0; i < e.num_args(); i++) { auto &v = vars(e.arg(i)); s.insert(v.begin(), v.end()); } }
    pin(e);
    return varsmemo.emplace(e.id(), vector<unsigned>(s.begin(), s.end())).first->second;
  }
  // axioms for a UF variable (individual) 
  vector<z3::expr> axioms(int ix, const set<unsigned> &present) {
    vector<z3::expr> r; UFRec u = ufs[ix]; Low a = low(u.arg); z3::expr z = c.real_val(0);
    if (u.f == "exp") r.push_back(u.var > z);
    if (u.f == "sqrt") { r.push_back(u.var >= z); r.push_back(mul(u.var * u.var, a.d) == a.n); }
    if (u.f == "fabs") { r.push_back(u.var >= z); r.push_back(mul(u.var * u.var, mul(a.d, a.d)) == a.n * a.n); }
    if (u.f == "sin" || u.f == "cos") { // companion if present
      z3::expr o = uf(u.f == "sin" ? "cos" : "sin", u.arg); auto it = ufByApp.find(o.id());
      if (it != ufByApp.end() && present.count(ufs[it->second].var.id())) { if (u.f == "sin") r.push_back(u.var * u.var + ufs[it->second].var * ufs[it->second].var == c.real_val(1)); }
      else { r.push_back(u.var <= c.real_val(1)); r.push_back(u.var >= c.real_val(-1)); } 
    }
    return r;
  }
  int rawcheck(const vector<z3::expr> &cs, z3::model *out) {
    bool hasbv = false, hasreal = false;
    for (auto &e : cs) for (unsigned v : vars(e)) { auto &x = varById.at(v); if (x.is_bv()) hasbv = true; else hasreal = true; }
    double t0 = now(); S.queries++;
    auto run = [&](z3::solver s, unsigned ms) { z3::params p(c); p.set("timeout", ms); s.set(p); for (auto &e : cs) s.add(e); 
      z3::check_result r = z3::unknown; try { r = s.check(); } catch (z3::exception &) { r = z3::unknown; } if (r == z3::sat && out) *out = s.get_model(); return r; };
    z3::check_result r;
    if (hasreal && !hasbv) { r = run((z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") & z3::tactic(c, "qfnra")).mk_solver(), opt.solver_ms); if (r == z3::unknown) r = run(z3::solver(c, "QF_NRA"), opt.solver_ms); }
    else if (hasbv && !hasreal) r = run(z3::solver(c, "QF_BV"), opt.solver_ms);
    else r = run(z3::solver(c), opt.solver_ms);
    S.solver_s += now() - t0;
    if (r == z3::sat) { S.qsat++; return R_SAT; } if (r == z3::unsat) { S.qunsat++; return R_UNSAT; } S.qunknown++; return R_UNK;
  }
  // Check conjunction of lowered conditions restricted to those connected with goal (goal==nullptr: all).
  // congr: add congruence instances.
  int check(const vector<z3::expr> &pc, const vector<z3::expr> &goals, z3::model *out, bool allpc) {
    vector<z3::expr> gs;
    for (auto &g : goals) { z3::expr s = simp(g); if (s.is_false()) { S.syntactic++; S.queries++; S.qunsat++; return R_UNSAT; } if (!s.is_true()) gs.push_back(s); }
    vector<z3::expr> ps; for (auto &p : pc) { z3::expr s = simp(p); if (s.is_false()) { S.queries++; S.qunsat++; return R_UNSAT; } if (!s.is_true()) ps.push_back(s); }
    auto gather = [&](vector<z3::expr> &sel, set<unsigned> &vs) {
      vector<char> used(ps.size(), 0); sel = gs; vs.clear();
      auto addvars = [&](const z3::expr &e) { bool ch = false; std::function<void(unsigned)> av = [&](unsigned v) { if (!vs.insert(v).second) return; ch = true; auto it = ufByVar.find(v); if (it != ufByVar.end()) { Low a = low(ufs[it->second].arg); for (unsigned w : vars(a.n)) av(w); for (unsigned w : vars(a.d)) av(w); } };
        for (unsigned v : vars(e)) av(v); return ch; };
      for (auto &g : gs) addvars(g);
      bool ch = true;
      while (ch) { ch = false; for (size_t i = 0; i < ps.size(); i++) if (!used[i]) { bool conn = allpc; if (!conn) { std::function<bool(unsigned)> hit = [&](unsigned v) { if (vs.count(v)) return true; auto it = ufByVar.find(v); if (it != ufByVar.end()) { Low a = low(ufs[it->second].arg); for (unsigned w : vars(a.n)) if (hit(w)) return true; for (unsigned w : vars(a.d)) if (hit(w)) return true; } return false; }; for (unsigned v : vars(ps[i])) if (hit(v)) { conn = true; break; } }
            if (conn) { used[i] = 1; sel.push_back(ps[i]); addvars(ps[i]); ch = true; } } }
    };
    vector<z3::expr> sel; set<unsigned> vs; gather(sel, vs);
    if (sel.empty()) return R_SAT;
    vector<unsigned> key; for (auto &e : sel) key.push_back(e.id()); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    if (!out) { auto it = cache.find(key); if (it != cache.end()) { S.cached++; return it->second; } }
    for (auto &e : sel) pin(e);
    vector<int> us; for (unsigned v : vs) { auto it = ufByVar.find(v); if (it != ufByVar.end()) us.push_back(it->second); }
    vector<z3::expr> cs = sel;
    for (int u : us) for (auto &a : axioms(u, vs)) cs.push_back(a);
    int r = rawcheck(cs, out);
    if (r != R_UNSAT && !us.empty()) { // add special values, bounds of ground applications, congruence
      bool any = false;
      for (int u : us) { UFRec &x = ufs[u]; Low a = low(x.arg); z3::expr zero = c.real_val(0), one = c.real_val(1);
        bool at0 = x.f == "sin" || x.f == "cos" || x.f == "exp", at1 = x.f == "log"; if (!at0 && !at1) continue;
        z3::expr special = simp(at0 ? a.n == zero : a.n == a.d);
        if (!special.is_false()) { any = true; cs.push_back(z3::implies(special, x.var == (x.f == "sin" || x.f == "log" ? zero : one))); }
        z3::expr g = x.arg.simplify(); double gv;
        if (g.is_numeral() && numeral(g, gv) && fabs(gv) < 500 && (!at1 || gv > 0)) { double v = x.f == "sin" ? ::sin(gv) : x.f == "cos" ? ::cos(gv) : x.f == "exp" ? ::exp(gv) : ::log(gv); double e = 1e-9 * (1 + fabs(v)); char b[64];
          any = true; snprintf(b, sizeof b, "%.12f", v - e); cs.push_back(x.var >= c.real_val(b)); snprintf(b, sizeof b, "%.12f", v + e); cs.push_back(x.var <= c.real_val(b)); } }
      for (size_t i = 0; i < us.size(); i++) for (size_t j = i + 1; j < us.size(); j++) { UFRec &x = ufs[us[i]], &y = ufs[us[j]]; if (x.f != y.f) continue; Low a = low(x.arg), b = low(y.arg);
          z3::expr same = simp(mul(a.n, b.d) == mul(b.n, a.d)); if (!same.is_false()) { any = true; cs.push_back(z3::implies(same, x.var == y.var)); }
          if (x.f == "cos" || x.f == "fabs" || x.f == "sin") { z3::expr neg = simp(mul(a.n, b.d) == -mul(b.n, a.d)); if (!neg.is_false()) { any = true; cs.push_back(z3::implies(neg, x.f == "sin" ? x.var == -y.var : x.var == y.var)); } } }
      if (any) r = rawcheck(cs, out);
    }
    cache[key] = r; return r;
  }
};
static Solver *SV;

// ------------------------------------------------------------------ JSON helpers
static string jesc(const string &s) { string r = "\""; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if ((u8)ch < 32) r += ' '; else r += ch; } return r + "\""; }

// ------------------------------------------------------------------ decisions / inputs
struct Dec { u8 kind; u64 v; };   // kind 0: branch (v 0/1) 1: choice 2: concretisation (v=value, taken)  3: != value
struct Input { char t; /* r,u,c */ string name; Z3_ast sym; u64 v; };
struct Cand { string kind, msg; string inputs; string where; };

struct Frame { DFunc *f; int blk; size_t ip; vector<Val> r; vector<u64> allocas; u64 freeOnRet = 0; int retDst; bool isInvokeCaller = false; bool discard = false; };
struct Caught { u64 obj; };

static set<string> g_funcs; static map<string, u64> g_reach; static map<string, u64> g_sites; static map<string, u64> g_nonvac;
static vector<Cand> g_cands; static map<string, int> g_candPerMsg; static vector<string> g_errors; static u64 g_spurious = 0, g_inconcl = 0, g_rounded = 0; static vector<string> g_inconclMsgs; static vector<string> g_samples;
static vector<vector<Dec>> worklist;

// ------------------------------------------------------------------ native function ids
enum Nat { N_NONE = 0,
#define X(n) N_##n,
#include "natives.inc"
#undef X
  N_COUNT };
static map<string, int> natMap;
#include "decode.inc"

struct Machine {
  vector<Obj> objs; vector<Frame> st; vector<Dec> trace; size_t tpos = 0; vector<Dec> prefix;
  vector<z3::expr> pcOrig; vector<z3::expr> pc; // original / lowered
  vector<z3::expr> pins; vector<vector<Val>> aggs; vector<RawSeg> raws; vector<Input> inputs; u64 steps = 0; u64 heapLive = 0;
  u64 curExn = 0; struct ExnInfo { u64 ti, dtor; int handlers; }; map<u64, ExnInfo> exns; vector<u64> caught; bool reuse = false; map<u64, vector<u64>> bins; /* freed blocks by size, last in first out */
  vector<z3::expr> tokens; map<unsigned, int> tokIx; map<string, int> nameCount; vector<string> notes; map<string,string> lastNote; int uncaught = 0;
  // ---------------- values
  Val symv(const z3::expr &e) { Val v; v.k = SYM; pins.push_back(e); v.c = (u64)(Z3_ast)e; return v; }
  z3::expr ex(const Val &v) { return z3::expr(*Z, (Z3_ast)v.c); }
  z3::expr toBV(const Val &v, unsigned bits) {
    if (v.k == CONC) return Z->bv_val((uint64_t)maskb(v.c, bits), bits);
    if (v.k != SYM) fail("toBV of undef");
    z3::expr e = ex(v); if (e.is_bool()) return z3::ite(e, Z->bv_val(1, bits), Z->bv_val(0, bits));
    if (!e.is_bv()) fail("bit-vector use of a real value"); 
    unsigned w = e.get_sort().bv_size(); if (w == bits) return e; if (w > bits) return e.extract(bits - 1, 0); return z3::zext(e, bits - w);
  }
  z3::expr toBool(const Val &v) { if (v.k == CONC) return Z->bool_val((v.c & 1) != 0); if (v.k != SYM) fail("toBool of undef"); z3::expr e = ex(v); if (e.is_bool()) return e; if (e.is_bv()) return e.extract(0, 0) == Z->bv_val(1, 1); fail("toBool of real"); }
  static string ratstr(double d) { // exact rational of a finite double
    int e; double m = frexp(d, &e); i64 mi = (i64)ldexp(m, 53); e -= 53; while (mi != 0 && (mi & 1) == 0) { mi >>= 1; e++; } if (mi == 0) return "0";
    z3::expr x = Z->int_val((int64_t)mi); (void)x; char buf[64]; 
    if (e == 0) { snprintf(buf, sizeof buf, "%" PRId64, mi); return buf; }
    // build power of two as decimal string by repeated doubling
    string p = "1"; for (int i = 0; i < std::abs(e); i++) { int carry = 0; for (int j = (int)p.size() - 1; j >= 0; j--) { int dgt = (p[j] - '0') * 2 + carry; p[j] = '0' + dgt % 10; carry = dgt / 10; } if (carry) p.insert(p.begin(), '0' + carry); }
    snprintf(buf, sizeof buf, "%" PRId64, mi);
    if (e < 0) return string(buf) + "/" + p; 
    // multiply decimal strings
    return "M" + string(buf) + "*" + p; }
  // A concrete double that is the rounded value of a simple fraction stands for that fraction, and one that is the rounded value of ln 10, ln 2 or
  // sqrt 2 for that number: doubles are treated as exact reals, so 1.0/3.0 folded by the compiler and 1/3 computed here must be one number.
  static bool simpleFraction(double d, i64 &p, i64 &q) {
    double a = fabs(d); if (a < 1e-6 || a > 1e6) return false; int e; double m = frexp(a, &e); if (std::ldexp(m, 36) == std::floor(std::ldexp(m, 36))) return false; // short dyadic: exact as it is
    i64 h0 = 0, h1 = 1, k0 = 1, k1 = 0; long double x = a;
    for (int i = 0; i < 30; i++) { i64 n = (i64)floorl(x); i64 h2 = n * h1 + h0, k2 = n * k1 + k0; if (k2 > 100000 || h2 > 1000000000LL) return false; h0 = h1; h1 = h2; k0 = k1; k1 = k2; if (fabsl((long double)h1 / k1 - a) <= a * 2.3e-16L) { p = d < 0 ? -h1 : h1; q = k1; return true; } long double fr = x - n; if (fr < 1e-12L) return false; x = 1 / fr; }
    return false; }
  z3::expr toReal(const Val &v) {
    if (v.k == SYM) { z3::expr e = ex(v); if (!e.is_real()) fail("real use of a non-real symbolic value"); return e; }
    if (v.k != CONC) fail("toReal of undef");
    double d = d_of(v.c); if (!std::isfinite(d)) fail("nonfinite");
    auto near = [&](double w) { return fabs(d - w) <= fabs(w) * 3e-16; };
    if (near(2.302585092994045684)) return SV->uf("log", Z->real_val(10)); if (near(0.4342944819032518277)) return Z->real_val(1) / SV->uf("log", Z->real_val(10));
    if (near(0.6931471805599453094)) return SV->uf("log", Z->real_val(2)); if (near(1.4142135623730950488)) return SV->uf("sqrt", Z->real_val(2));
    i64 p, q; if (simpleFraction(d, p, q)) return Z->real_val((int64_t)p, (int64_t)q);
    return toRealExact(d); }
  z3::expr toRealExact(double d) {
    string s = ratstr(d); if (s[0] == 'M') { size_t p = s.find('*'); return (Z->real_val(s.substr(1, p - 1).c_str()) * Z->real_val(s.substr(p + 1).c_str())).simplify(); }
    return Z->real_val(s.c_str());
  }
  bool numConst(const z3::expr &e, double &d) { if (!e.is_numeral()) return false; string s = e.get_decimal_string(25); d = strtod(s.c_str(), nullptr); return true; }
  Val fromReal(z3::expr e) { // numerals that are exactly representable become concrete again
    if (e.is_numeral()) { double d; if (numConst(e, d) && std::isfinite(d)) { z3::expr b = toRealExact(d); if (z3::eq(b, e) || b.simplify().id() == e.id()) return mk(of_d(d)); } }
    return symv(e);
  }
  // ---------------- path condition / forking
  void assume(const z3::expr &e) { pins.push_back(e); pcOrig.push_back(e); z3::expr l = SV->lowb(e); pc.push_back(l);
    // branch conditions over quotients hold only where the quotients are defined
    std::function<void(const z3::expr &)> dd = [&](const z3::expr &x) { if (!x.is_app()) return; if (x.is_real()) { for (auto &q : SV->dom(x)) pc.push_back(q); return; } for (unsigned i = 0; i < x.num_args(); i++) dd(x.arg(i)); };
    dd(e); }
  int sat(const z3::expr &e) { vector<z3::expr> g{SV->lowb(e)};
    std::function<void(const z3::expr &)> dd = [&](const z3::expr &x) { if (!x.is_app()) return; if (x.is_real()) { for (auto &q : SV->dom(x)) g.push_back(q); return; } for (unsigned i = 0; i < x.num_args(); i++) dd(x.arg(i)); };
    dd(e);
    return SV->check(pc, g, nullptr, false); }
  bool partial(const z3::expr &e) { if (!e.is_app()) return false; if (e.is_real()) return !SV->dom(e).empty(); for (unsigned i = 0; i < e.num_args(); i++) if (partial(e.arg(i))) return true; return false; }
  bool branch(const z3::expr &c0) {
    z3::expr c = c0.simplify(); pins.push_back(c0); pins.push_back(c);
    if (c.is_true()) return true; if (c.is_false()) return false;
    if (tpos < prefix.size()) { Dec d = prefix[tpos++]; if (d.kind != 0) fail("decision trace mismatch"); trace.push_back(d); assume(d.v ? c : !c); return d.v; }
    // ground comparison of uninterpreted terms: decide numerically when clear
    int a = sat(c), b = (a == R_UNSAT && !partial(c)) ? R_SAT : sat(!c); // neither holds where a quotient in the condition has no value: outside the claim
    if (a == R_UNSAT && b == R_UNSAT) throw PathEnd{"infeasible", ""};
    bool take = (a != R_UNSAT);
    if (a != R_UNSAT && b != R_UNSAT) { vector<Dec> alt = trace; alt.push_back(Dec{0, 0}); worklist.push_back(alt); S.forks++; }
    trace.push_back(Dec{0, (u64)take}); tpos = prefix.size(); assume(take ? c : !c); return take;
  }
  u64 concretize(const Val &v, unsigned bits) {
    if (v.k == CONC) return v.c; if (v.k != SYM) viol("uninit", "use of an uninitialised value as address or size");
    z3::expr e = toBV(v, bits).simplify(); if (e.is_numeral()) return e.get_numeral_uint64();
    for (;;) {
      if (tpos < prefix.size()) { Dec d = prefix[tpos++]; trace.push_back(d); z3::expr q = (e == Z->bv_val((uint64_t)d.v, bits)); if (d.kind == 2) { assume(q); return d.v; } if (d.kind != 3) fail("decision trace mismatch (concretize)"); assume(!q); continue; }
      z3::model m(*Z); z3::expr x = Z->bv_const("conc!tmp", bits); int r = SV->check(pc, {x == e}, &m, false);
      if (r != R_SAT) throw PathEnd{"infeasible", ""};
      u64 val = m.eval(x, true).get_numeral_uint64(); z3::expr q = (e == Z->bv_val((uint64_t)val, bits));
      if (sat(!q) != R_UNSAT) { vector<Dec> alt = trace; alt.push_back(Dec{3, val}); worklist.push_back(alt); S.forks++; }
      trace.push_back(Dec{2, val}); tpos = prefix.size(); assume(q); return val;
    }
  }
  u64 choice(u64 n) {
    if (n == 0) throw PathEnd{"infeasible", ""};
    if (tpos < prefix.size()) { Dec d = prefix[tpos++]; if (d.kind != 1) fail("decision trace mismatch (choice)"); trace.push_back(d); return d.v; }
    for (u64 i = n - 1; i >= 1; i--) { vector<Dec> alt = trace; alt.push_back(Dec{1, i}); worklist.push_back(alt); }
    trace.push_back(Dec{1, 0}); tpos = prefix.size(); return 0;
  }
  // ---------------- numeric evaluation of terms (for validating candidate models)
  bool numEval(const z3::expr &e, const map<unsigned, double> &env, std::unordered_map<unsigned, double> &memo, double &out) {
    auto it = memo.find(e.id()); if (it != memo.end()) { out = it->second; return true; }
    double r = 0; 
    if (e.is_numeral()) { if (!numConst(e, r)) return false; }
    else if (e.num_args() == 0) { auto f = env.find(e.id()); if (f == env.end()) return false; r = f->second; }
    else { vector<double> a(e.num_args()); for (unsigned i = 0; i < e.num_args(); i++) if (!numEval(e.arg(i), env, memo, a[i])) return false;
      switch (e.decl().decl_kind()) { case Z3_OP_ADD: for (double x : a) r += x; break; case Z3_OP_SUB: r = a[0]; for (size_t i = 1; i < a.size(); i++) r -= a[i]; break; case Z3_OP_UMINUS: r = -a[0]; break;
        case Z3_OP_MUL: r = 1; for (double x : a) r *= x; break; case Z3_OP_DIV: r = a[0] / a[1]; break;
        case Z3_OP_UNINTERPRETED: { string f = e.decl().name().str(); if (f == "sin") r = sin(a[0]); else if (f == "cos") r = cos(a[0]); else if (f == "exp") r = exp(a[0]); else if (f == "log") r = log(a[0]); else if (f == "sqrt") r = sqrt(a[0]); else if (f == "fabs") r = fabs(a[0]); else if (f == "f32") r = (double)(float)a[0]; else if (f.compare(0, 3, "prn") == 0) { char pf[8] = {'%', '.', '*', f[3], 0}, t[400]; snprintf(t, sizeof t, pf, atoi(f.c_str() + 4), a[0]); r = strtod(t, nullptr); } else return false; break; }
        default: return false; } }
    memo[e.id()] = r; out = r; return true;
  }
  int numBool(const z3::expr &e, const map<unsigned, double> &env, std::unordered_map<unsigned, double> &memo) { // 1 true 0 false -1 unknown
    if (e.is_true()) return 1; if (e.is_false()) return 0; Z3_decl_kind k = e.decl().decl_kind();
    if (k == Z3_OP_NOT) { int a = numBool(e.arg(0), env, memo); return a < 0 ? -1 : !a; }
    if (k == Z3_OP_AND) { int r = 1; for (unsigned i = 0; i < e.num_args(); i++) { int a = numBool(e.arg(i), env, memo); if (a == 0) return 0; if (a < 0) r = -1; } return r; }
    if (k == Z3_OP_OR) { int r = 0; for (unsigned i = 0; i < e.num_args(); i++) { int a = numBool(e.arg(i), env, memo); if (a == 1) return 1; if (a < 0) r = -1; } return r; }
    if (e.num_args() == 2 && e.arg(0).is_real()) { double a, b; if (!numEval(e.arg(0), env, memo, a) || !numEval(e.arg(1), env, memo, b)) return -1; double tol = 1e-9 * (1 + fabs(a) + fabs(b));
      switch (k) { case Z3_OP_EQ: return fabs(a - b) <= tol; case Z3_OP_LE: return a <= b + tol; case Z3_OP_LT: return a < b; case Z3_OP_GE: return a >= b - tol; case Z3_OP_GT: return a > b; case Z3_OP_DISTINCT: return fabs(a - b) > tol; default: return -1; } }
    return -1;
  }
  // ---------------- violations
  string inputString(const map<unsigned, double> &env, z3::model *m, const map<unsigned, u64> &bvenv) {
    string s; char buf[80];
    for (auto &ii : inputs) { Input i = ii; for (char &ch : i.name) if (ch == ' ') ch = '_'; if (i.t == 'c') { snprintf(buf, sizeof buf, "%" PRIu64, i.v); s += "choice " + i.name + " " + buf + "\n"; continue; }
      z3::expr v(*Z, i.sym);
      if (i.t == 'r') { auto it = env.find(v.id()); double d = it == env.end() ? 0.0 : it->second; snprintf(buf, sizeof buf, "%.17g", d); s += "real " + i.name + " " + buf + "\n"; }
      else { auto it = bvenv.find(v.id()); snprintf(buf, sizeof buf, "%" PRIu64, it == bvenv.end() ? (u64)0 : it->second); s += "u64 " + i.name + " " + buf + "\n"; } }
    return s;
  }
  string where() { string w; int n = 0; for (int i = (int)st.size() - 1; i >= 0 && n < 8; i--, n++) w += (n ? " < " : "") + demangle(st[i].f->name).substr(0, 160); return w; }
  void record(const string &kind, const string &msg, const string &in) { if (g_candPerMsg[kind + msg]++ >= opt.max_cand) return; string nt; for (auto &n : notes) nt += n + "; "; g_cands.push_back(Cand{kind, msg, in, where() + (nt.empty() ? "" : " | notes: " + nt)}); }
  // Find a concrete point satisfying PC and goal (lowered extra conditions); numeric goal test decides real violation
  bool findPoint(const vector<z3::expr> &extraLow, std::function<int(const map<unsigned, double> &, std::unordered_map<unsigned, double> &)> test, string &in, bool &gotModel) {
    z3::model m(*Z); map<unsigned, double> env; map<unsigned, u64> bvenv; gotModel = false;
    set<unsigned> have;
    auto absorb = [&](z3::model &mm, bool overwrite) { for (auto &i : inputs) if (i.t != 'c') { z3::expr v(*Z, i.sym); z3::expr e = mm.eval(v, false); if (!overwrite && have.count(v.id())) continue;
        if (i.t == 'r') { if (e.is_numeral()) { env[v.id()] = strtod(e.get_decimal_string(20).c_str(), nullptr); have.insert(v.id()); } else if (e.is_algebraic()) { string s = e.get_decimal_string(20); env[v.id()] = strtod(s.c_str(), nullptr); have.insert(v.id()); } }
        else if (e.is_numeral()) { bvenv[v.id()] = e.get_numeral_uint64(); have.insert(v.id()); } } };
    int r = SV->check(pc, extraLow, &m, false);
    if (r == R_SAT) { gotModel = true; absorb(m, true); }
    { z3::model m2(*Z); if (SV->check(pc, {}, &m2, true) == R_SAT) absorb(m2, false); }
    for (auto &i : inputs) if (i.t == 'r') { z3::expr v(*Z, i.sym); if (!have.count(v.id())) env[v.id()] = 1.375 + 0.25 * (double)(&i - &inputs[0]); }
    auto okpc = [&](const map<unsigned, double> &en, std::unordered_map<unsigned, double> &memo) { for (auto &p : pcOrig) if (numBool(p, en, memo) == 0) return false; return true; };
    // numerically validate: first the model, then random perturbations that keep equality-pinned variables
    set<unsigned> pinned; for (auto &p : pc) { z3::expr s = SV->simp(p); if (s.is_app() && s.decl().decl_kind() == Z3_OP_EQ) for (unsigned v : SV->vars(s)) pinned.insert(v); }
    std::mt19937_64 rng(12345); std::uniform_real_distribution<double> U(-3, 3), U01(0, 1);
    for (int t = 0; t < 400; t++) {
      map<unsigned, double> en = env;
      if (t > 0) for (auto &kv : en) if (!pinned.count(kv.first)) { if (t % 3 == 0 && U01(rng) < 0.5) continue; double x = U(rng); if (t % 4 == 1) x = fabs(x); if (t % 5 == 2) x = std::round(x * 4) / 4; if (SV->printed) { en[kv.first] = x * 0.123456789 * pow(10, -(t % 9)); continue; } en[kv.first] = SV->narrowed ? std::round(x * 1000) / 1000 : std::round(x * 1024) / 1024; }
      std::unordered_map<unsigned, double> memo; if (!okpc(en, memo)) continue;
      if (test(en, memo) == 1) { in = inputString(en, &m, bvenv); return true; }
    }
    in = inputString(env, &m, bvenv);
    return false;
  }
  [[noreturn]] void viol(const string &kind, const string &msg) { // unconditional violation on this path
    string in; bool gm; findPoint({}, [](const map<unsigned, double> &, std::unordered_map<unsigned, double> &) { return 1; }, in, gm); record(kind, msg, in); throw PathEnd{"viol", msg}; }

  // ---------------- memory
  static u64 bin(u64 n) { return n < 24 ? 32 : (n + 8 + 15) & ~15ull; }
  u64 newObj(u64 size, ObjKind k, bool zero = false) { 
    if (reuse && (k == OK_NEW || k == OK_NEWARR || k == OK_MALLOC || k == OK_STACK)) { auto &b = bins[k == OK_STACK ? size | 1ull << 62 : bin(size)]; if (!b.empty()) { u64 id = b.back(); b.pop_back(); Obj &o = objs[id]; o.live = true; o.size = size; o.kind = k; o.cells.clear(); o.data.assign(size, 0); o.st.assign(size, zero ? 1 : 0); return id; } }
    objs.emplace_back(); Obj &o = objs.back(); o.size = size; o.kind = k; o.data.assign(size, 0); o.st.assign(size, zero ? 1 : 0); return objs.size() - 1; }
  Obj &find(u64 addr, u64 size, u64 &off, bool write, const char *what) {
    u64 id = addr >> OBJ_SHIFT; 
    if (addr < 4096 || id == 0) viol("memory", string("null pointer dereference (") + what + ")");
    if (id >= objs.size()) viol("memory", string("wild pointer dereference (") + what + ")");
    Obj &o = objs[id]; i64 so = (i64)(addr & ((1ull << OBJ_SHIFT) - 1)) - (i64)OBJ_MID;
    if (!o.live) viol("memory", string("use of dead object (use after free/return) (") + what + ")");
    if (o.kind == OK_FUNC) viol("memory", "data access to function");
    if (so < 0 || (u64)so + size > o.size) viol("memory", string("out-of-bounds access (") + what + ")");
    if (write && o.kind == OK_CONSTG) viol("memory", "write to constant memory");
    off = so; return o; }
  void clearCells(Obj &o, u64 off, u64 n) { if (o.cells.empty()) return; auto it = o.cells.lower_bound(off >= 16 ? off - 16 : 0); while (it != o.cells.end() && it->first < off + n) { u64 b = it->first, e = b + it->second.size; if (e <= off) { ++it; continue; } if (b < off || e > off + n) { for (u64 i = b; i < e; i++) o.st[i] = 0; } it = o.cells.erase(it); } }
  Val load(u64 addr, u64 n, u8 tk, unsigned bits) {
    u64 off; Obj &o = find(addr, n, off, false, "load");
    bool allc = true; for (u64 i = 0; i < n; i++) if (o.st[off + i] != 1) { allc = false; break; }
    if (allc) { u64 v = 0; memcpy(&v, &o.data[off], n); return mk(maskb(v, bits)); }
    bool anydef = false; for (u64 i = 0; i < n; i++) if (o.st[off + i]) anydef = true; if (!anydef) return undefv();
    auto it = o.cells.find(off); if (it != o.cells.end() && it->second.size == n) { Val v; v.k = SYM; v.c = (u64)it->second.a; return v; }
    RawSeg rs; rs.data.assign(o.data.begin() + off, o.data.begin() + off + n); rs.st.assign(o.st.begin() + off, o.st.begin() + off + n);
    for (auto c = o.cells.lower_bound(off >= 16 ? off - 16 : 0); c != o.cells.end() && c->first < off + n; ++c) { if (c->first + c->second.size <= off) continue; 
      if (c->first < off || c->first + c->second.size > off + n) { // partial: extract from bit-vector cell
        z3::expr e(*Z, c->second.a); if (e.is_bv() && c->first <= off && c->first + c->second.size >= off + n) { unsigned lo = (off - c->first) * 8; return symv(e.extract(lo + n * 8 - 1, lo)); } fail("partial load of symbolic cell"); }
      rs.cells[c->first - off] = c->second; }
    raws.push_back(rs); Val v; v.k = RAW; v.c = raws.size() - 1; return v;
  }
  void store(u64 addr, u64 n, const Val &v) {
    u64 off; Obj &o = find(addr, n, off, true, "store"); clearCells(o, off, n);
    if (v.k == CONC) { memcpy(&o.data[off], &v.c, n); memset(&o.st[off], 1, n); return; }
    if (v.k == SYM) { z3::expr e = ex(v); if (e.is_bool()) { z3::expr b = z3::ite(e, Z->bv_val(1, n * 8), Z->bv_val(0, n * 8)); pins.push_back(b); o.cells[off] = SymCell{(Z3_ast)b, (u32)n}; } else o.cells[off] = SymCell{(Z3_ast)v.c, (u32)n}; memset(&o.st[off], 2, n); return; }
    if (v.k == RAW) { RawSeg &r = raws[v.c]; if (r.data.size() != n) fail("raw store size"); memcpy(&o.data[off], r.data.data(), n); memcpy(&o.st[off], r.st.data(), n); for (auto &c : r.cells) o.cells[off + c.first] = c.second; return; }
    if (v.k == AGG) fail("store of aggregate");
    memset(&o.st[off], 0, n);
  }
  void copyMem(u64 d, u64 s, u64 n) {
    if (!n) return; u64 so, dof; { find(d, n, dof, true, "memcpy dest"); } Obj &so_ = find(s, n, so, false, "memcpy src");
    vector<u8> data(so_.data.begin() + so, so_.data.begin() + so + n), stt(so_.st.begin() + so, so_.st.begin() + so + n); map<u32, SymCell> cells;
    for (auto c = so_.cells.lower_bound(so >= 16 ? so - 16 : 0); c != so_.cells.end() && c->first < so + n; ++c) { if (c->first + c->second.size <= so) continue; if (c->first < so || c->first + c->second.size > so + n) { for (u64 i = std::max<u64>(c->first, so); i < std::min<u64>(c->first + c->second.size, so + n); i++) stt[i - so] = 0; continue; } cells[c->first - so] = c->second; }
    Obj &o = find(d, n, dof, true, "memcpy dest"); clearCells(o, dof, n); memcpy(&o.data[dof], data.data(), n); memcpy(&o.st[dof], stt.data(), n); for (auto &c : cells) o.cells[dof + c.first] = c.second;
  }
  string cstr(u64 a) { string s; for (;;) { Val v = load(a++, 1, 0, 8); if (v.k != CONC) fail("symbolic char in C string"); if (!v.c) break; s += (char)v.c; if (s.size() > 100000) fail("string too long"); } return s; }
  void writeBytes(u64 a, const string &s, bool nul) { for (char ch : s) store(a++, 1, mk((u8)ch)); if (nul) store(a, 1, mk(0)); }
  u64 rd64(u64 a) { Val v = load(a, 8, 1, 64); if (v.k == UNDEF || v.k == RAW) viol("uninit", "use of uninitialised pointer"); return concretize(v, 64); }
  void freeObj(u64 addr, ObjKind k) {
    if (!addr) return; u64 id = addr >> OBJ_SHIFT; i64 off = (i64)(addr & ((1ull << OBJ_SHIFT) - 1)) - (i64)OBJ_MID;
    if (id >= objs.size()) viol("memory", "free of invalid pointer"); Obj &o = objs[id];
    if (o.kind != OK_NEW && o.kind != OK_NEWARR && o.kind != OK_MALLOC && o.kind != OK_EXN) viol("memory", "delete of a non-heap object");
    if (!o.live) viol("memory", "double free"); if (off != 0) viol("memory", "delete of interior pointer");
    if (o.kind != k) viol("memory", "mismatched allocation/deallocation function");
    o.live = false; if (k != OK_EXN) { heapLive--; if (reuse) bins[bin(o.size)].push_back(id); } vector<u8>().swap(o.data); vector<u8>().swap(o.st); o.cells.clear(); }

#include "machine.inc"
};

#include "explore.inc"
