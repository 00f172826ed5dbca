  // ---------------- aggregates
  vector<Val> &agg(const Val &v) { if (v.k != AGG) fail("aggregate expected"); if (v.c & CAGG) return constAggs[v.c & ~CAGG]; return aggs[v.c]; }
  Val newAgg(const vector<Val> &x) { aggs.push_back(x); Val v; v.k = AGG; v.c = aggs.size() - 1; return v; }
  Val op(Frame &f, int a) { return a >= 0 ? f.r[a] : consts[-1 - a]; }
  // ---------------- floating point (exact reals)
  static bool isD(const Val &v) { return v.k == CONC || v.k == SYM; }
  bool nonfin(const Val &v) { return v.k == CONC && !std::isfinite(d_of(v.c)); }
  Val fbin(unsigned opc, Val a, Val b) {
    if (a.k == RAW || b.k == RAW) fail("raw double"); if (!isD(a) || !isD(b)) return undefv();
    if (a.k == CONC && b.k == CONC) { 
      volatile double x = d_of(a.c), y = d_of(b.c); volatile double r; feclearexcept(FE_ALL_EXCEPT);
      switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); }
      bool inex = fetestexcept(FE_INEXACT | FE_UNDERFLOW | FE_OVERFLOW); if (r == 0) r = 0.0; // no signed zero
      if (!inex || !std::isfinite((double)x) || !std::isfinite((double)y)) return mk(of_d(r)); }
    if (nonfin(a) || nonfin(b)) return mk(of_d(NAN));
    if (opc == Instruction::FRem) fail("frem on symbolic");
    double da = a.k == CONC ? d_of(a.c) : 2.5, db = b.k == CONC ? d_of(b.c) : 2.5;
    if (opc == Instruction::FAdd) { if (da == 0) return b; if (db == 0) return a; }
    if (opc == Instruction::FSub && db == 0) return a;
    if (opc == Instruction::FMul) { if (da == 1) return b; if (db == 1) return a; }
    if (opc == Instruction::FDiv) { if (db == 1) return a; if (db == 0) return mk(of_d(NAN)); }
    z3::expr x = toReal(a), y = toReal(b); z3::expr r = x;
    switch (opc) { case Instruction::FAdd: r = x.id() <= y.id() ? x + y : y + x; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x.id() <= y.id() ? x * y : y * x; break; default: r = x / y; }
    if (x.is_numeral() && y.is_numeral()) return fromReal(r.simplify());
    return symv(r);
  }
  bool hasDiv(const z3::expr &e) { if (!e.is_app()) return false; if (e.num_args() && e.decl().decl_kind() == Z3_OP_DIV) return true; for (unsigned i = 0; i < e.num_args(); i++) if (hasDiv(e.arg(i))) return true; return false; }
  Val math(int f, Val a) {
    if (!isD(a)) return undefv(); if (nonfin(a)) return mk(of_d(NAN));
    if (f == N_m_tan) { return fbin(Instruction::FDiv, math(N_m_sin, a), math(N_m_cos, a)); }
    if (f == N_m_log10) { if (a.k == CONC && d_of(a.c) == 1) return mk(of_d(0)); return fbin(Instruction::FDiv, math(N_m_log, a), math(N_m_log, mk(of_d(10.0)))); }
    if (a.k == CONC) { double x = d_of(a.c);
      if (f == N_m_fabs) return mk(of_d(fabs(x))); if (f == N_m_floor) return mk(of_d(floor(x)));
      if (x == 0 && f == N_m_sin) return mk(of_d(0)); if (x == 0 && (f == N_m_cos || f == N_m_exp)) return mk(of_d(1)); if (x == 1 && f == N_m_log) return mk(of_d(0));
      if (f == N_m_log && x <= 0) return mk(of_d(log(x))); if (f == N_m_sqrt) { if (x < 0) return mk(of_d(NAN)); double s = sqrt(x); feclearexcept(FE_ALL_EXCEPT); volatile double q = s; q = q * s; if (!fetestexcept(FE_INEXACT) && q == x) return mk(of_d(s)); } }
    if (f == N_m_floor) fail("floor of symbolic");
    const char *n = f == N_m_sin ? "sin" : f == N_m_cos ? "cos" : f == N_m_exp ? "exp" : f == N_m_log ? "log" : f == N_m_sqrt ? "sqrt" : "fabs";
    z3::expr x = toReal(a); if (!hasDiv(x)) x = SV->simp(x);
    if (x.is_numeral() && a.k == SYM) { Val c = fromReal(x); if (c.k == CONC) return math(f, c); }
    return symv(SV->uf(n, x));
  }
  Val fcmp(unsigned p, Val a, Val b) {
    if (!isD(a) || !isD(b)) return undefv();
    if ((a.k == CONC && b.k == CONC)) { double x = d_of(a.c), y = d_of(b.c); bool un = std::isnan(x) || std::isnan(y), r = false;
      switch (p) { case FCmpInst::FCMP_FALSE: r = false; break; case FCmpInst::FCMP_TRUE: r = true; break; case FCmpInst::FCMP_ORD: r = !un; break; case FCmpInst::FCMP_UNO: r = un; break;
        case FCmpInst::FCMP_OEQ: r = !un && x == y; break; case FCmpInst::FCMP_ONE: r = !un && x != y; break; case FCmpInst::FCMP_OLT: r = !un && x < y; break; case FCmpInst::FCMP_OLE: r = !un && x <= y; break; case FCmpInst::FCMP_OGT: r = !un && x > y; break; case FCmpInst::FCMP_OGE: r = !un && x >= y; break;
        case FCmpInst::FCMP_UEQ: r = un || x == y; break; case FCmpInst::FCMP_UNE: r = un || x != y; break; case FCmpInst::FCMP_ULT: r = un || x < y; break; case FCmpInst::FCMP_ULE: r = un || x <= y; break; case FCmpInst::FCMP_UGT: r = un || x > y; break; case FCmpInst::FCMP_UGE: r = un || x >= y; break; default: break; }
      return mk(r); }
    if (nonfin(a) || nonfin(b)) { double x = a.k == CONC ? d_of(a.c) : 0, y = b.k == CONC ? d_of(b.c) : 0; if (std::isnan(x) || std::isnan(y)) return mk(p >= FCmpInst::FCMP_UNO); return fcmp(p, a.k == CONC ? a : mk(of_d(0)), b.k == CONC ? b : mk(of_d(0))); }
    z3::expr x = toReal(a), y = toReal(b); z3::expr r = Z->bool_val(true);
    switch (p) { case FCmpInst::FCMP_FALSE: case FCmpInst::FCMP_UNO: return mk(0); case FCmpInst::FCMP_TRUE: case FCmpInst::FCMP_ORD: return mk(1);
      case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_UEQ: r = (x == y); break; case FCmpInst::FCMP_ONE: case FCmpInst::FCMP_UNE: r = !(x == y); break; case FCmpInst::FCMP_OLT: case FCmpInst::FCMP_ULT: r = x < y; break; case FCmpInst::FCMP_OLE: case FCmpInst::FCMP_ULE: r = x <= y; break; case FCmpInst::FCMP_OGT: case FCmpInst::FCMP_UGT: r = x > y; break; default: r = x >= y; }
    r = r.simplify(); if (r.is_true()) return mk(1); if (r.is_false()) return mk(0); return symv(r);
  }
  // ---------------- integers
  Val fromBV(z3::expr e) { e = e.simplify(); if (e.is_bool()) { if (e.is_true()) return mk(1); if (e.is_false()) return mk(0); return symv(e); } if (e.is_numeral()) return mk(e.get_numeral_uint64()); return symv(e); }
  Val ibin(unsigned opc, Val a, Val b, unsigned w) {
    if (a.k == RAW || b.k == RAW) { a.k = a.k == RAW ? UNDEF : a.k; b.k = b.k == RAW ? UNDEF : b.k; }
    if (opc == Instruction::And && ((a.k == CONC && a.c == 0) || (b.k == CONC && b.c == 0))) return mk(0);
    if (opc == Instruction::Mul && ((a.k == CONC && a.c == 0) || (b.k == CONC && b.c == 0))) return mk(0);
    if (opc == Instruction::Or && w == 1 && ((a.k == CONC && a.c == 1) || (b.k == CONC && b.c == 1))) return mk(1);
    if (!isD(a) || !isD(b)) return undefv();
    if (a.k == CONC && b.k == CONC) { u64 x = a.c, y = b.c; i64 sx = sext(x, w), sy = sext(y, w); u64 r = 0;
      switch (opc) { case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
        case Instruction::UDiv: if (!y) viol("arith", "integer division by zero"); r = x / y; break; case Instruction::URem: if (!y) viol("arith", "integer division by zero"); r = x % y; break;
        case Instruction::SDiv: if (!y) viol("arith", "integer division by zero"); r = (sy == -1) ? (u64)0 - (u64)sx : (u64)(sx / sy); break; case Instruction::SRem: if (!y) viol("arith", "integer division by zero"); r = (sy == -1) ? 0 : (u64)(sx % sy); break;
        case Instruction::Shl: r = y >= w ? 0 : x << y; break; case Instruction::LShr: r = y >= w ? 0 : x >> y; break; case Instruction::AShr: r = y >= w ? (sx < 0 ? ~0ull : 0) : (u64)(sx >> y); break;
        case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break; default: fail("int op"); }
      return mk(maskb(r, w)); }
    if (w == 1) { z3::expr x = toBool(a), y = toBool(b); switch (opc) { case Instruction::And: case Instruction::Mul: return fromBV(x && y); case Instruction::Or: return fromBV(x || y); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromBV(x != y); default: fail("bool op"); } }
    z3::expr x = toBV(a, w), y = toBV(b, w), z = Z->bv_val(0, w);
    switch (opc) { case Instruction::Add: return fromBV(x + y); case Instruction::Sub: return fromBV(x - y); case Instruction::Mul: return fromBV(x * y);
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: if (!branch(y != z)) viol("arith", "integer division by zero"); return fromBV(opc == Instruction::UDiv ? z3::udiv(x, y) : opc == Instruction::URem ? z3::urem(x, y) : opc == Instruction::SDiv ? x / y : z3::srem(x, y));
      case Instruction::Shl: return fromBV(z3::shl(x, y)); case Instruction::LShr: return fromBV(z3::lshr(x, y)); case Instruction::AShr: return fromBV(z3::ashr(x, y)); case Instruction::And: return fromBV(x & y); case Instruction::Or: return fromBV(x | y); case Instruction::Xor: return fromBV(x ^ y); default: fail("int op"); }
  }
  Val icmp(unsigned p, Val a, Val b, unsigned w) {
    if (!isD(a) || !isD(b)) return undefv();
    if (a.k == CONC && b.k == CONC) { u64 x = maskb(a.c, w), y = maskb(b.c, w); i64 sx = sext(x, w), sy = sext(y, w); bool r = false;
      switch (p) { case ICmpInst::ICMP_EQ: r = x == y; break; case ICmpInst::ICMP_NE: r = x != y; break; case ICmpInst::ICMP_UGT: r = x > y; break; case ICmpInst::ICMP_UGE: r = x >= y; break; case ICmpInst::ICMP_ULT: r = x < y; break; case ICmpInst::ICMP_ULE: r = x <= y; break; case ICmpInst::ICMP_SGT: r = sx > sy; break; case ICmpInst::ICMP_SGE: r = sx >= sy; break; case ICmpInst::ICMP_SLT: r = sx < sy; break; default: r = sx <= sy; }
      return mk(r); }
    if (w == 1) { z3::expr x = toBool(a), y = toBool(b); return fromBV(p == ICmpInst::ICMP_EQ ? x == y : p == ICmpInst::ICMP_NE ? x != y : (fail("bool icmp"), x)); }
    z3::expr x = toBV(a, w), y = toBV(b, w);
    switch (p) { case ICmpInst::ICMP_EQ: return fromBV(x == y); case ICmpInst::ICMP_NE: return fromBV(x != y); case ICmpInst::ICMP_UGT: return fromBV(z3::ugt(x, y)); case ICmpInst::ICMP_UGE: return fromBV(z3::uge(x, y)); case ICmpInst::ICMP_ULT: return fromBV(z3::ult(x, y)); case ICmpInst::ICMP_ULE: return fromBV(z3::ule(x, y)); case ICmpInst::ICMP_SGT: return fromBV(x > y); case ICmpInst::ICMP_SGE: return fromBV(x >= y); case ICmpInst::ICMP_SLT: return fromBV(x < y); default: return fromBV(x <= y); }
  }
  // single precision: rounding is a function of the value
  Val narrow(Val a) { if (a.k == CONC) return mk(of_d((double)(float)d_of(a.c))); if (a.k != SYM) return a; SV->narrowed = true; return symv(SV->uf("f32", toReal(a))); }
  // Conversions between integers and doubles of unknown value: explored for small integer parts, for two large values and then given up (the check reports the part it did not cover)
  Val integerPart(Val a, unsigned bits, bool sgn) { z3::expr x = toReal(a); for (int i = 0; i < 9; i++) { int k = i & 1 ? (i + 1) / 2 : -(i / 2); if (k < 0 && !sgn) continue; z3::expr lo = Z->real_val(k), c = k > 0 ? x >= lo && x < Z->real_val(k + 1) : k < 0 ? x <= lo && x > Z->real_val(k - 1) : x > Z->real_val(-1) && x < Z->real_val(1); if (branch(c)) return mk(maskb((u64)(i64)k, bits)); } fail("integer part of a symbolic value beyond 4"); }
  Val fewInt(Val a, unsigned bits, bool sgn, bool sp) { static const u64 T[] = {0, 1, 2, 3, 5, 16777217ull, 9007199254740993ull, 0xfffffffffffffffdull}; if (a.k != SYM) fail("int to fp"); z3::expr x = toBV(a, bits); for (u64 t : T) { u64 m = maskb(t, bits); if (branch(x == Z->bv_val((uint64_t)m, bits))) { double d = sgn ? (double)sext(m, bits) : (double)m; return mk(of_d(sp ? (double)(float)d : d)); } } fail("conversion of a symbolic integer"); }
  Val cast(DInst &I, Val a) {
    if (a.k == RAW && (I.sub == Instruction::BitCast || I.sub == Instruction::PtrToInt || I.sub == Instruction::IntToPtr)) return a;
    if (!isD(a)) return undefv();
    switch (I.sub) {
      case Instruction::Trunc: if (a.k == CONC) return mk(maskb(a.c, I.bits)); if (I.bits == 1) { z3::expr e = ex(a); if (e.is_bool()) return a; return fromBV(e.extract(0, 0) == Z->bv_val(1, 1)); } return fromBV(toBV(a, I.sbits).extract(I.bits - 1, 0));
      case Instruction::ZExt: if (a.k == CONC) return a; return fromBV(toBV(a, I.bits));
      case Instruction::SExt: if (a.k == CONC) return mk(maskb((u64)sext(a.c, I.sbits), I.bits)); if (I.sbits == 1) return fromBV(z3::ite(toBool(a), ~Z->bv_val(0, I.bits), Z->bv_val(0, I.bits))); return fromBV(z3::sext(toBV(a, I.sbits), I.bits - I.sbits));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return a;
      case Instruction::FPExt: return a;
      case Instruction::FPTrunc: return narrow(a);
      case Instruction::SIToFP: if (a.k == CONC && (I.tk == 2 || I.tk == 5)) { i64 s = sext(a.c, I.sbits); return mk(of_d(I.tk == 5 ? (double)(float)s : (double)s)); } return fewInt(a, I.sbits, true, I.tk == 5);
      case Instruction::UIToFP: if (a.k == CONC && (I.tk == 2 || I.tk == 5)) return mk(of_d(I.tk == 5 ? (double)(float)maskb(a.c, I.sbits) : (double)maskb(a.c, I.sbits))); if (a.k == SYM && ex(a).is_bool()) return branch(ex(a)) ? mk(of_d(1)) : mk(of_d(0)); return fewInt(a, I.sbits, false, I.tk == 5);
      case Instruction::FPToSI: case Instruction::FPToUI: if (a.k == CONC && (I.stk == 2 || I.stk == 5)) return mk(maskb((u64)(i64)d_of(a.c), I.bits)); if (a.k == SYM && (I.stk == 2 || I.stk == 5)) return integerPart(a, I.bits, I.sub == Instruction::FPToSI); fail("fp to int");
      default: fail("unsupported cast"); }
  }
  bool truth(const Val &v) { if (v.k == CONC) return v.c & 1; if (v.k == SYM) return branch(toBool(v)); viol("uninit", "branch depends on an uninitialised value"); }
  // ---------------- control
  void jump(Frame &f, int to) {
    auto it = f.f->blocks[to].in.find(f.blk); if (it == f.f->blocks[to].in.end()) fail("bad edge");
    auto &mv = it->second.moves; if (mv.size() == 1) f.r[mv[0].first] = op(f, mv[0].second); else if (mv.size()) { Val tmp[64]; vector<Val> big; Val *t = tmp; if (mv.size() > 64) { big.resize(mv.size()); t = big.data(); } for (size_t i = 0; i < mv.size(); i++) t[i] = op(f, mv[i].second); for (size_t i = 0; i < mv.size(); i++) f.r[mv[i].first] = t[i]; }
    f.blk = to; f.ip = 0; }
  void pushFrame(DFunc *d, const vector<Val> &args, int retDst) {
    decode(d); if (d->blocks.empty()) fail("call of undefined function " + d->name);
    if (st.size() > opt.depth_limit) viol("nontermination", "call depth limit exceeded (unbounded recursion?)");
    st.emplace_back(); Frame &f = st.back(); f.f = d; f.blk = 0; f.ip = 0; f.retDst = retDst; f.r.resize(d->nslots); for (size_t i = 0; i < args.size() && i < d->F->arg_size(); i++) f.r[i] = args[i];
    g_funcsRaw.insert(d); }
  std::unordered_set<DFunc *> g_funcsRaw;
  void popFrame() { Frame &f = st.back(); for (u64 a : f.allocas) objs[a].live = false; if (reuse) for (size_t i = f.allocas.size(); i-- > 0;) bins[objs[f.allocas[i]].size | 1ull << 62].push_back(f.allocas[i]); st.pop_back(); }
  void ret(const Val &v) {
    Frame &f = st.back(); bool disc = f.discard; u64 fo = f.freeOnRet; popFrame(); if (fo) freeObj(fo, OK_EXN);
    if (st.empty()) return; Frame &c = st.back(); DInst &I = c.f->blocks[c.blk].ins[c.ip - 1];
    if (!disc && I.dst >= 0) c.r[I.dst] = v;
    if (I.op == I_INVOKE) jump(c, I.b); }
  void nret(Frame &c, DInst &I, const Val &v) { if (I.dst >= 0) c.r[I.dst] = v; if (I.op == I_INVOKE) jump(c, I.b); }
  // ---------------- RTTI / exceptions
  string tiNameOf(u64 ti) { auto it = tiName.find(ti); return it == tiName.end() ? "?" : demangle(it->second); }
  string tiKind(u64 ti) { u64 vt = rd64(ti); u64 id = vt >> OBJ_SHIFT; auto it = tiName.find(addr_of(id)); return it == tiName.end() ? "" : it->second; }
  void bases(u64 ti, vector<std::pair<u64, std::pair<i64, bool>>> &out) { // (ti,(offset or vbase offset,virtual))
    string k = tiKind(ti); if (k.find("si_class") != string::npos) out.push_back({rd64(ti + 16), {0, false}});
    else if (k.find("vmi_class") != string::npos) { Val n = load(ti + 20, 4, 0, 32); for (u64 i = 0; i < n.c; i++) { u64 b = rd64(ti + 24 + 16 * i); i64 fl = (i64)rd64(ti + 32 + 16 * i); out.push_back({b, {fl >> 8, (fl & 1) != 0}}); } } }
  bool upcast(u64 ti, u64 to, u64 obj, u64 &res, int depth = 0) { if (ti == to) { res = obj; return true; } if (depth > 30) return false; vector<std::pair<u64, std::pair<i64, bool>>> b; bases(ti, b);
    for (auto &x : b) { i64 off = x.second.first; if (x.second.second) off = (i64)rd64(rd64(obj) + off); if (upcast(x.first, to, obj + off, res, depth + 1)) return true; } return false; }
  u64 curSel = 0; vector<u64> typeIds; 
  u64 typeId(u64 ti) { for (size_t i = 0; i < typeIds.size(); i++) if (typeIds[i] == ti) return i + 1; typeIds.push_back(ti); return typeIds.size(); }
  map<u64, u64> adjusted;
  void unwind(u64 exn, bool popFirst) {
    if (popFirst) popFrame();
    for (;;) {
      if (st.empty()) { viol("exception", "uncaught exception of type " + tiNameOf(exns[exn].ti)); }
      Frame &f = st.back(); DInst &I = f.f->blocks[f.blk].ins[f.ip - 1];
      if (I.op == I_INVOKE) { DBlock &lb = f.f->blocks[I.c]; if (lb.ins.empty() || lb.ins[0].op != I_LPAD) fail("no landing pad"); Aux &ax = f.f->aux[lb.ins[0].aux]; bool enter = false; u64 sel = 0;
        for (auto &cl : ax.clauses) { if (cl.second) { Val fv = op(f, cl.first); (void)fv; viol("terminate", "exception specification violated by " + tiNameOf(exns[exn].ti)); }
          Val t = op(f, cl.first); u64 tr = exn; if (t.c == 0 || upcast(exns[exn].ti, t.c, exn, tr)) { enter = true; sel = typeId(t.c); if (t.c && tiName.count(exns[exn].ti) && tiName[exns[exn].ti].compare(0, 5, "_ZTIP") == 0) tr = rd64(tr); adjusted[exn] = tr; break; } }
        if (!enter && ax.cleanup) { enter = true; sel = 0; }
        if (enter) { curExn = exn; curSel = sel; jump(f, I.c); return; } }
      popFrame(); } }
  // ---------------- step
  void call(Frame &f, DInst &I) {
    Aux &ax = f.f->aux[I.aux]; DFunc *d = ax.callee; int nat = ax.native;
    if (ax.indirect) { Val p = op(f, I.a); u64 a = p.k == UNDEF || p.k == RAW ? (viol("uninit", "call through uninitialised pointer"), 0) : concretize(p, 64); auto it = faddr.find(a); if (it == faddr.end()) viol("memory", "call through invalid function pointer"); d = it->second; if (d->native == -2) d->native = nativeOf(d->name); nat = d->native; if (nat == N_NONE && d->F->isDeclaration()) fail("unsupported external function " + d->name); }
    else if (ax.unsupported) { DFunc *dd = ax.callee; fail("unsupported external function " + dd->name); }
    if (nat > 0) { native(f, I, ax, nat); return; }
    vector<Val> args(ax.args.size()); for (size_t i = 0; i < args.size(); i++) args[i] = op(f, ax.args[i]);
    // byval pointers: copy
    if (d->F->arg_size() == args.size()) for (unsigned i = 0; i < args.size(); i++) if (d->F->hasParamAttribute(i, Attribute::ByVal)) { u64 sz = DL->getTypeAllocSize(d->F->getParamByValType(i)); u64 id = newObj(sz, OK_STACK); copyMem(addr_of(id), args[i].c, sz); args[i] = mk(addr_of(id)); }
    pushFrame(d, args, I.dst); }
  void run(DFunc *entry) {
    pushFrame(entry, {}, -1);
    while (!st.empty()) {
      Frame &f = st.back(); DInst &I = f.f->blocks[f.blk].ins[f.ip++];
      if (++steps > opt.step_limit) viol("nontermination", "step limit exceeded (infinite loop?)");
      switch (I.op) {
        case I_BIN: if (I.bits == 0) fail("vector op"); f.r[I.dst] = ibin(I.sub, op(f, I.a), op(f, I.b), I.bits); break;
        case I_FBIN: if (I.tk != 2 && I.tk != 5) fail("vector fp op"); { Val v = fbin(I.sub, op(f, I.a), op(f, I.b)); f.r[I.dst] = I.tk == 5 ? narrow(v) : v; } break;
        case I_FNEG: { Val a = op(f, I.a); if (I.tk != 2 && I.tk != 5) fail("vector fneg"); if (a.k == CONC) f.r[I.dst] = mk(of_d(d_of(a.c) == 0 ? 0.0 : -d_of(a.c))); else if (a.k == SYM) f.r[I.dst] = symv(-ex(a)); else f.r[I.dst] = undefv(); break; }
        case I_ICMP: if (I.sbits == 0) fail("vector icmp"); f.r[I.dst] = icmp(I.sub, op(f, I.a), op(f, I.b), I.sbits); break;
        case I_FCMP: if (I.stk != 2 && I.stk != 5) fail("vector fcmp"); f.r[I.dst] = fcmp(I.sub, op(f, I.a), op(f, I.b)); break;
        case I_LOAD: { if (I.bits == 0) fail("aggregate/vector load"); Val p = op(f, I.a); u64 a = concretize(p, 64); Val v = load(a, I.imm, I.tk, I.bits); if (I.tk == 5) { if (v.k == CONC) { float x; u32 b = (u32)v.c; memcpy(&x, &b, 4); v = mk(of_d((double)x)); } else if (v.k != UNDEF && !(v.k == SYM && ex(v).is_real())) fail("symbolic float"); } if (I.bits == 1 && v.k == SYM && ex(v).is_bv()) v = fromBV(ex(v).extract(0, 0) == Z->bv_val(1, 1)); st.back().r[I.dst] = v; break; }
        case I_STORE: { if (I.stk == 3 || I.stk == 6) { Val v = op(f, I.a); if (v.k == UNDEF) { break; } if (v.k == AGG) { storeAgg(cast_<StoreInst>(I.src)->getValueOperand()->getType(), v, concretize(op(f, I.b), 64)); break; } fail("vector store"); } u64 a = concretize(op(f, I.b), 64); Val v = op(f, I.a); if (I.stk == 5) { if (v.k == CONC) { float x = (float)d_of(v.c); u32 b; memcpy(&b, &x, 4); v = mk(b); } else if (v.k != UNDEF && v.k != SYM) fail("symbolic float"); } if (v.k == CONC && I.imm < 8) v.c = maskb(v.c, I.imm * 8); store(a, I.imm, v); break; }
        case I_GEP: { Val b = op(f, I.a); Aux &ax = f.f->aux[I.aux]; if (!isD(b)) { f.r[I.dst] = undefv(); break; } bool sym = b.k == SYM; i64 off = I.imm; bool und = false; 
          for (size_t i = 0; i < ax.gep.size(); i++) { Val x = op(f, ax.gep[i].first); if (x.k == SYM) sym = true; else if (x.k != CONC) und = true; else off += sext(x.c, ax.argbits[i]) * ax.gep[i].second; }
          if (und) { f.r[I.dst] = undefv(); break; }
          if (!sym) { f.r[I.dst] = mk(b.c + off); break; }
          z3::expr e = toBV(b, 64) + Z->bv_val((uint64_t)off, 64); for (size_t i = 0; i < ax.gep.size(); i++) { Val x = op(f, ax.gep[i].first); if (x.k == SYM) { z3::expr xe = toBV(x, ax.argbits[i]); if (ax.argbits[i] < 64) xe = z3::sext(xe, 64 - ax.argbits[i]); e = e + xe * Z->bv_val((uint64_t)ax.gep[i].second, 64); } }
          f.r[I.dst] = fromBV(e); break; }
        case I_CAST: f.r[I.dst] = cast(I, op(f, I.a)); break;
        case I_SELECT: { Val c = op(f, I.a); Val t = op(f, I.b), e = op(f, I.c); if (c.k == UNDEF || c.k == RAW) { f.r[I.dst] = undefv(); break; }
          if (c.k == SYM && I.bits == 1 && isD(t) && isD(e)) { f.r[I.dst] = fromBV(z3::ite(toBool(c), toBool(t), toBool(e))); break; }
          if (c.k == SYM && I.tk == 0 && isD(t) && isD(e)) { f.r[I.dst] = fromBV(z3::ite(toBool(c), toBV(t, I.bits), toBV(e, I.bits))); break; }
          bool b = truth(c); st.back().r[I.dst] = b ? t : e; break; }
        case I_BR: jump(f, I.b); break;
        case I_CBR: { bool b = truth(op(f, I.a)); jump(st.back(), b ? I.b : I.c); break; }
        case I_SWITCH: { Val v = op(f, I.a); Aux &ax = f.f->aux[I.aux]; if (v.k == UNDEF || v.k == RAW) viol("uninit", "switch on an uninitialised value"); int t = I.b; 
          if (v.k == CONC) { for (auto &c : ax.cases) if (c.v == v.c) { t = c.blk; break; } } else { for (auto &c : ax.cases) if (branch(toBV(v, I.sbits) == Z->bv_val((uint64_t)c.v, I.sbits))) { t = c.blk; break; } }
          jump(st.back(), t); break; }
        case I_RET: ret(I.b ? op(f, I.a) : undefv()); break;
        case I_CALL: case I_INVOKE: call(f, I); break;
        case I_ALLOCA: { Val n = op(f, I.a); u64 id = newObj(I.imm * (n.k == CONC ? n.c : 1), OK_STACK); f.allocas.push_back(id); f.r[I.dst] = mk(addr_of(id)); break; }
        case I_LPAD: f.r[I.dst] = newAgg({mk(curExn), mk(curSel)}); break;
        case I_RESUME: { Val v = op(f, I.a); u64 e = agg(v)[0].c; unwind(e, true); break; }
        case I_EXTRACT: { Val v = op(f, I.a); Aux &ax = f.f->aux[I.aux]; for (unsigned i : ax.idx) { if (v.k == UNDEF) break; v = agg(v)[i]; } f.r[I.dst] = v; break; }
        case I_INSERT: { Val v = op(f, I.a); Aux &ax = f.f->aux[I.aux]; if (ax.idx.size() != 1) fail("nested insertvalue"); vector<Val> n; if (v.k == UNDEF) n.resize(16); else n = agg(v); n[ax.idx[0]] = op(f, I.b); f.r[I.dst] = newAgg(n); break; }
        case I_UNREACH: viol("ub", "undefined behaviour reached (unreachable; e.g. missing return)");
        case I_FREEZE: { Val v = op(f, I.a); f.r[I.dst] = v.k == UNDEF ? mk(0) : v; break; }
        case I_NOP: break;
        case I_ARMW: { u64 a = concretize(op(f, I.a), 64); Val v = load(a, I.imm, I.tk, I.bits), w = op(f, I.b), r; int o = I.sub; // one thread: a read, an operation and a write
          if (o == AtomicRMWInst::Xchg) r = w; else r = ibin(o == AtomicRMWInst::Add ? Instruction::Add : o == AtomicRMWInst::Sub ? Instruction::Sub : o == AtomicRMWInst::And ? Instruction::And : o == AtomicRMWInst::Or ? Instruction::Or : o == AtomicRMWInst::Xor ? Instruction::Xor : (fail("atomic operation"), Instruction::Add), v, w, I.bits);
          if (r.k == CONC && I.imm < 8) r.c = maskb(r.c, I.imm * 8); store(a, I.imm, r); st.back().r[I.dst] = v; break; }
        case I_CMPX: { u64 a = concretize(op(f, I.a), 64); Val v = load(a, I.imm, I.stk, I.sbits); Val c = icmp(ICmpInst::ICMP_EQ, v, op(f, I.b), I.sbits); bool eq = c.k == SYM ? branch(ex(c)) : c.c & 1; if (eq) store(a, I.imm, op(st.back(), I.c)); st.back().r[I.dst] = newAgg({v, mk(eq)}); break; }
        default: { string s; raw_string_ostream os(s); I.src->print(os); fail("unsupported instruction " + s); }
      } } }
  template <class T> static const T *cast_(const Instruction *i) { return llvm::cast<T>(i); }
  void storeAgg(Type *t, const Val &v, u64 a) { vector<Val> x = agg(v); if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) { Type *e = s->getElementType(i); if (bitsOf(e) == 0) fail("nested agg store"); store(a + sl->getElementOffset(i), DL->getTypeStoreSize(e), x[i]); } } else fail("array agg store"); }
  // ---------------- natives
  u64 argU(Frame &f, Aux &ax, int i) { Val v = op(f, ax.args[i]); if (v.k == UNDEF || v.k == RAW) viol("uninit", "uninitialised argument to " + ax.name); return concretize(v, ax.argbits[i] ? ax.argbits[i] : 64); }
  string nameOf(const string &n) { int k = nameCount[n]++; return k ? n + "#" + std::to_string(k) : n; }
  void throwStd(u64) {}
  int tokOf(const z3::expr &e) { auto it = tokIx.find(e.id()); if (it != tokIx.end()) return it->second; tokens.push_back(e); int k = tokens.size() - 1; tokIx[e.id()] = k; return k; }
  string fmtDouble(Val v, int prec, char mode) { // a symbolic number prints as sign and token; a format with fewer digits than the default prints another number
    if (v.k == UNDEF || v.k == RAW) viol("uninit", "printing uninitialised value"); char t[500], pf[8] = {'%', '.', '*', mode, 0};
    if (v.k == CONC) { snprintf(t, sizeof t, pf, prec, d_of(v.c)); return t; }
    bool lossy = mode == 'f' || prec < (mode == 'e' ? 5 : 6); z3::expr e = ex(v); bool neg = branch(e < Z->real_val(0)); z3::expr m = neg ? (-e).simplify() : e;
    if (lossy) { m = SV->uf("prn" + string(1, mode) + std::to_string(prec), m); SV->printed = true; }
    pins.push_back(m); snprintf(t, sizeof t, "%s<#%d>", neg ? "-" : "", tokOf(m)); return t; }
  string fmtInt(Val v, bool sg) {
    if (v.k == UNDEF || v.k == RAW) viol("uninit", "printing uninitialised value"); char t[64];
    if (v.k == CONC) { if (sg) snprintf(t, sizeof t, "%" PRId64, (i64)v.c); else snprintf(t, sizeof t, "%" PRIu64, v.c); return t; }
    z3::expr e = toBV(v, 64); pins.push_back(e); snprintf(t, sizeof t, "<#%d>", tokOf(e)); return t; }
  void native(Frame &f, DInst &I, Aux &ax, int nat) {
    switch (nat) {
      case N_ignore: nret(f, I, undefv()); return;
      case N_lifetime: { // the contents of a local variable are lost when its lifetime ends
        Val pv = op(f, ax.args[1]); if (pv.k == CONC && pv.c) { u64 off; Obj &o = find(pv.c, 0, off, true, "lifetime"); if (o.kind == OK_STACK && o.size > off) { u64 n = o.size - off; clearCells(o, off, n); memset(&o.st[off], 0, n); } } nret(st.back(), I, undefv()); return; }
      case N_ret0: nret(f, I, mk(0)); return;
      case N_ret1: nret(f, I, mk(1)); return;
      case N_retarg0: nret(f, I, op(f, ax.args[0])); return;
      case N_new: case N_newarr: case N_malloc: case N_calloc: { u64 n = argU(f, ax, 0); if (nat == N_calloc) n *= argU(f, ax, 1); if (n > (1ull << 24)) viol("memory", "huge allocation"); u64 id = newObj(n, nat == N_new ? OK_NEW : nat == N_newarr ? OK_NEWARR : OK_MALLOC, nat == N_calloc); heapLive++; nret(st.back(), I, mk(addr_of(id))); return; }
      case N_delete: case N_deletearr: case N_free: { u64 a = argU(f, ax, 0); freeObj(a, nat == N_delete ? OK_NEW : nat == N_deletearr ? OK_NEWARR : OK_MALLOC); nret(st.back(), I, undefv()); return; }
      case N_memcpy: { u64 d = argU(f, ax, 0), s = argU(f, ax, 1), n = argU(f, ax, 2); copyMem(d, s, n); nret(st.back(), I, mk(d)); return; }
      case N_memset: { u64 d = argU(f, ax, 0), n = argU(f, ax, 2); Val b = op(f, ax.args[1]); if (n) { u64 off; Obj &o = find(d, n, off, true, "memset"); clearCells(o, off, n); if (b.k == CONC) { memset(&o.data[off], (int)b.c, n); memset(&o.st[off], 1, n); } else memset(&o.st[off], 0, n); } nret(st.back(), I, mk(d)); return; }
      case N_memchr: { u64 a = argU(f, ax, 0), c = argU(f, ax, 1), n = argU(f, ax, 2); u64 r = 0; for (u64 i = 0; i < n; i++) { u64 x = concretize(load(a + i, 1, 0, 8), 8); if (x == (c & 255)) { r = a + i; break; } } nret(st.back(), I, mk(r)); return; }
      case N_memcmp: { u64 a = argU(f, ax, 0), b = argU(f, ax, 1), n = argU(f, ax, 2); i64 r = 0; for (u64 i = 0; i < n; i++) { Val vx = load(a + i, 1, 0, 8), vy = load(b + i, 1, 0, 8); u64 x = concretize(vx, 8), y = concretize(vy, 8); if (x != y) { r = x < y ? -1 : 1; break; } } nret(st.back(), I, mk(maskb((u64)r, 32))); return; }
      case N_strlen: { string s = cstr(argU(f, ax, 0)); nret(st.back(), I, mk(s.size())); return; }
      case N_strcmp: { string s = cstr(argU(f, ax, 0)), t = cstr(argU(f, ax, 1)); int r = s < t ? -1 : s > t ? 1 : 0; nret(st.back(), I, mk(maskb((u64)(i64)r, 32))); return; }
      case N_abort: viol("abort", "abort() called");
      case N_assertfail: viol("assert", "library assertion failed: " + cstr(argU(f, ax, 0)));
      case N_terminate: viol("terminate", "std::terminate called");
      case N_purevirt: viol("memory", "pure virtual function called");
      case N_trap: viol("ub", "trap reached");
      case N_cxa_allocexn: { u64 n = argU(f, ax, 0); u64 id = newObj(n, OK_EXN); nret(st.back(), I, mk(addr_of(id))); return; }
      case N_cxa_freeexn: { freeObj(argU(f, ax, 0), OK_EXN); nret(st.back(), I, undefv()); return; }
      case N_cxa_throw: { u64 o = argU(f, ax, 0); exns[o] = ExnInfo{argU(f, ax, 1), argU(f, ax, 2), 0}; unwind(o, false); return; }
      case N_cxa_begin: { u64 o = argU(f, ax, 0); caught.push_back(o); rethrown.erase(o); exns[o].handlers++; u64 a = adjusted.count(o) ? adjusted[o] : o; nret(f, I, mk(a)); return; }
      case N_cxa_getptr: { u64 o = argU(f, ax, 0); nret(f, I, mk(adjusted.count(o) ? adjusted[o] : o)); return; }
      case N_cxa_rethrow: { if (caught.empty()) viol("terminate", "rethrow without exception"); u64 o = caught.back(); rethrown.insert(o); unwind(o, false); return; }
      case N_cxa_end: { if (caught.empty()) fail("end_catch"); u64 o = caught.back(); caught.pop_back(); ExnInfo &x = exns[o]; x.handlers--;
        if (x.handlers == 0 && !rethrown.count(o)) { if (x.dtor) { DFunc *d = faddr[x.dtor]; if (d && !d->F->isDeclaration()) { pushFrame(d, {mk(o)}, -1); st.back().discard = true; st.back().freeOnRet = o; return; } } freeObj(o, OK_EXN); }
        nret(st.back(), I, undefv()); return; }
      case N_dyncast: { u64 p = argU(f, ax, 0), dst = argU(f, ax, 2); u64 vt = rd64(p); i64 top = (i64)rd64(vt - 16); u64 ti = rd64(vt - 8); u64 md = p + top; u64 r = 0; u64 res; if (upcast(ti, dst, md, res)) r = res; nret(st.back(), I, mk(r)); return; }
      case N_badcast: viol("exception", "std::bad_cast");
      case N_guard_acq: { u64 a = argU(f, ax, 0); Val v = load(a, 1, 0, 8); nret(st.back(), I, mk(v.k == CONC && v.c ? 0 : 1)); return; }
      case N_guard_rel: { u64 a = argU(f, ax, 0); store(a, 1, mk(1)); nret(st.back(), I, undefv()); return; }
      case N_exc_what: { static const char *w = "std::exception"; (void)w; u64 id = newObj(15, OK_GLOBAL); writeBytes(addr_of(id), "std::exception", true); nret(st.back(), I, mk(addr_of(id))); return; }
      case N_m_sin: case N_m_cos: case N_m_tan: case N_m_exp: case N_m_log: case N_m_log10: case N_m_sqrt: case N_m_fabs: case N_m_floor: { Val r = math(nat, op(f, ax.args[0])); nret(st.back(), I, r); return; }
      case N_m_pow: { Val a = op(f, ax.args[0]), b = op(f, ax.args[1]); if (b.k == CONC) { double e = d_of(b.c); if (e == floor(e) && fabs(e) <= 16) { Val r = mk(of_d(1)); for (int i = 0; i < (int)fabs(e); i++) r = fbin(Instruction::FMul, r, a); if (e < 0) r = fbin(Instruction::FDiv, mk(of_d(1)), r); nret(st.back(), I, r); return; } if (e == 0.5) { nret(st.back(), I, math(N_m_sqrt, a)); return; } } fail("pow"); }
      case N_m_fmuladd: { Val r = fbin(Instruction::FAdd, fbin(Instruction::FMul, op(f, ax.args[0]), op(f, ax.args[1])), op(f, ax.args[2])); nret(st.back(), I, r); return; }
      case N_umax: case N_umin: case N_smax: case N_smin: { Val a = op(f, ax.args[0]), b = op(f, ax.args[1]); unsigned p = nat == N_umax ? ICmpInst::ICMP_UGE : nat == N_umin ? ICmpInst::ICMP_ULE : nat == N_smax ? ICmpInst::ICMP_SGE : ICmpInst::ICMP_SLE; Val c = icmp(p, a, b, I.bits); if (c.k == UNDEF) { nret(f, I, undefv()); return; } if (c.k == SYM) nret(f, I, fromBV(z3::ite(toBool(c), toBV(a, I.bits), toBV(b, I.bits)))); else nret(f, I, c.c ? a : b); return; }
      case N_iabs: { Val a = op(f, ax.args[0]); if (a.k == CONC) { i64 s = sext(a.c, I.bits); nret(f, I, mk(maskb((u64)(s < 0 ? -s : s), I.bits))); } else if (a.k == SYM) { z3::expr x = toBV(a, I.bits); nret(f, I, fromBV(z3::ite(x < Z->bv_val(0, I.bits), -x, x))); } else nret(f, I, undefv()); return; }
      case N_uaddo: case N_usubo: case N_umulo: case N_saddo: case N_ssubo: case N_smulo: { Val a = op(f, ax.args[0]), b = op(f, ax.args[1]); unsigned w = ax.argbits[0]; if (a.k == SYM) a = mk(concretize(a, w)); if (b.k == SYM) b = mk(concretize(b, w)); if (a.k != CONC || b.k != CONC) { nret(st.back(), I, newAgg({undefv(), undefv()})); return; }
        __int128 x, y, r; bool sg = nat == N_saddo || nat == N_ssubo || nat == N_smulo; if (sg) { x = sext(a.c, w); y = sext(b.c, w); } else { x = a.c; y = b.c; } r = (nat == N_uaddo || nat == N_saddo) ? x + y : (nat == N_usubo || nat == N_ssubo) ? x - y : x * y; u64 m = maskb((u64)r, w); __int128 back = sg ? (__int128)sext(m, w) : (__int128)m; nret(st.back(), I, newAgg({mk(m), mk(back != r)})); return; }
      case N_usubsat: { Val a = op(f, ax.args[0]), b = op(f, ax.args[1]); if (a.k == CONC && b.k == CONC) { nret(f, I, mk(a.c > b.c ? a.c - b.c : 0)); return; } if (!isD(a) || !isD(b)) { nret(f, I, undefv()); return; } z3::expr x = toBV(a, I.bits), y = toBV(b, I.bits); nret(f, I, fromBV(z3::ite(z3::ugt(x, y), x - y, Z->bv_val(0, I.bits)))); return; }
      case N_uaddsat: { u64 a = argU(f, ax, 0), b = argU(f, ax, 1); u64 r = maskb(a + b, I.bits); nret(st.back(), I, mk(r < a ? maskb(~0ull, I.bits) : r)); return; }
      case N_ctlz: { u64 a = argU(f, ax, 0); nret(st.back(), I, mk(a ? __builtin_clzll(a) - (64 - I.bits) : I.bits)); return; }
      case N_cttz: { u64 a = argU(f, ax, 0); nret(st.back(), I, mk(a ? __builtin_ctzll(a) : I.bits)); return; }
      case N_ctpop: { u64 a = argU(f, ax, 0); nret(st.back(), I, mk(__builtin_popcountll(a))); return; }
      case N_fshl: case N_fshr: { u64 a = argU(f, ax, 0), b = argU(f, ax, 1), s = argU(f, ax, 2) % I.bits; unsigned w = I.bits; u64 r; if (nat == N_fshl) r = s ? (a << s) | (b >> (w - s)) : a; else r = s ? (a << (w - s)) | (b >> s) : b; nret(st.back(), I, mk(maskb(r, w))); return; }
      case N_bswap: { u64 a = argU(f, ax, 0); u64 r = __builtin_bswap64(a) >> (64 - I.bits); nret(st.back(), I, mk(r)); return; }
      case N_typeid_for: { nret(f, I, mk(typeId(op(f, ax.args[0]).c))); return; }
      case N_is_constant: nret(f, I, mk(0)); return;
      case N_isfpclass: { Val a = op(f, ax.args[0]); u64 m = op(f, ax.args[1]).c; if (a.k == SYM) { // finite
            if ((m & 0x1f8) == 0) { nret(f, I, mk(0)); return; } if ((m & 0x1f8) == 0x1f8) { nret(f, I, mk(1)); return; } fail("is.fpclass"); } double d = d_of(a.c); bool r = false; if (std::isnan(d)) r = m & 3; else if (std::isinf(d)) r = d < 0 ? (m & 4) : (m & 512); else if (d == 0) r = m & 0x60; else r = d < 0 ? (m & 0x18) : (m & 0x180); nret(f, I, mk(r)); return; }
      // ------------------------------------------------ harness interface
      case N_se_real: { string n = nameOf(cstr(argU(f, ax, 0))); z3::expr v = Z->real_const(n.c_str()); pins.push_back(v); inputs.push_back(Input{'r', n, (Z3_ast)v, 0}); nret(st.back(), I, symv(v)); return; }
      case N_se_u64: { string n = nameOf(cstr(argU(f, ax, 0))); z3::expr v = Z->bv_const(n.c_str(), 64); pins.push_back(v); inputs.push_back(Input{'u', n, (Z3_ast)v, 0}); nret(st.back(), I, symv(v)); return; }
      case N_se_choice: { u64 n = argU(f, ax, 0); string nm = cstr(argU(f, ax, 1)); u64 v = choice(n); inputs.push_back(Input{'c', nm, nullptr, v}); nret(st.back(), I, mk(v)); return; }
      case N_se_assume: { Val b = op(f, ax.args[0]); if (b.k == UNDEF) viol("uninit", "assume on uninitialised value"); if (b.k == CONC) { if (!b.c) throw PathEnd{"infeasible", ""}; } else { z3::expr e = boolOfInt(b).simplify(); if (e.is_false()) throw PathEnd{"infeasible", ""}; if (!e.is_true()) { if (sat(e) == R_UNSAT) throw PathEnd{"infeasible", ""}; assume(e); } } nret(st.back(), I, undefv()); return; }
      case N_se_defined: { Val v = op(f, ax.args[0]); if (nonfin(v)) throw PathEnd{"infeasible", ""}; if (v.k == UNDEF) viol("uninit", "uninitialised value"); if (v.k == SYM) { for (auto &q : SV->dom(ex(v))) { if (SV->check(pc, {q}, nullptr, false) == R_UNSAT) throw PathEnd{"infeasible", ""}; pc.push_back(q); } } nret(st.back(), I, undefv()); return; }
      case N_se_assert: { Val b = op(f, ax.args[0]); string msg = cstr(argU(f, ax, 1)); S.asserts++; g_sites[msg]++; 
        if (b.k == UNDEF || b.k == RAW) viol("uninit", "assertion over uninitialised value: " + msg);
        if (b.k == CONC) { S.queries++; S.syntactic++; if (!b.c) viol("assert", msg); g_nonvac[msg]++; nret(st.back(), I, undefv()); return; }
        z3::expr e = boolOfInt(b).simplify(); pins.push_back(e); vacuity(msg);
        vector<z3::expr> g{SV->lowb(!e)}; int r = SV->check(pc, g, nullptr, false);
        if (r != R_UNSAT) { string in; bool gm; bool ok = findPoint(g, [&](const map<unsigned, double> &en, std::unordered_map<unsigned, double> &memo) { int q = numBool(e, en, memo); return q == 0 || (q < 0 && r == R_SAT) ? 1 : 0; }, in, gm); if (ok) record("assert", msg, in); else inconclusive(r == R_SAT ? "spurious: " + msg : "unknown: " + msg);
          if (sat(e) == R_UNSAT) throw PathEnd{"viol", msg}; assume(e); }
        nret(st.back(), I, undefv()); return; }
      case N_se_eq: case N_se_eqw: case N_se_eqr: { Val a = op(f, ax.args[0]), b = op(f, ax.args[1]); string msg = cstr(argU(f, ax, 2)); checkEq(a, b, msg, nat != N_se_eqw, nat == N_se_eqr); nret(st.back(), I, undefv()); return; }
      case N_se_note: { notes.push_back(cstr(argU(f, ax, 0))); if (notes.size() > 12) notes.erase(notes.begin()); nret(st.back(), I, undefv()); return; }
      case N_se_reach: { g_reach[cstr(argU(f, ax, 0))]++; nret(st.back(), I, undefv()); return; }
      case N_se_print: { if (opt.verbose) fprintf(stderr, "[print] %s\n", cstr(argU(f, ax, 0)).c_str()); else (void)cstr(argU(f, ax, 0)); nret(st.back(), I, undefv()); return; }
      case N_se_sym: { nret(f, I, mk(1)); return; }
      case N_se_reuse: { reuse = argU(f, ax, 0) != 0; if (!reuse) bins.clear(); nret(st.back(), I, undefv()); return; }
      case N_se_heap: { nret(f, I, mk(heapLive)); return; }
      case N_se_stop: throw PathEnd{"ok", ""};
      case N_se_fmt_double: { int pm = (int)argU(f, ax, 1); string t = fmtDouble(op(f, ax.args[0]), pm & 255, (pm >> 8) == 1 ? 'f' : (pm >> 8) == 2 ? 'e' : 'g'); writeBytes(argU(f, ax, 2), t.c_str(), true); nret(st.back(), I, mk(t.size())); return; }
      case N_se_fmt_i64: case N_se_fmt_u64: { string t = fmtInt(op(f, ax.args[0]), nat == N_se_fmt_i64); writeBytes(argU(f, ax, 1), t.c_str(), true); nret(st.back(), I, mk(t.size())); return; }
      case N_snprintf: case N_sprintf: { // the conversions of numbers, characters and strings
        unsigned a = nat == N_snprintf ? 2 : 1; u64 cap = nat == N_snprintf ? argU(f, ax, 1) : 1 << 20; string fm = cstr(argU(f, ax, a)), t; a++;
        for (size_t i = 0; i < fm.size(); i++) { if (fm[i] != '%') { t += fm[i]; continue; } if (fm[++i] == '%') { t += '%'; continue; }
          int prec = 6, size = 4; if (fm[i] == '.') { prec = 0; i++; if (fm[i] == '*') { prec = (int)argU(f, ax, a++); i++; } else while (isdigit(fm[i])) prec = prec * 10 + (fm[i++] - '0'); }
          while (fm[i] == 'l' || fm[i] == 'z' || fm[i] == 'j') { size = 8; i++; }
          if (a >= ax.args.size()) fail("snprintf: too few arguments");
          switch (fm[i]) { case 'g': case 'f': case 'e': t += fmtDouble(op(f, ax.args[a++]), prec > 40 ? 40 : prec, fm[i]); break;
            case 'd': case 'i': case 'u': { Val v = op(f, ax.args[a++]); if (v.k == CONC && size == 4) v = mk(fm[i] == 'u' ? (u64)(uint32_t)v.c : (u64)(i64)(int32_t)v.c); t += fmtInt(v, fm[i] != 'u'); break; }
            case 's': t += cstr(argU(f, ax, a++)); break; case 'c': t += (char)argU(f, ax, a++); break; default: fail("snprintf: conversion " + fm); } }
        if (cap) { string w = t.substr(0, cap - 1); writeBytes(argU(f, ax, 0), w.c_str(), true); } nret(st.back(), I, mk(t.size())); return; }
      case N_se_token: case N_se_token_u64: { u64 k = argU(f, ax, 0); if (k >= tokens.size()) fail("bad token"); z3::expr e = tokens[k]; nret(st.back(), I, symv(e)); return; }
      default: fail("native " + ax.name); }
  }
  set<u64> rethrown;
  z3::expr boolOfInt(const Val &b) { z3::expr e = ex(b); if (e.is_bool()) return e; return e != Z->bv_val(0, e.get_sort().bv_size()); }
  void inconclusive(const string &m) { g_inconcl++; if (g_inconclMsgs.size() < 20) g_inconclMsgs.push_back(m + " @ " + inputString({}, nullptr, {}).substr(0, 400)); }
  void vacuity(const string &msg) { if (g_nonvac[msg] == 0) { if (SV->check(pc, {}, nullptr, true) == R_SAT) g_nonvac[msg]++; } else g_nonvac[msg]++; }
  // The two sides differ as exact reals, but only by rounded constants: decide |ref - got| <= 1e-9 (1 + |ref|) for all inputs of magnitude at most 8.
  bool agreesUpToRounding(vector<z3::expr> g, z3::expr ref, z3::expr got) {
    g.pop_back(); z3::expr eight = Z->real_val(8);
    for (auto &i : inputs) if (i.t == 'r') { z3::expr v(*Z, i.sym); g.push_back(v <= eight && v >= -eight); }
    z3::expr d = SV->lowb((ref - got) * (ref - got) > Z->real_val("1/1000000000000000000") * (Z->real_val(1) + ref * ref));
    g.push_back(d); z3::expr big = Z->real_val(4000); // values of elementary functions: at most 4000 in magnitude there (exp 8 = 2981)
    for (auto &u : SV->ufs) { z3::expr v = u.var; g.push_back(v <= big && v >= -big); map<unsigned, double> en; std::unordered_map<unsigned, double> memo; double y;
      if (u.arg.is_numeral() && numEval(SV->uf(u.f, u.arg), en, memo, y) && std::isfinite(y)) { z3::expr lo = toRealExact(y - 1e-15 * fabs(y)), hi = toRealExact(y + 1e-15 * fabs(y)); g.push_back(v >= lo && v <= hi); } }
    int r = SV->check(pc, g, nullptr, false); if (r == R_UNSAT) { g_rounded++; return true; } if (opt.verbose) fprintf(stderr, "RELAXED %d ref=%s got=%s\n", r, ref.to_string().c_str(), got.to_string().c_str()); return false; }
  void checkEq(Val a, Val b, const string &msg, bool strict, bool rel = false) { // rel: to be told apart by their leading digits, however small they are
    S.eqs++; g_sites[msg]++;
    if (a.k == UNDEF || b.k == UNDEF || a.k == RAW || b.k == RAW) viol("uninit", "comparison of uninitialised value: " + msg);
    if (nonfin(a)) { return; } // reference undefined on this path
    if (a.k == CONC && b.k == CONC) { S.queries++; S.syntactic++; double x = d_of(a.c), y = d_of(b.c); g_nonvac[msg]++; if (!(fabs(x - y) <= (rel ? 1e-5 * fabs(x) : 1e-12 * (1 + fabs(x))))) viol("eq", msg); return; }
    z3::expr ref = toReal(a); vector<z3::expr> dref = SV->dom(ref);
    double tolr = 1e-6;
    auto test = [&](const map<unsigned, double> &en, std::unordered_map<unsigned, double> &memo) -> int { double x, y; if (!numEval(ref, en, memo, x) || !std::isfinite(x)) return 0; if (nonfin(b)) return 1; if (!numEval(toReal(b), en, memo, y)) return 0; if (!std::isfinite(y)) return strict; return rel ? fabs(x - y) > 2e-5 * (fabs(x) + fabs(y)) : fabs(x - y) > tolr * (1 + fabs(x) + fabs(y)); };
    // is the reference defined anywhere on this path?
    if (nonfin(b)) { vector<z3::expr> g = dref; int r = SV->check(pc, g, nullptr, false); if (r == R_UNSAT) return; string in; bool gm; if (findPoint(g, test, in, gm)) record("eq", msg + " (result is not finite)", in); else inconclusive("spurious nonfinite: " + msg); throw PathEnd{"viol", msg}; }
    z3::expr got = toReal(b); 
    if (g_nonvac[msg] == 0) { if (SV->check(pc, dref, nullptr, true) == R_SAT) g_nonvac[msg]++; } else g_nonvac[msg]++;
    if (z3::eq(ref, got)) { // both sides were brought to the same term by Z3's simplifier; the solver confirms it once per term
      S.syntactic++; static std::unordered_set<unsigned> done; if (!done.insert(ref.id()).second) { S.queries++; S.cached++; return; }
      pins.push_back(ref); SV->pin(ref); z3::expr ne(*Z, Z3_mk_not(*Z, Z3_mk_eq(*Z, ref, got))); vector<z3::expr> q{ne}; if (SV->rawcheck(q, nullptr) != R_UNSAT) inconclusive("term identity: " + msg); return; }
    std::unordered_set<unsigned> have; for (auto &q : dref) have.insert(q.id());
    vector<z3::expr> dg = SV->dom(got); bool bad = false;
    if (strict) for (auto &q : dg) if (!have.count(q.id())) { vector<z3::expr> g = dref; g.push_back(!q); int r = SV->check(pc, g, nullptr, false); if (r == R_UNSAT) continue; string in; bool gm; bool ok = findPoint(g, test, in, gm); bad = true; if (ok) record("eq", msg + " (result undefined where the reference is defined)", in); else inconclusive(string(r == R_SAT ? "spurious domain: " : "unknown domain: ") + msg + " cond " + q.to_string().substr(0, 200)); break; }
    vector<z3::expr> g = dref; for (auto &q : dg) if (!have.count(q.id())) g.push_back(q);
    g.push_back(SV->lowb(!(ref == got))); int r = SV->check(pc, g, nullptr, false);
    if (r != R_UNSAT) { string in; bool gm; bool ok = findPoint(g, test, in, gm); bad = true; bool fine = false; 
      if (!ok) { tolr = 2e-9; fine = ok = findPoint(g, test, in, gm); tolr = 1e-6; } // small but real deviations
      if (!ok && agreesUpToRounding(g, ref, got)) bad = false;
      else if (ok) record(fine ? "eqfine" : "eq", msg, in); else { if (opt.verbose) fprintf(stderr, "SPURIOUS %s\n ref=%s\n got=%s\n", msg.c_str(), ref.to_string().c_str(), got.to_string().c_str()); inconclusive(string(r == R_SAT ? "spurious: " : "unknown: ") + msg); } }
    if (bad) throw PathEnd{"viol", msg};
  }
