static map<u64, string> tiName; // address -> global name
static u8 tkOf(Type *t) { if (t->isIntegerTy()) return 0; if (t->isPointerTy()) return 1; if (t->isDoubleTy()) return 2; if (t->isVoidTy()) return 4; if (t->isFloatTy()) return 5; if (t->isStructTy() || t->isArrayTy()) return 3; return 6; }
static unsigned bitsOf(Type *t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static const u64 CAGG = 1ull << 63;
static Val constVal(const Constant *C) {
  if (auto *i = dyn_cast<ConstantInt>(C)) { if (i->getBitWidth() > 64) { Val v; v.k = UNDEF; return v; } return mk(i->getZExtValue()); }
  if (auto *f = dyn_cast<ConstantFP>(C)) { if (f->getType()->isFloatTy()) { double d = f->getValueAPF().convertToFloat(); u64 u; memcpy(&u, &d, 8); return mk(u); } if (f->getType()->isDoubleTy()) return mk(f->getValueAPF().bitcastToAPInt().getZExtValue()); return undefv(); }
  if (isa<ConstantPointerNull>(C)) return mk(0);
  if (isa<UndefValue>(C)) { if (C->getType()->isAggregateType() && !C->getType()->isVectorTy()) { vector<Val> v(C->getType()->isStructTy() ? C->getType()->getStructNumElements() : C->getType()->getArrayNumElements()); constAggs.push_back(v); Val r; r.k = AGG; r.c = CAGG | (constAggs.size() - 1); return r; } return undefv(); }
  if (auto *g = dyn_cast<GlobalValue>(C)) { if (auto *ga = dyn_cast<GlobalAlias>(g)) return constVal(ga->getAliasee()); auto it = gaddr.find(g); if (it == gaddr.end()) { errs() << "no address for " << g->getName() << "\n"; exit(3); } return mk(it->second); }
  if (auto *g = dyn_cast<GEPOperator>(C)) { APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) { errs() << "bad const gep\n"; exit(3); } Val b = constVal(cast<Constant>(g->getPointerOperand())); return mk(b.c + off.getSExtValue()); }
  if (auto *e = dyn_cast<ConstantExpr>(C)) {
    switch (e->getOpcode()) {
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(e->getOperand(0));
      case Instruction::Add: return mk(constVal(e->getOperand(0)).c + constVal(e->getOperand(1)).c);
      case Instruction::Sub: return mk(maskb(constVal(e->getOperand(0)).c - constVal(e->getOperand(1)).c, bitsOf(e->getType())));
      case Instruction::Trunc: return mk(maskb(constVal(e->getOperand(0)).c, bitsOf(e->getType())));
      case Instruction::ICmp: { u64 a = constVal(e->getOperand(0)).c, b = constVal(e->getOperand(1)).c; if (e->getPredicate() == CmpInst::ICMP_EQ) return mk(a == b); if (e->getPredicate() == CmpInst::ICMP_NE) return mk(a != b); } // fallthrough
      default: errs() << "const expr " << *e << "\n"; exit(3); } }
  if (C->getType()->isStructTy() || C->getType()->isArrayTy()) { vector<Val> v; unsigned n = C->getType()->isStructTy() ? C->getType()->getStructNumElements() : C->getType()->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) v.push_back(constVal(C->getAggregateElement(i))); constAggs.push_back(v); Val r; r.k = AGG; r.c = CAGG | (constAggs.size() - 1); return r; }
  return undefv();
}
static int constIx(const Constant *C) { auto it = constIdx.find(C); if (it != constIdx.end()) return it->second; Val v = constVal(C); consts.push_back(v); int r = -(int)consts.size(); constIdx[C] = r; return r; }
static void initMem(Obj &o, u64 off, const Constant *C) {
  Type *t = C->getType(); u64 sz = DL->getTypeStoreSize(t);
  if (isa<UndefValue>(C)) return;
  if (C->isNullValue()) { memset(&o.data[off], 0, DL->getTypeAllocSize(t) <= o.size - off ? (u64)DL->getTypeAllocSize(t) : sz); memset(&o.st[off], 1, DL->getTypeAllocSize(t) <= o.size - off ? (u64)DL->getTypeAllocSize(t) : sz); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { unsigned es = cd->getElementByteSize(); for (unsigned i = 0; i < cd->getNumElements(); i++) { u64 v = cd->getElementType()->isFloatingPointTy() ? cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue() : cd->getElementAsInteger(i); memcpy(&o.data[off + i * es], &v, es); memset(&o.st[off + i * es], 1, es); } return; }
  if (auto *cs = dyn_cast<ConstantStruct>(C)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initMem(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(o, off + i * es, ca->getOperand(i)); return; }
  if (t->isFloatTy()) if (auto *f = dyn_cast<ConstantFP>(C)) { float d = f->getValueAPF().convertToFloat(); memcpy(&o.data[off], &d, 4); memset(&o.st[off], 1, 4); return; }
  Val v = constVal(C); if (v.k == CONC && sz <= 8) { memcpy(&o.data[off], &v.c, sz); memset(&o.st[off], 1, sz); } else { errs() << "unsupported initialiser " << *C << "\n"; }
}
static void loadModule() {
  SMDiagnostic err; M = parseIRFile(opt.bc, err, LC); if (!M) { err.print("vmse", errs()); exit(3); }
  DL = &M->getDataLayout();
  initObjs.emplace_back(); // id 0 unused
  for (auto &F : *M) { initObjs.emplace_back(); Obj &o = initObjs.back(); o.kind = OK_FUNC; u64 a = addr_of(initObjs.size() - 1); gaddr[&F] = a; auto d = std::make_unique<DFunc>(); d->F = &F; d->name = F.getName().str(); d->addr = a; fmap_[&F] = d.get(); faddr[a] = d.get(); funcs.push_back(std::move(d)); }
  for (auto &G : M->globals()) { initObjs.emplace_back(); Obj &o = initObjs.back(); u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 0; if (!G.hasInitializer() && sz < 256) sz = 256; o.size = sz; o.data.assign(sz, 0); o.st.assign(sz, G.hasInitializer() ? 0 : 1); o.kind = G.isConstant() ? OK_CONSTG : OK_GLOBAL; u64 a = addr_of(initObjs.size() - 1); gaddr[&G] = a; tiName[a] = G.getName().str(); }
  for (auto &G : M->globals()) if (G.hasInitializer() && !G.getName().starts_with("llvm.")) { u64 id = gaddr[&G] >> OBJ_SHIFT; initMem(initObjs[id], 0, G.getInitializer()); }
}
static int nativeOf(const string &n);
static void decode(DFunc *d) {
  if (d->decoded) return; d->decoded = true; Function *F = d->F; if (F->isDeclaration()) { return; }
  std::unordered_map<const Value *, int> slot; int ns = 0; for (auto &A : F->args()) slot[&A] = ns++;
  std::unordered_map<const BasicBlock *, int> bix; int bi = 0;
  for (auto &B : *F) { bix[&B] = bi++; for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = ns++; }
  d->nslots = ns; d->blocks.resize(bi);
  auto opnd = [&](const Value *v) -> int { if (auto *c = dyn_cast<Constant>(v)) return constIx(c); auto it = slot.find(v); if (it == slot.end()) return constIx(UndefValue::get(Type::getInt8Ty(LC))); return it->second; };
  for (auto &B : *F) { DBlock &db = d->blocks[bix[&B]];
    for (const BasicBlock *P : predecessors(&B)) { Edge e; for (auto &phi : B.phis()) e.moves.push_back({slot[&phi], opnd(phi.getIncomingValueForBlock(P))}); db.in[bix[P]] = e; }
    for (auto &I : B) { if (isa<PHINode>(I)) continue; DInst x; x.src = &I; if (!I.getType()->isVoidTy()) x.dst = slot[&I]; x.tk = tkOf(I.getType()); x.bits = bitsOf(I.getType());
      auto addAux = [&]() -> Aux & { d->aux.emplace_back(); x.aux = d->aux.size() - 1; return d->aux.back(); };
      if (auto *b = dyn_cast<BinaryOperator>(&I)) { x.a = opnd(b->getOperand(0)); x.b = opnd(b->getOperand(1)); x.op = I.getType()->isFPOrFPVectorTy() ? I_FBIN : I_BIN; x.sub = b->getOpcode(); }
      else if (auto *u = dyn_cast<UnaryOperator>(&I)) { x.op = I_FNEG; x.a = opnd(u->getOperand(0)); }
      else if (auto *c = dyn_cast<ICmpInst>(&I)) { x.op = I_ICMP; x.sub = c->getPredicate(); x.a = opnd(c->getOperand(0)); x.b = opnd(c->getOperand(1)); x.sbits = bitsOf(c->getOperand(0)->getType()); x.stk = tkOf(c->getOperand(0)->getType()); }
      else if (auto *c = dyn_cast<FCmpInst>(&I)) { x.op = I_FCMP; x.sub = c->getPredicate(); x.a = opnd(c->getOperand(0)); x.b = opnd(c->getOperand(1)); x.stk = tkOf(c->getOperand(0)->getType()); }
      else if (auto *l = dyn_cast<LoadInst>(&I)) { x.op = I_LOAD; x.a = opnd(l->getPointerOperand()); x.imm = DL->getTypeStoreSize(l->getType()); }
      else if (auto *s = dyn_cast<StoreInst>(&I)) { x.op = I_STORE; x.a = opnd(s->getValueOperand()); x.b = opnd(s->getPointerOperand()); x.imm = DL->getTypeStoreSize(s->getValueOperand()->getType()); x.stk = tkOf(s->getValueOperand()->getType()); }
      else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) { x.op = I_GEP; x.a = opnd(g->getPointerOperand()); Aux &ax = addAux(); i64 off = 0;
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) { Value *ix = gi.getOperand(); if (StructType *stt = gi.getStructTypeOrNull()) off += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); else { i64 sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sz; else { ax.gep.push_back({opnd(ix), sz}); ax.argbits.push_back(bitsOf(ix->getType())); } } }
        x.imm = off; }
      else if (auto *c = dyn_cast<CastInst>(&I)) { x.op = I_CAST; x.sub = c->getOpcode(); x.a = opnd(c->getOperand(0)); x.sbits = bitsOf(c->getSrcTy()); x.stk = tkOf(c->getSrcTy()); }
      else if (auto *s = dyn_cast<SelectInst>(&I)) { x.op = I_SELECT; x.a = opnd(s->getCondition()); x.b = opnd(s->getTrueValue()); x.c = opnd(s->getFalseValue()); }
      else if (auto *b = dyn_cast<BranchInst>(&I)) { if (b->isConditional()) { x.op = I_CBR; x.a = opnd(b->getCondition()); x.b = bix[b->getSuccessor(0)]; x.c = bix[b->getSuccessor(1)]; } else { x.op = I_BR; x.b = bix[b->getSuccessor(0)]; } }
      else if (auto *s = dyn_cast<SwitchInst>(&I)) { x.op = I_SWITCH; x.a = opnd(s->getCondition()); x.b = bix[s->getDefaultDest()]; x.sbits = bitsOf(s->getCondition()->getType()); Aux &ax = addAux(); for (auto &cs : s->cases()) ax.cases.push_back({cs.getCaseValue()->getZExtValue(), bix[cs.getCaseSuccessor()]}); }
      else if (auto *r = dyn_cast<ReturnInst>(&I)) { x.op = I_RET; x.a = r->getReturnValue() ? opnd(r->getReturnValue()) : 0; x.b = r->getReturnValue() ? 1 : 0; }
      else if (auto *cf = dyn_cast<ConstrainedFPIntrinsic>(&I)) { // -frounding-math: keeps clang from folding inexact arithmetic
        x.a = opnd(cf->getArgOperand(0)); bool two = true;
        switch (cf->getIntrinsicID()) {
          case Intrinsic::experimental_constrained_fadd: x.op = I_FBIN; x.sub = Instruction::FAdd; break;
          case Intrinsic::experimental_constrained_fsub: x.op = I_FBIN; x.sub = Instruction::FSub; break;
          case Intrinsic::experimental_constrained_fmul: x.op = I_FBIN; x.sub = Instruction::FMul; break;
          case Intrinsic::experimental_constrained_fdiv: x.op = I_FBIN; x.sub = Instruction::FDiv; break;
          case Intrinsic::experimental_constrained_frem: x.op = I_FBIN; x.sub = Instruction::FRem; break;
          case Intrinsic::experimental_constrained_fcmp: case Intrinsic::experimental_constrained_fcmps: x.op = I_FCMP; x.sub = cast<ConstrainedFPCmpIntrinsic>(cf)->getPredicate(); x.stk = tkOf(cf->getArgOperand(0)->getType()); break;
          case Intrinsic::experimental_constrained_sitofp: x.op = I_CAST; x.sub = Instruction::SIToFP; two = false; break;
          case Intrinsic::experimental_constrained_uitofp: x.op = I_CAST; x.sub = Instruction::UIToFP; two = false; break;
          case Intrinsic::experimental_constrained_fptosi: x.op = I_CAST; x.sub = Instruction::FPToSI; two = false; break;
          case Intrinsic::experimental_constrained_fptoui: x.op = I_CAST; x.sub = Instruction::FPToUI; two = false; break;
          case Intrinsic::experimental_constrained_fpext: x.op = I_CAST; x.sub = Instruction::FPExt; two = false; break;
          case Intrinsic::experimental_constrained_fptrunc: x.op = I_CAST; x.sub = Instruction::FPTrunc; two = false; break;
          default: { static map<unsigned, int> mth = {{Intrinsic::experimental_constrained_sin, N_m_sin}, {Intrinsic::experimental_constrained_cos, N_m_cos}, {Intrinsic::experimental_constrained_exp, N_m_exp}, {Intrinsic::experimental_constrained_log, N_m_log}, {Intrinsic::experimental_constrained_log10, N_m_log10}, {Intrinsic::experimental_constrained_sqrt, N_m_sqrt}, {Intrinsic::experimental_constrained_pow, N_m_pow}, {Intrinsic::experimental_constrained_fmuladd, N_m_fmuladd}, {Intrinsic::experimental_constrained_fma, N_m_fmuladd}, {Intrinsic::experimental_constrained_floor, N_m_floor}};
            x.op = I_CALL; two = false; Aux &ax = addAux(); for (auto &A : cf->args()) if (!A->getType()->isMetadataTy()) { ax.args.push_back(opnd(A)); ax.argbits.push_back(bitsOf(A->getType())); }
            ax.name = cf->getCalledFunction()->getName().str(); auto it = mth.find(cf->getIntrinsicID()); if (it != mth.end()) ax.native = it->second; else ax.unsupported = true; } }
        if (x.op == I_CAST) { x.sbits = bitsOf(cf->getArgOperand(0)->getType()); x.stk = tkOf(cf->getArgOperand(0)->getType()); }
        if (two) x.b = opnd(cf->getArgOperand(1)); }
      else if (auto *c = dyn_cast<CallBase>(&I)) { Aux &ax = addAux(); 
        if (auto *iv = dyn_cast<InvokeInst>(c)) { x.op = I_INVOKE; x.b = bix[iv->getNormalDest()]; x.c = bix[iv->getUnwindDest()]; } else x.op = I_CALL;
        for (auto &A : c->args()) { if (A->getType()->isMetadataTy()) { ax.args.push_back(constIx(UndefValue::get(Type::getInt8Ty(LC)))); ax.argbits.push_back(0); } else { ax.args.push_back(opnd(A)); ax.argbits.push_back(bitsOf(A->getType())); } }
        Value *cv = c->getCalledOperand()->stripPointerCasts(); if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
        if (auto *cf = dyn_cast<Function>(cv)) { ax.callee = fmap_[cf]; ax.name = cf->getName().str(); int nt = nativeOf(ax.name); if (nt != N_NONE) ax.native = nt; else if (cf->isDeclaration()) ax.unsupported = true; }
        else if (isa<InlineAsm>(cv)) { ax.native = N_ignore; } else { ax.indirect = true; x.a = opnd(cv); } }
      else if (auto *a = dyn_cast<AllocaInst>(&I)) { x.op = I_ALLOCA; x.imm = DL->getTypeAllocSize(a->getAllocatedType()); x.a = opnd(a->getArraySize()); }
      else if (auto *l = dyn_cast<LandingPadInst>(&I)) { x.op = I_LPAD; Aux &ax = addAux(); ax.cleanup = l->isCleanup(); for (unsigned i = 0; i < l->getNumClauses(); i++) ax.clauses.push_back({opnd(l->getClause(i)), l->isFilter(i)}); }
      else if (auto *r = dyn_cast<ResumeInst>(&I)) { x.op = I_RESUME; x.a = opnd(r->getOperand(0)); }
      else if (auto *e = dyn_cast<ExtractValueInst>(&I)) { x.op = I_EXTRACT; x.a = opnd(e->getAggregateOperand()); Aux &ax = addAux(); for (unsigned i : e->indices()) ax.idx.push_back(i); }
      else if (auto *e = dyn_cast<InsertValueInst>(&I)) { x.op = I_INSERT; x.a = opnd(e->getAggregateOperand()); x.b = opnd(e->getInsertedValueOperand()); Aux &ax = addAux(); for (unsigned i : e->indices()) ax.idx.push_back(i); }
      else if (isa<UnreachableInst>(I)) x.op = I_UNREACH;
      else if (auto *f = dyn_cast<FreezeInst>(&I)) { x.op = I_FREEZE; x.a = opnd(f->getOperand(0)); }
      else if (isa<FenceInst>(I)) x.op = I_NOP;
      else if (auto *r = dyn_cast<AtomicRMWInst>(&I)) { x.op = I_ARMW; x.sub = r->getOperation(); x.a = opnd(r->getPointerOperand()); x.b = opnd(r->getValOperand()); x.imm = DL->getTypeStoreSize(I.getType()); }
      else if (auto *r = dyn_cast<AtomicCmpXchgInst>(&I)) { x.op = I_CMPX; x.a = opnd(r->getPointerOperand()); x.b = opnd(r->getCompareOperand()); x.c = opnd(r->getNewValOperand()); x.sbits = bitsOf(r->getCompareOperand()->getType()); x.stk = tkOf(r->getCompareOperand()->getType()); x.imm = x.sbits / 8; }
      else x.op = I_BAD;
      db.ins.push_back(x); } }
}
static int nativeOf(const string &n) {
  static map<string, int> t = {
    {"_Znwm", N_new}, {"_Znam", N_newarr}, {"_ZnwmRKSt9nothrow_t", N_new}, {"_ZdlPv", N_delete}, {"_ZdlPvm", N_delete}, {"_ZdaPv", N_deletearr}, {"_ZdaPvm", N_deletearr}, {"_ZdlPvRKSt9nothrow_t", N_delete}, {"malloc", N_malloc}, {"free", N_free}, {"calloc", N_calloc},
    {"memcpy", N_memcpy}, {"memmove", N_memcpy}, {"memset", N_memset}, {"memchr", N_memchr}, {"memcmp", N_memcmp}, {"bcmp", N_memcmp}, {"strlen", N_strlen}, {"strcmp", N_strcmp},
    {"abort", N_abort}, {"__assert_fail", N_assertfail}, {"_ZSt9terminatev", N_terminate}, {"__cxa_pure_virtual", N_purevirt}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", N_abort},
    {"__cxa_allocate_exception", N_cxa_allocexn}, {"__cxa_free_exception", N_cxa_freeexn}, {"__cxa_throw", N_cxa_throw}, {"__cxa_begin_catch", N_cxa_begin}, {"__cxa_end_catch", N_cxa_end}, {"__cxa_rethrow", N_cxa_rethrow}, {"__cxa_get_exception_ptr", N_cxa_getptr}, {"__dynamic_cast", N_dyncast},  
    {"__cxa_guard_acquire", N_guard_acq}, {"__cxa_guard_release", N_guard_rel}, {"__cxa_guard_abort", N_ignore}, {"__cxa_atexit", N_ret0},    
    {"sin", N_m_sin}, {"cos", N_m_cos}, {"tan", N_m_tan}, {"exp", N_m_exp}, {"log", N_m_log}, {"log10", N_m_log10}, {"sqrt", N_m_sqrt}, {"fabs", N_m_fabs}, {"pow", N_m_pow}, {"floor", N_m_floor},
    {"llvm.sin.f64", N_m_sin}, {"llvm.cos.f64", N_m_cos}, {"llvm.exp.f64", N_m_exp}, {"llvm.log.f64", N_m_log}, {"llvm.log10.f64", N_m_log10}, {"llvm.sqrt.f64", N_m_sqrt}, {"llvm.fabs.f64", N_m_fabs}, {"llvm.pow.f64", N_m_pow}, {"llvm.fmuladd.f64", N_m_fmuladd}, {"llvm.fma.f64", N_m_fmuladd}, {"fma", N_m_fmuladd}, {"llvm.floor.f64", N_m_floor},
    {"llvm.trap", N_trap}, {"llvm.eh.typeid.for", N_typeid_for}, {"llvm.stacksave.p0", N_ret0}, {"llvm.stackrestore.p0", N_ignore},
    {"se_real", N_se_real}, {"se_u64", N_se_u64}, {"se_choice", N_se_choice}, {"se_assume", N_se_assume}, {"se_assert", N_se_assert}, {"se_eq", N_se_eq}, {"snprintf", N_snprintf}, {"sprintf", N_sprintf}, {"se_eqw", N_se_eqw}, {"se_eqr", N_se_eqr}, {"se_note", N_se_note}, {"se_reach", N_se_reach}, {"se_heap", N_se_heap}, {"se_fmt_double", N_se_fmt_double}, {"se_fmt_i64", N_se_fmt_i64}, {"se_fmt_u64", N_se_fmt_u64}, {"se_token", N_se_token}, {"se_token_u64", N_se_token_u64}, {"se_stop", N_se_stop}, {"se_defined", N_se_defined}, {"se_print", N_se_print}, {"se_sym", N_se_sym}, {"se_reuse", N_se_reuse}};
  auto it = t.find(n); if (it != t.end()) return it->second;
  static vector<std::pair<string, int>> pre = { {"llvm.memcpy.", N_memcpy}, {"llvm.memmove.", N_memcpy}, {"llvm.memset.", N_memset}, {"llvm.lifetime.", N_lifetime}, {"llvm.assume", N_ignore}, {"llvm.dbg.", N_ignore}, {"llvm.experimental.noalias", N_ignore}, {"llvm.donothing", N_ignore}, {"llvm.invariant.", N_ignore}, {"llvm.prefetch", N_ignore}, {"llvm.expect.", N_retarg0}, {"llvm.threadlocal.address", N_retarg0}, {"llvm.launder.", N_retarg0}, {"llvm.strip.", N_retarg0}, {"llvm.ptrmask", N_ignore},
    {"llvm.umax.", N_umax}, {"llvm.umin.", N_umin}, {"llvm.smax.", N_smax}, {"llvm.smin.", N_smin}, {"llvm.abs.", N_iabs}, {"llvm.uadd.with.overflow", N_uaddo}, {"llvm.usub.with.overflow", N_usubo}, {"llvm.umul.with.overflow", N_umulo}, {"llvm.sadd.with.overflow", N_saddo}, {"llvm.ssub.with.overflow", N_ssubo}, {"llvm.smul.with.overflow", N_smulo}, {"llvm.usub.sat.", N_usubsat}, {"llvm.uadd.sat.", N_uaddsat}, {"llvm.ctlz.", N_ctlz}, {"llvm.cttz.", N_cttz}, {"llvm.ctpop.", N_ctpop}, {"llvm.fshl.", N_fshl}, {"llvm.fshr.", N_fshr}, {"llvm.bswap.", N_bswap}, {"llvm.is.constant", N_is_constant}, {"llvm.is.fpclass", N_isfpclass}, {"llvm.objectsize", N_ret0} };
  for (auto &p : pre) if (n.compare(0, p.first.size(), p.first) == 0) return p.second;
  return N_NONE;
}
