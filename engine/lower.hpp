// ---------------------------------------------------------------- lowering LLVM functions to the internal form
static bool promotable(const llvm::AllocaInst *A) {
  if (A->isArrayAllocation()) return false; Type *t = A->getAllocatedType(); unsigned w = widthOf(t); if (!w || w > 64) return false;
  for (const llvm::User *u : A->users()) {
    if (auto *l = dyn_cast<llvm::LoadInst>(u)) { if (l->getType() != t || l->isAtomic()) return false; continue; }
    if (auto *st = dyn_cast<llvm::StoreInst>(u)) { if (st->getValueOperand() == A || st->getValueOperand()->getType() != t || st->isAtomic()) return false; continue; }
    if (auto *ii = dyn_cast<llvm::IntrinsicInst>(u)) { if (ii->isLifetimeStartOrEnd() || isa<llvm::DbgInfoIntrinsic>(ii)) continue; return false; }
    return false;
  }
  return true;
}
struct Lowerer {
  FnInfo *fi; DenseMap<const Value *, int> slot; DenseMap<const BasicBlock *, int> bbi; DenseMap<const Constant *, int> cidx; std::unordered_set<const Value *> prom;
  int newSlots(unsigned n, unsigned w) { int r = fi->nslots; fi->nslots += n; for (unsigned i = 0; i < n; i++) fi->slotW.push_back(w); return r; }
  int opnd(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) { auto it = cidx.find(c); if (it != cidx.end()) return it->second; int base = (int)fi->consts.size(); flatConst(c, fi->consts); if ((int)fi->consts.size() == base) fi->consts.push_back(VC(0)); return cidx[c] = ~base; }
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    if (isa<llvm::InlineAsm>(v) || isa<llvm::MetadataAsValue>(v) || isa<BasicBlock>(v)) return ~0;
    return slot[v] = allocFor(v);
  }
  int allocFor(const Value *v) { vector<std::pair<Type *, u64>> ft; flatTypes(v->getType(), ft, 0); int r = fi->nslots; if (ft.empty()) { return newSlots(1, 64); } for (auto &p : ft) newSlots(1, widthOf(p.first)); return r; }
  Ins &emit(u16 op, const Instruction *I) { Ins x; x.op = op; x.I = I; fi->code.push_back(x); return fi->code.back(); }
  void run(FnInfo *f) {
    fi = f; const Function &F = *f->F; fi->consts.push_back(VC(0));
    for (auto &A : F.args()) { int s = allocFor(&A); slot[&A] = s; fi->argSlot.push_back(s); fi->argN.push_back(flatN(A.getType())); }
    int n = 0; for (auto &B : F) { bbi[&B] = n++; fi->bbs.push_back(&B); }
    for (auto &B : F) for (auto &I : B) if (auto *A = dyn_cast<llvm::AllocaInst>(&I)) if (promotable(A)) { prom.insert(A); slot[A] = newSlots(1, widthOf(A->getAllocatedType())); }
    for (auto &B : F) { fi->bbStart.push_back(fi->code.size()); for (auto &I : B) lower(I); }
    for (auto &B : F) { for (auto &P : B.phis()) { fi->hasPhi = true; unsigned k = flatN(P.getType()); for (unsigned i = 0; i < P.getNumIncomingValues(); i++) { Edge &e = fi->edges[{bbi[P.getIncomingBlock(i)], bbi[&B]}]; int src = opnd(P.getIncomingValue(i)), dst = opnd(&P); bool dup = false; for (auto &c : e.copies) if (c.first == dst) dup = true; if (!dup) for (unsigned j = 0; j < k; j++) e.copies.push_back({dst + (int)j, src >= 0 ? src + (int)j : ~(~src + (int)j)}); } } }
    fi->covered.assign(fi->code.size(), false); fi->lowered = true;
    fi->spec.resize(fi->code.size());
  }
  static int off(int o, unsigned j) { return o >= 0 ? o + (int)j : ~(~o + (int)j); }
  void lower(const Instruction &I) {
    if (isa<llvm::DbgInfoIntrinsic>(I) || isa<llvm::PHINode>(I)) return;
    if (auto *A = dyn_cast<llvm::AllocaInst>(&I)) {
      if (prom.count(A)) { Ins &x = emit(O_NOP, &I); x.op = O_MOV; x.dst = slot[A]; Val u; u.e = UNINIT; fi->consts.push_back(u); x.a = ~((int)fi->consts.size() - 1); x.n = 1; x.aux = 1; return; }
      int sz = opnd(A->getArraySize()); int d = opnd(A); Ins &x = emit(O_ALLOCA, &I); x.dst = d; x.a = sz; x.w = widthOf(A->getArraySize()->getType()); fi->geps.push_back({(i64)DL->getTypeAllocSize(A->getAllocatedType()), {}}); x.aux = fi->geps.size() - 1; return; }
    if (auto *L = dyn_cast<llvm::LoadInst>(&I)) {
      if (prom.count(L->getPointerOperand())) { int d = opnd(L); Ins &x = emit(O_LDSLOT, &I); x.dst = d; x.a = slot[L->getPointerOperand()]; x.w = widthOf(L->getType()); return; }
      vector<std::pair<Type *, u64>> ft; flatTypes(L->getType(), ft, 0); int p = opnd(L->getPointerOperand()), d = opnd(L);
      for (unsigned i = 0; i < ft.size(); i++) { Ins &x = emit(O_LOAD, &I); x.dst = d + i; x.a = p; x.w = widthOf(ft[i].first) > 64 ? 255 : widthOf(ft[i].first); x.aux = ft[i].second; x.n = DL->getTypeStoreSize(ft[i].first); x.w2 = L->isAtomic() ? 1 | (llvm::isAcquireOrStronger(L->getOrdering()) ? 2 : 0) : 0; } return; }
    if (auto *S = dyn_cast<llvm::StoreInst>(&I)) {
      int v = opnd(S->getValueOperand());
      if (prom.count(S->getPointerOperand())) { Ins &x = emit(O_STSLOT, &I); x.dst = slot[S->getPointerOperand()]; x.a = v; x.w = widthOf(S->getValueOperand()->getType()); return; }
      vector<std::pair<Type *, u64>> ft; flatTypes(S->getValueOperand()->getType(), ft, 0); int p = opnd(S->getPointerOperand());
      for (unsigned i = 0; i < ft.size(); i++) { Ins &x = emit(O_STORE, &I); x.a = p; x.b = off(v, i); x.w = widthOf(ft[i].first) > 64 ? 255 : widthOf(ft[i].first); x.aux = ft[i].second; x.n = DL->getTypeStoreSize(ft[i].first); x.w2 = S->isAtomic() ? 1 | (llvm::isReleaseOrStronger(S->getOrdering()) ? 2 : 0) : 0; } return; }
    if (auto *G = dyn_cast<llvm::GetElementPtrInst>(&I)) {
      if (G->getType()->isVectorTy()) { emit(O_UNSUPPORTED, &I); return; }
      GepInfo gi; gi.off = 0;
      for (auto it = llvm::gep_type_begin(G), e = llvm::gep_type_end(G); it != e; ++it) {
        Value *idx = it.getOperand();
        if (auto *st = it.getStructTypeOrNull()) { gi.off += DL->getStructLayout(st)->getElementOffset(cast<llvm::ConstantInt>(idx)->getZExtValue()); }
        else { u64 es = DL->getTypeAllocSize(it.getIndexedType()); if (auto *c = dyn_cast<llvm::ConstantInt>(idx)) gi.off += c->getSExtValue() * (i64)es; else gi.idx.push_back({opnd(idx), widthOf(idx->getType()), es}); } }
      int p = opnd(G->getPointerOperand()), d = opnd(G); fi->geps.push_back(gi); Ins &x = emit(O_GEP, &I); x.dst = d; x.a = p; x.aux = fi->geps.size() - 1; return; }
    if (auto *B = dyn_cast<llvm::BinaryOperator>(&I)) {
      static const std::map<unsigned, EK> T = {{Instruction::Add, K_ADD}, {Instruction::Sub, K_SUB}, {Instruction::Mul, K_MUL}, {Instruction::UDiv, K_UDIV}, {Instruction::SDiv, K_SDIV}, {Instruction::URem, K_UREM}, {Instruction::SRem, K_SREM}, {Instruction::And, K_AND}, {Instruction::Or, K_OR}, {Instruction::Xor, K_XOR}, {Instruction::Shl, K_SHL}, {Instruction::LShr, K_LSHR}, {Instruction::AShr, K_ASHR}, {Instruction::FAdd, K_FADD}, {Instruction::FSub, K_FSUB}, {Instruction::FMul, K_FMUL}, {Instruction::FDiv, K_FDIV}, {Instruction::FRem, K_FREM}};
      unsigned n = flatN(B->getType()); unsigned w = widthOf(B->getType()->getScalarType()); int a = opnd(B->getOperand(0)), b = opnd(B->getOperand(1)), d = opnd(B);
      for (unsigned i = 0; i < n; i++) { Ins &x = emit(w > 64 ? O_UNSUPPORTED : O_BIN, &I); x.dst = d + i; x.a = off(a, i); x.b = off(b, i); x.w = w; x.aux = T.at(B->getOpcode()); } return; }
    if (auto *C = dyn_cast<llvm::ICmpInst>(&I)) { unsigned w = widthOf(C->getOperand(0)->getType()); int a = opnd(C->getOperand(0)), b = opnd(C->getOperand(1)), d = opnd(C); Ins &x = emit(w == 0 || w > 64 ? O_UNSUPPORTED : O_ICMP, &I); x.dst = d; x.a = a; x.b = b; x.w = w; x.aux = C->getPredicate(); return; }
    if (auto *C = dyn_cast<llvm::FCmpInst>(&I)) { unsigned w = widthOf(C->getOperand(0)->getType()); int a = opnd(C->getOperand(0)), b = opnd(C->getOperand(1)), d = opnd(C); Ins &x = emit(w == 0 || w > 64 ? O_UNSUPPORTED : O_FCMP, &I); x.dst = d; x.a = a; x.b = b; x.w = w; x.aux = C->getPredicate(); return; }
    if (auto *U = dyn_cast<llvm::UnaryOperator>(&I)) { unsigned w = widthOf(U->getType()); int a = opnd(U->getOperand(0)), d = opnd(U); Ins &x = emit(w == 0 || w > 64 ? O_UNSUPPORTED : O_FNEG, &I); x.dst = d; x.a = a; x.w = w; return; }
    if (auto *C = dyn_cast<llvm::CastInst>(&I)) {
      unsigned w = widthOf(C->getType()), w2 = widthOf(C->getOperand(0)->getType()); int a = opnd(C->getOperand(0)), d = opnd(C);
      if ((w == 0 || w2 == 0) && C->getOpcode() == Instruction::BitCast) { // vector <-> scalar
        unsigned nd = flatN(C->getType()), ns = flatN(C->getOperand(0)->getType()); unsigned ew = widthOf(C->getType()->getScalarType()), es = widthOf(C->getOperand(0)->getType()->getScalarType());
        Ins &x = emit(nd * ew <= 64 ? O_VEXTRACT : O_UNSUPPORTED, &I); x.dst = d; x.a = a; x.aux = nd; x.n = ns; x.w = ew; x.w2 = es; return; }
      Ins &x = emit(w == 0 || w > 80 || w2 == 0 || (w > 64 && w2 > 64) ? O_UNSUPPORTED : O_CAST, &I); if (w > 64 || w2 > 64) x.op = O_UNSUPPORTED; x.dst = d; x.a = a; x.w = w; x.w2 = w2; x.aux = C->getOpcode(); return; }
    if (auto *S = dyn_cast<llvm::SelectInst>(&I)) { unsigned n = flatN(S->getType()); int c = opnd(S->getCondition()), a = opnd(S->getTrueValue()), b = opnd(S->getFalseValue()), d = opnd(S); if (S->getCondition()->getType()->isVectorTy()) { emit(O_UNSUPPORTED, &I); return; } vector<std::pair<Type *, u64>> ft; flatTypes(S->getType(), ft, 0); for (unsigned i = 0; i < n; i++) { Ins &x = emit(O_SELECT, &I); x.dst = d + i; x.a = off(a, i); x.b = off(b, i); x.c = c; x.w = widthOf(ft[i].first); } return; }
    if (auto *B = dyn_cast<llvm::BranchInst>(&I)) { if (B->isConditional()) { int c = opnd(B->getCondition()); Ins &x = emit(O_CONDBR, &I); x.a = c; x.b = bbi[B->getSuccessor(0)]; x.c = bbi[B->getSuccessor(1)]; x.w = 1; } else { Ins &x = emit(O_BR, &I); x.b = bbi[B->getSuccessor(0)]; } return; }
    if (auto *S = dyn_cast<llvm::SwitchInst>(&I)) { SwitchInfo si; for (auto &c : S->cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]}); si.def = bbi[S->getDefaultDest()]; int c = opnd(S->getCondition()); fi->switches.push_back(si); Ins &x = emit(O_SWITCH, &I); x.a = c; x.aux = fi->switches.size() - 1; x.w = widthOf(S->getCondition()->getType()); return; }
    if (auto *R = dyn_cast<llvm::ReturnInst>(&I)) { int v = R->getReturnValue() ? opnd(R->getReturnValue()) : 0; Ins &x = emit(O_RET, &I); x.a = v; x.n = R->getReturnValue() ? flatN(R->getReturnValue()->getType()) : 0; return; }
    if (auto *CB = dyn_cast<llvm::CallBase>(&I)) {
      CallInfo ci; ci.CB = CB; ci.callee = CB->getCalledFunction(); if (!ci.callee) ci.callee = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCastsAndAliases());
      if (CB->isInlineAsm()) { ci.callee = nullptr; ci.fop = ~0; string asmS = cast<llvm::InlineAsm>(CB->getCalledOperand())->getAsmString(); if (CB->getType()->isVoidTy()) { emit(O_NOP, &I); if (auto *inv = dyn_cast<llvm::InvokeInst>(CB)) { (void)inv; } return; } emit(O_UNSUPPORTED, &I); return; }
      if (!ci.callee) ci.fop = opnd(CB->getCalledOperand());
      if (ci.callee && ci.callee->isIntrinsic()) { auto id = ci.callee->getIntrinsicID(); if (id == llvm::Intrinsic::lifetime_start || id == llvm::Intrinsic::lifetime_end || id == llvm::Intrinsic::assume || id == llvm::Intrinsic::experimental_noalias_scope_decl || id == llvm::Intrinsic::invariant_start || id == llvm::Intrinsic::donothing || id == llvm::Intrinsic::prefetch) { return; } }
      for (unsigned i = 0; i < CB->arg_size(); i++) { Value *v = CB->getArgOperand(i); ci.args.push_back({opnd(v), v->getType()->isMetadataTy() ? 0 : flatN(v->getType()), v->getType()}); if (CB->isByValArgument(i) && i < 32) ci.byvalMask |= 1u << i; }
      ci.retN = flatN(CB->getType()); int d = ci.retN ? opnd(CB) : -1;
      if (auto *inv = dyn_cast<llvm::InvokeInst>(CB)) { ci.invoke = true; ci.normalBB = bbi[inv->getNormalDest()]; ci.unwindBB = bbi[inv->getUnwindDest()]; }
      ci.varargs = CB->getFunctionType()->isVarArg(); ci.nfixed = CB->getFunctionType()->getNumParams();
      fi->calls.push_back(ci); Ins &x = emit(O_CALL, &I); x.dst = d; x.n = ci.retN; x.aux = fi->calls.size() - 1; x.w = widthOf(CB->getType()); return; }
    if (isa<llvm::UnreachableInst>(&I)) { emit(O_UNREACHABLE, &I); return; }
    if (auto *L = dyn_cast<llvm::LandingPadInst>(&I)) { LPad lp; lp.cleanup = L->isCleanup(); for (unsigned i = 0; i < L->getNumClauses(); i++) { if (L->isCatch(i)) lp.clauses.push_back({0, constInt(L->getClause(i))}); else lp.clauses.push_back({1, 0}); } fi->lpads.push_back(lp); int d = opnd(L); Ins &x = emit(O_LANDINGPAD, &I); x.dst = d; x.aux = fi->lpads.size() - 1; return; }
    if (auto *R = dyn_cast<llvm::ResumeInst>(&I)) { int v = opnd(R->getValue()); Ins &x = emit(O_RESUME, &I); x.a = v; return; }
    if (auto *E = dyn_cast<llvm::ExtractValueInst>(&I)) { int a = opnd(E->getAggregateOperand()); unsigned k = flatIndex(E->getAggregateOperand()->getType(), E->getIndices()); int d = opnd(E); Ins &x = emit(O_MOV, &I); x.dst = d; x.a = off(a, k); x.n = flatN(E->getType()); return; }
    if (auto *E = dyn_cast<llvm::InsertValueInst>(&I)) { int a = opnd(E->getAggregateOperand()), v = opnd(E->getInsertedValueOperand()); unsigned k = flatIndex(E->getAggregateOperand()->getType(), E->getIndices()); int d = opnd(E); { Ins &x = emit(O_MOV, &I); x.dst = d; x.a = a; x.n = flatN(E->getType()); } { Ins &x = emit(O_MOV, &I); x.dst = d + k; x.a = v; x.n = flatN(E->getInsertedValueOperand()->getType()); } return; }
    if (auto *E = dyn_cast<llvm::ExtractElementInst>(&I)) { if (auto *c = dyn_cast<llvm::ConstantInt>(E->getIndexOperand())) { int a = opnd(E->getVectorOperand()), d = opnd(E); Ins &x = emit(O_MOV, &I); x.dst = d; x.a = off(a, c->getZExtValue()); x.n = 1; return; } }
    if (auto *E = dyn_cast<llvm::InsertElementInst>(&I)) { if (auto *c = dyn_cast<llvm::ConstantInt>(E->getOperand(2))) { int a = opnd(E->getOperand(0)), v = opnd(E->getOperand(1)), d = opnd(E); { Ins &x = emit(O_MOV, &I); x.dst = d; x.a = a; x.n = flatN(E->getType()); } { Ins &x = emit(O_MOV, &I); x.dst = d + c->getZExtValue(); x.a = v; x.n = 1; } return; } }
    if (auto *C = dyn_cast<llvm::AtomicCmpXchgInst>(&I)) { int p = opnd(C->getPointerOperand()), o = opnd(C->getCompareOperand()), nv = opnd(C->getNewValOperand()), d = opnd(C); Ins &x = emit(O_CMPXCHG, &I); x.dst = d; x.a = p; x.b = o; x.c = nv; x.w = widthOf(C->getCompareOperand()->getType()); x.n = x.w / 8; x.w2 = (llvm::isAcquireOrStronger(C->getSuccessOrdering()) ? 1 : 0) | (llvm::isReleaseOrStronger(C->getSuccessOrdering()) ? 2 : 0); return; }
    if (auto *R = dyn_cast<llvm::AtomicRMWInst>(&I)) { int p = opnd(R->getPointerOperand()), v = opnd(R->getValOperand()), d = opnd(R); Ins &x = emit(O_RMW, &I); x.dst = d; x.a = p; x.b = v; x.w = widthOf(R->getType()); x.n = x.w / 8; x.aux = R->getOperation(); x.w2 = (llvm::isAcquireOrStronger(R->getOrdering()) ? 1 : 0) | (llvm::isReleaseOrStronger(R->getOrdering()) ? 2 : 0); return; }
    if (auto *F = dyn_cast<llvm::FenceInst>(&I)) { if (F->getSyncScopeID() == llvm::SyncScope::SingleThread) { emit(O_NOP, &I); return; } Ins &x = emit(O_FENCE, &I); x.w2 = (llvm::isAcquireOrStronger(F->getOrdering()) ? 1 : 0) | (llvm::isReleaseOrStronger(F->getOrdering()) ? 2 : 0); return; }
    if (auto *Fz = dyn_cast<llvm::FreezeInst>(&I)) { int a = opnd(Fz->getOperand(0)), d = opnd(Fz); Ins &x = emit(O_MOV, &I); x.dst = d; x.a = a; x.n = flatN(Fz->getType()); return; }
    emit(O_UNSUPPORTED, &I);
  }
};
static void ensureLowered(FnInfo *f) { if (!f->lowered) { Lowerer L; L.run(f); } }
