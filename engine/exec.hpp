// ---------------------------------------------------------------- interpreter
static vector<FnInfo *> entryList;
static void pushFrame(State &s, FnInfo *f, const vector<vector<Val>> &args, int callIns, int special = 0) {
  ensureLowered(f); f->count++;
  auto &st = s.th[s.cur].st; if (st.size() > 3000) fail(s, "stack-overflow", "call depth exceeds 3000 frames");
  st.emplace_back(); Frame &fr = st.back(); fr.fn = f; fr.L.resize(f->nslots); fr.ip = f->bbStart[0]; fr.bb = 0; fr.callIns = callIns; fr.special = special;
  for (size_t i = 0; i < f->argSlot.size() && i < args.size(); i++) for (unsigned j = 0; j < f->argN[i] && j < args[i].size(); j++) fr.L[f->argSlot[i] + j] = args[i][j];
}
static u64 stackAlloc(State &s, Frame &fr, u64 size) {
  u64 slot; if (size + 64 < (1u << SLOTB) && !s.freeStack.empty()) { slot = s.freeStack.back(); s.freeStack.pop_back(); } else { slot = s.nextSlot; s.nextSlot += slotsFor(size); }
  newObj(s, slot, size, OK_STACK, true); fr.stackSlots.push_back(slot); return MBASE + (slot << SLOTB);
}
static void popFrame(State &s) {
  Frame &f = s.fr();
  for (u64 sl : f.stackSlots) { Obj *o = s.mem.get(sl); u64 n = o ? slotsFor(o->size) : 1; for (u64 i = 0; i < n; i++) s.mem.put(sl + i, nullptr); if (n == 1) s.freeStack.push_back(sl); }
  if (f.va) { Obj *o = s.mem.get(slotOf(f.va)); (void)o; s.mem.put(slotOf(f.va), nullptr); }
  s.th[s.cur].st.pop_back();
}
static inline Val getOp(State &s, Frame &f, int o, unsigned w) {
  Val v = o >= 0 ? f.L[o] : f.fn->consts[~o];
  if (v.e == UNINIT) { if (w > 64 || w == 0) return VC(0); v = freshVar(s, "uninit", w, 0xA5A5A5A5A5A5A5A5ULL & mask(w)); s.nUninit++; if (o >= 0) f.L[o] = v; }
  return v;
}
static inline Val rawOp(Frame &f, int o) { return o >= 0 ? f.L[o] : f.fn->consts[~o]; }
static void gotoBB(State &s, Frame &f, int to) {
  if (f.fn->hasPhi) { auto it = f.fn->edges.find({f.bb, to}); if (it != f.fn->edges.end()) { auto &cp = it->second.copies; if (cp.size() == 1) f.L[cp[0].first] = rawOp(f, cp[0].second); else { vector<Val> t; t.reserve(cp.size()); for (auto &c : cp) t.push_back(rawOp(f, c.second)); for (size_t i = 0; i < cp.size(); i++) f.L[cp[i].first] = t[i]; } } }
  f.prevbb = f.bb; f.bb = to; f.ip = f.fn->bbStart[to];
}
static Val binop(State &s, EK k, unsigned w, Val a, Val b) {
  if (k >= K_UDIV && k <= K_SREM) {
    if (!b.e) { if (b.c == 0) fail(s, "division-by-zero", "integer division by zero (SIGFPE)"); }
    else { Expr *z = X.eq(b.e, X.C(0, w)); if (decide(s, z)) fail(s, "division-by-zero", "integer division by zero (SIGFPE)"); }
    if (k == K_SDIV || k == K_SREM) {
      if (w >= 32) { Expr *ov = X.and_(X.eq(EX(a, w), X.C(1ULL << (w - 1), w)), X.eq(EX(b, w), X.C(mask(w), w))); if (decide(s, ov)) fail(s, "division-overflow", "signed division overflow (SIGFPE)"); }
    }
  }
  if (k == K_SHL || k == K_LSHR || k == K_ASHR) { u64 m = w <= 32 ? 31 : 63; if (w == 32 || w == 64) { if (!b.e) b.c &= m; else b = VE(X.and_(b.e, X.C(m, w))); } }
  if (!a.e && !b.e) return VC(ExprCtx::evalOp(k, w, 0, a.c, w, b.c, w, 0));
  return VE(X.bin(k, EX(a, w), EX(b, w)));
}
static Val icmp(unsigned pred, unsigned w, Val a, Val b) {
  using P = llvm::CmpInst::Predicate;
  if (!a.e && !b.e) { i64 x = sx(a.c, w), y = sx(b.c, w); switch (pred) { case P::ICMP_EQ: return VC(a.c == b.c); case P::ICMP_NE: return VC(a.c != b.c); case P::ICMP_ULT: return VC(a.c < b.c); case P::ICMP_ULE: return VC(a.c <= b.c); case P::ICMP_UGT: return VC(a.c > b.c); case P::ICMP_UGE: return VC(a.c >= b.c); case P::ICMP_SLT: return VC(x < y); case P::ICMP_SLE: return VC(x <= y); case P::ICMP_SGT: return VC(x > y); case P::ICMP_SGE: return VC(x >= y); } }
  Expr *x = EX(a, w), *y = EX(b, w);
  switch (pred) { case P::ICMP_EQ: return VE(X.eq(x, y)); case P::ICMP_NE: return VE(X.not_(X.eq(x, y))); case P::ICMP_ULT: return VE(X.ult(x, y)); case P::ICMP_ULE: return VE(X.not_(X.ult(y, x))); case P::ICMP_UGT: return VE(X.ult(y, x)); case P::ICMP_UGE: return VE(X.not_(X.ult(x, y))); case P::ICMP_SLT: return VE(X.slt(x, y)); case P::ICMP_SLE: return VE(X.not_(X.slt(y, x))); case P::ICMP_SGT: return VE(X.slt(y, x)); case P::ICMP_SGE: return VE(X.not_(X.slt(x, y))); }
  abort();
}
static Val fcmp(unsigned pred, unsigned w, Val a, Val b) {
  using P = llvm::CmpInst::Predicate; Expr *x = EX(a, w), *y = EX(b, w);
  auto nan = [&]() { return X.or_(X.un(K_FISNAN, x, 1), X.un(K_FISNAN, y, 1)); };
  switch (pred) {
    case P::FCMP_FALSE: return VC(0); case P::FCMP_TRUE: return VC(1);
    case P::FCMP_OEQ: return VE(X.bin(K_FEQ, x, y)); case P::FCMP_UNE: return VE(X.not_(X.bin(K_FEQ, x, y)));
    case P::FCMP_OLT: return VE(X.bin(K_FLT, x, y)); case P::FCMP_OLE: return VE(X.bin(K_FLE, x, y)); case P::FCMP_OGT: return VE(X.bin(K_FLT, y, x)); case P::FCMP_OGE: return VE(X.bin(K_FLE, y, x));
    case P::FCMP_UGE: return VE(X.not_(X.bin(K_FLT, x, y))); case P::FCMP_UGT: return VE(X.not_(X.bin(K_FLE, x, y))); case P::FCMP_ULE: return VE(X.not_(X.bin(K_FLT, y, x))); case P::FCMP_ULT: return VE(X.not_(X.bin(K_FLE, y, x)));
    case P::FCMP_UNO: return VE(nan()); case P::FCMP_ORD: return VE(X.not_(nan()));
    case P::FCMP_ONE: return VE(X.and_(X.not_(X.bin(K_FEQ, x, y)), X.not_(nan()))); case P::FCMP_UEQ: return VE(X.or_(X.bin(K_FEQ, x, y), nan()));
  }
  abort();
}
static bool castOk(unsigned opc, unsigned w, unsigned w2) { return true; }
static Val castv(unsigned opc, unsigned w, unsigned w2, Val a) {
  switch (opc) {
    case Instruction::Trunc: return a.e ? VE(X.extract(a.e, 0, w)) : VC(a.c & mask(w));
    case Instruction::ZExt: return a.e ? VE(X.zext(a.e, w)) : a;
    case Instruction::SExt: return a.e ? VE(X.sext(a.e, w)) : VC((u64)sx(a.c, w2) & mask(w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
      if (w == w2) return a; if (w < w2) return a.e ? VE(X.extract(a.e, 0, w)) : VC(a.c & mask(w)); return a.e ? VE(X.zext(a.e, w)) : a;
    case Instruction::FPTrunc: case Instruction::FPExt: return VE(X.un(K_FPCAST, EX(a, w2), w));
    case Instruction::FPToSI: { Expr *e = X.un(K_FPTOSI, EX(a, w2), w <= 32 ? 32 : 64); return VE(X.extract(e, 0, w)); }
    case Instruction::FPToUI: { if (w < 32) { Expr *e = X.un(K_FPTOSI, EX(a, w2), 32); return VE(X.extract(e, 0, w)); } return VE(X.un(K_FPTOUI, EX(a, w2), w)); }
    case Instruction::SIToFP: return VE(X.un(K_SITOFP, EX(a, w2), w));
    case Instruction::UIToFP: return VE(X.un(K_UITOFP, EX(a, w2), w));
  }
  abort();
}

// ---------------------------------------------------------------- RTTI / exceptions
struct BaseInfo { u64 ti; i64 off; bool virt; };
static string tiVt(u64 ti) { auto it = gvByAddr.find(ti); if (it == gvByAddr.end() || it->second->isDeclaration()) return ""; auto *st = dyn_cast<llvm::ConstantStruct>(it->second->getInitializer()); if (!st) return ""; auto *v = dyn_cast<llvm::GlobalValue>(st->getOperand(0)->stripInBoundsConstantOffsets()); return v ? v->getName().str() : ""; }
static std::unordered_map<u64, string> synthTi; static std::unordered_map<string, u64> synthTiBy; static u64 nextSynth = 0x300000000000ULL;
static u64 tiByName(const string &n) { // n like "St12out_of_range"
  if (auto *g = M->getNamedGlobal("_ZTI" + n)) { auto it = gaddr.find(g); if (it != gaddr.end()) return it->second; }
  auto it = synthTiBy.find(n); if (it != synthTiBy.end()) return it->second; u64 a = nextSynth; nextSynth += 64; synthTi[a] = n; return synthTiBy[n] = a; }
static string tiMangled(u64 ti) { auto a = synthTi.find(ti); if (a != synthTi.end()) return a->second; auto it = gvByAddr.find(ti); if (it == gvByAddr.end()) return ""; string n = it->second->getName().str(); return n.rfind("_ZTI", 0) == 0 ? n.substr(4) : n; }
static void tiBases(u64 ti, vector<BaseInfo> &out) {
  static const std::map<string, string> STD = {{"St12out_of_range", "St11logic_error"}, {"St16invalid_argument", "St11logic_error"}, {"St12length_error", "St11logic_error"}, {"St12domain_error", "St11logic_error"}, {"St11logic_error", "St9exception"}, {"St13runtime_error", "St9exception"}, {"St11range_error", "St13runtime_error"}, {"St14overflow_error", "St13runtime_error"}, {"St15underflow_error", "St13runtime_error"}, {"St9bad_alloc", "St9exception"}, {"St20bad_array_new_length", "St9bad_alloc"}, {"St8bad_cast", "St9exception"}, {"St10bad_typeid", "St9exception"}, {"St17bad_function_call", "St9exception"}, {"St12system_error", "St13runtime_error"}};
  string v = tiVt(ti); if (v.empty()) { auto it = STD.find(tiMangled(ti)); if (it != STD.end()) out.push_back({tiByName(it->second), 0, false}); return; } auto *st = cast<llvm::ConstantStruct>(gvByAddr[ti]->getInitializer());
  if (v.find("20__si_class") != string::npos) out.push_back({constInt(st->getOperand(2)), 0, false});
  else if (v.find("21__vmi_class") != string::npos) { u64 n = constInt(st->getOperand(3)); for (u64 i = 0; i < n; i++) { u64 b = constInt(st->getOperand(4 + 2 * i)); i64 fl = (i64)constInt(st->getOperand(5 + 2 * i)); out.push_back({b, fl >> 8, (bool)(fl & 1)}); } }
}
static u64 rd64(State &s, u64 a) { Val v = load(s, VC(a), 8); if (v.e == UNINIT) fail(s, "uninitialised-vtable", "virtual table pointer read from uninitialised memory"); return v.e ? concretize(s, v, 64) : v.c; }
static bool findBase(State &s, u64 ti, u64 obj, u64 want, u64 &res, int depth = 0) {
  if (ti == want || (!tiMangled(ti).empty() && tiMangled(ti) == tiMangled(want))) { res = obj; return true; } if (depth > 20) return false;
  vector<BaseInfo> bs; tiBases(ti, bs);
  for (auto &b : bs) { u64 o = obj; if (b.virt) { if (!obj) continue; u64 vt = rd64(s, obj); o = obj + rd64(s, vt + b.off); } else o = obj + b.off; if (findBase(s, b.ti, o, want, res, depth + 1)) return true; }
  return false;
}
static string tiName(u64 ti) { string m = tiMangled(ti); return m.empty() ? "?" : demangle("_ZTI" + m); }
static bool catchMatches(State &s, u64 cti, u64 tti, u64 exc, u64 &adj) {
  adj = exc; if (!cti) return true; if (cti == tti) return true; if (!tiMangled(cti).empty() && tiMangled(cti) == tiMangled(tti)) return true;
  string tv = tiVt(tti), cv = tiVt(cti); auto nm = [&](u64 t) { string m = tiMangled(t); return m.empty() ? m : "_ZTI" + m; };
  string tn = nm(tti), cn = nm(cti);
  if (tn.rfind("_ZTIP", 0) == 0 && cn.rfind("_ZTIP", 0) == 0) { if (cn == "_ZTIPv") return true; if (cn == "_ZTIPK" + tn.substr(5)) return true; return false; }
  return findBase(s, tti, exc, cti, adj);
}
static std::unordered_map<u64, int> typeIds; static int typeIdOf(u64 ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; return typeIds[ti] = n; }
// unwind the current thread with exception `exc`
static void unwind(State &s, u64 exc) {
  Thread &t = s.th[s.cur]; t.curExc = exc;
  // search phase: is there any catch/cleanup that ends in a handler? (uncaught => terminate at throw point)
  u64 tti = s.exc[exc].ti; bool handler = false;
  for (int i = (int)t.st.size() - 1; i >= 0 && !handler; i--) { Frame &f = t.st[i]; if (i == (int)t.st.size() - 1 && false) continue; const Ins &I = f.fn->code[f.ip]; if (I.op != O_CALL) continue; CallInfo &ci = f.fn->calls[I.aux]; if (!ci.invoke) continue; int ip = f.fn->bbStart[ci.unwindBB]; while (f.fn->code[ip].op != O_LANDINGPAD) ip++; LPad &lp = f.fn->lpads[f.fn->code[ip].aux]; u64 adj; for (auto &c : lp.clauses) if (c.first == 1 || catchMatches(s, c.second, tti, exc, adj)) handler = true; }
  if (!handler) fail(s, "uncaught-exception", "uncaught exception of type " + tiName(tti));
  while (!t.st.empty()) {
    Frame &f = t.st.back();
    const Ins &I = f.fn->code[f.ip];
    if (I.op == O_CALL && f.fn->calls[I.aux].invoke) {
      CallInfo &ci = f.fn->calls[I.aux]; int ip = f.fn->bbStart[ci.unwindBB]; int lpIp = ip; while (f.fn->code[lpIp].op != O_LANDINGPAD) lpIp++;
      LPad &lp = f.fn->lpads[f.fn->code[lpIp].aux]; int sel = 0; bool enter = lp.cleanup; u64 adj = exc;
      for (auto &c : lp.clauses) { if (c.first == 1) { fail(s, "uncaught-exception", "exception filter"); } u64 ad; if (catchMatches(s, c.second, tti, exc, ad)) { sel = typeIdOf(c.second); enter = true; adj = ad; break; } }
      if (enter) { gotoBB(s, f, ci.unwindBB); Ins &L = f.fn->code[lpIp]; f.L[L.dst] = VC(exc); f.L[L.dst + 1] = VC((u64)(u32)sel); s.exc[exc].handlers = s.exc[exc].handlers; if (sel) { t.curExc = exc; } s.exc[exc].adj = adj; f.ip = lpIp; f.ip++; return; }
    }
    if (f.special) fail(s, "uncaught-exception", "exception " + tiName(tti) + " escapes");
    popFrame(s);
  }
  fail(s, "uncaught-exception", "no handler");
}

// ---------------------------------------------------------------- scheduling
static int mtxOwner(State &s, u64 m) { auto it = s.mtx.find(m); return it == s.mtx.end() ? -1 : it->second.first - 1; }
static bool enabled(State &s, int i) {
  Thread &t = s.th[i]; if (t.done) return false;
  switch (t.waitKind) { case 0: return true; case 1: return mtxOwner(s, t.waitObj) < 0; case 2: return t.notified && mtxOwner(s, t.waitMtx) < 0; case 3: return s.th[t.waitObj].done; case 4: return mtxOwner(s, t.waitMtx) < 0; case 5: return true; case 6: { Obj *o = lookup(s, t.waitObj); return !o || o->freed || (o->sym && o->sym[t.waitObj - o->base]) || o->data[t.waitObj - o->base] != t.waitMtx; } }
  return false;
}
static void switchTo(State &s, int t) { s.cur = t; }
// block the current thread (state already recorded in th[cur]) and run another one
static void blockAndSwitch(State &s) {
  vector<int> en; for (int i = 0; i < (int)s.th.size(); i++) if (i != s.cur && enabled(s, i)) en.push_back(i);
  if (enabled(s, s.cur)) en.push_back(s.cur);
  if (en.empty()) for (int i = 0; i < (int)s.th.size(); i++) if (s.th[i].waitKind == 6 && ++s.th[i].spinGiveUps < 40) { s.th[i].spins = 0; s.th[i].waitKind = 0; en.push_back(i); }
  if (en.empty()) { string m = "all threads blocked:"; for (size_t i = 0; i < s.th.size(); i++) if (!s.th[i].done) m += " t" + std::to_string(i) + (s.th[i].waitKind == 1 ? " on mutex" : s.th[i].waitKind == 2 ? " on condition variable" : s.th[i].waitKind == 3 ? " joining" : s.th[i].waitKind == 6 ? " on spin lock" : " ?"); fail(s, "deadlock", m); }
  for (size_t k = 1; k < en.size(); k++) { State *o = cloneState(s); o->cur = en[k]; pushWork(o); }
  s.cur = en[0]; throw SwitchThread();
}
// preemption point before a synchronisation operation
static void schedPoint(State &s) {
  if (s.th.size() < 2 || !s.schedOn) return; Thread &t = s.th[s.cur];
  if (t.midOp) { t.midOp = false; return; }
  nSchedPoints++;
  if (s.preempt >= CFG.maxPreempt) return;
  for (int i = 0; i < (int)s.th.size(); i++) if (i != s.cur && enabled(s, i)) { State *o = cloneState(s); o->th[o->cur].midOp = true; o->cur = i; o->preempt++; pushWork(o); }
}
static void noteSync(State &s, int ev) { if (s.th.size() > 1) { s.schedule.push_back({s.cur, ev}); s.th[s.cur].yields = 0; } }

struct CallCtx { State &s; FnInfo *fn; const Ins &I; CallInfo *ci; vector<vector<Val>> args; };
typedef std::function<bool(CallCtx &, Val &)> Builtin; // true: result in Val, advance; false: control transferred
static vector<Builtin> builtins; static std::unordered_map<string, int> builtinIdx;

static void finishCall(State &s, Val r) { // advance past the call in the current frame
  Frame &f = s.fr(); const Ins &I = f.fn->code[f.ip]; if (I.n == 1) f.L[I.dst] = r; else for (unsigned i = 0; i < I.n; i++) f.L[I.dst + i] = i == 0 ? r : VC(0);
  CallInfo &ci = f.fn->calls[I.aux]; if (ci.invoke) gotoBB(s, f, ci.normalBB); else f.ip++;
}
static bool intrinsicCall(State &s, Frame &f, const Ins &I, CallInfo &ci, Val &r);
static void callFn(State &s, FnInfo *t, vector<vector<Val>> &args, CallInfo *ci, int special = 0) {
  if (t->F->isDeclaration()) unsupported(s, "call to external function " + t->dem);
  int ip = s.fr().ip; size_t nf = t->argSlot.size(); (void)nf;
  pushFrame(s, t, args, ip, special);
  if (t->F->isVarArg()) { // build the variable argument area
    unsigned nfix = t->F->arg_size(); u64 total = 0; for (size_t i = nfix; i < args.size(); i++) total += 8 * std::max<size_t>(1, args[i].size());
    u64 a = allocHeap(s, total + 8, OK_STACK, false); u64 o = 0;
    for (size_t i = nfix; i < args.size(); i++) for (auto &v : args[i]) { Type *ty = ci ? ci->args[i].ty : nullptr; unsigned w = ty ? widthOf(ty) : 64; if (w == 0 || w > 64) w = 64; Val vv = v; if (vv.e && vv.e != UNINIT && vv.e->w < 64) vv = VE(X.zext(vv.e, 64)); store(s, VC(a + o), vv, 8); o += 8; }
    s.fr().va = a; }
}

// ---------------------------------------------------------------- if-conversion of pure regions
static bool specable(const Ins &I) { switch (I.op) { case O_NOP: case O_BIN: case O_ICMP: case O_FCMP: case O_FNEG: case O_CAST: case O_SELECT: case O_LDSLOT: case O_STSLOT: case O_LOAD: case O_GEP: case O_BR: case O_CONDBR: case O_SWITCH: return true; case O_MOV: return I.aux != 1; default: return false; } }
static void specPrepare(FnInfo *f, int ip, Spec &sp) {
  sp.tried = true; const Ins &B = f->code[ip];
  // grow region from both successors: acyclic, all blocks specable, single join
  std::map<int, int> indeg; vector<int> region; std::set<int> inReg; 
  auto blockOf = [&](int i) { int lo = 0, hi = f->bbStart.size() - 1; while (lo < hi) { int m = (lo + hi + 1) / 2; if (f->bbStart[m] <= i) lo = m; else hi = m - 1; } return lo; };
  int home = blockOf(ip);
  auto endOf = [&](int b) { return b + 1 < (int)f->bbStart.size() ? f->bbStart[b + 1] : (int)f->code.size(); };
  auto pure = [&](int b) { int n = 0; for (int i = f->bbStart[b]; i < endOf(b); i++) { if (!specable(f->code[i])) return false; n++; } return n <= 24; };
  auto succs = [&](int b, vector<int> &o) { const Ins &T = f->code[endOf(b) - 1]; if (T.op == O_BR) o.push_back(T.b); else if (T.op == O_CONDBR) { o.push_back(T.b); o.push_back(T.c); } else if (T.op == O_SWITCH) { auto &si = f->switches[T.aux]; std::set<int> d; d.insert(si.def); for (auto &k : si.cases) d.insert(k.second); for (int x : d) o.push_back(x); } };
  // candidates for the join: try each block reachable; use post-dominator like search: iterative frontier collapsing
  std::set<int> frontier; { vector<int> o0; succs(home, o0); frontier.insert(o0.begin(), o0.end()); }
  for (int it = 0; it < 48; it++) {
    if (frontier.size() == 1) { sp.join = *frontier.begin(); sp.ok = true; sp.order = region; return; }
    // pick a frontier block all of whose predecessors are in region/home and which is pure and not home
    int pick = -1;
    for (auto fi = frontier.rbegin(); fi != frontier.rend(); ++fi) { int b = *fi; if (b == home || !pure(b)) continue; bool ok = true; for (const BasicBlock *P : llvm::predecessors(f->bbs[b])) { int pi = -1; for (size_t k = 0; k < f->bbs.size(); k++) if (f->bbs[k] == P) pi = k; if (pi != home && !inReg.count(pi)) ok = false; } if (ok) { pick = b; break; } }
    if (pick < 0) return;
    frontier.erase(pick); region.push_back(pick); inReg.insert(pick); vector<int> ss; succs(pick, ss); for (int x : ss) { if (inReg.count(x) || x == home) return; frontier.insert(x); }
  }
}
static void switchConds(SwitchInfo &si, Val c, unsigned w, vector<std::pair<int, Expr *>> &out) { // (target, condition), one per target, together exhaustive
  std::map<int, Expr *> by; vector<int> order; Expr *any = nullptr; for (auto &k : si.cases) { Expr *e = X.eq(EX(c, w), X.C(k.first, w)); any = any ? X.or_(any, e) : e; auto it = by.find(k.second); if (it == by.end()) { by[k.second] = e; order.push_back(k.second); } else it->second = X.or_(it->second, e); }
  Expr *de = any ? X.not_(any) : X.T(); auto it = by.find(si.def); if (it == by.end()) { by[si.def] = de; order.push_back(si.def); } else it->second = X.or_(it->second, de); for (int o : order) out.push_back({o, by[o]}); }
static bool specRun(State &s, Frame &f, int ip, const vector<std::pair<int, Expr *>> &start, Spec &sp) {
  // linearised predicated execution; falls back when anything impure/invalid is met
  FnInfo *fn = f.fn; auto endOf = [&](int b) { return b + 1 < (int)fn->bbStart.size() ? fn->bbStart[b + 1] : (int)fn->code.size(); };
  vector<std::pair<int, Val>> undo; auto setL = [&](int i, Val v) { undo.push_back({i, f.L[i]}); f.L[i] = v; }; auto rollback = [&]() { for (size_t i = undo.size(); i-- > 0;) f.L[undo[i].first] = undo[i].second; return false; };
  std::map<int, Expr *> guard; std::map<std::pair<int, int>, Expr *> eg; 
  std::map<std::pair<int, int>, std::set<int>> asg; std::set<int> pend; // slots without a value before the region: those assigned on each edge
  for (auto &k : start) { eg[{f.bb, k.first}] = k.second; asg[{f.bb, k.first}]; }
  auto assignedAt = [&](int b) { std::set<int> r; bool first = true; for (auto &e : eg) if (e.first.second == b && !(e.second->k == K_CONST && !e.second->val)) { auto &a = asg[e.first]; if (first) { r = a; first = false; } else { std::set<int> t; for (int x : r) if (a.count(x)) t.insert(x); r = t; } } return r; };
  auto mergePhis = [&](int b) -> bool { // set phi destinations in block b from incoming edges
    if (!fn->hasPhi) return true; vector<std::pair<int, Val>> res; bool first = true; vector<int> dsts; std::map<int, Val> cur;
    for (auto &e : eg) if (e.first.second == b) { auto it = fn->edges.find(e.first); if (it == fn->edges.end()) continue; for (auto &c : it->second.copies) { Val v = rawOp(f, c.second); if (v.e == UNINIT) return false; unsigned w = fn->slotW[c.first]; if (w == 0 || w > 64) return false; auto k = cur.find(c.first); if (k == cur.end()) cur[c.first] = v; else { Val o = k->second; if (o.e == v.e && (o.e || o.c == v.c)) continue; if (w == 64 && (!o.e != !v.e || !o.e) && (inSpace(o.c) || inSpace(v.c))) return false; k->second = VE(X.ite(e.second, EX(v, w), EX(o, w))); } } first = false; }
    for (auto &k : cur) setL(k.first, k.second); return true; };
  for (int b : sp.order) {
    Expr *g = nullptr; for (auto &e : eg) if (e.first.second == b) g = g ? X.or_(g, e.second) : e.second; if (!g) g = X.F();
    if (g->k == K_CONST && !g->val) continue;
    if (!mergePhis(b)) return rollback();
    std::set<int> as = assignedAt(b);
    for (int i = fn->bbStart[b]; i < endOf(b); i++) {
      const Ins &I = fn->code[i]; auto G = [&](int o, unsigned w, bool &bad) { Val v = rawOp(f, o); if (v.e == UNINIT) bad = true; return v; }; bool bad = false;
      switch (I.op) {
        case O_NOP: break;
        case O_BIN: { EK k = (EK)I.aux; Val a = G(I.a, I.w, bad), c = G(I.b, I.w, bad); if (bad) return rollback(); if (k >= K_UDIV && k <= K_SREM && (c.e || c.c == 0 || c.c == mask(I.w))) return rollback(); setL(I.dst, binop(s, k, I.w, a, c)); break; }
        case O_ICMP: { Val a = G(I.a, I.w, bad), c = G(I.b, I.w, bad); if (bad) return rollback(); setL(I.dst, icmp(I.aux, I.w, a, c)); break; }
        case O_FCMP: { Val a = G(I.a, I.w, bad), c = G(I.b, I.w, bad); if (bad) return rollback(); setL(I.dst, fcmp(I.aux, I.w, a, c)); break; }
        case O_FNEG: { Val a = G(I.a, I.w, bad); if (bad) return rollback(); setL(I.dst, VE(X.xor_(EX(a, I.w), X.C(1ULL << (I.w - 1), I.w)))); break; }
        case O_CAST: { Val a = G(I.a, I.w2, bad); if (bad) return rollback(); setL(I.dst, castv(I.aux, I.w, I.w2, a)); break; }
        case O_SELECT: { Val c = G(I.c, 1, bad), a = G(I.a, I.w, bad), d = G(I.b, I.w, bad); if (bad || I.w == 0 || I.w > 64) return rollback(); setL(I.dst, c.e ? VE(X.ite(c.e, EX(a, I.w), EX(d, I.w))) : c.c ? a : d); break; }
        case O_MOV: for (unsigned j = 0; j < I.n; j++) setL(I.dst + j, rawOp(f, I.a >= 0 ? I.a + (int)j : ~(~I.a + (int)j))); break;
        case O_LDSLOT: { Val v = f.L[I.a]; if (v.e == UNINIT || (pend.count(I.a) && !as.count(I.a))) return rollback(); setL(I.dst, v); break; }
        case O_STSLOT: { Val v = G(I.a, I.w, bad), o = f.L[I.dst]; if (bad || I.w == 0 || I.w > 64) return rollback(); if (o.e == UNINIT) { pend.insert(I.dst); as.insert(I.dst); setL(I.dst, g->k == K_CONST || (I.w == 64 && inSpace(v.c)) ? v : VE(X.ite(g, EX(v, I.w), X.C(0, I.w)))); break; } if (pend.count(I.dst)) as.insert(I.dst);
          if (I.w == 64 && (inSpace(v.c) || inSpace(o.c)) && !(v.e == o.e && v.c == o.c)) return rollback(); // do not merge pointers
          setL(I.dst, g->k == K_CONST ? v : (v.e == o.e && (v.e || v.c == o.c)) ? v : VE(X.ite(g, EX(v, I.w), EX(o, I.w)))); break; }
        case O_LOAD: { Val p = G(I.a, 64, bad); if (bad || p.e || I.w2 || I.w > 64 || I.w == 0 || raceOn(s)) return rollback(); u64 a = p.c + I.aux; Obj *o = lookup(s, a); if (!o || o->freed || a < o->base || a - o->base + I.n > o->size) return rollback(); if (o->st) for (unsigned k = 0; k < I.n; k++) if (o->st[a - o->base + k] == 1) return rollback(); Val v = readObj(s, o, a - o->base, I.n); if (v.e && v.e->w > I.w) v = VE(X.extract(v.e, 0, I.w)); else if (!v.e) v.c &= mask(I.w); setL(I.dst, v); break; }
        case O_GEP: { GepInfo &gi = fn->geps[I.aux]; Val p = G(I.a, 64, bad); if (bad) return rollback(); Val r = p.e ? VE(X.add(p.e, X.C((u64)gi.off, 64))) : VC(p.c + gi.off); for (auto &ix : gi.idx) { Val v = G(std::get<0>(ix), std::get<1>(ix), bad); if (bad) return rollback(); unsigned w = std::get<1>(ix); if (!v.e) { u64 d = (u64)sx(v.c, w) * std::get<2>(ix); r = r.e ? VE(X.add(r.e, X.C(d, 64))) : VC(r.c + d); } else r = VE(X.add(EX(r, 64), X.mul(w == 64 ? v.e : X.sext(v.e, 64), X.C(std::get<2>(ix), 64)))); } setL(I.dst, r); break; }
        case O_BR: { auto &e = eg[{b, I.b}]; e = e ? X.or_(e, g) : g; asg[{b, I.b}] = as; break; }
        case O_SWITCH: { Val c = G(I.a, I.w, bad); if (bad) return rollback(); vector<std::pair<int, Expr *>> k; switchConds(fn->switches[I.aux], c, I.w, k); for (auto &t : k) { auto &e = eg[{b, t.first}]; Expr *q = X.and_(g, t.second); e = e ? X.or_(e, q) : q; asg[{b, t.first}] = as; } break; }
        case O_CONDBR: { Val c = G(I.a, 1, bad); if (bad) return rollback(); Expr *ce = EX(c, 1); auto &e1 = eg[{b, I.b}]; Expr *t1 = X.and_(g, ce); e1 = e1 ? X.or_(e1, t1) : t1; auto &e2 = eg[{b, I.c}]; Expr *t2 = X.and_(g, X.not_(ce)); e2 = e2 ? X.or_(e2, t2) : t2; asg[{b, I.b}] = as; asg[{b, I.c}] = as; break; }
        default: return rollback();
      }
    }
  }
  if (!mergePhis(sp.join)) return rollback();
  if (!pend.empty()) { std::set<int> as = assignedAt(sp.join); for (int p : pend) if (!as.count(p)) return rollback(); }
  for (int b : sp.order) for (int i = fn->bbStart[b]; i < endOf(b); i++) fn->covered[i] = true;
  f.prevbb = f.bb; f.bb = sp.join; f.ip = fn->bbStart[sp.join]; return true;
}

// ---------------------------------------------------------------- main step loop
static void doReturn(State &s, Frame &f, const Ins &I) {
  Val rv[16]; unsigned n = I.n; vector<Val> big; Val *r = rv; if (n > 16) { big.resize(n); r = big.data(); }
  for (unsigned i = 0; i < n; i++) r[i] = rawOp(f, I.a >= 0 ? I.a + (int)i : ~(~I.a + (int)i));
  int special = f.special; popFrame(s); auto &st = s.th[s.cur].st;
  if (st.empty()) { // thread finished
    if (s.cur == 0) { if (s.phase < entryList.size()) { FnInfo *n = entryList[s.phase++]; vector<vector<Val>> none; pushFrame(s, n, none, -1, 3); return; }
      s.completed = true; throw PathEnd(); }
    Thread &t = s.th[s.cur]; t.done = true; noteSync(s, 99); blockAndSwitch(s); }
  Frame &c = st.back(); 
  if (special == 1) { finishCall(s, VC(0)); return; } // destructor run by __cxa_end_catch
  const Ins &CI = c.fn->code[c.ip]; for (unsigned i = 0; i < CI.n && i < n; i++) c.L[CI.dst + i] = r[i];
  CallInfo &ci = c.fn->calls[CI.aux]; if (ci.invoke) gotoBB(s, c, ci.normalBB); else c.ip++;
}
static State *curSt; static string whereNow() { if (!curSt) return ""; string l, f; vector<string> st; whereIs(*curSt, l, f, st); string r; for (size_t i = 0; i < st.size() && i < 5; i++) r += st[i] + " < "; return r; }
static void runState(State &s) {
  u64 localCount = 0; curSt = &s; whereHook = whereNow;
  for (;;) {
    Frame &f = s.fr(); Ins &I = f.fn->code[f.ip]; f.fn->covered[f.ip] = true; nInstr++; s.instrs++;
    if ((++localCount & 0x3ff) == 0) { if (s.instrs > CFG.maxInstrPerPath) { nBoundHit++; fail(s, "no-termination", "instruction bound of " + std::to_string(CFG.maxInstrPerPath) + " exceeded on one path"); }
      if ((localCount & 0xffff) == 0 && nowS() - T0 > CFG.timeLimit) { incomplete = true; incompleteWhy.insert("time limit"); endPath(); } }
    switch (I.op) {
      case O_NOP: f.ip++; break;
      case O_BIN: { Val a = getOp(s, f, I.a, I.w), b = getOp(s, f, I.b, I.w); Val r = binop(s, (EK)I.aux, I.w, a, b); f.L[I.dst] = r; f.ip++; break; }
      case O_ICMP: f.L[I.dst] = icmp(I.aux, I.w, getOp(s, f, I.a, I.w), getOp(s, f, I.b, I.w)); f.ip++; break;
      case O_FCMP: f.L[I.dst] = fcmp(I.aux, I.w, getOp(s, f, I.a, I.w), getOp(s, f, I.b, I.w)); f.ip++; break;
      case O_FNEG: { Val a = getOp(s, f, I.a, I.w); f.L[I.dst] = VE(X.xor_(EX(a, I.w), X.C(1ULL << (I.w - 1), I.w))); f.ip++; break; }
      case O_CAST: f.L[I.dst] = castv(I.aux, I.w, I.w2, getOp(s, f, I.a, I.w2)); f.ip++; break;
      case O_SELECT: { Val c = getOp(s, f, I.c, 1); if (!c.e) { f.L[I.dst] = rawOp(f, c.c ? I.a : I.b); } else { Val a = getOp(s, f, I.a, I.w), b = getOp(s, f, I.b, I.w); if (I.w == 64 && (inSpace(a.c) || inSpace(b.c))) f.L[I.dst] = decide(s, c.e) ? a : b; else f.L[I.dst] = VE(X.ite(c.e, EX(a, I.w), EX(b, I.w))); } f.ip++; break; }
      case O_MOV: { if (I.n == 1) f.L[I.dst] = rawOp(f, I.a); else { Val t[16]; vector<Val> big; Val *p = t; if (I.n > 16) { big.resize(I.n); p = big.data(); } for (unsigned j = 0; j < I.n; j++) p[j] = rawOp(f, I.a >= 0 ? I.a + (int)j : ~(~I.a + (int)j)); for (unsigned j = 0; j < I.n; j++) f.L[I.dst + j] = p[j]; } f.ip++; break; }
      case O_LDSLOT: { Val v = f.L[I.a]; if (v.e == UNINIT) { v = freshVar(s, "uninit", I.w, 0xA5A5A5A5A5A5A5A5ULL & mask(I.w)); s.nUninit++; f.L[I.a] = v; } f.L[I.dst] = v; f.ip++; break; }
      case O_STSLOT: f.L[I.dst] = rawOp(f, I.a); f.ip++; break;
      case O_ALLOCA: { Val n = getOp(s, f, I.a, I.w); if (n.e) { Val q = n; u64 c = concretize(s, q, I.w); n = VC(c); } u64 sz = (u64)f.fn->geps[I.aux].off * n.c; if (sz > (1u << 28)) fail(s, "stack-overflow", "alloca of " + std::to_string(sz) + " bytes"); f.L[I.dst] = VC(stackAlloc(s, f, sz)); f.ip++; break; }
      case O_LOAD: {
        if (I.w == 255) unsupported(s, "wide load"); if (I.w2 && raceOn(s)) { schedPoint(s); }
        Val p = getOp(s, f, I.a, 64); if (I.aux) p = p.e ? VE(X.add(p.e, X.C(I.aux, 64))) : VC(p.c + I.aux);
        Val v = load(s, p, I.n, I.w2); if (I.w2 && I.n == 8) noteSync(s, 9); if (I.w2 && s.th.size() > 1 && !p.e) hbLoad(s, p.c, I.w2 > 1);
        if (v.e == UNINIT) { v = freshVar(s, "uninit", I.n * 8, 0xA5A5A5A5A5A5A5A5ULL & mask(I.n * 8)); s.nUninit++; store(s, p, v, I.n); }
        if (I.w < I.n * 8) { if (v.e) v = VE(X.extract(v.e, 0, I.w)); else v.c &= mask(I.w); }
        f.L[I.dst] = v; f.ip++; break; }
      case O_STORE: {
        if (I.w == 255) unsupported(s, "wide store"); if (I.w2 && raceOn(s)) { schedPoint(s); }
        Val p = getOp(s, f, I.a, 64); if (I.aux) p = p.e ? VE(X.add(p.e, X.C(I.aux, 64))) : VC(p.c + I.aux);
        Val v = rawOp(f, I.b); if (I.w < 8 && v.e == UNINIT) v = getOp(s, f, I.b, I.w);
        if (v.e && v.e != UNINIT && v.e->w < I.n * 8) v = VE(X.zext(v.e, I.n * 8));
        store(s, p, v, I.n, I.w2); if (I.w2 && I.n == 8) noteSync(s, 9); if (I.w2 && s.th.size() > 1 && !p.e) { s.relClk.erase(p.c); hbStore(s, p.c, I.w2 > 1); } f.ip++; break; }
      case O_GEP: { GepInfo &gi = f.fn->geps[I.aux]; Val p = getOp(s, f, I.a, 64); Val r = p.e ? VE(X.add(p.e, X.C((u64)gi.off, 64))) : VC(p.c + gi.off);
        for (auto &ix : gi.idx) { unsigned w = std::get<1>(ix); Val v = getOp(s, f, std::get<0>(ix), w); if (!v.e) { u64 d = (u64)sx(v.c, w) * std::get<2>(ix); r = r.e ? VE(X.add(r.e, X.C(d, 64))) : VC(r.c + d); } else r = VE(X.add(EX(r, 64), X.mul(w == 64 ? v.e : X.sext(v.e, 64), X.C(std::get<2>(ix), 64)))); }
        f.L[I.dst] = r; f.ip++; break; }
      case O_BR: gotoBB(s, f, I.b); break;
      case O_CONDBR: { Val c = getOp(s, f, I.a, 1);
        if (c.e && CFG.ifconv) { int k = inPC(s, c.e); if (k < 0) { Spec &sp = f.fn->spec[f.ip]; if (!sp.tried) specPrepare(f.fn, f.ip, sp); if (sp.ok && I.b != I.c) { if (specRun(s, f, f.ip, {{I.b, c.e}, {I.c, X.not_(c.e)}}, sp)) { nSpecOk++; break; } nSpecFail++; } } }
        bool t = c.e ? decide(s, c.e) : c.c & 1; gotoBB(s, f, t ? I.b : I.c); break; }
      case O_SWITCH: { SwitchInfo &si = f.fn->switches[I.aux]; Val c = getOp(s, f, I.a, I.w);
        if (!c.e) { int t = si.def; for (auto &k : si.cases) if (k.first == c.c) { t = k.second; break; } gotoBB(s, f, t); }
        else { if (CFG.ifconv) { Spec &sp = f.fn->spec[f.ip]; if (!sp.tried) specPrepare(f.fn, f.ip, sp); if (sp.ok) { vector<std::pair<int, Expr *>> k; switchConds(si, c, I.w, k); if (specRun(s, f, f.ip, k, sp)) { nSpecOk++; break; } nSpecFail++; } }
          std::map<int, Expr *> by; vector<int> order; for (auto &k : si.cases) { Expr *e = X.eq(c.e, X.C(k.first, I.w)); auto it = by.find(k.second); if (it == by.end()) { by[k.second] = e; order.push_back(k.second); } else it->second = X.or_(it->second, e); }
          int t = si.def; for (int o : order) if (o != si.def && decide(s, by[o])) { t = o; break; } gotoBB(s, f, t); }
        break; }
      case O_RET: doReturn(s, f, I); break;
      case O_UNREACHABLE: fail(s, "unreachable", "control reached the end of a non-void function or other undefined point");
      case O_RESUME: { Val v = getOp(s, f, I.a, 64); Thread &t = s.th[s.cur]; int sp = f.special; popFrame(s); if (t.st.empty() || sp) fail(s, "uncaught-exception", "exception escapes"); 
        // continue unwinding in the caller
        unwind(s, v.c); break; }
      case O_VEXTRACT: { // vector <-> scalar bitcast: source n elems of w2, dest aux elems of w
        Expr *e = nullptr; unsigned ns = I.n; for (unsigned i = 0; i < ns; i++) { Val v = getOp(s, f, I.a >= 0 ? I.a + (int)i : ~(~I.a + (int)i), I.w2); Expr *x = EX(v, I.w2); e = e ? X.concat(x, e) : x; } for (unsigned i = 0; i < I.aux; i++) f.L[I.dst + i] = VE(X.extract(e, i * I.w, I.w)); f.ip++; break; }
      case O_FENCE: { if (s.th.size() > 1) hbFence(s, I.w2 & 1, I.w2 & 2); f.ip++; break; }
      case O_CMPXCHG: { schedPoint(s); Val p = getOp(s, f, I.a, 64), o = getOp(s, f, I.b, I.w), nv = getOp(s, f, I.c, I.w); p = VC(concretize(s, p, 64)); Val cur = load(s, p, I.n, true); if (cur.e == UNINIT) unsupported(s, "cmpxchg on uninitialised memory"); Val e = icmp(llvm::CmpInst::ICMP_EQ, I.w, cur, o); bool ok = e.e ? decide(s, e.e) : e.c; if (s.th.size() > 1) hbLoad(s, p.c, I.w2 & 1); if (ok) { store(s, p, nv, I.n, true); if (s.th.size() > 1) hbStore(s, p.c, I.w2 & 2); } if (I.w == 64) noteSync(s, 9); f.L[I.dst] = cur; f.L[I.dst + 1] = VC(ok); f.ip++; break; }
      case O_RMW: { if (s.th[s.cur].waitKind == 6) s.th[s.cur].waitKind = 0; schedPoint(s); Val p = getOp(s, f, I.a, 64), v = getOp(s, f, I.b, I.w); p = VC(concretize(s, p, 64)); Val cur = load(s, p, I.n, true); if (cur.e == UNINIT) cur = freshVar(s, "uninit", I.w, 0); using R = llvm::AtomicRMWInst; Val r; switch (I.aux) { case R::Xchg: r = v; break; case R::Add: r = binop(s, K_ADD, I.w, cur, v); break; case R::Sub: r = binop(s, K_SUB, I.w, cur, v); break; case R::And: r = binop(s, K_AND, I.w, cur, v); break; case R::Or: r = binop(s, K_OR, I.w, cur, v); break; case R::Xor: r = binop(s, K_XOR, I.w, cur, v); break; default: unsupported(s, "atomicrmw kind"); } if (I.aux == R::Xchg && I.w == 8 && s.th.size() > 1) { // a spin lock: the second failure in a row waits until the value changes
            Thread &t = s.th[s.cur]; u64 sig = p.c; for (auto &fr : t.st) sig = sig * 1000003 + fr.ip + (u64)fr.fn; if (!cur.e && !r.e && cur.c == r.c) { if (t.spinAt == sig && ++t.spins > 1) { t.spins = 1; t.waitKind = 6; t.waitObj = p.c; t.waitMtx = cur.c & 255; t.midOp = true; blockAndSwitch(s); } else if (t.spinAt != sig) { t.spinAt = sig; t.spins = 1; } } else { t.spinAt = 0; noteSync(s, 1); } }
          if (s.th.size() > 1) hbLoad(s, p.c, I.w2 & 1); store(s, p, r, I.n, true); if (s.th.size() > 1) hbStore(s, p.c, I.w2 & 2); if (I.w == 64) noteSync(s, 9); f.L[I.dst] = cur; f.ip++; break; }
      case O_CALL: {
        CallInfo &ci = f.fn->calls[I.aux]; 
        if (ci.callee && ci.callee->isIntrinsic()) { Val r; if (intrinsicCall(s, f, I, ci, r)) { if (s.fr().fn == f.fn) finishCall(s, r); } break; }
        FnInfo *t = ci.target;
        if (!t) {
          if (ci.callee) { t = infoOf(ci.callee); ci.target = t; }
          else { Val fp = getOp(s, f, ci.fop, 64); u64 a = fp.e ? concretize(s, fp, 64) : fp.c; auto it = fnByAddr.find(a); if (it == fnByAddr.end()) { if (a == 0) fail(s, "null-deref", "call through null function pointer"); auto en = gvByAddr.find(a); (void)en; unsupported(s, "indirect call to unknown address " + hexs(a)); } t = it->second; }
        }
        CallCtx cx{s, f.fn, I, &ci, {}}; cx.args.reserve(ci.args.size());
        for (size_t i = 0; i < ci.args.size(); i++) { vector<Val> v; for (unsigned j = 0; j < ci.args[i].n; j++) { Val x = rawOp(f, ci.args[i].op >= 0 ? ci.args[i].op + (int)j : ~(~ci.args[i].op + (int)j)); v.push_back(x); } cx.args.push_back(v); }
        if (t->builtinAddr == -1) { auto b = builtinIdx.find(t->name); t->builtinAddr = b == builtinIdx.end() ? -2 : b->second; }
        if (t->builtinAddr >= 0) {
          for (size_t i = 0; i < ci.args.size(); i++) for (unsigned j = 0; j < ci.args[i].n; j++) if (cx.args[i][j].e == UNINIT) cx.args[i][j] = getOp(s, f, ci.args[i].op >= 0 ? ci.args[i].op + (int)j : ~(~ci.args[i].op + (int)j), ci.args[i].n == 1 ? widthOf(ci.args[i].ty) : 64);
          Val r; if (builtins[t->builtinAddr](cx, r)) finishCall(s, r); break; }
        if (ci.byvalMask) for (size_t i = 0; i < ci.args.size(); i++) if (ci.byvalMask >> i & 1) { Type *ty = ci.CB->getParamByValType(i); u64 sz = DL->getTypeAllocSize(ty); Val p = cx.args[i][0]; u64 a = concretize(s, p, 64); u64 d = stackAlloc(s, f, sz); copyMem(s, d, a, sz); cx.args[i][0] = VC(d); }
        if (t->sizeArg && ci.args.size() > 1 && ci.args[1].n == 1 && cx.args[1][0].e && cx.args[1][0].e != UNINIT) cx.args[1][0] = VC(concretize(s, cx.args[1][0], 64)); // the size of a container is one value per path
        callFn(s, t, cx.args, &ci); break; }
      default: { string str; llvm::raw_string_ostream os(str); if (I.I) I.I->print(os); unsupported(s, "instruction " + os.str()); }
    }
  }
}
