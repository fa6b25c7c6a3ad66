// ---------------------------------------------------------------- intrinsics and external functions given meaning by the engine
static inline double f64(u64 v) { return ExprCtx::f64(v); } static inline float f32(u64 v) { return ExprCtx::f32(v); } static inline u64 b64(double d) { return ExprCtx::b64(d); } static inline u64 b32(float d) { return ExprCtx::b32(d); }
static u64 argU(CallCtx &c, unsigned i, unsigned w = 64) { return concretize(c.s, c.args[i][0], w); }
static Val argV(CallCtx &c, unsigned i) { return c.args[i][0]; }

// ---- heap
static const u64 HEAP_LIMIT = 1ULL << 27;
static u64 heapAlloc(State &s, Val szv, OKind k, bool zero, bool &nomem) {
  nomem = false;
  if (szv.e) { Expr *big = X.ult(X.C(HEAP_LIMIT, 64), szv.e); if (decide(s, big)) { Expr *huge = X.ult(X.C((1ULL << 47) - 1, 64), szv.e); if (decide(s, huge)) { nomem = true; return 0; } unsupported(s, "heap allocation between 128 MB and 2^47 bytes"); } }
  u64 sz = concretize(s, szv, 64);
  if (sz > HEAP_LIMIT) { if (sz >= (1ULL << 47)) { nomem = true; return 0; } unsupported(s, "heap allocation of " + std::to_string(sz) + " bytes"); }
  s.heapLive++; return allocHeap(s, sz, k, !zero);
}
static void heapFree(State &s, u64 p, OKind want, const char *fn) {
  if (!p) return; Obj *o = lookup(s, p);
  if (!o) fail(s, "bad-free", string(fn) + " of an address that is not a heap block (" + hexs(p) + ")");
  if (o->freed) fail(s, "double-free", string(fn) + " of an already freed " + OKN[o->kind] + " of size " + std::to_string(o->size));
  if (o->kind != OK_MALLOC && o->kind != OK_NEW && o->kind != OK_NEWARR) fail(s, "bad-free", string(fn) + " of a " + OKN[o->kind]);
  if (p != o->base) fail(s, "bad-free", string(fn) + " of a pointer into the middle of a block");
  if (CFG.kindCheck && o->kind != want) fail(s, "alloc-dealloc-mismatch", string(fn) + " of a " + OKN[o->kind]);
  if (raceOn(s)) { raceCheck(s, o, 0, std::min<u64>(o->size, 8), true, false); o = lookup(s, p); }
  o = wobj(s, o); o->freed = true; s.heapLive--;
}
// ---- exceptions
static u64 newExc(State &s, u64 size, u64 ti, u64 dtor) { u64 a = allocHeap(s, size ? size : 8, OK_EXC, false); ExcInfo e; e.ti = ti; e.dtor = dtor; e.size = size; s.exc[a] = e; return a; }
static void throwStd(State &s, const string &tyMangled) { u64 e = newExc(s, 64, tiByName(tyMangled), 0); unwind(s, e); }
static u64 excPtr(State &s, u64 exc) { ExcInfo &e = s.exc[exc]; string m = tiMangled(e.ti); if (!m.empty() && m[0] == 'P') return rd64(s, exc); return e.adj ? e.adj : exc; }

// ---- threads
static bool mutexLock(CallCtx &c, u64 m, bool recursive, int tryMode) { // returns acquired; blocks otherwise unless tryMode
  State &s = c.s; schedPoint(s); Thread &t = s.th[s.cur]; auto &mx = s.mtx[m];
  if (mx.first == 0 || (recursive && mx.first == s.cur + 1)) { mx.first = s.cur + 1; mx.second++; t.waitKind = 0; hbAcquire(s, m); noteSync(s, 1); return true; }
  if (tryMode) return false;
  if (mx.first == s.cur + 1) fail(s, "deadlock", "thread locks a mutex it already holds");
  t.waitKind = 1; t.waitObj = m; t.midOp = true; blockAndSwitch(s); return false;
}
static void mutexUnlock(CallCtx &c, u64 m) {
  State &s = c.s; schedPoint(s); auto it = s.mtx.find(m);
  if (it == s.mtx.end() || it->second.first != s.cur + 1) fail(s, "mutex-misuse", "unlock of a mutex that this thread does not hold");
  if (--it->second.second == 0) { s.mtx.erase(it); hbRelease(s, m); } noteSync(s, 2);
}
// returns 0 notified, 1 timed out; blocks in between
static int condWait(CallCtx &c, u64 cond, u64 m, bool timed, u64 deadlineNs) {
  State &s = c.s; Thread &t = s.th[s.cur];
  if (t.waitKind == 0) {
    schedPoint(s); auto it = s.mtx.find(m); if (it == s.mtx.end() || it->second.first != s.cur + 1) fail(s, "mutex-misuse", "condition wait without holding the mutex");
    s.mtx.erase(it); hbRelease(s, m); noteSync(s, 3); Thread &t2 = s.th[s.cur]; t2.waitKind = timed ? 4 : 2; t2.waitObj = cond; t2.waitMtx = m; t2.notified = false; t2.midOp = true; blockAndSwitch(s); }
  auto &mx = s.mtx[m]; mx.first = s.cur + 1; mx.second = 1; hbAcquire(s, m); t.waitKind = 0; t.midOp = false; int r = t.notified ? 0 : 1; if (r && deadlineNs > s.clock) s.clock = deadlineNs; t.notified = false; noteSync(s, 4); return r;
}
static void condNotify(CallCtx &c, u64 cond, bool all) {
  State &s = c.s; schedPoint(s); vector<int> ws; for (int i = 0; i < (int)s.th.size(); i++) if ((s.th[i].waitKind == 2 || s.th[i].waitKind == 4) && s.th[i].waitObj == cond && !s.th[i].notified) ws.push_back(i);
  noteSync(s, 5); if (ws.empty()) return; if (all) { for (int w : ws) s.th[w].notified = true; return; }
  for (size_t k = 1; k < ws.size(); k++) { State *o = cloneState(s); o->th[ws[k]].notified = true; finishCall(*o, VC(0)); pushWork(o); }
  s.th[ws[0]].notified = true;
}

// ---- harness support
static std::map<string, i64> params;
// a condition that implies e: equal floating-point operations follow from equal operands
static Expr *congruent(Expr *e, int depth = 0) {
  if (depth > 12 || !e->fp) return e;
  if (e->k == K_AND && e->w == 1) return X.and_(congruent(e->a, depth + 1), congruent(e->b, depth + 1));
  if (e->k != K_EQ || e->a->k != e->b->k || e->a->w != e->b->w || e->a->val != e->b->val) return e;
  Expr *p = e->a, *q = e->b; bool ok = (p->k >= K_FADD && p->k <= K_FFMA) || (p->k >= K_FPCAST && p->k <= K_UITOFP) || p->k == K_EXTRACT || p->k == K_CONCAT || (p->k == K_XOR && p->b->k == K_CONST && p->b == q->b);
  if (!ok) return e; Expr *r = X.C(1, 1);
  for (int i = 0; i < 3; i++) { Expr *x = i == 0 ? p->a : i == 1 ? p->b : p->c, *y = i == 0 ? q->a : i == 1 ? q->b : q->c; if (x == y) continue; if (!x || !y || x->w != y->w) return e; r = X.and_(r, congruent(X.eq(x, y), depth + 1)); }
  return r;
}
static void doAssert(State &s, Val v, const string &label) {
  assertChecked[label]++; nAssertQ++;
  if (!v.e) { if (!(v.c & 0xffffffff)) { recordError(s, "assertion", label, "property assertion does not hold"); nErrPaths++; endPath(); } assertProved[label]++; return; }
  Expr *c = X.not_(X.eq(v.e, X.C(0, v.e->w))); int k = inPC(s, c); if (k == 1) { assertProved[label]++; return; }
  Expr *c2 = subst(s, c); if (c2->k == K_CONST) { if (c2->val) { assertProved[label]++; return; } recordError(s, "assertion", label, "property assertion does not hold"); nErrPaths++; endPath(); } c = c2;
  if (c->fp) { Expr *d = congruent(c); ModelP dm; if (d != c && !(d->k == K_CONST && !d->val) && feasible(s, X.not_(d), dm) == UNSAT) { assertProved[label]++; addPC(s, c); return; } }
  ModelP m; SatR r = feasible(s, X.not_(c), m);
  if (r == SAT) { State t(s); addPC(t, X.not_(c)); t.model = m; recordError(t, "assertion", label, "property assertion does not hold"); nErrPaths++; if (CFG.stopOnError) endPath(); }
  else if (r == UNKNOWN) { incomplete = true; incompleteWhy.insert("solver returned unknown for assertion " + label); }
  else assertProved[label]++;
  ModelP m2; if (r == SAT) { SatR q = feasible(s, c, m2); if (q != SAT) endPath(); addPC(s, c); s.model = m2; } else addPC(s, c);
}
static void doAssume(State &s, Expr *c) {
  if (c->k == K_CONST) { if (!c->val) { nKilled++; endPath(); } return; }
  int k = inPC(s, c); if (k == 1) return; if (k == 0) { nKilled++; endPath(); }
  c = subst(s, c); if (c->k == K_CONST) { if (!c->val) { nKilled++; endPath(); } return; }
  ModelP m; SatR r = feasible(s, c, m); if (r == UNKNOWN) { incomplete = true; incompleteWhy.insert("solver returned unknown for an assumption"); nKilled++; endPath(); } if (r == UNSAT) { nKilled++; endPath(); }
  addPC(s, c); s.model = m;
}
static Val input(State &s, const string &name, unsigned w, u64 dflt) {
  Expr *e = X.newVar(name, w, dflt); s.inputs.push_back({name, w, e, 0}); return VE(e);
}

static void addB(const string &n, Builtin b) { builtinIdx[n] = builtins.size(); builtins.push_back(b); }
static Val fpConcrete(State &s, Val a, unsigned w) { return a; }
static Val ufApply(State &s, const string &fn, unsigned w, std::initializer_list<std::pair<Val, unsigned>> as) { // uninterpreted but functional
  u64 h = std::hash<string>()(fn); for (auto &a : as) h = ExprCtx::mix(h, EX(a.first, a.second)->id);
  static std::unordered_map<u64, Expr *> uf; Expr *&e = uf[h]; if (!e) e = X.newVar("uf_" + fn, w, 0); s.approx = true; s.approxWhy = "uninterpreted " + fn; noteSet.insert("uninterpreted function: " + fn); return VE(e);
}
static void regMath1(const string &n, double (*f)(double)) {
  addB(n, [n, f](CallCtx &c, Val &r) { Val a = argV(c, 0); if (!a.e) { r = VC(b64(f(f64(a.c)))); return true; } r = ufApply(c.s, n, 64, {{a, 64}}); return true; });
}
static void regMath1f(const string &n, float (*f)(float)) {
  addB(n, [n, f](CallCtx &c, Val &r) { Val a = argV(c, 0); if (!a.e) { r = VC(b32(f(f32(a.c)))); return true; } r = ufApply(c.s, n, 32, {{a, 32}}); return true; });
}
static void regMath2(const string &n, double (*f)(double, double)) {
  addB(n, [n, f](CallCtx &c, Val &r) { Val a = argV(c, 0), b = argV(c, 1); if (!a.e && !b.e) { r = VC(b64(f(f64(a.c), f64(b.c)))); return true; } r = ufApply(c.s, n, 64, {{a, 64}, {b, 64}}); return true; });
}
static void setupBuiltins() {
  auto mallocB = [](OKind k, bool zero, bool thr) { return [=](CallCtx &c, Val &r) { bool nm; u64 a = heapAlloc(c.s, argV(c, 0), k, zero, nm); if (nm && thr) { throwStd(c.s, "St9bad_alloc"); return false; } r = VC(a); return true; }; };
  addB("malloc", mallocB(OK_MALLOC, false, false));
  addB("_Znwm", mallocB(OK_NEW, false, true)); addB("_Znam", mallocB(OK_NEWARR, false, true));
  addB("_ZnwmRKSt9nothrow_t", mallocB(OK_NEW, false, false)); addB("_ZnamRKSt9nothrow_t", mallocB(OK_NEWARR, false, false)); addB("_ZnwmSt11align_val_t", mallocB(OK_NEW, false, true));
  addB("aligned_alloc", [](CallCtx &c, Val &r) { bool nm; r = VC(heapAlloc(c.s, argV(c, 1), OK_MALLOC, false, nm)); return true; });
  addB("posix_memalign", [](CallCtx &c, Val &r) { bool nm; u64 a = heapAlloc(c.s, argV(c, 2), OK_MALLOC, false, nm); store(c.s, argV(c, 0), VC(a), 8); r = VC(0); return true; });
  addB("calloc", [](CallCtx &c, Val &r) { Val a = argV(c, 0), b = argV(c, 1); Val p = a.e || b.e ? VE(X.mul(EX(a, 64), EX(b, 64))) : VC(a.c * b.c); bool nm; r = VC(heapAlloc(c.s, p, OK_MALLOC, true, nm)); return true; });
  addB("realloc", [](CallCtx &c, Val &r) {
    u64 p = argU(c, 0); bool nm; Obj *o = p ? lookup(c.s, p) : nullptr;
    if (p && (!o || o->freed || p != o->base || o->kind != OK_MALLOC)) { heapFree(c.s, p, OK_MALLOC, "realloc"); }
    Val sz = argV(c, 1); u64 n = heapAlloc(c.s, sz, OK_MALLOC, false, nm); if (nm) { r = VC(0); return true; }
    if (p) { o = lookup(c.s, p); Obj *q = lookup(c.s, n); copyMem(c.s, n, p, std::min(o->size, q->size)); heapFree(c.s, p, OK_MALLOC, "realloc"); }
    r = VC(n); return true; });
  auto freeB = [](OKind k, const char *fn) { return [=](CallCtx &c, Val &r) { heapFree(c.s, argU(c, 0), k, fn); r = VC(0); return true; }; };
  addB("free", freeB(OK_MALLOC, "free")); for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) addB(n, freeB(OK_NEW, "operator delete"));
  for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t"}) addB(n, freeB(OK_NEWARR, "operator delete[]"));
  addB("malloc_usable_size", [](CallCtx &c, Val &r) { Obj *o = lookup(c.s, argU(c, 0)); r = VC(o ? o->size : 0); return true; });

  // memory
  auto memcpyB = [](CallCtx &c, Val &r) { u64 n = argU(c, 2), d = argU(c, 0), p = argU(c, 1); copyMem(c.s, d, p, n); r = VC(d); return true; };
  auto memcpyOverlapB = [](CallCtx &c, Val &r) { u64 n = argU(c, 2), d = argU(c, 0), p = argU(c, 1); if (n && d != p && d < p + n && p < d + n) fail(c.s, "memcpy-overlap", "memcpy with overlapping regions"); copyMem(c.s, d, p, n); r = VC(d); return true; };
  addB("memcpy", memcpyOverlapB); addB("memmove", memcpyB);
  addB("memset", [](CallCtx &c, Val &r) { u64 n = argU(c, 2), d = argU(c, 0); Val b = argV(c, 1); if (b.e) b = VE(X.extract(b.e, 0, 8)); else b.c &= 255; setMem(c.s, d, b, n); r = VC(d); return true; });
  auto byteAt = [](State &s, u64 a) { Val v = load(s, VC(a), 1); if (v.e == UNINIT) { v = freshVar(s, "uninit", 8, 0xA5); s.nUninit++; store(s, VC(a), v, 1); } return v; };
  addB("memcmp", [byteAt](CallCtx &c, Val &r) {
    u64 n = argU(c, 2), a = argU(c, 0), b = argU(c, 1); State &s = c.s; if (!n) { r = VC(0); return true; } checkAccess(s, a, n, false); checkAccess(s, b, n, false);
    vector<Expr *> xs, ys; for (u64 i = 0; i < n; i++) { xs.push_back(EX(byteAt(s, a + i), 8)); ys.push_back(EX(byteAt(s, b + i), 8)); }
    Expr *e = X.C(0, 32); for (u64 i = n; i-- > 0;) { if (xs[i] == ys[i]) continue; Expr *d = X.sub(X.zext(xs[i], 32), X.zext(ys[i], 32)); e = X.ite(X.eq(xs[i], ys[i]), e, d); }
    r = VE(e); return true; });
  builtinIdx["bcmp"] = builtinIdx["memcmp"];
  auto strcmpB = [byteAt](bool bounded) { return [=](CallCtx &c, Val &r) {
    State &s = c.s; u64 a = argU(c, 0), b = argU(c, 1); u64 n = bounded ? argU(c, 2) : ~0ULL; vector<std::pair<Expr *, Expr *>> bs; Expr *cont = X.T();
    for (u64 i = 0; i < n; i++) {
      Obj *oa = lookup(s, a + i), *ob = lookup(s, b + i); bool oka = oa && !oa->freed && a + i - oa->base < oa->size, okb = ob && !ob->freed && b + i - ob->base < ob->size;
      if (!oka || !okb || (i && i % 16 == 0)) { if (!decide(s, cont)) break; }
      Expr *x = EX(byteAt(s, a + i), 8), *y = EX(byteAt(s, b + i), 8); bs.push_back({x, y});
      cont = X.and_(cont, X.and_(X.eq(x, y), X.not_(X.eq(x, X.C(0, 8))))); if (cont->k == K_CONST && !cont->val) break;
    }
    Expr *e = X.C(0, 32); for (size_t i = bs.size(); i-- > 0;) { Expr *x = bs[i].first, *y = bs[i].second; Expr *d = X.sub(X.zext(x, 32), X.zext(y, 32)); Expr *stop = X.or_(X.not_(X.eq(x, y)), X.eq(x, X.C(0, 8))); e = X.ite(stop, d, e); }
    r = VE(e); return true; }; };
  addB("strcmp", strcmpB(false)); addB("strncmp", strcmpB(true));

  // exceptions
  addB("__cxa_allocate_exception", [](CallCtx &c, Val &r) { r = VC(newExc(c.s, argU(c, 0), 0, 0)); return true; });
  addB("__cxa_free_exception", [](CallCtx &c, Val &r) { Obj *o = lookup(c.s, argU(c, 0)); wobj(c.s, o)->freed = true; return true; });
  addB("__cxa_throw", [](CallCtx &c, Val &r) { u64 e = argU(c, 0); ExcInfo &x = c.s.exc[e]; x.ti = argU(c, 1); x.dtor = argU(c, 2); unwind(c.s, e); return false; });
  addB("__cxa_begin_catch", [](CallCtx &c, Val &r) { u64 e = argU(c, 0); ExcInfo &x = c.s.exc[e]; Thread &t = c.s.th[c.s.cur]; if (x.handlers < 0) x.handlers = -x.handlers + 1; else x.handlers++; if (t.caught.empty() || t.caught.back().exc != e) t.caught.push_back({e, 0}); r = VC(excPtr(c.s, e)); return true; });
  addB("__cxa_get_exception_ptr", [](CallCtx &c, Val &r) { r = VC(excPtr(c.s, argU(c, 0))); return true; });
  addB("__cxa_end_catch", [](CallCtx &c, Val &r) { Thread &t = c.s.th[c.s.cur]; if (t.caught.empty()) return true; u64 e = t.caught.back().exc; ExcInfo &x = c.s.exc[e];
    if (x.handlers < 0) { if (++x.handlers == 0) t.caught.pop_back(); return true; }
    if (--x.handlers == 0) { t.caught.pop_back(); u64 d = x.dtor; 
      if (d) { auto it = fnByAddr.find(d); if (it != fnByAddr.end() && !it->second->F->isDeclaration()) { vector<vector<Val>> a{{VC(e)}}; callFn(c.s, it->second, a, nullptr, 1); return false; } }
      Obj *o = lookup(c.s, e); if (o) wobj(c.s, o)->freed = true; }
    return true; });
  addB("__cxa_rethrow", [](CallCtx &c, Val &r) { Thread &t = c.s.th[c.s.cur]; if (t.caught.empty()) fail(c.s, "terminate", "rethrow with no active exception"); u64 e = t.caught.back().exc; c.s.exc[e].handlers = -c.s.exc[e].handlers; unwind(c.s, e); return false; });
  addB("_Unwind_Resume", [](CallCtx &c, Val &r) { u64 e = argU(c, 0); popFrame(c.s); if (c.s.th[c.s.cur].st.empty()) fail(c.s, "uncaught-exception", "exception escapes"); unwind(c.s, e); return false; });
  addB("__cxa_call_unexpected", [](CallCtx &c, Val &r) -> bool { fail(c.s, "terminate", "exception specification violated"); });
  addB("_ZSt9terminatev", [](CallCtx &c, Val &r) -> bool { fail(c.s, "terminate", "std::terminate called"); });
  addB("__cxa_pure_virtual", [](CallCtx &c, Val &r) -> bool { fail(c.s, "terminate", "pure virtual function called"); });
  addB("abort", [](CallCtx &c, Val &r) -> bool { fail(c.s, "abort", "abort called"); });
  addB("__assert_fail", [](CallCtx &c, Val &r) -> bool { fail(c.s, "abort", "assert failed: " + readCStr(c.s, argU(c, 0))); });
  addB("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](CallCtx &c, Val &r) -> bool { fail(c.s, "abort", "libstdc++ assertion failed"); });
  addB("__stack_chk_fail", [](CallCtx &c, Val &r) -> bool { fail(c.s, "abort", "stack smashing"); });
  for (auto n : {"exit", "_exit", "quick_exit"}) addB(n, [](CallCtx &c, Val &r) -> bool { fail(c.s, "exit", "process exit requested"); });
  auto thr = [](const char *t) { string ts = t; return [ts](CallCtx &c, Val &r) { throwStd(c.s, ts); return false; }; };
  addB("_ZSt20__throw_out_of_rangePKc", thr("St12out_of_range")); addB("_ZSt24__throw_out_of_range_fmtPKcz", thr("St12out_of_range")); addB("_ZSt19__throw_logic_errorPKc", thr("St11logic_error")); addB("_ZSt20__throw_length_errorPKc", thr("St12length_error"));
  addB("_ZSt17__throw_bad_allocv", thr("St9bad_alloc")); addB("_ZSt28__throw_bad_array_new_lengthv", thr("St20bad_array_new_length")); addB("__cxa_throw_bad_array_new_length", thr("St20bad_array_new_length")); addB("_ZSt25__throw_bad_function_callv", thr("St17bad_function_call")); addB("_ZSt16__throw_bad_castv", thr("St8bad_cast")); addB("__cxa_bad_cast", thr("St8bad_cast")); addB("__cxa_bad_typeid", thr("St10bad_typeid")); addB("_ZSt20__throw_system_errori", thr("St12system_error")); addB("_ZSt24__throw_invalid_argumentPKc", thr("St16invalid_argument")); addB("_ZSt21__throw_runtime_errorPKc", thr("St13runtime_error")); addB("_ZSt19__throw_range_errorPKc", thr("St11range_error")); addB("_ZSt22__throw_overflow_errorPKc", thr("St14overflow_error"));

  // standard exception objects carry no text here; catching works by type
  for (string t : {"St16invalid_argument", "St12out_of_range", "St12length_error", "St12domain_error", "St11logic_error", "St13runtime_error", "St11range_error", "St14overflow_error"}) for (string f : {"C1EPKc", "C2EPKc", "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "D1Ev", "D2Ev", "C1ERKS_", "C2ERKS_"}) addB(*new string("_ZN" + t + f), [](CallCtx &c, Val &r) { r = VC(0); return true; });

  // static initialisation
  addB("__cxa_guard_acquire", [](CallCtx &c, Val &r) { u64 g = argU(c, 0); State &s = c.s; bool ro = CFG.races; CFG.races = false; Val v = load(s, VC(g), 1); CFG.races = ro; if (!v.e && v.c) { hbAcquire(s, g); r = VC(0); return true; } r = VC(1); return true; });
  addB("__cxa_guard_release", [](CallCtx &c, Val &r) { u64 g = argU(c, 0); bool ro = CFG.races; CFG.races = false; store(c.s, VC(g), VC(1), 1); CFG.races = ro; if (c.s.th.size() > 1) hbRelease(c.s, g); return true; });
  auto nop = [](CallCtx &c, Val &r) { r = VC(0); return true; };
  for (auto n : {"__cxa_guard_abort", "__cxa_atexit", "atexit", "__cxa_thread_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "fflush", "__gmon_start__", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev", "_ZNSt6thread20hardware_concurrencyEv", "tzset", "srand", "puts", "putchar"}) addB(n, nop);
  addB("__dynamic_cast", [](CallCtx &c, Val &r) { State &s = c.s; u64 o = argU(c, 0); if (!o) { r = VC(0); return true; } u64 dst = argU(c, 2); u64 vt = rd64(s, o); i64 top = (i64)rd64(s, vt - 16); u64 ti = rd64(s, vt - 8); u64 res; r = VC(findBase(s, ti, o + top, dst, res) ? res : 0); return true; });
  
  // math
  regMath1("sin", sin); regMath1("cos", cos); regMath1("tan", tan); regMath1("asin", asin); regMath1("acos", acos); regMath1("atan", atan); regMath1("sinh", sinh); regMath1("cosh", cosh); regMath1("tanh", tanh); regMath1("exp", exp); regMath1("log", log); regMath1("log10", log10); regMath1("log1p", log1p); regMath1("log2", log2); regMath1("expm1", expm1); regMath1("cbrt", cbrt);
  regMath2("pow", pow); regMath2("atan2", atan2); regMath2("hypot", hypot); regMath2("scalbn_", [](double a, double b) { return a; });
  regMath1f("sinf", sinf); regMath1f("cosf", cosf); regMath1f("log2f", log2f); regMath1f("logf", logf); regMath1f("log10f", log10f); regMath1f("expf", expf); regMath1f("cbrtf", cbrtf);
  auto round1 = [](unsigned w, int mode) { return [=](CallCtx &c, Val &r) { r = VE(X.un(K_FROUND, EX(argV(c, 0), w), w, mode)); return true; }; };
  addB("floor", round1(64, FR_FLOOR)); addB("ceil", round1(64, FR_CEIL)); addB("trunc", round1(64, FR_TRUNC)); addB("rint", round1(64, FR_RNE)); addB("nearbyint", round1(64, FR_RNE)); addB("round", round1(64, FR_RNA));
  addB("floorf", round1(32, FR_FLOOR)); addB("ceilf", round1(32, FR_CEIL)); addB("truncf", round1(32, FR_TRUNC)); addB("rintf", round1(32, FR_RNE)); addB("roundf", round1(32, FR_RNA));
  addB("sqrt", [](CallCtx &c, Val &r) { r = VE(X.un(K_FSQRT, EX(argV(c, 0), 64), 64)); return true; });
  addB("sqrtf", [](CallCtx &c, Val &r) { r = VE(X.un(K_FSQRT, EX(argV(c, 0), 32), 32)); return true; });
  addB("fmod", [](CallCtx &c, Val &r) { Val a = argV(c, 0), b = argV(c, 1); if (!a.e && !b.e) { r = VC(b64(fmod(f64(a.c), f64(b.c)))); return true; } r = ufApply(c.s, "fmod", 64, {{a, 64}, {b, 64}}); return true; });
  addB("fabs", [](CallCtx &c, Val &r) { r = VE(X.and_(EX(argV(c, 0), 64), X.C(~(1ULL << 63), 64))); return true; });
  addB("fabsf", [](CallCtx &c, Val &r) { r = VE(X.and_(EX(argV(c, 0), 32), X.C(0x7fffffff, 32))); return true; });
  addB("abs", [](CallCtx &c, Val &r) { Expr *a = EX(argV(c, 0), 32); r = VE(X.ite(X.slt(a, X.C(0, 32)), X.neg(a), a)); return true; });
  addB("labs", [](CallCtx &c, Val &r) { Expr *a = EX(argV(c, 0), 64); r = VE(X.ite(X.slt(a, X.C(0, 64)), X.neg(a), a)); return true; });

  // threads
  auto mlock = [](bool rec, int tr) { return [=](CallCtx &c, Val &r) { u64 m = argU(c, 0); bool ok = mutexLock(c, m, rec, tr); r = VC(ok ? 0 : 16); return true; }; };
  addB("pthread_mutex_lock", mlock(false, 0)); addB("pthread_mutex_trylock", mlock(false, 1)); addB("pthread_mutex_unlock", [](CallCtx &c, Val &r) { mutexUnlock(c, argU(c, 0)); r = VC(0); return true; });
  addB("pthread_cond_wait", [](CallCtx &c, Val &r) { r = VC(condWait(c, argU(c, 0), argU(c, 1), false, 0)); return true; });
  auto tw = [](int tsArg) { return [=](CallCtx &c, Val &r) { u64 ts = argU(c, tsArg); u64 sec = concretize(c.s, load(c.s, VC(ts), 8), 64), ns = concretize(c.s, load(c.s, VC(ts + 8), 8), 64); r = VC(condWait(c, argU(c, 0), argU(c, 1), true, sec * 1000000000ULL + ns) ? 110 : 0); return true; }; };
  addB("pthread_cond_timedwait", tw(2)); addB("pthread_cond_clockwait", tw(3));
  addB("pthread_cond_signal", [](CallCtx &c, Val &r) { condNotify(c, argU(c, 0), false); r = VC(0); return true; }); addB("pthread_cond_broadcast", [](CallCtx &c, Val &r) { condNotify(c, argU(c, 0), true); r = VC(0); return true; });
  addB("_ZNSt18condition_variable10notify_oneEv", [](CallCtx &c, Val &r) { condNotify(c, argU(c, 0), false); return true; }); addB("_ZNSt18condition_variable10notify_allEv", [](CallCtx &c, Val &r) { condNotify(c, argU(c, 0), true); return true; });
  addB("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", [](CallCtx &c, Val &r) { u64 ul = argU(c, 1); u64 m = rd64(c.s, ul); condWait(c, argU(c, 0), m, false, 0); return true; });
  addB("symx_thread_create", [](CallCtx &c, Val &r) { State &s = c.s; schedPoint(s); u64 fn = argU(c, 0), arg = argU(c, 1); auto it = fnByAddr.find(fn); if (it == fnByAddr.end()) unsupported(s, "thread start routine"); int nt = s.th.size(); s.th.emplace_back();
    Thread &me = s.th[s.cur]; if ((int)me.vc.size() <= s.cur) { me.vc.resize(s.cur + 1, 0); me.vc[s.cur] = 1; } s.th[nt].vc = me.vc; s.th[nt].vc.resize(nt + 1, 0); s.th[nt].vc[nt] = 1; s.th[s.cur].vc[s.cur]++;
    int old = s.cur; s.cur = nt; vector<vector<Val>> a{{VC(arg)}}; pushFrame(s, it->second, a, -1, 2); s.cur = old; noteSync(s, 6); r = VC(nt); return true; });
  addB("symx_thread_join", [](CallCtx &c, Val &r) { State &s = c.s; u64 t = argU(c, 0); if (t == 0 || t >= s.th.size()) fail(s, "thread-misuse", "join of an unknown thread"); if (!s.th[t].done) { Thread &me = s.th[s.cur]; me.waitKind = 3; me.waitObj = t; me.midOp = true; blockAndSwitch(s); } s.th[s.cur].waitKind = 0; s.th[s.cur].midOp = false; vcJoin(s.th[s.cur].vc, s.th[t].vc); noteSync(s, 7); r = VC(0); return true; });
  addB("symx_thread_self", [](CallCtx &c, Val &r) { r = VC(c.s.cur); return true; }); addB("pthread_self", [](CallCtx &c, Val &r) { r = VC(c.s.cur + 1); return true; });
  addB("symx_yield", [](CallCtx &c, Val &r) { schedPoint(c.s); noteSync(c.s, 8); r = VC(0); return true; });
  for (auto n : {"sched_yield", "usleep", "sleep"}) builtinIdx[n] = builtinIdx["symx_yield"];
  addB("symx_advance_clock", [](CallCtx &c, Val &r) { schedPoint(c.s); c.s.clock += argU(c, 0); r = VC(0); return true; });
  addB("symx_clock_ns", [](CallCtx &c, Val &r) { r = VC(c.s.clock); return true; });
  addB("symx_sched", [](CallCtx &c, Val &r) { c.s.schedOn = argU(c, 0); return true; });

  // harness API
  addB("sym_int", [](CallCtx &c, Val &r) { r = input(c.s, readCStr(c.s, argU(c, 0)), 32, 0); return true; });
  addB("sym_long", [](CallCtx &c, Val &r) { r = input(c.s, readCStr(c.s, argU(c, 0)), 64, 0); return true; });
  addB("sym_short", [](CallCtx &c, Val &r) { r = input(c.s, readCStr(c.s, argU(c, 0)), 16, 0); return true; });
  addB("sym_byte", [](CallCtx &c, Val &r) { r = input(c.s, readCStr(c.s, argU(c, 0)), 8, 'a'); return true; });
  addB("sym_bool", [](CallCtx &c, Val &r) { r = input(c.s, readCStr(c.s, argU(c, 0)), 1, 0); r.e = X.zext(r.e, 32); return true; });
  addB("sym_double", [](CallCtx &c, Val &r) { r = input(c.s, readCStr(c.s, argU(c, 0)), 64, b64(1.5)); return true; });
  addB("sym_float", [](CallCtx &c, Val &r) { r = input(c.s, readCStr(c.s, argU(c, 0)), 32, b32(1.5f)); return true; });
  addB("sym_range", [](CallCtx &c, Val &r) { i64 lo = (i32)argU(c, 1, 32), hi = (i32)argU(c, 2, 32); if (lo == hi) { c.s.inputs.push_back({readCStr(c.s, argU(c, 0)), 32, nullptr, (u64)lo & 0xffffffff}); r = VC((u64)lo & 0xffffffff); return true; }
    if (hi < lo) doAssume(c.s, X.F()); u64 span = (u64)(hi - lo); Expr *u = X.newVar(readCStr(c.s, argU(c, 0)), 32, 0, span); if (span < 0xffffffff) addPC(c.s, X.mk(K_ULT, 1, u, X.C(span + 1, 32)));
    Expr *e = X.add(u, X.C((u64)lo, 32)); c.s.inputs.push_back({readCStr(c.s, argU(c, 0)), 32, e, 0}); r = VE(e); return true; });
  addB("sym_choice", [](CallCtx &c, Val &r) { i64 n = (i32)argU(c, 1, 32); string nm = readCStr(c.s, argU(c, 0)); // forks concretely into n states
    for (i64 k = n - 1; k >= 1; k--) { State *o = cloneState(c.s); o->inputs.push_back({nm, 32, nullptr, (u64)k}); finishCall(*o, VC(k)); pushWork(o); }
    c.s.inputs.push_back({nm, 32, nullptr, 0}); r = VC(0); return true; });
  addB("sym_concrete", [](CallCtx &c, Val &r) { r = VC(argU(c, 0, 64)); return true; });
  addB("sym_is_symbolic", [](CallCtx &c, Val &r) { r = VC(c.args[0][0].e != nullptr); return true; });
  addB("sym_assume", [](CallCtx &c, Val &r) { Val v = argV(c, 0); doAssume(c.s, v.e ? X.not_(X.eq(v.e, X.C(0, v.e->w))) : X.C(v.c != 0, 1)); return true; });
  addB("sym_assert", [](CallCtx &c, Val &r) { doAssert(c.s, argV(c, 0), readCStr(c.s, argU(c, 1))); return true; });
  addB("sym_reach", [](CallCtx &c, Val &r) { reachedCount[readCStr(c.s, argU(c, 0))]++; return true; });
  addB("sym_observe", [](CallCtx &c, Val &r) { c.s.obs.push_back({readCStr(c.s, argU(c, 0)), 64, argV(c, 1)}); return true; });
  addB("sym_heap_live", [](CallCtx &c, Val &r) { r = VC((u64)c.s.heapLive); return true; });
  addB("sym_param", [](CallCtx &c, Val &r) { string n = readCStr(c.s, argU(c, 0)); auto it = params.find(n); i64 v = it == params.end() ? (i32)argU(c, 1, 32) : it->second; bounds[n] = v; r = VC((u64)v & 0xffffffff); return true; });
  addB("sym_native", [](CallCtx &c, Val &r) { r = VC(0); return true; });
  addB("symx_unsupported", [](CallCtx &c, Val &r) -> bool { unsupported(c.s, readCStr(c.s, argU(c, 0))); });
  addB("symx_note", [](CallCtx &c, Val &r) { noteSet.insert(readCStr(c.s, argU(c, 0))); return true; });
  addB("symx_havoc", [](CallCtx &c, Val &r) { r = VE(X.newVar("havoc", 64, argU(c, 0))); c.s.approx = true; return true; });
  addB("symx_trace", [](CallCtx &c, Val &r) { if (CFG.verbose) { Val v = argV(c, 1); fprintf(stderr, "TRACE %s %s\n", readCStr(c.s, argU(c, 0)).c_str(), v.e ? X.str(v.e, 6).c_str() : std::to_string((i64)v.c).c_str()); } return true; });
  // ite without forking: symx_ite(cond,a,b)
  addB("symx_ite", [](CallCtx &c, Val &r) { Val k = argV(c, 0); if (!k.e) { r = (k.c & 0xffffffff) ? argV(c, 1) : argV(c, 2); return true; } r = VE(X.ite(X.not_(X.eq(k.e, X.C(0, k.e->w))), EX(argV(c, 1), 64), EX(argV(c, 2), 64))); return true; });
  // decimal digits of v (must be < 10^n on this path), most significant first, as byte values 0..9
  addB("symx_digits", [](CallCtx &c, Val &r) { State &s = c.s; Val v = argV(c, 0); u64 out = argU(c, 1); int n = (int)argU(c, 2, 32); int base = (int)argU(c, 3, 32);
    if (!v.e) { u64 x = v.c; for (int i = n - 1; i >= 0; i--) { store(s, VC(out + i), VC(x % base), 1); x /= base; } return true; }
    if ((base & (base - 1)) == 0) { int sh = __builtin_ctz(base); for (int i = n - 1, p = 0; i >= 0; i--, p += sh) store(s, VC(out + i), VE(X.extract(X.and_(p < 64 ? X.shift(K_LSHR, v.e, X.C(p, 64)) : X.C(0, 64), X.C(base - 1, 64)), 0, 8)), 1); return true; }
    vector<Expr *> ds; digitVars(s, v.e, n, base, ds); for (int i = 0; i < n; i++) store(s, VC(out + i), VE(ds[i]), 1); return true; });
  // text of number v as an object whose contents are worked out when first read; kind 0 unsigned, 1 signed, 2 floating point
  addB("symx_lazy_fmt", [](CallCtx &c, Val &r) { State &s = c.s; Val v = argV(c, 0); int kind = (int)argU(c, 1, 32); u64 at = argU(c, 2); 
    if (at) { Obj *o = lookup(s, at); if (!o || o->freed || at - o->base + 24 > o->size || o->lazy) { r = VC(0); return true; } o = wobj(s, o); o->lazy = std::make_shared<Lazy>(Lazy{v.e, kind, at - o->base, false}); r = VC(at); return true; }
    s.heapLive++; u64 a = allocHeap(s, 24, OK_MALLOC, false); lookup(s, a)->lazy = std::make_shared<Lazy>(Lazy{v.e, kind, 0, true}); r = VC(a); return true; });
  addB("symx_fmt_double", [](CallCtx &c, Val &r) { // (char *out, long cap, const char *spec, int prec, double v): concrete values only
    State &s = c.s; u64 out = argU(c, 0), cap = argU(c, 1); string spec = readCStr(s, argU(c, 2)); int prec = (int)argU(c, 3, 32); Val v = argV(c, 4); if (v.e) unsupported(s, "text of a symbolic floating-point number"); char b[2048]; snprintf(b, sizeof b, spec.c_str(), prec, f64(v.c)); size_t n = strlen(b); for (size_t i = 0; i <= n && i < cap; i++) store(s, VC(out + i), VC((u8)b[i]), 1); r = VC(n); return true; });
  addB("symx_cstr_concrete", [](CallCtx &c, Val &r) { r = VC(readCStr(c.s, argU(c, 0)).find("<sym>") == string::npos); return true; });
  addB("symx_strtof", [](CallCtx &c, Val &r) { string t = readCStr(c.s, argU(c, 0)); if (t.find("<sym>") != string::npos) unsupported(c.s, "number parsed from symbolic text"); char *e; float d = strtof(t.c_str(), &e); store(c.s, argV(c, 1), VC(e - t.c_str()), 8); r = VC(b64((double)d)); return true; });
  addB("symx_strtod", [](CallCtx &c, Val &r) { string t = readCStr(c.s, argU(c, 0)); if (t.find("<sym>") != string::npos) unsupported(c.s, "number parsed from symbolic text"); char *e; double d = strtod(t.c_str(), &e); store(c.s, argV(c, 1), VC(e - t.c_str()), 8); r = VC(b64(d)); return true; });
}

// ---------------------------------------------------------------- LLVM intrinsics
static bool intrinsicCall(State &s, Frame &f, const Ins &I, CallInfo &ci, Val &r) {
  using namespace llvm; auto id = ci.callee->getIntrinsicID(); r = VC(0);
  auto A = [&](unsigned i) { return getOp(s, f, ci.args[i].op, widthOf(ci.args[i].ty)); };
  auto W = [&](unsigned i) { return widthOf(ci.args[i].ty); };
  auto two = [&](Val a, Val b) { f.L[I.dst] = a; f.L[I.dst + 1] = b; if (ci.invoke) gotoBB(s, f, ci.normalBB); else f.ip++; return false; };
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: { u64 n = concretize(s, A(2), W(2)), d = concretize(s, A(0), 64), p = concretize(s, A(1), 64); if (n && id != Intrinsic::memmove && d != p && d < p + n && p < d + n) fail(s, "memcpy-overlap", "memcpy with overlapping regions"); copyMem(s, d, p, n); return true; }
    case Intrinsic::memset: { u64 n = concretize(s, A(2), W(2)), d = concretize(s, A(0), 64); setMem(s, d, A(1), n); return true; }
    case Intrinsic::frexp: { // the same decomposition as the model in rt.cpp
      unsigned w = W(0), mb = w == 64 ? 52 : 23, eb = w - 1 - mb; Expr *u = EX(A(0), w), *m = X.and_(u, X.C(mask(mb), w)), *f = X.extract(u, mb, eb), *p = X.C(0, w); int bias = (1 << (eb - 1)) - 1;
      for (unsigned i = 0; i < mb; i++) p = X.ite(X.extract(m, i, 1), X.C(i, w), p);
      Expr *sub = X.and_(X.shift(K_SHL, m, X.sub(X.C(mb, w), p)), X.C(mask(mb), w)), *f0 = X.eq(f, X.C(0, eb)), *zs = X.or_(X.eq(X.and_(u, X.C(mask(w - 1), w)), X.C(0, w)), X.eq(f, X.C(mask(eb), eb)));
      Expr *e = X.ite(zs, X.C(0, 32), X.ite(f0, X.sub(X.extract(p, 0, 32), X.C(bias + mb - 2, 32)), X.sub(X.zext(f, 32), X.C(bias - 1, 32)))), *v = X.ite(zs, u, X.or_(X.or_(X.and_(u, X.C(1ULL << (w - 1), w)), X.C((u64)(bias - 1) << mb, w)), X.ite(f0, sub, m)));
      return two(VE(v), VE(e)); }
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      unsigned w = W(0); Expr *a = EX(A(0), w), *b = EX(A(1), w);
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; Expr *res, *ov;
      if (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) { res = X.add(a, b); if (sg) ov = X.extract(X.and_(X.xor_(a, res), X.xor_(b, res)), w - 1, 1); else ov = X.ult(res, a); }
      else if (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) { res = X.sub(a, b); if (sg) ov = X.extract(X.and_(X.xor_(a, b), X.xor_(a, res)), w - 1, 1); else ov = X.ult(a, b); }
      else { res = X.mul(a, b);
        if (w <= 32) { Expr *a2 = sg ? X.sext(a, 64) : X.zext(a, 64), *b2 = sg ? X.sext(b, 64) : X.zext(b, 64); Expr *p = X.mul(a2, b2); ov = X.not_(X.eq(p, sg ? X.sext(res, 64) : X.zext(res, 64))); }
        else { Expr *z = X.eq(a, X.C(0, w)); Expr *safe = X.ite(z, X.C(1, w), a); if (sg) { Expr *q = X.div(K_SDIV, res, safe); ov = X.and_(X.not_(z), X.or_(X.not_(X.eq(q, b)), X.and_(X.eq(a, X.C(mask(w), w)), X.eq(b, X.C(1ULL << (w - 1), w))))); } else { Expr *q = X.div(K_UDIV, res, safe); ov = X.and_(X.not_(z), X.not_(X.eq(q, b))); } } }
      return two(VE(res), VE(ov)); }
    case Intrinsic::bswap: { unsigned w = W(0); Expr *a = EX(A(0), w), *e = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr *b = X.extract(a, i, 8); e = e ? X.concat(e, b) : b; } r = VE(e); return true; }
    case Intrinsic::ctpop: { unsigned w = W(0); Expr *a = EX(A(0), w), *e = X.C(0, w); for (unsigned i = 0; i < w; i++) e = X.add(e, X.zext(X.extract(a, i, 1), w)); r = VE(e); return true; }
    case Intrinsic::ctlz: { unsigned w = W(0); Expr *a = EX(A(0), w), *e = X.C(w, w); for (unsigned i = 0; i < w; i++) e = X.ite(X.extract(a, i, 1), X.C(w - 1 - i, w), e); r = VE(e); return true; }
    case Intrinsic::cttz: { unsigned w = W(0); Expr *a = EX(A(0), w), *e = X.C(w, w); for (unsigned i = w; i-- > 0;) e = X.ite(X.extract(a, i, 1), X.C(i, w), e); r = VE(e); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { unsigned w = W(0); Expr *a = EX(A(0), w), *b = EX(A(1), w), *n = X.bin(K_AND, EX(A(2), w), X.C(w - 1, w)); Expr *z = X.eq(n, X.C(0, w)), *m = X.sub(X.C(w, w), n);
      if (id == Intrinsic::fshl) r = VE(X.ite(z, a, X.or_(X.shift(K_SHL, a, n), X.shift(K_LSHR, b, m)))); else r = VE(X.ite(z, b, X.or_(X.shift(K_LSHR, b, n), X.shift(K_SHL, a, m)))); return true; }
    case Intrinsic::abs: { unsigned w = W(0); Expr *a = EX(A(0), w); r = VE(X.ite(X.slt(a, X.C(0, w)), X.neg(a), a)); return true; }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { unsigned w = W(0); Expr *a = EX(A(0), w), *b = EX(A(1), w); Expr *lt = (id == Intrinsic::smax || id == Intrinsic::smin) ? X.slt(a, b) : X.ult(a, b); bool mx = id == Intrinsic::smax || id == Intrinsic::umax; r = VE(mx ? X.ite(lt, b, a) : X.ite(lt, a, b)); return true; }
    case Intrinsic::fabs: { unsigned w = W(0); r = VE(X.and_(EX(A(0), w), X.C(mask(w) >> 1, w))); return true; }
    case Intrinsic::floor: r = VE(X.un(K_FROUND, EX(A(0), W(0)), W(0), FR_FLOOR)); return true;
    case Intrinsic::ceil: r = VE(X.un(K_FROUND, EX(A(0), W(0)), W(0), FR_CEIL)); return true;
    case Intrinsic::trunc: r = VE(X.un(K_FROUND, EX(A(0), W(0)), W(0), FR_TRUNC)); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: r = VE(X.un(K_FROUND, EX(A(0), W(0)), W(0), FR_RNE)); return true;
    case Intrinsic::round: r = VE(X.un(K_FROUND, EX(A(0), W(0)), W(0), FR_RNA)); return true;
    case Intrinsic::sqrt: r = VE(X.un(K_FSQRT, EX(A(0), W(0)), W(0))); return true;
    case Intrinsic::fmuladd: { unsigned w = W(0); r = VE(X.bin(K_FADD, X.bin(K_FMUL, EX(A(0), w), EX(A(1), w)), EX(A(2), w))); return true; } // -O0 x86-64 without FMA: separate operations
    case Intrinsic::copysign: { unsigned w = W(0); u64 sb = 1ULL << (w - 1); r = VE(X.or_(X.and_(EX(A(0), w), X.C(sb - 1, w)), X.and_(EX(A(1), w), X.C(sb, w)))); return true; }
    case Intrinsic::is_fpclass: { unsigned w = W(0); Expr *a = EX(A(0), w); u64 m = cast<ConstantInt>(ci.CB->getArgOperand(1))->getZExtValue(); u64 sb = 1ULL << (w - 1); u64 inf = w == 64 ? 0x7ff0000000000000ULL : 0x7f800000; u64 qb = w == 64 ? 1ULL << 51 : 1ULL << 22; u64 mn = w == 64 ? 1ULL << 52 : 1ULL << 23; Expr *ab = X.and_(a, X.C(sb - 1, w)), *sg = X.extract(a, w - 1, 1), *ns = X.not_(sg); Expr *res = X.F(); auto add = [&](u64 bit, Expr *e) { if (m & bit) res = X.or_(res, e); };
      Expr *nan = X.ult(X.C(inf, w), ab), *isinf = X.eq(ab, X.C(inf, w)), *zero = X.eq(ab, X.C(0, w)), *sub = X.and_(X.not_(zero), X.ult(ab, X.C(mn, w))), *nor = X.and_(X.not_(X.ult(ab, X.C(mn, w))), X.ult(ab, X.C(inf, w))); Expr *q = X.eq(X.and_(a, X.C(qb, w)), X.C(qb, w));
      add(1, X.and_(nan, X.not_(q))); add(2, X.and_(nan, q)); add(4, X.and_(sg, isinf)); add(8, X.and_(sg, nor)); add(16, X.and_(sg, sub)); add(32, X.and_(sg, zero)); add(64, X.and_(ns, zero)); add(128, X.and_(ns, sub)); add(256, X.and_(ns, nor)); add(512, X.and_(ns, isinf)); r = VE(res); return true; }
    case Intrinsic::minnum: case Intrinsic::maxnum: { unsigned w = W(0); Expr *a = EX(A(0), w), *b = EX(A(1), w); Expr *lt = id == Intrinsic::minnum ? X.bin(K_FLT, a, b) : X.bin(K_FLT, b, a); r = VE(X.ite(X.un(K_FISNAN, a, 1), b, X.ite(X.un(K_FISNAN, b, 1), a, X.ite(lt, a, b)))); return true; }
    case Intrinsic::uadd_sat: { unsigned w = W(0); Expr *a = EX(A(0), w), *b = EX(A(1), w), *t = X.add(a, b); r = VE(X.ite(X.ult(t, a), X.C(mask(w), w), t)); return true; }
    case Intrinsic::usub_sat: { unsigned w = W(0); Expr *a = EX(A(0), w), *b = EX(A(1), w); r = VE(X.ite(X.ult(a, b), X.C(0, w), X.sub(a, b))); return true; }
    case Intrinsic::vastart: { u64 ap = concretize(s, A(0), 64); store(s, VC(ap), VC(48), 4); store(s, VC(ap + 4), VC(176), 4); store(s, VC(ap + 8), VC(f.va), 8); store(s, VC(ap + 16), VC(0), 8); return true; }
    case Intrinsic::vacopy: { u64 d = concretize(s, A(0), 64), p = concretize(s, A(1), 64); copyMem(s, d, p, 24); return true; }
    case Intrinsic::vaend: return true;
    case Intrinsic::threadlocal_address: { r = rawOp(f, ci.args[0].op); if (!s.cur || r.e) return true; u64 &a = s.tls[{s.cur, r.c}]; if (!a) { auto it = gvByAddr.find(r.c); auto *g = it == gvByAddr.end() ? nullptr : dyn_cast<llvm::GlobalVariable>(it->second); if (!g || g->isDeclaration()) unsupported(s, "thread_local variable"); a = allocHeap(s, (u64)DL->getTypeAllocSize(g->getValueType()), OK_GLOBAL, false); Obj *o = lookup(s, a); initConst(o, 0, g->getInitializer()); } r = VC(a); return true; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: r = rawOp(f, ci.args[0].op); return true;
    case Intrinsic::stacksave: case Intrinsic::stackrestore: return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: fail(s, "abort", "trap instruction");
    case Intrinsic::objectsize: r = VC(~0ULL); return true;
    case Intrinsic::is_constant: r = VC(0); return true;
    case Intrinsic::eh_typeid_for: { r = VC(typeIdOf(concretize(s, A(0), 64))); return true; }
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: return true;
    default: unsupported(s, "intrinsic " + ci.callee->getName().str());
  }
}
