// ---------------------------------------------------------------- helpers on states
static string demangle(const string &n) { return llvm::demangle(n); }
static string locOf(const Instruction *I) {
  if (!I) return "?";
  if (auto &d = I->getDebugLoc()) { string f = d->getFilename().str(); return f + ":" + std::to_string(d.getLine()); }
  return "?";
}
static u64 evalUnder(State &s, Val v) { if (!v.e) return v.c; if (v.e == UNINIT) return 0xA5A5A5A5A5A5A5A5ULL; return X.eval(v.e, *s.model); }
static const Instruction *curI(State &s) { if (s.th[s.cur].st.empty()) return nullptr; Frame &f = s.fr(); if (f.ip < 0 || f.ip >= (int)f.fn->code.size()) return nullptr; return f.fn->code[f.ip].I; }
// location of the innermost frame that lies in the code under test (or the harness)
static bool repoFile(const string &f) { return f.find("/repo/") != string::npos || f.find("/library/") != string::npos; }
static void whereIs(State &s, string &loc, string &func, vector<string> &stack) {
  auto &st = s.th[s.cur].st; bool got = false;
  for (int i = (int)st.size() - 1; i >= 0; i--) {
    Frame &f = st[i]; const Instruction *I = (f.ip >= 0 && f.ip < (int)f.fn->code.size()) ? f.fn->code[f.ip].I : nullptr;
    string l = locOf(I); stack.push_back(f.fn->dem + " @ " + l);
    if (!got && (f.fn->inRepo)) { loc = l; func = f.fn->dem; got = true; }
  }
  if (!got && !st.empty()) { Frame &f = st.back(); loc = locOf(curI(s)); func = f.fn->dem; }
}
static void recordError(State &s, const string &kind, const string &label, const string &msg) {
  ErrRec r; r.kind = kind; r.label = label; r.msg = msg; whereIs(s, r.loc, r.func, r.stack);
  string key = kind + "|" + label + "|" + (label.empty() ? r.func + "|" + r.loc : "");
  if (errKeys[key]++ >= 2 || errors.size() >= CFG.maxErrors) return;
  r.inputs = s.inputs; for (auto &in : s.inputs) r.values.push_back(in.e ? X.eval(in.e, *s.model) : in.c);
  r.schedule = s.schedule; r.approx = s.approx; for (auto &o : s.obs) { char b[64]; snprintf(b, sizeof b, "=%lld", (long long)sx(evalUnder(s, o.v), o.w)); r.trace.push_back(o.label + b); }
  errors.push_back(r);
}
[[noreturn]] static void endPath() { throw PathEnd(); }
[[noreturn]] static void fail(State &s, const string &kind, const string &msg) { recordError(s, kind, "", msg); nErrPaths++; endPath(); }
[[noreturn]] static void unsupported(State &s, const string &what) {
  string l, f; vector<string> st; whereIs(s, l, f, st); string w = what + " (in " + f + " " + l + ")";
  unsupportedCount[w]++; incomplete = true; incompleteWhy.insert("unsupported: " + w);
  if (CFG.verbose) { fprintf(stderr, "UNSUPPORTED %s\n", w.c_str()); for (auto &x : st) fprintf(stderr, "   %s\n", x.c_str()); }
  endPath();
}

// constraint slicing
static void slice(const vector<Expr *> &pc, Expr *c, vector<Expr *> &out) {
  VarSet vs = c->vars; vector<bool> used(pc.size(), false); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i] && (pc[i]->vars & vs).any()) { used[i] = true; vs |= pc[i]->vars; ch = true; } }
  for (size_t i = 0; i < pc.size(); i++) if (used[i]) out.push_back(pc[i]);
  out.push_back(c);
}
static vector<ModelP> recentModels; static size_t recentPos = 0;
static SatR feasible(State &s, Expr *c, ModelP &out) { // out: model satisfying pc & c
  if (c->k == K_CONST) { out = s.model; return c->val ? SAT : UNSAT; }
  if (X.eval(c, *s.model)) { out = s.model; return SAT; }
  vector<Expr *> q; slice(s.pc, c, q);
  // try recently found models on the slice
  for (size_t k = 0; k < recentModels.size() && k < 8; k++) {
    ModelP &m = recentModels[(recentPos + recentModels.size() - k) % recentModels.size()];
    if (m == s.model) continue; bool ok = true; ++X.epoch;
    for (size_t i = q.size(); i-- > 0 && ok;) ok = X.ev(q[i], *m);
    if (ok) { // merge the slice's variables into the state's model
      vector<u32> vs; std::unordered_map<u32, bool> seen; for (Expr *e : q) X.collectVars(e, vs, seen);
      out = std::make_shared<vector<u64>>(*s.model); for (u32 v : vs) { if (out->size() <= v) for (u32 k = out->size(); k <= v; k++) out->push_back(X.vars[k].dflt); (*out)[v] = v < m->size() ? (*m)[v] : X.vars[v].dflt; }
      SV->nFast++; return SAT; }
  }
  vector<std::pair<u32, u64>> as; SatR r = SV->check(q, as);
  if (r == SAT) {
    out = std::make_shared<vector<u64>>(*s.model);
    for (auto &p : as) { if (out->size() <= p.first) for (u32 k = out->size(); k <= p.first; k++) out->push_back(X.vars[k].dflt); (*out)[p.first] = p.second; }
    // safety: the model must satisfy the query
    ++X.epoch; for (Expr *e : q) if (!X.ev(e, *out)) { fprintf(stderr, "symx: internal: z3 model does not satisfy query (%s)\n", X.str(e, 4).c_str()); incomplete = true; incompleteWhy.insert("internal: model mismatch (floating-point NaN pattern?)"); return UNKNOWN; }
    if (recentModels.size() < 64) { recentModels.push_back(out); recentPos = recentModels.size() - 1; } else { recentPos = (recentPos + 1) % 64; recentModels[recentPos] = out; }
  }
  return r;
}
// facts "expression == constant" taken from equalities on the path; conditions are rewritten with them before they are decided
static void collectKnown(Expr *e, u64 v, vector<std::pair<Expr *, u64>> &out) {
  v &= mask(e->w);
  switch (e->k) {
    case K_CONST: return;
    case K_ZEXT: case K_SEXT: collectKnown(e->a, v, out); return;
    case K_ADD: if (e->b->k == K_CONST) { collectKnown(e->a, v - e->b->val, out); return; } break;
    case K_NOT: collectKnown(e->a, ~v, out); return;
    case K_CONCAT: collectKnown(e->a, v >> e->b->w, out); collectKnown(e->b, v, out); break;
    case K_AND: if (e->w == 1 && v) { collectKnown(e->a, 1, out); collectKnown(e->b, 1, out); return; } break;
    case K_OR: if (e->w == 1 && !v) { collectKnown(e->a, 0, out); collectKnown(e->b, 0, out); return; } break;
    case K_EQ: if (v && e->b->k == K_CONST) { collectKnown(e->a, e->b->val, out); return; } break;
    case K_ITE: if (e->b->k == K_CONST && e->c->k == K_CONST && e->b->val != e->c->val) { if (v == e->b->val) collectKnown(e->a, 1, out); else if (v == e->c->val) collectKnown(e->a, 0, out); } break;
    default: break;
  }
  out.push_back({e, v});
}
static void addKnown(State &s, Expr *e, u64 v) {
  vector<std::pair<Expr *, u64>> f; collectKnown(e, v, f); bool any = false; for (auto &p : f) if (p.first->w > 1 && (!s.sub || !s.sub->known.count(p.first))) any = true;
  if (!any) return; auto n = std::make_shared<Subst>(); if (s.sub) { n->known = s.sub->known; n->vars = s.sub->vars; }
  for (auto &p : f) if (p.first->w > 1) { n->known[p.first] = p.second; n->vars |= p.first->vars; } s.sub = n;
}
static Expr *substIn(Subst &m, Expr *e) {
  if (e->k == K_CONST || (e->vars & m.vars).none()) return e;
  auto k = m.known.find(e); if (k != m.known.end()) return X.C(k->second, e->w);
  if (e->k == K_VAR) return e;
  auto it = m.memo.find(e); if (it != m.memo.end()) return it->second;
  Expr *a = substIn(m, e->a), *b = e->b ? substIn(m, e->b) : nullptr, *c = e->c ? substIn(m, e->c) : nullptr, *r = e;
  if (a != e->a || b != e->b || c != e->c) switch (e->k) {
    case K_NOT: r = X.not_(a); break;
    case K_ITE: r = X.ite(a, b, c); break;
    case K_CONCAT: r = X.concat(a, b); break;
    case K_EXTRACT: r = X.extract(a, (unsigned)e->val, e->w); break;
    case K_ZEXT: r = X.zext(a, e->w); break;
    case K_SEXT: r = X.sext(a, e->w); break;
    default: if (e->k < K_ITE && b) r = X.bin(e->k, a, b); break; // floating-point terms stay as they are
  }
  m.memo[e] = r; return r;
}
static Expr *subst(State &s, Expr *c) { return s.sub ? substIn(*s.sub, c) : c; }
static void addPC(State &s, Expr *c) { if (c->k == K_CONST) return; if (c->k == K_EQ && c->b->k == K_CONST) addKnown(s, c->a, c->b->val); if (c->k == K_AND) { addPC(s, c->a); addPC(s, c->b); return; } for (Expr *e : s.pc) if (e == c) return; s.pc.push_back(c); }
static int inPC(State &s, Expr *c) { Expr *n = X.not_(c); for (size_t i = s.pc.size(); i-- > 0;) { if (s.pc[i] == c) return 1; if (s.pc[i] == n) return 0; } return -1; }
static State *cloneState(State &s) { State *o = new State(s); o->id = nextStateId++; o->depth++; nForks++; return o; }
static void pushWork(State *o) { work.push_back(o); if (work.size() > nMaxStates) nMaxStates = work.size(); }

// Decide a condition in this state; the opposite outcome, when feasible, is pushed as a state that
// re-executes the current instruction.
static bool decide(State &s, Expr *c) {
  if (c->k == K_CONST) return c->val;
  int k = inPC(s, c); if (k >= 0) return k;
  Expr *c2 = subst(s, c); if (c2 != c) { c = c2; if (c->k == K_CONST) return c->val; k = inPC(s, c); if (k >= 0) return k; }
  bool v = X.eval(c, *s.model); Expr *mine = v ? c : X.not_(c), *other = v ? X.not_(c) : c;
  ModelP m; SatR r = feasible(s, other, m);
  if (r == SAT) { State *o = cloneState(s); addPC(*o, other); o->model = m; pushWork(o); addPC(s, mine); }
  else if (r == UNSAT) { if (mine->k == K_EQ && mine->b->k == K_CONST) addKnown(s, mine->a, mine->b->val); }
  else if (r == UNKNOWN) { nUnknownBranch++; incomplete = true; incompleteWhy.insert("solver returned unknown for a branch"); addPC(s, mine); }
  return v;
}
static bool mustBe(State &s, Expr *c) { // c valid under pc?
  if (c->k == K_CONST) return c->val; int k = inPC(s, c); if (k >= 0) return k;
  c = subst(s, c); if (c->k == K_CONST) return c->val;
  if (!X.eval(c, *s.model)) return false; ModelP m; SatR r = feasible(s, X.not_(c), m); return r == UNSAT;
}
static bool mayBe(State &s, Expr *c) { if (c->k == K_CONST) return c->val; int k = inPC(s, c); if (k >= 0) return k; c = subst(s, c); if (c->k == K_CONST) return c->val; ModelP m; return feasible(s, c, m) == SAT; }
static u64 concretize(State &s, Val v, unsigned w) {
  if (!v.e) return v.c;
  if (v.e == UNINIT) abort();
  u64 x = X.eval(v.e, *s.model);
  Expr *e = subst(s, v.e); if (e->k == K_CONST) return e->val;
  decide(s, X.eq(v.e, X.C(x, w)));
  if (!s.sub || !s.sub->known.count(v.e)) addKnown(s, v.e, x);
  return x;
}
static Val freshVar(State &s, const string &name, unsigned w, u64 d) {
  Expr *e = X.newVar(name, w, d); return VE(e);
}

// ---------------------------------------------------------------- memory operations
static u64 slotOf(u64 a) { return (a - MBASE) >> SLOTB; }
static bool inSpace(u64 a) { return a >= MBASE && a < FBASE; }
static u64 slotsFor(u64 size) { return ((size + 64) >> SLOTB) + 1; }
static Obj *newObj(State &s, u64 slot, u64 size, OKind k, bool uninit) {
  Obj *o = new Obj(); o->size = size; o->kind = k; o->base = MBASE + (slot << SLOTB); o->data = (u8 *)calloc(1, size ? size : 1); o->serial = ++s.serial;
  if (uninit && size) { o->st = (u8 *)malloc(size); memset(o->st, 1, size); }
  liveObjBytes += size; s.mem.put(slot, o);
  u64 n = slotsFor(size); for (u64 i = 1; i < n; i++) { o->refs++; s.mem.put(slot + i, o); }
  return o;
}
static u64 allocHeap(State &s, u64 size, OKind k, bool uninit) { u64 slot = s.nextSlot; s.nextSlot += slotsFor(size); Obj *o = newObj(s, slot, size, k, uninit); return o->base; }
static Obj *lookup(State &s, u64 a) { if (!inSpace(a)) return nullptr; return s.mem.get(slotOf(a)); }
static Obj *wobj(State &s, Obj *o) {
  if (o->size + 64 < (1u << SLOTB)) return s.mem.writable(slotOf(o->base));
  // multi-slot object: replace all slots
  u64 slot = slotOf(o->base), n = slotsFor(o->size); bool shared = false;
  if ((u64)o->refs > n) shared = true; for (u64 i = 0; i < n; i++) if (s.mem.ch[(slot + i) / CH]->refs > 1) shared = true;
  if (!shared) return o;
  Obj *c = cloneObj(o); c->refs = 0; for (u64 i = 0; i < n; i++) { c->refs++; s.mem.put(slot + i, c); } return c;
}
static string hexs(u64 x) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)x); return b; }
[[noreturn]] static void memFail(State &s, u64 a, u64 n, const char *what) {
  Obj *o = lookup(s, a); string m; string kind;
  if (a < 65536) { kind = "null-deref"; m = string(what) + " through null pointer (" + hexs(a) + ")"; }
  else if (o && o->freed) { kind = "use-after-free"; m = string(what) + " of " + std::to_string(n) + " bytes at offset " + std::to_string((i64)(a - o->base)) + " of a freed " + OKN[o->kind] + " of size " + std::to_string(o->size); }
  else if (o) { kind = "out-of-bounds"; m = string(what) + " of " + std::to_string(n) + " bytes at offset " + std::to_string((i64)(a - o->base)) + " of a " + OKN[o->kind] + " of size " + std::to_string(o->size); }
  else { kind = "wild-pointer"; m = string(what) + " at unmapped address " + hexs(a); }
  fail(s, kind, m);
}
static void raceCheck(State &s, Obj *o, u64 off, u64 n, bool write, bool atomic);
static inline bool raceOn(State &s) { return s.th.size() > 1 && CFG.races; }

static void materialise(State &s, Obj *o);
static inline Obj *checkAccess(State &s, u64 a, u64 n, bool write) {
  Obj *o = lookup(s, a);
  if (o && o->lazy && !o->freed) { materialise(s, o); o = lookup(s, a); }
  if (!o || o->freed || a < o->base || a - o->base + n > o->size) memFail(s, a, n, write ? "write" : "read");
  if (write && o->ro) fail(s, "write-to-constant", "write to constant memory");
  return o;
}
static Val readObj(State &s, Obj *o, u64 off, unsigned n) { // n bytes, n<=8
  if (!o->st) { u64 v = 0; memcpy(&v, o->data + off, n); return VC(v); }
  bool sym = false; unsigned un = 0; for (unsigned i = 0; i < n; i++) { u8 t = o->st[off + i]; if (t) sym = true; if (t == 1) un++; }
  if (!sym) { u64 v = 0; memcpy(&v, o->data + off, n); return VC(v); }
  if (un == n) { Val v; v.e = UNINIT; return v; }
  if (un) { // partially uninitialised: materialise the uninitialised bytes
    o = wobj(s, o); if (!o->sym) o->sym = (Expr **)calloc(o->size, sizeof(Expr *));
    for (unsigned i = 0; i < n; i++) if (o->st[off + i] == 1) { o->st[off + i] = 2; static vector<Expr *> pool; /* the k-th such byte of any path */ while (pool.size() <= s.nUninit) pool.push_back(X.newVar("uninit", 8, 0xA5)); o->sym[off + i] = pool[s.nUninit++]; }
  }
  Expr *e = nullptr;
  for (unsigned i = 0; i < n; i++) { Expr *b = o->st[off + i] == 2 ? o->sym[off + i] : X.C(o->data[off + i], 8); e = e ? X.concat(b, e) : b; }
  return VE(e);
}
static void writeObj(State &s, Obj *o, u64 off, unsigned n, Val v, unsigned w) {
  o = wobj(s, o);
  if (v.e == UNINIT) { if (!o->st) o->st = (u8 *)calloc(o->size, 1); memset(o->st + off, 1, n); return; }
  if (!v.e) { memcpy(o->data + off, &v.c, n); if (o->st) memset(o->st + off, 0, n); return; }
  if (!o->st) o->st = (u8 *)calloc(o->size, 1);
  if (!o->sym) o->sym = (Expr **)calloc(o->size, sizeof(Expr *));
  Expr *e = v.e; if (e->w < n * 8) e = X.zext(e, n * 8);
  for (unsigned i = 0; i < n; i++) { Expr *b = X.extract(e, 8 * i, 8); if (b->k == K_CONST) { o->st[off + i] = 0; o->data[off + i] = b->val; } else { o->st[off + i] = 2; o->sym[off + i] = b; } }
}
// resolve a symbolic address to one object (forking over others)
static Obj *resolveSym(State &s, Expr *a, u64 n, bool write, Expr *&off) {
  u64 v = X.eval(a, *s.model); Obj *o = lookup(s, v);
  if (o && o->lazy && !o->freed) { materialise(s, o); o = lookup(s, v); }
  if (!o || o->freed || v < o->base || v - o->base + n > o->size || (write && o->ro)) { memFail(s, v, n, write ? "write" : "read"); }
  off = X.sub(a, X.C(o->base, 64));
  Expr *inb = X.not_(X.ult(X.C(o->size - n, 64), off));
  decide(s, inb);
  return lookup(s, v);
}
static Expr *muxRead(State &s, Obj *o, Expr *off, unsigned n, u64 lo, u64 hi, u64 step) { // offsets lo, lo+step.. <=hi
  // balanced binary search tree over offsets
  if (lo >= hi) { Val v = readObj(s, o, lo, n); if (v.e == UNINIT) { v = VC(0); for (unsigned i = 0; i < n; i++) { } } return EX(v, n * 8); }
  u64 cnt = (hi - lo) / step + 1; u64 mid = lo + (cnt / 2) * step;
  Expr *l = muxRead(s, o, off, n, lo, mid - step, step), *r = muxRead(s, o, off, n, mid, hi, step);
  return X.ite(X.ult(off, X.C(mid, 64)), l, r);
}
static Val load(State &s, Val addr, unsigned n, bool atomic = false) {
  if (!addr.e) { Obj *o = checkAccess(s, addr.c, n, false); if (raceOn(s)) raceCheck(s, o, addr.c - o->base, n, false, atomic); return readObj(s, o, addr.c - o->base, n); }
  Expr *off; Obj *o = resolveSym(s, addr.e, n, false, off);
  if (off->k == K_CONST) return readObj(s, o, off->val, n);
  u64 step = 1; while (step < n && ((off->kz >> __builtin_ctzll(step)) & 1)) step <<= 1;
  u64 lo = off->umin, hi = std::min<u64>(off->umax, o->size - n); lo = (lo + step - 1) / step * step; hi = hi / step * step;
  if (raceOn(s) || (hi - lo) / step > CFG.muxLimit) { u64 a = concretize(s, addr, 64); return load(s, VC(a), n, atomic); }
  if (o->st) { // materialise uninitialised bytes so that equal offsets agree
    bool un = false; for (u64 i = lo; i < hi + n; i++) if (o->st[i] == 1) un = true;
    if (un) { u64 a = concretize(s, addr, 64); return load(s, VC(a), n, atomic); }
  }
  return VE(muxRead(s, o, off, n, lo, hi, step));
}
// a constructor or destructor writing the vtable pointer that is already there changes nothing (ThreadSanitizer's rule as well)
static bool sameVptr(State &s, Obj *o, u64 off, Val v, unsigned n) { if (n != 8 || v.e) return false; Obj *t = lookup(s, v.c); if (!t || !t->ro) return false; auto it = gvByAddr.find(t->base); if (it == gvByAddr.end() || !it->second->getName().starts_with("_ZTV")) return false; if (o->st) for (u64 i = off; i < off + 8; i++) if (o->st[i]) return false; u64 c; memcpy(&c, o->data + off, 8); return c == v.c; }
static void store(State &s, Val addr, Val v, unsigned n, bool atomic = false) {
  if (!addr.e) { Obj *o = checkAccess(s, addr.c, n, true); if (raceOn(s)) { if (sameVptr(s, o, addr.c - o->base, v, n)) return; raceCheck(s, o, addr.c - o->base, n, true, atomic); o = lookup(s, addr.c); } writeObj(s, o, addr.c - o->base, n, v, n * 8); return; }
  Expr *off; Obj *o = resolveSym(s, addr.e, n, true, off);
  if (off->k != K_CONST && !raceOn(s) && v.e != UNINIT) {
    u64 step = 1; while (step < n && ((off->kz >> __builtin_ctzll(step)) & 1)) step <<= 1;
    u64 lo = off->umin, hi = std::min<u64>(off->umax, o->size - n); lo = (lo + step - 1) / step * step; hi = hi / step * step;
    bool un = false; if (o->st) for (u64 i = lo; i < hi + n && i < o->size; i++) if (o->st[i] == 1) un = true;
    if ((hi - lo) / step < 256 && step == n && !un) {
      Expr *ve = EX(v, n * 8);
      for (u64 p = lo; p <= hi; p += step) { Val old = readObj(s, lookup(s, o->base), p, n); writeObj(s, lookup(s, o->base), p, n, VE(X.ite(X.eq(off, X.C(p, 64)), ve, EX(old, n * 8))), n * 8); }
      return;
    }
  }
  u64 a = concretize(s, addr, 64); store(s, VC(a), v, n, atomic);
}
static void copyMem(State &s, u64 d, u64 sp, u64 n) {
  if (!n) return; Obj *so = checkAccess(s, sp, n, false), *po = checkAccess(s, d, n, true); u64 so_off = sp - so->base, d_off = d - po->base;
  if (raceOn(s)) { raceCheck(s, so, so_off, n, false, false); raceCheck(s, lookup(s, d), d_off, n, true, false); so = lookup(s, sp); po = lookup(s, d); }
  Obj *w = wobj(s, po); so = lookup(s, sp);
  if (so->st && !w->st) w->st = (u8 *)calloc(w->size, 1);
  if (so->sym && !w->sym) w->sym = (Expr **)calloc(w->size, sizeof(Expr *));
  memmove(w->data + d_off, so->data + so_off, n);
  if (w->st) { if (so->st) memmove(w->st + d_off, so->st + so_off, n); else memset(w->st + d_off, 0, n); }
  if (w->sym && so->sym) memmove(w->sym + d_off, so->sym + so_off, n * sizeof(Expr *));
}
static void setMem(State &s, u64 d, Val b, u64 n) {
  if (!n) return; Obj *o = checkAccess(s, d, n, true); if (raceOn(s)) { raceCheck(s, o, d - o->base, n, true, false); o = lookup(s, d); }
  if (!b.e) { Obj *w = wobj(s, o); memset(w->data + (d - w->base), (int)b.c, n); if (w->st) memset(w->st + (d - w->base), 0, n); return; }
  for (u64 i = 0; i < n; i++) writeObj(s, lookup(s, d), d - o->base + i, 1, VE(X.extract(EX(b, 8), 0, 8)), 8);
}
static string readCStr(State &s, u64 a, size_t max = 4096) { string r; while (r.size() < max) { Val v = load(s, VC(a + r.size()), 1); if (v.e) return r + "<sym>"; if (!v.c) break; r += (char)v.c; } return r; }

static void digitVars(State &s, Expr *v, int n, int base, vector<Expr *> &ds) { // v < base^n on this path; adds the defining constraints
  struct Dg { vector<Expr *> d, q; }; static std::unordered_map<u64, Dg> memo; u64 key = ExprCtx::mix(ExprCtx::mix(v->id, n), base); auto it = memo.find(key); bool had = it != memo.end(); Dg &D = memo[key];
  // q[j] is the value of the first n-j digits: q[0] = v, q[j] = base * q[j+1] + d[n-1-j], q[n-1] = d[0]
  if (!had) { D.d.resize(n); D.q.resize(n); for (int i = 0; i < n; i++) D.d[i] = X.newVar("digit", 8, 0, base - 1); D.q[0] = v; __int128 p = 1; for (int j = n - 1; j > 0; j--) { p *= base; if (j == n - 1) D.q[j] = X.zext(D.d[0], 64); else D.q[j] = X.newVar("quot", 64, 0, (u64)(p - 1 > ~0ULL ? ~0ULL : (u64)(p - 1))); } }
  auto m = std::make_shared<vector<u64>>(*s.model); auto setM = [&](Expr *e, u64 x) { u32 id = e->val; while (m->size() <= id) { size_t k = m->size(); m->push_back(X.vars[k].dflt); } (*m)[id] = x; };
  u64 x = X.eval(v, *s.model); for (int j = 0; j < n; j++) { if (D.q[j]->k == K_VAR && j > 0) setM(D.q[j], x); setM(D.d[n - 1 - j], x % base); x /= base; } s.model = m;
  static std::unordered_map<u64, vector<Expr *>> cons; auto &cs = cons[key];
  if (!had) {
    auto step = [&](int j, unsigned w, Expr *hi) { return X.add(X.mul(w == 64 ? hi : X.extract(hi, 0, w), X.C(base, w)), X.zext(D.d[n - 1 - j], w)); };
    vector<std::pair<Expr *, Expr *>> reg; Expr *sum = X.C(0, 64); u64 pw = 1; for (int i = n - 1; i >= 0; i--) { sum = X.add(sum, X.mul(X.zext(D.d[i], 64), X.C(pw, 64))); pw *= base; }
    for (int j = n - 2; j >= 0; j--) { Expr *e = step(j, 64, D.q[j + 1]); cs.push_back(X.mk(K_EQ, 1, D.q[j], e)); if (j == 0 && n > 1) { Expr *y = v, *r = e; if (v->k == K_SUB && ExprCtx::isC(v->a)) { y = v->b; r = X.sub(v->a, e); cs.push_back(X.eq(y, r)); } if (y->w == 64 && (y->k == K_SEXT || y->k == K_ZEXT)) cs.push_back(X.eq(X.extract(y, 0, y->a->w), X.extract(r, 0, y->a->w))); } else if (D.q[j]->k == K_VAR && j > 0) { u64 p = 1; for (int i = 0; i < n - j; i++) p *= base; if (D.q[j]->umax != ~0ULL) cs.push_back(X.mk(K_ULT, 1, D.q[j], X.C(p, 64))); } 
      if (e->k == K_ADD) reg.push_back({e, D.q[j]}); Expr *e32 = step(j, 32, D.q[j + 1]); if (e32->k == K_ADD) reg.push_back({e32, X.extract(D.q[j], 0, 32)}); }
    if (n == 1) cs.push_back(X.eq(v, D.q[0] == v ? X.zext(D.d[0], 64) : D.q[0]));
    cs.push_back(X.eq(v, sum));
    for (auto &r : reg) X.defs[r.first] = r.second;
    X.digitSets.push_back({v, (u64)base, D.d, D.q}); for (Expr *e : D.d) X.derived[e->val] = true; for (size_t j = 1; j < D.q.size(); j++) if (D.q[j]->k == K_VAR) X.derived[D.q[j]->val] = true; }
  if (!had) { for (int i = 0; i < n; i++) cs.push_back(X.mk(K_ULT, 1, D.d[i], X.C(base, 8))); for (Expr *e : cs) X.defCons[e] = true; }
  for (Expr *e : cs) addPC(s, e);
  ds = D.d; for (Expr *e : cs) if (!X.eval(e, *s.model)) fail(s, "internal", "digit decomposition");
}
static void materialise(State &s, Obj *o) {
  Lazy l = *o->lazy; string txt; vector<Expr *> out; 
  if (l.kind == 2) { static std::unordered_map<u64, vector<Expr *>> memo; auto &v = memo[l.v->id]; if (v.empty()) for (int i = 0; i < 8; i++) v.push_back(X.newVar("fmt", 8, '1')); for (Expr *e : v) { addPC(s, X.ult(X.C(42, 8), e)); addPC(s, X.ult(e, X.C(58, 8))); auto m = std::make_shared<vector<u64>>(*s.model); u32 id = e->val; while (m->size() <= id) { size_t k = m->size(); m->push_back(X.vars[k].dflt); } u64 cur = (*m)[id]; if (cur <= 42 || cur >= 58) (*m)[id] = '1'; s.model = m; out.push_back(e); } s.approx = true; noteSet.insert("text of a symbolic floating-point number is left unconstrained (8 characters)"); }
  else {
    bool neg = l.kind == 1 ? decide(s, X.slt(l.v, X.C(0, 64))) : false; Expr *mag = neg ? X.neg(l.v) : l.v; int n = 0;
    for (;;) { u64 x = X.eval(mag, *s.model); n = 1; u64 p = 10; while (n < 20 && x >= p) { n++; if (n == 20) break; p *= 10; } u64 lo = 1; for (int i = 1; i < n; i++) lo *= 10; if (n == 1) lo = 0;
      Expr *c = lo ? X.not_(X.ult(mag, X.C(lo, 64))) : X.T(); if (n < 20) c = X.and_(c, X.ult(mag, X.C(lo ? lo * 10 : 10, 64))); if (decide(s, c)) break; }
    vector<Expr *> ds; digitVars(s, mag, n, 10, ds); if (n > 1) { Expr *nz = X.not_(X.eq(ds[0], X.C(0, 8))); X.defCons[nz] = true; addPC(s, nz); } if (neg) out.push_back(X.C('-', 8)); for (Expr *d : ds) out.push_back(X.add(d, X.C('0', 8)));
  }
  o = wobj(s, o); o->lazy.reset(); if (l.resize) { liveObjBytes -= o->size - (out.size() + 1); o->size = out.size() + 1; }
  for (size_t i = 0; i < out.size(); i++) writeObj(s, o, l.off + i, 1, VE(out[i]), 8); writeObj(s, lookup(s, o->base), l.off + out.size(), 1, VC(0), 8);
}

// ---------------------------------------------------------------- happens-before race detection
static void vcJoin(vector<u32> &a, const vector<u32> &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static u32 vcGet(const vector<u32> &a, int t) { return t < (int)a.size() ? a[t] : 0; }
static void raceCheck(State &s, Obj *o, u64 off, u64 n, bool write, bool atomic) {
  if (o->ro || o->kind == OK_EXTERN) return;
  Thread &t = s.th[s.cur]; if ((int)t.vc.size() <= s.cur) { t.vc.resize(s.cur + 1, 0); t.vc[s.cur] = 1; }
  o = wobj(s, o); if (!o->sh) o->sh = std::make_shared<Shadow>(); else if (o->sh.use_count() > 1) o->sh = std::make_shared<Shadow>(*o->sh);
  if (s.th.size() > MAXT) unsupported(s, "more than 8 threads");
  for (u64 i = off; i < off + n; i++) {
    Acc &a = o->sh->at(i);
    bool bad = false; string m;
    if (a.wt >= 0 && a.wt != s.cur && a.wc > vcGet(t.vc, a.wt) && !(atomic && a.watomic)) { bad = true; m = write ? "write/write" : "write/read"; }
    if (write && a.nrd) for (int r = 0; r < MAXT; r++) if (a.rc[r] && r != s.cur && a.rc[r] > vcGet(t.vc, r) && !(atomic && a.ratomic)) { bad = true; m = "read/write"; }
    if (bad) { recordError(s, "data-race", "", "unsynchronised " + m + " on offset " + std::to_string(i) + " of a " + OKN[o->kind] + " of size " + std::to_string(o->size)); s.raced = true; } // the path goes on with the sequentially consistent value
    if (write) { a.wt = s.cur; a.wc = t.vc[s.cur]; a.watomic = atomic; if (a.nrd) { a.nrd = 0; memset(a.rc, 0, sizeof a.rc); } }
    else { if (!a.rc[s.cur]) a.nrd++; a.rc[s.cur] = t.vc[s.cur]; a.ratomic = a.nrd == 1 ? atomic : (a.ratomic && atomic); }
  }
}
static void hbRelease(State &s, u64 a) { Thread &t = s.th[s.cur]; if ((int)t.vc.size() <= s.cur) { t.vc.resize(s.cur + 1, 0); t.vc[s.cur] = 1; } vcJoin(s.relClk[a], t.vc); t.vc[s.cur]++; }
static void hbAcquire(State &s, u64 a) { auto it = s.relClk.find(a); if (it != s.relClk.end()) vcJoin(s.th[s.cur].vc, it->second); }
// what an atomic operation orders: by itself if it acquires or releases, otherwise together with a fence after the load or before the store
static void hbLoad(State &s, u64 a, bool acq) { if (acq) { hbAcquire(s, a); return; } auto it = s.relClk.find(a); if (it != s.relClk.end()) vcJoin(s.th[s.cur].pend, it->second); }
static void hbStore(State &s, u64 a, bool rel) { if (rel) hbRelease(s, a); else if (s.th[s.cur].relF.size()) vcJoin(s.relClk[a], s.th[s.cur].relF); }
static void hbFence(State &s, bool acq, bool rel) { Thread &t = s.th[s.cur]; if ((int)t.vc.size() <= s.cur) { t.vc.resize(s.cur + 1, 0); t.vc[s.cur] = 1; } if (acq) vcJoin(t.vc, t.pend); if (rel) { t.relF = t.vc; t.vc[s.cur]++; } }

// ---------------------------------------------------------------- constants and globals
static u64 faddr(const Function *F);
static u64 gvAddr(const llvm::GlobalValue *g) {
  if (auto *f = dyn_cast<Function>(g)) return faddr(f);
  if (auto *al = dyn_cast<llvm::GlobalAlias>(g)) { if (auto *t = dyn_cast<llvm::GlobalValue>(al->getAliasee()->stripPointerCasts())) return gvAddr(t); }
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  fprintf(stderr, "no address for %s\n", g->getName().str().c_str()); return 0;
}
static u64 constInt(const Constant *c);
static void flatConst(const Constant *c, vector<Val> &out) {
  Type *t = c->getType();
  if (isa<llvm::UndefValue>(c)) { unsigned n = flatN(t); for (unsigned i = 0; i < n; i++) { Val v; if (isa<llvm::PoisonValue>(c)) v.c = 0; else v.e = UNINIT; out.push_back(v); } return; }
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<llvm::FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) flatConst(c->getAggregateElement(i), out); return; }
  out.push_back(VC(constInt(c)));
}
static u64 constInt(const Constant *c) {
  if (auto *i = dyn_cast<llvm::ConstantInt>(c)) return i->getValue().getLimitedValue() == ~0ULL && i->getBitWidth() > 64 ? i->getValue().extractBitsAsZExtValue(64, 0) : i->getBitWidth() > 64 ? i->getValue().extractBitsAsZExtValue(64, 0) : i->getZExtValue();
  if (auto *f = dyn_cast<llvm::ConstantFP>(c)) { auto b = f->getValueAPF().bitcastToAPInt(); return b.getBitWidth() > 64 ? b.extractBitsAsZExtValue(64, 0) : b.getZExtValue(); }
  if (isa<llvm::ConstantPointerNull>(c) || isa<llvm::ConstantAggregateZero>(c) || isa<llvm::UndefValue>(c)) return 0;
  if (auto *g = dyn_cast<llvm::GlobalValue>(c)) return gvAddr(g);
  if (auto *e = dyn_cast<llvm::ConstantExpr>(c)) {
    unsigned w = widthOf(e->getType());
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: { llvm::APInt off(64, 0); auto *g = cast<llvm::GEPOperator>(e); if (!g->accumulateConstantOffset(*DL, off)) abort(); return constInt(cast<Constant>(g->getPointerOperand())) + off.getZExtValue(); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::ZExt: return constInt(e->getOperand(0)) & mask(w);
      case Instruction::Trunc: return constInt(e->getOperand(0)) & mask(w);
      case Instruction::SExt: return (u64)sx(constInt(e->getOperand(0)), widthOf(e->getOperand(0)->getType())) & mask(w);
      case Instruction::Add: return (constInt(e->getOperand(0)) + constInt(e->getOperand(1))) & mask(w);
      case Instruction::Sub: return (constInt(e->getOperand(0)) - constInt(e->getOperand(1))) & mask(w);
      case Instruction::Mul: return (constInt(e->getOperand(0)) * constInt(e->getOperand(1))) & mask(w);
      case Instruction::Xor: return (constInt(e->getOperand(0)) ^ constInt(e->getOperand(1))) & mask(w);
      case Instruction::And: return (constInt(e->getOperand(0)) & constInt(e->getOperand(1))) & mask(w);
      case Instruction::Shl: return (constInt(e->getOperand(0)) << constInt(e->getOperand(1))) & mask(w);
      case Instruction::ICmp: { u64 a = constInt(e->getOperand(0)), b = constInt(e->getOperand(1)); switch (e->getPredicate()) { case llvm::CmpInst::ICMP_EQ: return a == b; case llvm::CmpInst::ICMP_NE: return a != b; case llvm::CmpInst::ICMP_ULT: return a < b; case llvm::CmpInst::ICMP_UGT: return a > b; default: break; } break; }
      default: break;
    }
  }
  string str; llvm::raw_string_ostream os(str); c->print(os); fprintf(stderr, "symx: constant not handled: %s\n", os.str().c_str()); exit(3);
}
static void initConst(Obj *o, u64 off, const Constant *c) {
  Type *t = c->getType();
  if (isa<llvm::ConstantAggregateZero>(c) || isa<llvm::UndefValue>(c)) return;
  if (auto *d = dyn_cast<llvm::ConstantDataSequential>(c)) { auto r = d->getRawDataValues(); memcpy(o->data + off, r.data(), r.size()); return; }
  if (auto *st = dyn_cast<llvm::StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto *at = dyn_cast<llvm::ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) initConst(o, off + i * es, c->getAggregateElement(i)); return; }
  if (t->isVectorTy()) { auto *vt = cast<llvm::FixedVectorType>(t); u64 es = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) initConst(o, off + i * es, c->getAggregateElement(i)); return; }
  u64 n = DL->getTypeStoreSize(t); if (t->isX86_FP80Ty()) { auto b = cast<llvm::ConstantFP>(c)->getValueAPF().bitcastToAPInt(); memcpy(o->data + off, b.getRawData(), 10); return; }
  if (n > 8) { if (auto *ci = dyn_cast<llvm::ConstantInt>(c)) { memcpy(o->data + off, ci->getValue().getRawData(), n); return; } }
  u64 v = constInt(c); memcpy(o->data + off, &v, std::min<u64>(n, 8));
}
static FnInfo *infoOf(const Function *F) {
  FnInfo *&p = fnInfos[F];
  if (!p) { p = new FnInfo(); p->F = F; p->name = F->getName().str(); p->dem = demangle(p->name); fnList.push_back(p); fnByName[p->name] = p;
    if (auto *sp = F->getSubprogram()) { p->file = (sp->getDirectory() + "/" + sp->getFilename()).str(); if (sp->getFilename().starts_with("/")) p->file = sp->getFilename().str(); }
    p->inRepo = repoFile(p->file); p->sizeArg = p->dem.find("::resize(unsigned long") != string::npos && p->dem.compare(0, 5, "std::") == 0; }
  return p;
}
static std::unordered_map<u64, FnInfo *> fnByAddr; static u64 nextFAddr = FBASE;
static u64 faddr(const Function *F) { FnInfo *f = infoOf(F); auto it = gaddr.find(F); if (it != gaddr.end()) return it->second; u64 a = nextFAddr; nextFAddr += 16; gaddr[F] = a; fnByAddr[a] = f; return a; }

static void setupGlobals(State &s) {
  u64 slot = 1;
  for (auto &g : M->globals()) { u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0; if (g.isDeclaration()) sz = std::max<u64>(sz, 1024);
    gaddr[&g] = MBASE + (slot << SLOTB); gvByAddr[gaddr[&g]] = &g; slot += slotsFor(sz); }
  u64 extra = slot; 
  for (auto &g : M->globals()) {
    u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0; bool ext = g.isDeclaration(); if (ext) sz = std::max<u64>(sz, 1024);
    Obj *o = newObj(s, slotOf(gaddr[&g]), sz, ext ? OK_EXTERN : OK_GLOBAL, false);
    if (!ext) { initConst(o, 0, g.getInitializer()); o->ro = g.isConstant(); }
    else { string n = g.getName().str(); externName[o->base] = n;
      if (n.rfind("_ZTI", 0) == 0) { string nm = n.substr(4); Obj *t = newObj(s, extra, nm.size() + 1, OK_GLOBAL, false); extra += 1; memcpy(t->data, nm.c_str(), nm.size() + 1); memcpy(o->data + 8, &t->base, 8); } }
  }
  s.nextSlot = extra + 16;
}
