// ---------------------------------------------------------------- driver
static string jesc(const string &s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return "\"" + r + "\""; }
static void endOfPath(State &s) {
  nPaths++; if (!s.completed) return; if (s.approx || s.raced) return; sampleSeen++;
  for (auto &o : s.obs) if (o.v.e && o.v.e != UNINIT) { vector<u32> vs; std::unordered_map<u32, bool> seen; X.collectVars(o.v.e, vs, seen); for (u32 v : vs) if (X.vars[v].name == "uninit") return; }
  if (s.nUninit) { for (Expr *e : s.pc) { vector<u32> vs; std::unordered_map<u32, bool> seen; X.collectVars(e, vs, seen); for (u32 v : vs) if (X.vars[v].name == "uninit") return; } }
  Sample sm; sm.inputs = s.inputs; for (auto &in : s.inputs) sm.values.push_back(in.e ? X.eval(in.e, *s.model) : in.c); for (auto &o : s.obs) sm.obs.push_back({o.label, evalUnder(s, o.v)}); sm.schedule = s.schedule;
  if (samples.size() < CFG.maxSamples) samples.push_back(sm); else { u64 k = rnd() % sampleSeen; if (k < CFG.maxSamples) samples[k] = sm; }
}
static void writeInputs(FILE *o, const vector<Input> &in, const vector<u64> &vals) { fprintf(o, "["); for (size_t i = 0; i < in.size(); i++) fprintf(o, "%s[%s,%u,\"%llu\"]", i ? "," : "", jesc(in[i].name).c_str(), in[i].w, (unsigned long long)vals[i]); fprintf(o, "]"); }
static void writeResult(const string &path, const string &entry) {
  FILE *o = path.empty() ? stdout : fopen(path.c_str(), "w"); double wall = nowS() - T0;
  fprintf(o, "{\"entry\":%s,\"paths\":%llu,\"forks\":%llu,\"instrs\":%llu,\"killed\":%llu,\"error_paths\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_reuse\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"ifconv\":%llu,\"assert_queries\":%llu,\"sched_points\":%llu,\n", jesc(entry).c_str(), (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nInstr, (unsigned long long)nKilled, (unsigned long long)nErrPaths, (unsigned long long)SV->nQueries, (unsigned long long)SV->nSat, (unsigned long long)SV->nUnsat, (unsigned long long)SV->nUnknown, (unsigned long long)SV->nCacheHit, (unsigned long long)SV->nFast, SV->tSolve, SV->tMax, wall, (unsigned long long)nSpecOk, (unsigned long long)nAssertQ, (unsigned long long)nSchedPoints);
  fprintf(o, "\"incomplete\":%s,\"incomplete_why\":[", incomplete ? "true" : "false"); bool first = true; for (auto &w : incompleteWhy) { fprintf(o, "%s%s", first ? "" : ",", jesc(w).c_str()); first = false; }
  auto mp = [&](const char *n, std::map<string, u64> &m) { fprintf(o, "],\n\"%s\":{", n); bool f = true; for (auto &k : m) { fprintf(o, "%s%s:%llu", f ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); f = false; } fprintf(o, "},\"_%s\":[", n); };
  mp("reached", reachedCount); mp("asserts", assertChecked); mp("asserts_proved", assertProved); mp("bounds", bounds);
  fprintf(o, "],\n\"notes\":["); first = true; for (auto &w : noteSet) { fprintf(o, "%s%s", first ? "" : ",", jesc(w).c_str()); first = false; }
  fprintf(o, "],\n\"functions\":["); first = true; for (auto *f : fnList) if (f->count && f->inRepo) { u64 cov = 0; for (bool b : f->covered) cov += b; fprintf(o, "%s[%s,%llu,%llu,%zu]", first ? "" : ",", jesc(f->dem).c_str(), (unsigned long long)f->count, (unsigned long long)cov, f->covered.size()); first = false; }
  fprintf(o, "],\n\"errors\":["); first = true;
  for (auto &e : errors) { fprintf(o, "%s{\"kind\":%s,\"label\":%s,\"loc\":%s,\"func\":%s,\"msg\":%s,\"approx\":%s,\"stack\":[", first ? "" : ",\n", jesc(e.kind).c_str(), jesc(e.label).c_str(), jesc(e.loc).c_str(), jesc(e.func).c_str(), jesc(e.msg).c_str(), e.approx ? "true" : "false"); bool f2 = true; for (auto &x : e.stack) { fprintf(o, "%s%s", f2 ? "" : ",", jesc(x).c_str()); f2 = false; } fprintf(o, "],\"trace\":["); f2 = true; for (auto &x : e.trace) { fprintf(o, "%s%s", f2 ? "" : ",", jesc(x).c_str()); f2 = false; } fprintf(o, "],\"schedule\":["); f2 = true; for (auto &x : e.schedule) { fprintf(o, "%s[%d,%d]", f2 ? "" : ",", x.first, x.second); f2 = false; } fprintf(o, "],\"inputs\":"); writeInputs(o, e.inputs, e.values); fprintf(o, "}"); first = false; }
  fprintf(o, "],\n\"samples\":["); first = true;
  for (auto &e : samples) { fprintf(o, "%s{\"inputs\":", first ? "" : ",\n"); writeInputs(o, e.inputs, e.values); fprintf(o, ",\"obs\":["); bool f2 = true; for (auto &x : e.obs) { fprintf(o, "%s[%s,\"%lld\"]", f2 ? "" : ",", jesc(x.first).c_str(), (long long)x.second); f2 = false; } fprintf(o, "],\"schedule\":["); f2 = true; for (auto &x : e.schedule) { fprintf(o, "%s[%d,%d]", f2 ? "" : ",", x.first, x.second); f2 = false; } fprintf(o, "]}"); first = false; }
  fprintf(o, "]}\n"); if (o != stdout) fclose(o);
}
// nexttoward takes a long double; the callers pass one that a double holds exactly
static void narrowNextToward(llvm::Module &M) {
  using namespace llvm; std::vector<CallBase *> calls;
  for (auto n : {"nexttoward", "nexttowardf"}) if (Function *f = M.getFunction(n)) for (User *u : f->users()) if (auto *c = dyn_cast<CallBase>(u)) calls.push_back(c);
  for (auto *c : calls) {
    bool sgl = c->getType()->isFloatTy(); Type *t = c->getType(); Value *y = c->getArgOperand(1), *d = nullptr;
    if (auto *k = dyn_cast<ConstantFP>(y)) { APFloat v = k->getValueAPF(); bool lost; v.convert(t->getFltSemantics(), APFloat::rmTowardZero, &lost); if (!lost) d = ConstantFP::get(t, v); }
    else if (auto *x = dyn_cast<FPExtInst>(y)) { if (x->getOperand(0)->getType() == t) d = x->getOperand(0); else if (!sgl) continue; }
    if (!d) continue;
    FunctionCallee g = M.getOrInsertFunction(sgl ? "nextafterf" : "nextafter", t, t, t); c->setCalledFunction(FunctionType::get(t, {t, t}, false), g.getCallee()); c->setArgOperand(1, d); }
}
int main(int argc, char **argv) {
  string entry, out; vector<string> files; bool list = false;
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--time") CFG.timeLimit = atof(nx().c_str()); else if (a == "--max-instr") CFG.maxInstrPerPath = atoll(nx().c_str()); else if (a == "--preempt") CFG.maxPreempt = atoi(nx().c_str()); else if (a == "--no-races") CFG.races = false; else if (a == "--no-ifconv") CFG.ifconv = false; else if (a == "-v") CFG.verbose = true; else if (a == "--mem") CFG.memLimitMB = atoi(nx().c_str()); else if (a == "--samples") CFG.maxSamples = atoi(nx().c_str()); else if (a == "--max-errors") CFG.maxErrors = atoi(nx().c_str()); else if (a == "--no-kind") CFG.kindCheck = false; else if (a == "--list") list = true;
    else if (a == "--param") { string p = nx(); size_t e = p.find('='); params[p.substr(0, e)] = atoll(p.c_str() + e + 1); } else files.push_back(a); }
  T0 = nowS(); rngState ^= 0x9E3779B97F4A7C15ULL;
  llvm::SMDiagnostic err; M = llvm::parseIRFile(files[0], err, LC); if (!M) { err.print("symx", llvm::errs()); return 3; }
  for (size_t i = 1; i < files.size(); i++) { auto m = llvm::parseIRFile(files[i], err, LC); if (!m || llvm::Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "cannot link %s\n", files[i].c_str()); return 3; } }
  narrowNextToward(*M); DL = &M->getDataLayout(); Solver solver(X); SV = &solver; solver.deadline = T0 + CFG.timeLimit; setupBuiltins();
  State *s0 = new State(); s0->id = 0; s0->model = std::make_shared<vector<u64>>(); for (auto &f : *M) faddr(&f);
  setupGlobals(*s0); s0->th.resize(1); s0->th[0].vc = {1};
  if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) { if (auto *ca = dyn_cast<llvm::ConstantArray>(gc->getInitializer())) { vector<std::pair<u64, const Function *>> v; for (auto &op : ca->operands()) { auto *st = cast<llvm::ConstantStruct>(op); v.push_back({constInt(st->getOperand(0)), cast<Function>(st->getOperand(1)->stripPointerCasts())}); } std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &p : v) entryList.push_back(infoOf(p.second)); } }
  const Function *E = M->getFunction(entry); if (!E || E->isDeclaration()) { fprintf(stderr, "no entry function %s\n", entry.c_str()); return 3; } entryList.push_back(infoOf(E));
  pushFrame(*s0, entryList[0], {}, -1, 3); s0->phase = 1; work.push_back(s0);
  while (!work.empty()) {
    State *s = work.back(); work.pop_back();
    if (nowS() - T0 > CFG.timeLimit) { incomplete = true; incompleteWhy.insert("time limit of " + std::to_string((int)CFG.timeLimit) + " s"); break; }
    if ((nPaths & 63) == 0) { u64 rss = 0; if (FILE *f = fopen("/proc/self/statm", "r")) { unsigned long a = 0, b = 0; if (fscanf(f, "%lu %lu", &a, &b) == 2) rss = b * 4096 >> 20; fclose(f); } if (rss > CFG.memLimitMB) { incomplete = true; incompleteWhy.insert("memory limit"); if (CFG.verbose) { std::set<void *> seen; u64 data = 0, sym = 0, pages = 0, pgv = 0, objs = 0; for (State *w : work) for (Chunk *c : w->mem.ch) if (c && seen.insert(c).second) for (Obj *o : c->o) if (o && seen.insert(o).second) { objs++; data += o->size * (o->st ? 2 : 1); if (o->sym) sym += o->size * 8; if (o->sh && seen.insert(o->sh.get()).second) { pgv += o->sh->pg.size() * 16; for (auto &p : o->sh->pg) if (p && seen.insert(p.get()).second) pages++; } } { struct mallinfo2 mi = mallinfo2(); fprintf(stderr, "malloc in use %zu free %zu mmap %zu, live object bytes %llu, exprs %zu\n", mi.uordblks, mi.fordblks, mi.hblkhd, (unsigned long long)liveObjBytes, (size_t)0); } fprintf(stderr, "pending %zu states, %llu objects, data %llu, sym %llu, shadow pages %llu (%zu bytes each), page vectors %llu\n", work.size(), (unsigned long long)objs, (unsigned long long)data, (unsigned long long)sym, (unsigned long long)pages, sizeof(AccPage), (unsigned long long)pgv); } break; } }
    if (errors.size() >= CFG.maxErrors) { incomplete = true; incompleteWhy.insert("stopped after the maximum number of distinct errors"); break; }
    for (;;) { try { runState(*s); } catch (SwitchThread &) { continue; } catch (PathEnd &) { break; } }
    endOfPath(*s); delete s;
  }
  writeResult(out, entry); fflush(nullptr); _exit(0);
}
