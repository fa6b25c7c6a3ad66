// z3 back end: translation of Expr to z3 terms, sliced satisfiability queries with model extraction.
#pragma once
#include "expr.hpp"
#include <z3.h>
#include <chrono>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <memory>
#include <map>
#include <set>

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static std::string (*whereHook)() = nullptr;
enum SatR { UNSAT, SAT, UNKNOWN };
typedef std::shared_ptr<std::vector<u64>> ModelP;

struct Solver {
  ExprCtx &X; Z3_context z; unsigned timeoutMs = 60000, firstMs = 1500; double deadline = 1e18; u64 nPort = 0;
  u64 nQueries = 0, nSat = 0, nUnsat = 0, nUnknown = 0, nCacheHit = 0, nFast = 0; double tSolve = 0, tMax = 0;
  std::unordered_map<u64, std::pair<SatR, std::vector<std::pair<u32, u64>>>> cache;
  Z3_solver sBV = nullptr, sFP = nullptr;

  Solver(ExprCtx &x) : X(x) {
    Z3_config c = Z3_mk_config(); Z3_set_param_value(c, "model", "true"); Z3_set_param_value(c, "auto_config", "false");
    z = Z3_mk_context(c); Z3_del_config(c);
    Z3_set_error_handler(z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
  }
  Z3_solver mkSolver(bool fp) {
    Z3_solver s = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, fp ? "QF_FPBV" : "QF_BV"));
    Z3_solver_inc_ref(z, s);
    Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), firstMs);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "random_seed"), 1);
    Z3_solver_set_params(z, s, p); Z3_params_dec_ref(z, p);
    return s;
  }
  Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(z, w); }
  Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(z) : Z3_mk_fpa_sort_single(z); }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(z, a); return a; }
  Z3_ast rm(unsigned m) { switch (m) { case FR_FLOOR: return Z3_mk_fpa_rtn(z); case FR_CEIL: return Z3_mk_fpa_rtp(z); case FR_TRUNC: return Z3_mk_fpa_rtz(z); case FR_RNA: return Z3_mk_fpa_rna(z); default: return Z3_mk_fpa_rne(z); } }

  Z3_ast toBool(Expr *e) {
    if (e->z3bool) return (Z3_ast)e->z3bool;
    Z3_ast r;
    switch (e->k) {
      case K_CONST: r = e->val ? Z3_mk_true(z) : Z3_mk_false(z); break;
      case K_AND: { Z3_ast a[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(z, 2, a); break; }
      case K_OR: { Z3_ast a[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(z, 2, a); break; }
      case K_XOR: r = Z3_mk_xor(z, toBool(e->a), toBool(e->b)); break;
      case K_NOT: r = Z3_mk_not(z, toBool(e->a)); break;
      case K_ITE: r = Z3_mk_ite(z, toBool(e->a), toBool(e->b), toBool(e->c)); break;
      case K_EQ: r = Z3_mk_eq(z, toBV(e->a), toBV(e->b)); break;
      case K_ULT: r = Z3_mk_bvult(z, toBV(e->a), toBV(e->b)); break;
      case K_SLT: r = Z3_mk_bvslt(z, toBV(e->a), toBV(e->b)); break;
      case K_ULE: r = Z3_mk_bvule(z, toBV(e->a), toBV(e->b)); break;
      case K_SLE: r = Z3_mk_bvsle(z, toBV(e->a), toBV(e->b)); break;
      case K_FEQ: r = Z3_mk_fpa_eq(z, toFP(e->a), toFP(e->b)); break;
      case K_FLT: r = Z3_mk_fpa_lt(z, toFP(e->a), toFP(e->b)); break;
      case K_FLE: r = Z3_mk_fpa_leq(z, toFP(e->a), toFP(e->b)); break;
      case K_FISNAN: r = Z3_mk_fpa_is_nan(z, toFP(e->a)); break;
      default: r = Z3_mk_eq(z, toBV(e), Z3_mk_unsigned_int64(z, 1, bvs(1))); break;
    }
    e->z3bool = keep(r); return r;
  }
  Z3_ast toFP(Expr *e) {
    if (e->z3fp) return (Z3_ast)e->z3fp;
    Z3_ast r; Z3_ast RNE = Z3_mk_fpa_rne(z);
    switch (e->k) {
      case K_FADD: r = Z3_mk_fpa_add(z, RNE, toFP(e->a), toFP(e->b)); break;
      case K_FSUB: r = Z3_mk_fpa_sub(z, RNE, toFP(e->a), toFP(e->b)); break;
      case K_FMUL: r = Z3_mk_fpa_mul(z, RNE, toFP(e->a), toFP(e->b)); break;
      case K_FDIV: r = Z3_mk_fpa_div(z, RNE, toFP(e->a), toFP(e->b)); break;
      case K_FREM: r = Z3_mk_fpa_rem(z, toFP(e->a), toFP(e->b)); break;
      case K_FSQRT: r = Z3_mk_fpa_sqrt(z, RNE, toFP(e->a)); break;
      case K_FFMA: r = Z3_mk_fpa_fma(z, RNE, toFP(e->a), toFP(e->b), toFP(e->c)); break;
      case K_FROUND: r = Z3_mk_fpa_round_to_integral(z, rm(e->val), toFP(e->a)); break;
      case K_FPCAST: r = Z3_mk_fpa_to_fp_float(z, RNE, toFP(e->a), fps(e->w)); break;
      case K_SITOFP: r = Z3_mk_fpa_to_fp_signed(z, RNE, toBV(e->a), fps(e->w)); break;
      case K_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(z, RNE, toBV(e->a), fps(e->w)); break;
      case K_ITE: r = Z3_mk_ite(z, toBool(e->a), toFP(e->b), toFP(e->c)); break;
      default: r = Z3_mk_fpa_to_fp_bv(z, toBV(e), fps(e->w)); break;
    }
    e->z3fp = keep(r); return r;
  }
  Z3_ast cst(u64 v, unsigned w) { return Z3_mk_unsigned_int64(z, v & mask(w), bvs(w)); }
  Z3_ast toBV(Expr *e) {
    if (e->z3bv) return (Z3_ast)e->z3bv;
    Z3_ast r;
    switch (e->k) {
      case K_CONST: r = cst(e->val, e->w); break;
      case K_VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%u", (unsigned)e->val); r = Z3_mk_const(z, Z3_mk_string_symbol(z, nm), bvs(e->w)); break; }
      case K_ADD: r = Z3_mk_bvadd(z, toBV(e->a), toBV(e->b)); break;
      case K_SUB: r = Z3_mk_bvsub(z, toBV(e->a), toBV(e->b)); break;
      case K_MUL: r = Z3_mk_bvmul(z, toBV(e->a), toBV(e->b)); break;
      case K_UDIV: r = Z3_mk_bvudiv(z, toBV(e->a), toBV(e->b)); break;
      case K_SDIV: r = Z3_mk_bvsdiv(z, toBV(e->a), toBV(e->b)); break;
      case K_UREM: r = Z3_mk_bvurem(z, toBV(e->a), toBV(e->b)); break;
      case K_SREM: r = Z3_mk_bvsrem(z, toBV(e->a), toBV(e->b)); break;
      case K_SHL: r = Z3_mk_bvshl(z, toBV(e->a), toBV(e->b)); break;
      case K_LSHR: r = Z3_mk_bvlshr(z, toBV(e->a), toBV(e->b)); break;
      case K_ASHR: r = Z3_mk_bvashr(z, toBV(e->a), toBV(e->b)); break;
      case K_CONCAT: r = Z3_mk_concat(z, toBV(e->a), toBV(e->b)); break;
      case K_EXTRACT: r = Z3_mk_extract(z, e->val + e->w - 1, e->val, toBV(e->a)); break;
      case K_ZEXT: r = Z3_mk_zero_ext(z, e->w - e->a->w, toBV(e->a)); break;
      case K_SEXT: r = Z3_mk_sign_ext(z, e->w - e->a->w, toBV(e->a)); break;
      case K_AND: if (e->w == 1) goto viaBool; r = Z3_mk_bvand(z, toBV(e->a), toBV(e->b)); break;
      case K_OR: if (e->w == 1) goto viaBool; r = Z3_mk_bvor(z, toBV(e->a), toBV(e->b)); break;
      case K_XOR: if (e->w == 1) goto viaBool; r = Z3_mk_bvxor(z, toBV(e->a), toBV(e->b)); break;
      case K_NOT: if (e->w == 1) goto viaBool; r = Z3_mk_bvnot(z, toBV(e->a)); break;
      case K_ITE: if (e->w == 1) goto viaBool; r = Z3_mk_ite(z, toBool(e->a), toBV(e->b), toBV(e->c)); break;
      case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: case K_FSQRT: case K_FFMA: case K_FROUND: case K_FPCAST: case K_SITOFP: case K_UITOFP: {
        Z3_ast f = toFP(e);
        r = Z3_mk_ite(z, Z3_mk_fpa_is_nan(z, f), cst(e->w == 64 ? 0x7ff8000000000000ULL : 0x7fc00000u, e->w), Z3_mk_fpa_to_ieee_bv(z, f)); break; }
      case K_FPTOSI: {
        Z3_ast f = toFP(e->a); unsigned aw = e->a->w; Z3_ast lo, hi, inr;
        if (e->w == 64) { lo = Z3_mk_fpa_numeral_double(z, -9223372036854775808.0, fps(aw)); hi = Z3_mk_fpa_numeral_double(z, 9223372036854775808.0, fps(aw)); Z3_ast a[2] = {Z3_mk_fpa_geq(z, f, lo), Z3_mk_fpa_lt(z, f, hi)}; inr = Z3_mk_and(z, 2, a); }
        else if (aw == 64) { lo = Z3_mk_fpa_numeral_double(z, -2147483649.0, fps(aw)); hi = Z3_mk_fpa_numeral_double(z, 2147483648.0, fps(aw)); Z3_ast a[2] = {Z3_mk_fpa_gt(z, f, lo), Z3_mk_fpa_lt(z, f, hi)}; inr = Z3_mk_and(z, 2, a); }
        else { lo = Z3_mk_fpa_numeral_double(z, -2147483648.0, fps(aw)); hi = Z3_mk_fpa_numeral_double(z, 2147483648.0, fps(aw)); Z3_ast a[2] = {Z3_mk_fpa_geq(z, f, lo), Z3_mk_fpa_lt(z, f, hi)}; inr = Z3_mk_and(z, 2, a); }
        r = Z3_mk_ite(z, inr, Z3_mk_fpa_to_sbv(z, Z3_mk_fpa_rtz(z), f, e->w), cst(1ULL << (e->w - 1), e->w)); break; }
      case K_FPTOUI: { // in range [0,2^63): exact; else x86 indefinite patterns
        Z3_ast f = toFP(e->a); unsigned aw = e->a->w;
        Z3_ast lo = Z3_mk_fpa_numeral_double(z, -9223372036854775808.0, fps(aw)), hi = Z3_mk_fpa_numeral_double(z, 9223372036854775808.0, fps(aw));
        Z3_ast a[2] = {Z3_mk_fpa_geq(z, f, lo), Z3_mk_fpa_lt(z, f, hi)}; Z3_ast inr = Z3_mk_and(z, 2, a);
        Z3_ast s = Z3_mk_fpa_to_sbv(z, Z3_mk_fpa_rtz(z), f, 64);
        if (e->w < 64) { r = Z3_mk_extract(z, e->w - 1, 0, Z3_mk_ite(z, inr, s, cst(1ULL << 63, 64))); if (e->w < 64) r = Z3_mk_ite(z, inr, r, cst(0, e->w)); }
        else { Z3_ast g = Z3_mk_fpa_sub(z, Z3_mk_fpa_rne(z), f, hi); Z3_ast hb[2] = {Z3_mk_fpa_geq(z, f, hi), Z3_mk_fpa_lt(z, g, hi)}; Z3_ast big = Z3_mk_and(z, 2, hb);
          Z3_ast bigv = Z3_mk_bvxor(z, Z3_mk_fpa_to_sbv(z, Z3_mk_fpa_rtz(z), g, 64), cst(1ULL << 63, 64));
          r = Z3_mk_ite(z, inr, s, Z3_mk_ite(z, big, bigv, Z3_mk_ite(z, Z3_mk_fpa_geq(z, f, hi), cst(0, 64), cst(1ULL << 63, 64)))); }
        break; }
      default:
      viaBool:
        r = Z3_mk_ite(z, toBool(e), cst(1, 1), cst(0, 1)); break;
    }
    e->z3bv = keep(r); return r;
  }

  // Hard queries: the same formula goes to cvc5 (bit-blasting), the newer z3 and the in-process tactic, side by side.
  SatR portfolio(const std::vector<Expr *> &cs, bool fp, std::vector<std::pair<u32, u64>> &out) {
    nPort++; double lim = std::min(timeoutMs / 1000.0, deadline - nowS()); if (lim < 1) return UNKNOWN;
    Z3_solver s = mkSolver(fp); for (Expr *e : cs) Z3_solver_assert(z, s, toBool(e)); std::string txt = Z3_solver_to_string(z, s); Z3_solver_dec_ref(z, s);
    std::vector<u32> vs; std::unordered_map<u32, bool> seen; for (Expr *e : cs) X.collectVars(e, vs, seen);
    std::string q = std::string("(set-logic ") + (fp ? "QF_BVFP" : "QF_BV") + ")\n(set-option :produce-models true)\n" + txt + "\n(check-sat)\n(get-value ("; for (u32 v : vs) q += "v" + std::to_string(v) + " "; q += "))\n";
    char path[64]; snprintf(path, sizeof path, "/tmp/symx-%d-%llu.smt2", (int)getpid(), (unsigned long long)nPort); FILE *f = fopen(path, "w"); if (!f) return UNKNOWN; fwrite(q.data(), 1, q.size(), f); fclose(f);
    char tl[32], tz[32]; snprintf(tl, sizeof tl, "--tlimit=%d", (int)(lim * 1000)); snprintf(tz, sizeof tz, "-T:%d", (int)lim + 1);
    std::vector<std::vector<std::string>> cmds = {{"cvc5", "--lang=smt2", fp ? "--fp-exp" : "--bitblast=eager", fp ? "--bv-solver=bitblast" : "--bv-solver=bitblast", tl, path}, {"z3-new", "-smt2", tz, path}};
    if (!fp) cmds.push_back({"cvc5", "--lang=smt2", "--bv-solver=bitblast-internal", tl, path});
    struct P { pid_t pid; int fd; std::string o; bool done = false; }; std::vector<P> ps;
    for (auto &c : cmds) { int fd[2]; if (pipe(fd)) continue; pid_t p = fork(); if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(fd[1], 1); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(fd[0]); std::vector<char *> av; for (auto &x : c) av.push_back((char *)x.c_str()); av.push_back(nullptr); execvp(av[0], av.data()); _exit(127); } close(fd[1]); ps.push_back({p, fd[0], "", false}); }
    SatR res = UNKNOWN; double end = nowS() + lim + 2; size_t live = ps.size();
    while (res == UNKNOWN && live && nowS() < end) {
      std::vector<pollfd> pf; for (auto &p : ps) pf.push_back({p.done ? -1 : p.fd, POLLIN, 0}); poll(pf.data(), pf.size(), 200);
      for (size_t i = 0; i < ps.size(); i++) if (!ps[i].done && pf[i].revents) { char b[65536]; ssize_t n = read(ps[i].fd, b, sizeof b); if (n > 0) { ps[i].o.append(b, n); continue; } ps[i].done = true; live--;
        auto &o = ps[i].o; if (o.compare(0, 5, "unsat") == 0) { res = UNSAT; break; }
        if (o.compare(0, 3, "sat") == 0) { std::vector<std::pair<u32, u64>> r; size_t p = 3; bool ok = true; for (size_t k = 0; k < vs.size(); k++) { p = o.find("(v", p); if (p == std::string::npos) { ok = false; break; } u32 id = atoi(o.c_str() + p + 2); p = o.find('#', p); if (p == std::string::npos) { ok = false; break; } u64 v = o[p + 1] == 'x' ? strtoull(o.c_str() + p + 2, nullptr, 16) : strtoull(o.c_str() + p + 2, nullptr, 2); r.push_back({id, v}); } if (ok) { out = r; res = SAT; break; } } } }
    for (auto &p : ps) { kill(p.pid, SIGKILL); waitpid(p.pid, nullptr, 0); close(p.fd); }
    unlink(path); return res;
  }

  // Satisfiability of the conjunction of cs; on SAT fills assignment (var -> value).
  SatR check(const std::vector<Expr *> &cs, std::vector<std::pair<u32, u64>> &out) {
    u64 h = 0; bool fp = false;
    std::vector<u32> ids; for (Expr *e : cs) { ids.push_back(e->id); fp |= e->fp; }
    std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    for (u32 i : ids) h = ExprCtx::mix(h, i);
    auto it = cache.find(h);
    if (it != cache.end()) { nCacheHit++; out = it->second.second; return it->second.first; }
    nQueries++;
    double t0 = nowS();
    Z3_solver &ref = fp ? sFP : sBV;
    if (!ref) ref = mkSolver(fp);
    Z3_solver s = ref;
    if (cs.size() > 6 && !fp) { // first without the definitions of digits the goal does not mention: unsat stays unsat, and a model extends by computing those digits
      std::vector<u32> gv; std::unordered_map<u32, bool> gs; X.collectVars(cs.back(), gv, gs); std::set<u32> g(gv.begin(), gv.end()); std::vector<Expr *> sub; std::vector<u32> all; std::unordered_map<u32, bool> alls;
      { bool dg = false; for (u32 k : gv) if (X.derived.count(k)) dg = true; if (dg) { for (Expr *e : cs) { std::vector<u32> v; std::unordered_map<u32, bool> sn; X.collectVars(e, v, sn); bool in = true; for (u32 k : v) if (!g.count(k)) { in = false; break; } if (in) sub.push_back(e); }
        if (sub.size() > 1 && sub.size() < cs.size()) { Z3_solver_reset(z, s); for (Expr *e : sub) Z3_solver_assert(z, s, toBool(e)); if (Z3_solver_check(z, s) == Z3_L_FALSE) { nFast++; nUnsat++; double dt = nowS() - t0; tSolve += dt; tMax = std::max(tMax, dt); cache[h] = {UNSAT, out}; return UNSAT; } } sub.clear(); } }
      for (Expr *e : cs) if (!X.defCons.count(e)) { std::vector<u32> v; std::unordered_map<u32, bool> sn; X.collectVars(e, v, sn); g.insert(v.begin(), v.end()); }
      for (auto &D : X.digitSets) { size_t n = D.d.size(), top = 0; bool any = false; for (size_t k = 0; k < n; k++) { if (k && D.q[k]->k == K_VAR && g.count(D.q[k]->val)) { top = k; any = true; } if (g.count(D.d[n - 1 - k]->val)) { top = std::min(k + 1, n - 1); any = true; } } if (any) for (size_t k = 0; k <= top; k++) { if (k && D.q[k]->k == K_VAR) g.insert(D.q[k]->val); if (k < top || k == n - 1) g.insert(D.d[n - 1 - k]->val); } }
      for (Expr *e : cs) { std::vector<u32> v; std::unordered_map<u32, bool> sn; X.collectVars(e, v, sn); bool in = true; for (u32 k : v) { if (X.derived.count(k) && !g.count(k)) in = false; if (!alls.count(k)) { alls[k] = true; all.push_back(k); } } if (in) sub.push_back(e); }
      if (sub.size() < cs.size()) { Z3_solver_reset(z, s); for (Expr *e : sub) Z3_solver_assert(z, s, toBool(e)); Z3_lbool q = Z3_solver_check(z, s); bool done = q == Z3_L_FALSE;
        if (q == Z3_L_TRUE) { Z3_model m = Z3_solver_get_model(z, s); Z3_model_inc_ref(z, m); std::vector<u64> md(X.vars.size(), 0); for (u32 v : all) if (!X.derived.count(v)) { Z3_ast val; uint64_t u = 0; if (Z3_model_eval(z, m, toBV(X.varExprs[v]), true, &val)) { Z3_inc_ref(z, val); Z3_get_numeral_uint64(z, val, &u); Z3_dec_ref(z, val); } md[v] = u; } Z3_model_dec_ref(z, m);
          for (auto &D : X.digitSets) { u64 x = X.eval(D.v, md); for (size_t k = 0; k < D.d.size(); k++) { if (k && D.q[k]->k == K_VAR && X.derived.count(D.q[k]->val)) md[D.q[k]->val] = x; md[D.d[D.d.size() - 1 - k]->val] = x % D.base; x /= D.base; } }
          done = true; for (Expr *e : cs) if (!X.eval(e, md)) { done = false; break; } if (done) for (u32 v : all) out.push_back({v, md[v]}); }
        if (done) { SatR res = q == Z3_L_FALSE ? UNSAT : SAT; nFast++; if (res == SAT) nSat++; else nUnsat++; double dt = nowS() - t0; tSolve += dt; tMax = std::max(tMax, dt); cache[h] = {res, out}; return res; } } }
    Z3_solver_reset(z, s);
    for (Expr *e : cs) Z3_solver_assert(z, s, toBool(e));
    Z3_lbool r = Z3_solver_check(z, s);
    SatR res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (res == SAT) {
      Z3_model m = Z3_solver_get_model(z, s); Z3_model_inc_ref(z, m);
      std::vector<u32> vs; std::unordered_map<u32, bool> seen;
      for (Expr *e : cs) X.collectVars(e, vs, seen);
      for (u32 v : vs) { Z3_ast val; Z3_bool ok = Z3_model_eval(z, m, toBV(X.varExprs[v]), true, &val); uint64_t u = 0; if (ok) { Z3_inc_ref(z, val); Z3_get_numeral_uint64(z, val, &u); Z3_dec_ref(z, val); } out.push_back({v, u}); }
      Z3_model_dec_ref(z, m); nSat++;
    } else if (res == UNKNOWN) { res = portfolio(cs, fp, out); if (res == SAT) nSat++; else if (res == UNSAT) nUnsat++; else nUnknown++; }
    else nUnsat++;
    double dt = nowS() - t0; tSolve += dt; tMax = std::max(tMax, dt);
    if (getenv("SYMX_SLOW") && dt > atof(getenv("SYMX_SLOW"))) { fprintf(stderr, "SLOW query %.2fs r=%d ncons=%zu: %s at %s\n", dt, (int)res, cs.size(), X.str(cs.back(), 5).c_str(), whereHook ? whereHook().c_str() : ""); }
    cache[h] = {res, out};
    return res;
  }
};
