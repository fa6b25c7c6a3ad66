// Self-test of the expression simplifier: random terms are built through the simplifying constructors and, side by side, evaluated directly.
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <bitset>
#include <algorithm>
#include <unordered_map>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32; typedef uint8_t u8;
#include "expr.hpp"
int main(int argc, char **argv) {
  u64 seed = argc > 1 ? atoll(argv[1]) : 1; int rounds = argc > 2 ? atoi(argv[2]) : 20000; auto rnd = [&]() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
  for (int i = 0; i < 20; i++) rnd(); ExprCtx X; long bad = 0, n = 0;
  for (int r = 0; r < rounds && bad < 5; r++) {
    struct N { Expr *e; u64 v; std::string s; }; std::vector<N> p; static std::vector<Expr *> vars; std::vector<u64> model; if (vars.empty()) { for (int i = 0; i < 6; i++) vars.push_back(X.newVar("a", i < 3 ? 8 : i < 5 ? 32 : 64, 0, i < 2 ? 9 : ~0ULL)); }
    for (Expr *v : vars) { u64 x = rnd() & mask(v->w); switch (rnd() % 4) { case 0: x &= 7; break; case 1: x = (0 - (x & 7)) & mask(v->w); break; } if (X.vars[v->val].umax < mask(v->w)) x %= X.vars[v->val].umax + 1; model.push_back(x); p.push_back({v, x, "v" + std::to_string(v->val)}); }
    for (int i = 0; i < 4; i++) { unsigned ws[] = {1, 8, 32, 64}; unsigned w = ws[rnd() % 4]; u64 c = rnd(); if (rnd() % 2) c &= 15; if (rnd() % 4 == 0) c = 0 - (c & 63); c &= mask(w); p.push_back({X.C(c, w), c, std::to_string(c) + ":" + std::to_string(w)}); }
    for (int i = 0; i < 40; i++) {
      N a = p[rnd() % p.size()], b = p[rnd() % p.size()], c = p[rnd() % p.size()], o; std::vector<N> same; for (auto &x : p) if (x.e->w == a.e->w) same.push_back(x); b = same[rnd() % same.size()]; 
      if (rnd() % 12 == 0) { // a table over a small term, as a switch would build it
        unsigned w = rnd() % 2 ? 32 : 64; if (a.e->w > 32 || a.e->w < 2) continue; u64 base = rnd() % 2 ? a.v : rnd() & mask(a.e->w), dv = rnd() % 3 ? rnd() % 5 : 0 - base; int len = 2 + rnd() % 6; int dir = rnd() % 2; Expr *e = X.C(77, w); u64 v = 77; std::string st = "table[" + a.s + " from " + std::to_string(base) + "]";
        for (int q = 0; q < len; q++) { u64 k = (base + (dir ? q : len - 1 - q)) & mask(a.e->w); u64 val = rnd() % 9 ? (k + dv) & mask(w) : rnd() % 9; e = X.ite(X.eq(a.e, X.C(k, a.e->w)), X.C(val, w), e); if (a.v == k) v = val; }
        o = {e, v, st}; u64 g = X.eval(o.e, model); n++; if (g != v) { bad++; printf("BAD %s expect %llu got %llu: %s\n", st.c_str(), (unsigned long long)v, (unsigned long long)g, X.str(e, 12).c_str()); break; } p.push_back(o); continue; }
      static const EK bins[] = {K_ADD, K_SUB, K_MUL, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_UDIV, K_UREM, K_SDIV, K_SREM, K_ADD, K_MUL, K_ADD, K_SUB, K_EQ, K_ADD};
      int k = rnd() % 34;
      if (k < 24) { EK op = bins[k]; if ((op == K_UDIV || op == K_UREM || op == K_SDIV || op == K_SREM) && b.v == 0) continue; unsigned w = (op >= K_EQ && op <= K_SLE) ? 1 : a.e->w; o = {X.bin(op, a.e, b.e), ExprCtx::evalOp(op, w, 0, a.v, a.e->w, b.v, b.e->w, 0), std::string("(") + EKN[op] + " " + a.s + " " + b.s + ")"}; }
      else if (k < 27) { std::vector<N> bs; for (auto &x : p) if (x.e->w == 1) bs.push_back(x); if (bs.empty()) continue; N q = bs[rnd() % bs.size()]; o = {X.ite(q.e, a.e, b.e), q.v ? a.v : b.v, "(ite " + q.s + " " + a.s + " " + b.s + ")"}; }
      else if (k < 29) { unsigned w = a.e->w == 1 ? 8 : a.e->w == 8 ? 32 : 64; o = {X.zext(a.e, w), a.v, "(zext" + std::to_string(w) + " " + a.s + ")"}; }
      else if (k < 31) { unsigned w = a.e->w == 1 ? 8 : a.e->w == 8 ? 32 : 64; o = {X.sext(a.e, w), (u64)sx(a.v, a.e->w) & mask(w), "(sext" + std::to_string(w) + " " + a.s + ")"}; }
      else if (k < 32) { if (a.e->w == 1) continue; unsigned w = a.e->w == 64 ? (rnd() & 1 ? 32 : 8) : a.e->w == 32 ? 8 : 1; unsigned off = rnd() % 2 ? 0 : rnd() % (a.e->w - w + 1); o = {X.extract(a.e, off, w), (a.v >> off) & mask(w), "(extract@" + std::to_string(off) + "+" + std::to_string(w) + " " + a.s + ")"}; }
      else if (k < 33) { o = {X.not_(a.e), ~a.v & mask(a.e->w), "(not " + a.s + ")"}; }
      else { if (a.e->w != 32 || b.e->w != 32) continue; o = {X.concat(a.e, b.e), a.v << 32 | b.v, "(concat " + a.s + " " + b.s + ")"}; }
      n++; u64 g = X.eval(o.e, model);
      if (g != o.v || (o.e->kz & o.v) || (o.e->ko & ~o.v) || o.v < o.e->umin || o.v > o.e->umax || o.e->w == 0) { bad++; printf("BAD %s\n  expect %llu got %llu kz %llx ko %llx range %llu..%llu\n  simplified %s\n", o.s.c_str(), (unsigned long long)o.v, (unsigned long long)g, (unsigned long long)o.e->kz, (unsigned long long)o.e->ko, (unsigned long long)o.e->umin, (unsigned long long)o.e->umax, X.str(o.e, 12).c_str()); break; }
      if (o.s.size() < 400) p.push_back(o);
    }
  }
  printf("%ld terms, %ld wrong\n", n, bad); return bad != 0;
}
