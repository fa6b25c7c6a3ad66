// Hash-consed bit-vector / IEEE-754 expression layer of symx.
// Every expression is a bit-vector of width 1..64; floating-point operators act on IEEE bit patterns.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cfenv>
#include <string>
#include <vector>
#include <unordered_map>
#include <bitset>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;

enum EK : u8 {
  K_CONST, K_VAR,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_NOT, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  // floating point (width of operands 32 or 64)
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM, K_FSQRT, K_FROUND /*val=mode*/, K_FFMA,
  K_FEQ, K_FLT, K_FLE, K_FISNAN,
  K_FPCAST /* 32<->64 */, K_FPTOSI, K_FPTOUI, K_SITOFP, K_UITOFP,
};
static const char *EKN[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","fsqrt","fround","ffma","feq","flt","fle","fisnan","fpcast","fptosi","fptoui","sitofp","uitofp"};
enum { FR_FLOOR, FR_CEIL, FR_TRUNC, FR_RNE, FR_RNA };

typedef std::bitset<256> VarSet;

struct Expr {
  EK k; u8 w; bool fp = false;
  u32 id; u64 hash;
  Expr *a = nullptr, *b = nullptr, *c = nullptr;
  u64 val = 0;          // constant value / var id / extract offset / rounding mode
  u64 kz = 0, ko = 0;   // known zero / known one bits
  u64 umin = 0, umax = 0;
  VarSet vars;
  void *z3bv = nullptr, *z3bool = nullptr, *z3fp = nullptr;
  u64 evEpoch = 0, evVal = 0;
  u32 size = 1;
};

static inline u64 mask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); v &= mask(w); return (i64)((v ^ m) - m); }

struct EHash { size_t operator()(const Expr *e) const { return e->hash; } };
struct EEq { bool operator()(const Expr *x, const Expr *y) const {
  return x->k == y->k && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->val == y->val; } };

struct ArenaT {
  std::vector<Expr *> blocks; size_t used = 0; static const size_t N = 8192;
  Expr *alloc() { if (blocks.empty() || used == N) { blocks.push_back((Expr *)calloc(N, sizeof(Expr))); used = 0; } return new (&blocks.back()[used++]) Expr(); }
};

struct VarInfo { std::string name; unsigned w; u64 dflt; u64 umax; };

struct ExprCtx {
  ArenaT arena; u32 nextId = 1;
  struct Tab { // open addressing
    std::vector<Expr *> t; size_t n = 0;
    Tab() : t(1 << 16, nullptr) {}
  } tab;
  std::vector<VarInfo> vars;
  std::vector<Expr *> varExprs;
  u64 epoch = 1;

  Expr *intern(const Expr &q) {
    if (tab.n * 2 > tab.t.size()) {
      std::vector<Expr *> nt(tab.t.size() * 2, nullptr);
      for (Expr *e : tab.t) if (e) { size_t i = e->hash & (nt.size() - 1); while (nt[i]) i = (i + 1) & (nt.size() - 1); nt[i] = e; }
      tab.t.swap(nt);
    }
    size_t i = q.hash & (tab.t.size() - 1);
    EEq eq;
    while (tab.t[i]) { if (tab.t[i]->hash == q.hash && eq(tab.t[i], &q)) return tab.t[i]; i = (i + 1) & (tab.t.size() - 1); }
    Expr *e = arena.alloc(); *e = q; e->id = nextId++; tab.t[i] = e; tab.n++;
    finish(e);
    return e;
  }
  static u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }
  Expr *mk(EK k, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, u64 val = 0) {
    Expr q; q.k = k; q.w = (u8)w; q.a = a; q.b = b; q.c = c; q.val = val;
    u64 h = mix(k * 131 + w, val); if (a) h = mix(h, a->id * 3ULL); if (b) h = mix(h, b->id * 5ULL + 1); if (c) h = mix(h, c->id * 7ULL + 2);
    q.hash = h;
    return intern(q);
  }
  void finish(Expr *e) { // known bits & ranges & vars
    u64 m = mask(e->w);
    u32 sz = 1;
    for (Expr *x : {e->a, e->b, e->c}) if (x) { e->vars |= x->vars; e->fp |= x->fp; sz += x->size; if (sz > 1000000000u) sz = 1000000000u; }
    e->size = sz;
    if (e->k >= K_FADD) e->fp = true;
    u64 kz = 0, ko = 0, lo = 0, hi = m;
    Expr *a = e->a, *b = e->b, *c = e->c;
    switch (e->k) {
      case K_CONST: kz = ~e->val & m; ko = e->val; lo = hi = e->val; break;
      case K_VAR: e->vars.set(e->val & 255); if (vars[e->val].umax < m) hi = vars[e->val].umax; break;
      case K_AND: kz = a->kz | b->kz; ko = a->ko & b->ko; hi = std::min(a->umax, b->umax); break;
      case K_OR: kz = a->kz & b->kz; ko = a->ko | b->ko; lo = std::max(a->umin, b->umin); break;
      case K_XOR: kz = (a->kz & b->kz) | (a->ko & b->ko); ko = (a->kz & b->ko) | (a->ko & b->kz); break;
      case K_NOT: kz = a->ko; ko = a->kz; lo = ~a->umax & m; hi = ~a->umin & m; break;
      case K_ADD: { u64 s = a->umax + b->umax; if (s >= a->umax && s <= m) { hi = s; lo = a->umin + b->umin; } else if (b->k == K_CONST) { u64 k = (0 - b->val) & m; if (a->umin >= k) { lo = a->umin - k; hi = a->umax - k; } }
        unsigned tz = 0; while (tz < e->w && ((a->kz >> tz) & 1) && ((b->kz >> tz) & 1)) tz++; kz |= mask(tz) & (tz ? ~0ULL : 0); break; }
      case K_SUB: if (a->umin >= b->umax) { lo = a->umin - b->umax; hi = a->umax - b->umin; } break;
      case K_MUL: { unsigned __int128 p = (unsigned __int128)a->umax * b->umax; if (p <= m) { hi = (u64)p; lo = a->umin * b->umin; }
        unsigned ta = 0, tb = 0; while (ta < e->w && ((a->kz >> ta) & 1)) ta++; while (tb < e->w && ((b->kz >> tb) & 1)) tb++; unsigned t = std::min((unsigned)e->w, ta + tb); if (t) kz |= mask(t); break; }
      case K_UDIV: if (b->k == K_CONST && b->val) { lo = a->umin / b->val; hi = a->umax / b->val; } break;
      case K_UREM: if (b->k == K_CONST && b->val) { hi = std::min(a->umax, b->val - 1); } break;
      case K_SHL: if (b->k == K_CONST && b->val < e->w) { unsigned s = b->val; kz = ((a->kz << s) | mask(s)) & m; if (!s) kz = a->kz; ko = (a->ko << s) & m; if (s == 0 || (a->umax >> (e->w - s)) == 0) { lo = a->umin << s; hi = a->umax << s; } } break;
      case K_LSHR: if (b->k == K_CONST && b->val < e->w) { unsigned s = b->val; kz = ((a->kz >> s) | (s ? ~(m >> s) : 0)) & m; ko = a->ko >> s; lo = a->umin >> s; hi = a->umax >> s; } else hi = a->umax; break;
      case K_ASHR: if (b->k == K_CONST && b->val < e->w) { unsigned s = b->val; if (a->kz >> (e->w - 1) & 1) { kz = ((a->kz >> s) | ~(m >> s)) & m; ko = a->ko >> s; lo = a->umin >> s; hi = a->umax >> s; }
          else { kz = (a->kz & m) >> s; kz &= m >> s; ko = a->ko >> s; if (a->ko >> (e->w - 1) & 1) ko |= ~(m >> s) & m; if (!(a->kz >> (e->w - 1) & 1) && s) { kz &= (m >> s) >> 0; /* sign bit unknown: drop top */ if (!((a->ko >> (e->w-1)) & 1)) kz &= (m >> s) & ~(1ULL << (e->w - 1 - s)); } } } break;
      case K_ITE: kz = b->kz & c->kz; ko = b->ko & c->ko; lo = std::min(b->umin, c->umin); hi = std::max(b->umax, c->umax); break;
      case K_CONCAT: kz = (a->kz << b->w) | b->kz; ko = (a->ko << b->w) | b->ko; lo = (a->umin << b->w) + b->umin; hi = (a->umax << b->w) + b->umax; break;
      case K_EXTRACT: kz = (a->kz >> e->val) & m; ko = (a->ko >> e->val) & m; if (e->val == 0 && a->umax <= m) { lo = a->umin; hi = a->umax; } else if (e->val + e->w == a->w) { lo = a->umin >> e->val; hi = a->umax >> e->val; } break;
      case K_ZEXT: kz = a->kz | (m & ~mask(a->w)); ko = a->ko; lo = a->umin; hi = a->umax; break;
      case K_SEXT: if ((a->kz >> (a->w - 1)) & 1) { kz = a->kz | (m & ~mask(a->w)); ko = a->ko; lo = a->umin; hi = a->umax; }
        else if ((a->ko >> (a->w - 1)) & 1) { ko = a->ko | (m & ~mask(a->w)); kz = a->kz; }
        else { kz = a->kz & mask(a->w - 1); ko = a->ko & mask(a->w - 1); } break;
      default: break;
    }
    // reconcile
    if (lo > hi) { lo = 0; hi = m; }
    lo = std::max(lo, ko); hi = std::min(hi, m & ~kz);
    if (lo > hi) { lo = ko; hi = m & ~kz; }
    // leading zeros from hi
    if (hi < m) { unsigned lz = hi ? 64 - __builtin_clzll(hi) : 0; kz |= m & ~(lz >= 64 ? ~0ULL : mask(lz) & (lz ? ~0ULL : 0)); if (lz == 0) kz |= m; }
    e->kz = kz & m; e->ko = ko & m; e->umin = lo; e->umax = hi;
  }

  Expr *C(u64 v, unsigned w) { return mk(K_CONST, w, nullptr, nullptr, nullptr, v & mask(w)); }
  Expr *T() { return C(1, 1); }
  Expr *F() { return C(0, 1); }
  Expr *newVar(const std::string &name, unsigned w, u64 dflt = 0, u64 umax = ~0ULL) { // umax < all-ones: the creator also asserts var <= umax
    u32 id = vars.size(); vars.push_back({name, w, dflt, umax});
    Expr *e = mk(K_VAR, w, nullptr, nullptr, nullptr, id); varExprs.push_back(e); return e;
  }
  static bool isC(Expr *e) { return e->k == K_CONST; }

  // ---- native evaluation of an operator on constants
  static double f64(u64 v) { double d; memcpy(&d, &v, 8); return d; }
  static float f32(u64 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
  static u64 b64(double d) { u64 v; memcpy(&v, &d, 8); return v; }
  static u64 b32(float d) { u32 v; memcpy(&v, &d, 4); return v; }
  static u64 evalOp(EK k, unsigned w, u64 val, u64 a, unsigned aw, u64 b, unsigned bw, u64 c) {
    u64 m = mask(w);
    switch (k) {
      case K_ADD: return (a + b) & m;
      case K_SUB: return (a - b) & m;
      case K_MUL: return (a * b) & m;
      case K_UDIV: return b ? a / b : m;
      case K_UREM: return b ? a % b : a;
      case K_SDIV: { i64 x = sx(a, aw), y = sx(b, bw); if (!y) return (x >= 0 ? m : 1); if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
      case K_SREM: { i64 x = sx(a, aw), y = sx(b, bw); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
      case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b; case K_NOT: return ~a & m;
      case K_SHL: return b >= w ? 0 : (a << b) & m;
      case K_LSHR: return b >= w ? 0 : a >> b;
      case K_ASHR: { i64 x = sx(a, aw); return (u64)(x >> (b >= w ? w - 1 : b)) & m; }
      case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b;
      case K_SLT: return sx(a, aw) < sx(b, bw); case K_SLE: return sx(a, aw) <= sx(b, bw);
      case K_ITE: return a ? b : c;
      case K_CONCAT: return ((a << bw) | b) & m;
      case K_EXTRACT: return (a >> val) & m;
      case K_ZEXT: return a; case K_SEXT: return (u64)sx(a, aw) & m;
      case K_FADD: return w == 64 ? b64(f64(a) + f64(b)) : b32(f32(a) + f32(b));
      case K_FSUB: return w == 64 ? b64(f64(a) - f64(b)) : b32(f32(a) - f32(b));
      case K_FMUL: return w == 64 ? b64(f64(a) * f64(b)) : b32(f32(a) * f32(b));
      case K_FDIV: return w == 64 ? b64(f64(a) / f64(b)) : b32(f32(a) / f32(b));
      case K_FREM: return w == 64 ? b64(fmod(f64(a), f64(b))) : b32(fmodf(f32(a), f32(b)));
      case K_FSQRT: return w == 64 ? b64(sqrt(f64(a))) : b32(sqrtf(f32(a)));
      case K_FFMA: return w == 64 ? b64(fma(f64(a), f64(b), f64(c))) : b32(fmaf(f32(a), f32(b), f32(c)));
      case K_FROUND: { double x = w == 64 ? f64(a) : f32(a), r = x;
        switch (val) { case FR_FLOOR: r = floor(x); break; case FR_CEIL: r = ceil(x); break; case FR_TRUNC: r = trunc(x); break; case FR_RNE: r = nearbyint(x); break; case FR_RNA: r = round(x); break; }
        return w == 64 ? b64(r) : b32((float)r); }
      case K_FEQ: return aw == 64 ? f64(a) == f64(b) : f32(a) == f32(b);
      case K_FLT: return aw == 64 ? f64(a) < f64(b) : f32(a) < f32(b);
      case K_FLE: return aw == 64 ? f64(a) <= f64(b) : f32(a) <= f32(b);
      case K_FISNAN: return aw == 64 ? std::isnan(f64(a)) : std::isnan(f32(a));
      case K_FPCAST: if (w == aw) return a; return w == 64 ? b64((double)f32(a)) : b32((float)f64(a));
      case K_FPTOSI: { double x = aw == 64 ? f64(a) : f32(a);
        if (w == 64) { if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) return 1ULL << 63; return (u64)(i64)x; }
        if (w == 32) { if (!(x > -2147483649.0 && x < 2147483648.0)) return 0x80000000u; return (u64)(u32)(int)x; }
        abort(); }
      case K_FPTOUI: { double x = aw == 64 ? f64(a) : f32(a); // as x86-64 code: via signed 64
        if (w == 64) { if (x >= 9223372036854775808.0) { double y = x - 9223372036854775808.0; i64 t = (y >= -9223372036854775808.0 && y < 9223372036854775808.0) ? (i64)y : (i64)(1ULL << 63); return (u64)t ^ (1ULL << 63); }
          if (!(x >= -9223372036854775808.0)) return 1ULL << 63; return (u64)(i64)x; }
        if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) return 0; return (u64)(i64)x & m; }
      case K_SITOFP: { i64 x = sx(a, aw); return w == 64 ? b64((double)x) : b32((float)x); }
      case K_UITOFP: { return w == 64 ? b64((double)a) : b32((float)a); }
      default: fprintf(stderr, "evalOp %d\n", k); abort();
    }
  }
  Expr *fold(EK k, unsigned w, Expr *a, Expr *b, Expr *c, u64 val) {
    return C(evalOp(k, w, val, a->val, a->w, b ? b->val : 0, b ? b->w : 0, c ? c->val : 0), w);
  }

  // a == 0 for a = (negated) integer converted to floating point, possibly divided by a constant so small that nothing underflows; null when not of that form
  Expr *fpIsZero(Expr *a) {
    unsigned w = a->w;
    if (a->k == K_CONCAT && a->a->w == 8 && a->a->k == K_XOR && isC(a->a->b) && a->a->b->val == 128 && a->a->a->k == K_EXTRACT && a->b->k == K_EXTRACT && a->a->a->a == a->b->a && a->b->a->w == w && a->b->val == 0 && a->a->a->val == w - 8) return fpIsZero(a->b->a);
    if (a->k == K_XOR && isC(a->b) && a->b->val == 1ULL << (w - 1)) return fpIsZero(a->a);
    if (a->k == K_FDIV && isC(a->b) && (a->a->k == K_UITOFP || a->a->k == K_SITOFP)) { double c = w == 64 ? f64(a->b->val) : f32(a->b->val); if (c >= 1 && c <= 1e20) return fpIsZero(a->a); return nullptr; }
    if (a->k == K_UITOFP || a->k == K_SITOFP) return eq(a->a, C(0, a->a->w));
    return nullptr;
  }
  // ---- constructors with simplification
  Expr *bin(EK k, Expr *a, Expr *b) {
    switch (k) {
      case K_ADD: return add(a, b); case K_SUB: return sub(a, b); case K_MUL: return mul(a, b);
      case K_AND: return and_(a, b); case K_OR: return or_(a, b); case K_XOR: return xor_(a, b);
      case K_SHL: case K_LSHR: case K_ASHR: return shift(k, a, b);
      case K_EQ: return eq(a, b); case K_ULT: return ult(a, b); case K_ULE: return not_(ult(b, a));
      case K_SLT: return slt(a, b); case K_SLE: return not_(slt(b, a));
      case K_UDIV: case K_UREM: case K_SDIV: case K_SREM: return div(k, a, b);
      case K_FEQ: case K_FLT: case K_FLE: if (isC(a) && isC(b)) return fold(k, 1, a, b, nullptr, 0); if (k == K_FEQ) { if (isC(a)) std::swap(a, b); if (isC(b) && (b->val << (64 - b->w + 1)) == 0) if (Expr *z = fpIsZero(a)) return z; } return mk(k, 1, a, b);
      default: if (isC(a) && isC(b)) return fold(k, a->w, a, b, nullptr, 0); return mk(k, a->w, a, b);
    }
  }
  // linear combinations: sums are kept as sorted chains t1 + t2 + ... (- negatives) + constant
  typedef std::vector<std::pair<Expr *, u64>> Lin;
  static bool chain(Expr *e) { return e->k == K_ADD || e->k == K_SUB || (e->k == K_MUL && isC(e->b)); }
  bool gather(Expr *e, u64 c, Lin &t, u64 &k, int depth = 0) {
    if (depth > 40) return false;
    switch (e->k) {
      case K_CONST: k += c * e->val; return true;
      case K_ADD: return gather(e->a, c, t, k, depth + 1) && gather(e->b, c, t, k, depth + 1);
      case K_SUB: return gather(e->a, c, t, k, depth + 1) && gather(e->b, 0 - c, t, k, depth + 1);
      case K_MUL: if (isC(e->b)) return gather(e->a, c * e->b->val, t, k, depth + 1); break;
      default: break;
    }
    t.push_back({e, c}); return t.size() <= 40;
  }
  static Expr *strip(Expr *e) { while (e->k == K_ZEXT || e->k == K_SEXT) e = e->a; return e; }
  void canon(Lin &t, unsigned w) {
    std::sort(t.begin(), t.end(), [](auto &x, auto &y) { u32 a = strip(x.first)->id, b = strip(y.first)->id; return a != b ? a < b : x.first->id < y.first->id; });
    size_t n = 0; for (size_t i = 0; i < t.size(); i++) { if (n && t[n - 1].first == t[i].first) t[n - 1].second += t[i].second; else t[n++] = t[i]; } t.resize(n);
    n = 0; for (auto &x : t) { x.second &= mask(w); if (x.second) t[n++] = x; } t.resize(n);
  }
  struct DigitSet { Expr *v; u64 base; std::vector<Expr *> d, q; }; std::vector<DigitSet> digitSets; std::unordered_map<u32, bool> derived; std::unordered_map<Expr *, bool> defCons; // variables that are functions of others
  std::unordered_map<Expr *, Expr *> defs; // sums known to equal a shorter term wherever they can occur (digit decompositions)
  Expr *rebuild(Lin &t, u64 k, unsigned w) {
    canon(t, w); k &= mask(w); Expr *P = nullptr, *N = nullptr;
    for (auto &x : t) { bool neg = x.second >> (w - 1) && x.second != 1ULL << (w - 1); u64 c = neg ? (0 - x.second) & mask(w) : x.second; Expr *m = c == 1 ? x.first : mk(K_MUL, w, x.first, C(c, w)); Expr *&d = neg ? N : P; d = d ? mk(K_ADD, w, d, m) : m; }
    if (t.size() == 1 && !N && P->k == K_MUL && isC(P->b) && (P->b->val & (P->b->val - 1)) == 0) P = shift(K_SHL, P->a, C(__builtin_ctzll(P->b->val), w));
    if (!P && !N) return C(k, w);
    if (!defs.empty()) { bool hit = false; for (Expr **q : {&P, &N}) if (*q && (*q)->k == K_ADD) { auto it = defs.find(*q); if (it != defs.end()) { *q = it->second; hit = true; } }
      if (hit) { Expr *r = P ? (N ? sub(P, N) : P) : sub(C(k, w), N); return P && k ? add(r, C(k, w)) : r; } }
    if (!P) return mk(K_SUB, w, C(k, w), N);
    Expr *r = N ? mk(K_SUB, w, P, N) : P; return k ? add(r, C(k, w)) : r;
  }
  Expr *linear(Expr *a, u64 ca, Expr *b, u64 cb) { Lin t; u64 k = 0; if (!gather(a, ca, t, k) || !gather(b, cb, t, k)) return nullptr; return rebuild(t, k, a->w); }
  // sum-of-terms helper: pull constants outward
  Expr *add(Expr *a, Expr *b) {
    if (a->w > 1 && !isC(a) && !isC(b) && (chain(a) || chain(b) || a == b)) if (Expr *r = linear(a, 1, b, 1)) return r;
    if (isC(a) && isC(b)) return C(a->val + b->val, a->w);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->val == 0) return a;
      if (a->k == K_ADD && isC(a->b)) return add(a->a, C(a->b->val + b->val, a->w));
      if (a->k == K_SUB && isC(a->a)) return sub(C(a->a->val + b->val, a->w), a->b);
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return ite(a->a, add(a->b, b), add(a->c, b));
      return mk(K_ADD, a->w, a, b);
    }
    if (a->w == 1) return xor_(a, b);
    if (a->k == K_ADD && isC(a->b)) return add(add(a->a, b), a->b);
    if (b->k == K_ADD && isC(b->b)) return add(add(a, b->a), b->b);
    if (a->k == K_SUB && a->b == b) return a->a;
    if (b->k == K_SUB && b->b == a) return b->a;
    if (a->id > b->id) std::swap(a, b);
    return mk(K_ADD, a->w, a, b);
  }
  Expr *sub(Expr *a, Expr *b) {
    if (a == b) return C(0, a->w);
    if (isC(b)) return add(a, C(0 - b->val, a->w));
    if (a->w > 1 && (chain(a) || chain(b))) if (Expr *r = linear(a, 1, b, ~0ULL)) return r;
    if (a->k == K_ADD && a->a == b) return a->b;
    if (a->k == K_ADD && a->b == b) return a->a;
    if (b->k == K_ADD && isC(b->b)) return add(sub(a, b->a), C(0 - b->b->val, a->w));
    if (a->k == K_ADD && isC(a->b)) return add(sub(a->a, b), a->b);
    if (b->k == K_ADD && b->a == a) return neg(b->b);
    if (b->k == K_ADD && b->b == a) return neg(b->a);
    if (isC(a) && b->k == K_SUB && isC(b->a)) return add(b->b, C(a->val - b->a->val, a->w));
    if (isC(a) && b->k == K_ITE && isC(b->b) && isC(b->c)) return ite(b->a, sub(a, b->b), sub(a, b->c));
    return mk(K_SUB, a->w, a, b);
  }
  Expr *neg(Expr *a) { return sub(C(0, a->w), a); }
  Expr *mul(Expr *a, Expr *b) {
    if (isC(a) && isC(b)) return C(a->val * b->val, a->w);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->val == 0) return b; if (b->val == 1) return a;
      if (b->val == mask(a->w)) return neg(a);
      if (chain(a)) if (Expr *r = linear(a, b->val, C(0, a->w), 1)) return r;
      if ((b->val & (b->val - 1)) == 0) return shift(K_SHL, a, C(__builtin_ctzll(b->val), a->w));
      if (a->k == K_MUL && isC(a->b)) return mul(a->a, C(a->b->val * b->val, a->w));
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return ite(a->a, mul(a->b, b), mul(a->c, b));
      return mk(K_MUL, a->w, a, b);
    }
    if (a->id > b->id) std::swap(a, b);
    return mk(K_MUL, a->w, a, b);
  }
  Expr *div(EK k, Expr *a, Expr *b) {
    if (isC(a) && isC(b)) return fold(k, a->w, a, b, nullptr, 0);
    unsigned w = a->w;
    if (isC(b)) {
      bool sgn = (k == K_SDIV || k == K_SREM);
      if (b->val == 1) return (k == K_UDIV || k == K_SDIV) ? a : C(0, w);
      if (sgn && ((a->kz >> (w - 1)) & 1) && !((b->val >> (w - 1)) & 1)) { k = (k == K_SDIV) ? K_UDIV : K_UREM; sgn = false; }
      if (!sgn && b->val) {
        if ((b->val & (b->val - 1)) == 0) {
          unsigned s = __builtin_ctzll(b->val);
          if (k == K_UDIV) return shift(K_LSHR, a, C(s, w));
          return and_(a, C(b->val - 1, w));
        }
        if (a->umax < b->val) return k == K_UDIV ? C(0, w) : a;
        // narrow
        for (unsigned nw : {8u, 16u, 32u}) if (nw < w && a->umax <= mask(nw) && b->val <= mask(nw)) return zext(div(k, extract(a, 0, nw), C(b->val, nw)), w);
      }
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return ite(a->a, div(k, a->b, b), div(k, a->c, b));
    } else if (w > 8) {
      bool sgn = (k == K_SDIV || k == K_SREM);
      if (!sgn || (((a->kz >> (w - 1)) & 1) && ((b->kz >> (w - 1)) & 1)))
        for (unsigned nw : {8u, 16u, 32u}) if (nw < w && a->umax <= mask(nw) && b->umax <= mask(nw) && b->umin > 0) {
          EK nk = (k == K_SDIV || k == K_UDIV) ? K_UDIV : K_UREM;
          return zext(div(nk, extract(a, 0, nw), extract(b, 0, nw)), w); }
    }
    return mk(k, w, a, b);
  }
  // p holds exactly when x lies on the arc lo, lo+1, ..., lo+len-1 (modulo 2^w)
  bool arc(Expr *p, Expr *&x, u64 &lo, u64 &len) {
    if (p->k == K_NOT) { if (!arc(p->a, x, lo, len)) return false; u64 m = mask(x->w); lo = (lo + len) & m; len = (0 - len) & m; return len != 0; }
    if (p->k != K_EQ && p->k != K_ULT && p->k != K_SLT) return false;
    Expr *a = p->a, *b = p->b; if (isC(a) == isC(b)) return false; unsigned w = a->w; if (w < 2) return false; u64 m = mask(w), sm = 1ULL << (w - 1);
    if (isC(b)) { x = a; u64 n = b->val; if (p->k == K_EQ) { lo = n; len = 1; } else if (p->k == K_ULT) { lo = 0; len = n; } else { lo = sm; len = (n - sm) & m; } }
    else { x = b; u64 n = a->val; if (p->k == K_EQ) { lo = n; len = 1; } else if (p->k == K_ULT) { lo = (n + 1) & m; len = m - n; } else { lo = (n + 1) & m; len = (sm - 1 - n) & m; } }
    if (x->k == K_ADD && isC(x->b)) { lo = (lo - x->b->val) & m; x = x->a; }
    return len != 0; }
  Expr *onArc(Expr *x, u64 lo, u64 len) {
    unsigned w = x->w; u64 m = mask(w); lo &= m; len &= m; if (len == 1) return eq(x, C(lo, w)); if (len == m) return not_(eq(x, C((lo + len) & m, w)));
    u64 hi = (lo + len - 1) & m; if (hi < lo) return not_(onArc(x, (hi + 1) & m, (0 - len) & m));
    if (lo <= x->umin && hi >= x->umax) return T(); if (hi < x->umin || lo > x->umax) return F();
    if (lo <= x->umin) return ult(x, C(hi + 1, w)); if (hi >= x->umax) return not_(ult(x, C(lo, w)));
    return mk(K_ULT, 1, add(x, C(0 - lo, w)), C(len, w)); }
  // union (or intersection) of two arcs when it is one arc; nullptr otherwise
  Expr *arcs(Expr *a, Expr *b, bool uni) {
    Expr *x, *y; u64 l1, n1, l2, n2; if (!arc(a, x, l1, n1) || !arc(b, y, l2, n2) || x != y) return nullptr; u64 m = mask(x->w);
    if (!uni) { l1 = (l1 + n1) & m; n1 = (0 - n1) & m; l2 = (l2 + n2) & m; n2 = (0 - n2) & m; }
    for (int sw = 0; sw < 2; sw++) { u64 d = (l2 - l1) & m; if (d <= n1) { // second starts inside or right after the first
        u64 o = n1 - d; u64 L = l1, N; if (n2 <= o) N = n1; else { u64 ext = n2 - o; if (ext > m - n1) return uni ? T() : F(); N = n1 + ext; } 
        return uni ? onArc(x, L, N) : onArc(x, (L + N) & m, (0 - N) & m); }
      std::swap(l1, l2); std::swap(n1, n2); }
    return nullptr; }
  Expr *and_(Expr *a, Expr *b) {
    if (a == b) return a;
    if (isC(a)) std::swap(a, b);
    unsigned w = a->w; u64 m = mask(w);
    if (isC(a) && isC(b)) return C(a->val & b->val, w);
    if (isC(b)) {
      if (b->val == 0) return b; if (b->val == m) return a;
      if (((~a->kz & m) & ~b->val) == 0) return a;         // no-op mask
      if (((~a->kz & m) & b->val) == 0) return C(0, w);
      if (((a->kz | a->ko) & b->val) == b->val) return C(a->ko & b->val, w);
      if (a->k == K_AND && isC(a->b)) return and_(a->a, C(a->b->val & b->val, w));
      // low mask -> zext(extract)
      if (w > 1 && ((b->val + 1) & b->val) == 0) { unsigned n = __builtin_popcountll(b->val); return zext(extract(a, 0, n), w); }
      if (a->k == K_CONCAT) return concat(and_(a->a, C(b->val >> a->b->w, a->a->w)), and_(a->b, C(b->val & mask(a->b->w), a->b->w)));
      if (a->k == K_ZEXT) return zext(and_(a->a, C(b->val & mask(a->a->w), a->a->w)), w);
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return ite(a->a, and_(a->b, b), and_(a->c, b));
    } else {
      if (w == 1) {
        if (a->k == K_NOT && a->a == b) return F(); if (b->k == K_NOT && b->a == a) return F();
        if (a->k == K_AND && (a->a == b || a->b == b)) return a;
        if (b->k == K_AND && (b->a == a || b->b == a)) return b;
        if (Expr *r = arcs(a, b, false)) return r;
      }
      if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return concat(and_(a->a, b->a), and_(a->b, b->b));
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return zext(and_(a->a, b->a), w);
      if (a->k == K_ITE && b->k == K_ITE && a->a == b->a) return ite(a->a, and_(a->b, b->b), and_(a->c, b->c));
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(K_AND, w, a, b);
  }
  Expr *or_(Expr *a, Expr *b) {
    if (a == b) return a;
    if (isC(a)) std::swap(a, b);
    unsigned w = a->w; u64 m = mask(w);
    if (isC(a) && isC(b)) return C(a->val | b->val, w);
    if (isC(b)) {
      if (b->val == 0) return a; if (b->val == m) return b;
      if ((a->ko & b->val) == b->val) return a;
      if (a->k == K_OR && isC(a->b)) return or_(a->a, C(a->b->val | b->val, w));
      if (a->k == K_CONCAT) return concat(or_(a->a, C(b->val >> a->b->w, a->a->w)), or_(a->b, C(b->val & mask(a->b->w), a->b->w)));
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return ite(a->a, or_(a->b, b), or_(a->c, b));
    } else {
      if (w == 1) {
        if (a->k == K_NOT && a->a == b) return T(); if (b->k == K_NOT && b->a == a) return T();
        if (a->k == K_OR && (a->a == b || a->b == b)) return a;
        if (b->k == K_OR && (b->a == a || b->b == a)) return b;
        if (Expr *r = arcs(a, b, true)) return r;
      } else {
        // disjoint halves -> concat
        u64 pa = ~a->kz & m, pb = ~b->kz & m;
        if ((pa & pb) == 0 && pa && pb) {
          Expr *hi = pa > pb ? a : b, *lo = hi == a ? b : a; u64 ph = ~hi->kz & m, pl = ~lo->kz & m;
          unsigned tz = __builtin_ctzll(ph); unsigned bl = 64 - __builtin_clzll(pl);
          if (bl <= tz) return concat(extract(hi, tz, w - tz), extract(lo, 0, tz));
        }
      }
      if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return concat(or_(a->a, b->a), or_(a->b, b->b));
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return zext(or_(a->a, b->a), w);
      if (a->k == K_ITE && b->k == K_ITE && a->a == b->a) return ite(a->a, or_(a->b, b->b), or_(a->c, b->c));
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(K_OR, w, a, b);
  }
  Expr *xor_(Expr *a, Expr *b) {
    if (a == b) return C(0, a->w);
    if (isC(a)) std::swap(a, b);
    unsigned w = a->w;
    if (isC(a) && isC(b)) return C(a->val ^ b->val, w);
    if (isC(b)) {
      if (b->val == 0) return a; if (b->val == mask(w)) return not_(a);
      if (a->k == K_XOR && isC(a->b)) return xor_(a->a, C(a->b->val ^ b->val, w));
      if (a->k == K_CONCAT) return concat(xor_(a->a, C(b->val >> a->b->w, a->a->w)), xor_(a->b, C(b->val & mask(a->b->w), a->b->w)));
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return ite(a->a, xor_(a->b, b), xor_(a->c, b));
    } else {
      if (a->k == K_XOR && a->a == b) return a->b; if (a->k == K_XOR && a->b == b) return a->a;
      if (b->k == K_XOR && b->a == a) return b->b; if (b->k == K_XOR && b->b == a) return b->a;
      if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return concat(xor_(a->a, b->a), xor_(a->b, b->b));
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return zext(xor_(a->a, b->a), w);
      if (w == 1 && a->k == K_NOT) return not_(xor_(a->a, b));
      if (w == 1 && b->k == K_NOT) return not_(xor_(a, b->a));
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(K_XOR, w, a, b);
  }
  Expr *not_(Expr *a) {
    if (isC(a)) return C(~a->val, a->w);
    if (a->k == K_NOT) return a->a;
    if (a->k == K_CONCAT) return concat(not_(a->a), not_(a->b));
    if (a->k == K_ITE && (isC(a->b) || isC(a->c))) return ite(a->a, not_(a->b), not_(a->c));
    return mk(K_NOT, a->w, a);
  }
  Expr *shift(EK k, Expr *a, Expr *b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) return fold(k, w, a, b, nullptr, 0);
    if (isC(b)) {
      u64 s = b->val; if (s == 0) return a;
      if (s >= w) { if (k != K_ASHR) return C(0, w); s = w - 1; b = C(s, w); }
      if (k == K_ASHR && ((a->kz >> (w - 1)) & 1)) k = K_LSHR;
      if (k == K_SHL) return concat(extract(a, 0, w - s), C(0, s));
      if (k == K_LSHR) return zext(extract(a, s, w - s), w);
      return sext(extract(a, s, w - s), w);
    }
    if (isC(a) && a->val == 0) return a;
    return mk(k, w, a, b);
  }
  Expr *eq(Expr *a, Expr *b) {
    if (a == b) return T();
    if (isC(a)) std::swap(a, b);
    if (isC(a) && isC(b)) return C(a->val == b->val, 1);
    unsigned w = a->w;
    if (a->umax < b->umin || b->umax < a->umin) return F();
    if ((a->ko & b->kz) || (a->kz & b->ko)) return F();
    if (isC(b)) {
      if (w == 1) return b->val ? a : not_(a);
      switch (a->k) {
        case K_CONCAT: return and_(eq(a->b, C(b->val, a->b->w)), eq(a->a, C(b->val >> a->b->w, a->a->w)));
        case K_ZEXT: return eq(a->a, C(b->val, a->a->w)); // range check above covers high bits
        case K_SEXT: if ((u64)sx(b->val, a->a->w) != (u64)sx(b->val, w)) return F(); return eq(a->a, C(b->val, a->a->w));
        case K_ADD: if (isC(a->b)) return eq(a->a, C(b->val - a->b->val, w)); break;
        case K_SUB: if (isC(a->a)) return eq(a->b, C(a->a->val - b->val, w)); if (b->val == 0) return eq(a->a, a->b); break;
        case K_XOR: if (isC(a->b)) return eq(a->a, C(a->b->val ^ b->val, w)); if (b->val == 0) return eq(a->a, a->b); break;
        case K_OR: if (b->val == 0) return and_(eq(a->a, b), eq(a->b, b)); break;
        case K_NOT: return eq(a->a, C(~b->val, w));
        case K_ITE:
          if (isC(a->b) && isC(a->c)) { bool x = a->b->val == b->val, y = a->c->val == b->val; if (x && y) return T(); if (x) return a->a; if (y) return not_(a->a); return F(); }
          if (isC(a->b)) { return a->b->val == b->val ? or_(a->a, eq(a->c, b)) : and_(not_(a->a), eq(a->c, b)); }
          if (isC(a->c)) { return a->c->val == b->val ? or_(not_(a->a), eq(a->b, b)) : and_(a->a, eq(a->b, b)); }
          if (a->size < 4000) return or_(and_(a->a, eq(a->b, b)), and_(not_(a->a), eq(a->c, b)));
          break;
        default: break;
      }
    } else {
      if (w == 1) return not_(xor_(a, b));
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return eq(a->a, b->a);
      if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return eq(a->a, b->a);
      if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return and_(eq(a->a, b->a), eq(a->b, b->b));
      if (a->k == K_ADD && b->k == K_ADD && isC(a->b) && a->b == b->b) return eq(a->a, b->a);
      if (a->k == K_ADD && isC(a->b) && a->a == b) return F();
      if (b->k == K_ADD && isC(b->b) && b->a == a) return F();
      if (chain(a) || chain(b)) { Lin t; u64 k = 0; if (gather(a, 1, t, k) && gather(b, ~0ULL, t, k)) { canon(t, w); k &= mask(w); if (t.empty()) return C(k == 0, 1); if (t.size() == 1 && t[0].second == 1) return eq(t[0].first, C(0 - k, w)); if (t.size() == 1 && t[0].second == mask(w)) return eq(t[0].first, C(k, w)); } }
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(K_EQ, 1, a, b);
  }
  Expr *ult(Expr *a, Expr *b) {
    if (a == b) return F();
    if (isC(a) && isC(b)) return C(a->val < b->val, 1);
    if (a->umax < b->umin) return T();
    if (a->umin >= b->umax) return F();
    unsigned w = a->w;
    if (w == 1) return and_(not_(a), b);
    if (isC(b) && b->val == 1) return eq(a, C(0, w));
    if (isC(a) && a->val == mask(w) - 1) return eq(b, C(mask(w), w));
    if (isC(a) && a->val == 0) return not_(eq(b, C(0, w)));
    if (isC(b) && b->val == mask(w)) return not_(eq(a, b));
    auto nar = [&](Expr *x) -> unsigned { if (x->k == K_ZEXT) return x->a->w; return x->w; };
    if ((a->k == K_ZEXT && isC(b)) || (b->k == K_ZEXT && isC(a)) || (a->k == K_ZEXT && b->k == K_ZEXT)) {
      unsigned nw = isC(a) ? nar(b) : isC(b) ? nar(a) : std::max(nar(a), nar(b));
      if (a->umax <= mask(nw) && b->umax <= mask(nw) && nw < w) return ult(extract(a, 0, nw), extract(b, 0, nw));
    }
    if (isC(b) && a->k == K_ITE && ((isC(a->b) || isC(a->c)) || a->size < 400)) return ite(a->a, ult(a->b, b), ult(a->c, b));
    if (isC(a) && b->k == K_ITE && ((isC(b->b) || isC(b->c)) || b->size < 400)) return ite(b->a, ult(a, b->b), ult(a, b->c));
    return mk(K_ULT, 1, a, b);
  }
  typedef __int128 i128;
  // signed range of a, when it is known not to wrap
  bool srange(Expr *a, i128 &lo, i128 &hi, int depth = 0) {
    unsigned w = a->w; i128 mn = -((i128)1 << (w - 1)), mx = ((i128)1 << (w - 1)) - 1; i128 l1, h1, l2, h2; bool ok = false;
    if (isC(a)) { lo = hi = sx(a->val, w); return true; }
    if (depth < 24) switch (a->k) {
      case K_ADD: if (srange(a->a, l1, h1, depth + 1) && srange(a->b, l2, h2, depth + 1)) { lo = l1 + l2; hi = h1 + h2; ok = true; } break;
      case K_SUB: if (srange(a->a, l1, h1, depth + 1) && srange(a->b, l2, h2, depth + 1)) { lo = l1 - h2; hi = h1 - l2; ok = true; } break;
      case K_MUL: if (isC(a->b) && w <= 64) { i128 c = sx(a->b->val, w); if (srange(a->a, l1, h1, depth + 1) && c > 0) { lo = l1 * c; hi = h1 * c; ok = l1 > -((i128)1 << 62) && h1 < ((i128)1 << 62) && (c < ((i128)1 << 62)); } } break;
      case K_SEXT: if (srange(a->a, lo, hi, depth + 1)) ok = true; break;
      default: break; }
    if (ok && lo >= mn && hi <= mx) return true;
    if ((i128)a->umax <= mx) { lo = a->umin; hi = a->umax; return true; }
    if ((i128)a->umin > mx) { lo = (i128)a->umin - ((i128)1 << w); hi = (i128)a->umax - ((i128)1 << w); return true; }
    lo = mn; hi = mx; return true; }
  Expr *slt(Expr *a, Expr *b) {
    if (a == b) return F();
    unsigned w = a->w; u64 sb = 1ULL << (w - 1);
    if (!(isC(a) && isC(b)) && w > 1 && (chain(a) || chain(b) || a->k == K_SEXT || b->k == K_SEXT)) { i128 l1, h1, l2, h2; if (srange(a, l1, h1) && srange(b, l2, h2)) { if (h1 < l2) return T(); if (l1 >= h2) return F();
      if (isC(b) && a->k == K_SUB && isC(a->a) && a->a->val == 0) { i128 q1, q2, c = sx(b->val, w); if (srange(a->b, q1, q2) && q1 >= 0 && q2 <= (i128)(sb - 1) && c < 0 && b->val != sb) return ult(C(0 - b->val, w), a->b); }
      if (isC(a) && b->k == K_SUB && isC(b->a) && b->a->val == 0) { i128 q1, q2, c = sx(a->val, w); if (srange(b->b, q1, q2) && q1 >= 0 && q2 <= (i128)(sb - 1) && c < 0 && a->val != sb) return ult(b->b, C(0 - a->val, w)); } } }
    if (isC(a) && isC(b)) return C(sx(a->val, w) < sx(b->val, w), 1);
    bool an = a->ko & sb, ap = a->kz & sb, bn = b->ko & sb, bp = b->kz & sb;
    if (an && bp) return T(); if (ap && bn) return F();
    if ((ap && bp) || (an && bn)) return ult(a, b);
    if (isC(b) && b->val == 0) return eq(extract(a, w - 1, 1), C(1, 1));
    if (isC(a) && a->val == mask(w)) return eq(extract(b, w - 1, 1), C(0, 1));
    auto sw = [&](Expr *x) -> unsigned { return x->k == K_SEXT ? x->a->w : x->k == K_ZEXT ? x->a->w + 1 : x->w; };
    auto cw = [&](Expr *x) -> unsigned { for (unsigned n = 2; n < x->w; n++) if ((u64)sx(x->val, n) == (u64)sx(x->val, x->w)) return n; return x->w; };
    if ((a->k == K_SEXT || isC(a)) && (b->k == K_SEXT || isC(b))) {
      unsigned nw = std::max(isC(a) ? 1u : sw(a), isC(b) ? 1u : sw(b));
      if (nw < w) {
        unsigned ca = isC(a) ? cw(a) : 0, cb = isC(b) ? cw(b) : 0;
        if (ca <= nw && cb <= nw) return slt(extract(a, 0, nw), extract(b, 0, nw));
        if (isC(b) && cb > nw) return sx(b->val, w) > 0 ? T() : F();
        if (isC(a) && ca > nw) return sx(a->val, w) < 0 ? T() : F();
      }
    }
    if (isC(b) && a->k == K_ITE && ((isC(a->b) || isC(a->c)) || a->size < 400)) return ite(a->a, slt(a->b, b), slt(a->c, b));
    if (isC(a) && b->k == K_ITE && ((isC(b->b) || isC(b->c)) || b->size < 400)) return ite(b->a, slt(a, b->b), slt(a, b->c));
    return mk(K_SLT, 1, a, b);
  }
  Expr *ite(Expr *c, Expr *t, Expr *f) {
    if (isC(c)) return c->val ? t : f;
    if (t == f) return t;
    if (c->k == K_NOT) return ite(c->a, f, t);
    if (t->w == 1) {
      if (isC(t)) return t->val ? or_(c, f) : and_(not_(c), f);
      if (isC(f)) return f->val ? or_(not_(c), t) : and_(c, t);
      if (c == t) return or_(c, f);
      if (c == f) return and_(c, t);
    }
    if (t->k == K_ITE && t->a == c) t = t->b;
    if (f->k == K_ITE && f->a == c) f = f->c;
    if (f->k == K_ITE && ((f->a->k == K_NOT && f->a->a == c) || (c->k == K_NOT && c->a == f->a))) f = f->b;
    if (t->k == K_ITE && ((t->a->k == K_NOT && t->a->a == c) || (c->k == K_NOT && c->a == t->a))) t = t->c;
    if (t == f) return t;
    if (f->k == K_ITE && f->b == t) return ite(or_(c, f->a), t, f->c);
    if (isC(t) && t->w > 1 && f->k == K_ITE) { // table of consecutive values -> linear
      Expr *x, *y; u64 lo, n, l2, n2; if (arc(c, x, lo, n) && n == 1 && x->w > 1 && x->w <= t->w && arc(f->a, y, l2, n2) && y == x) {
        u64 d = (t->val - lo) & mask(t->w); bool hit = false; Expr *zx = nullptr;
        if (isC(f->b)) hit = n2 == 1 && ((f->b->val - l2) & mask(t->w)) == d; else { zx = zext(x, t->w); hit = f->b == add(zx, C(d, t->w)); }
        if (hit && ((lo == ((l2 + n2) & mask(x->w))) || ((lo + 1) & mask(x->w)) == l2)) return ite(or_(c, f->a), add(zext(x, t->w), C(d, t->w)), f->c); } }
    if (t->w > 1) {
      if (t->k == K_ADD && isC(t->b) && t->a == f) return add(f, ite(c, t->b, C(0, t->w)));
      if (f->k == K_ADD && isC(f->b) && f->a == t) return add(t, ite(c, C(0, t->w), f->b));
      if (t->k == K_ADD && f->k == K_ADD && isC(t->b) && isC(f->b) && t->a == f->a) return add(t->a, ite(c, t->b, f->b));
      if (isC(t) && isC(f) && t->val == 1 && f->val == 0) return zext(c, t->w);
    }
    if (t->k == K_ZEXT && f->k == K_ZEXT && t->a->w == f->a->w) return zext(ite(c, t->a, f->a), t->w);
    if (t->k == K_SEXT && f->k == K_SEXT && t->a->w == f->a->w) return sext(ite(c, t->a, f->a), t->w);
    if (t->k == K_CONCAT && f->k == K_CONCAT && t->b->w == f->b->w) return concat(ite(c, t->a, f->a), ite(c, t->b, f->b));
    return mk(K_ITE, t->w, c, t, f);
  }
  Expr *concat(Expr *a, Expr *b) {
    unsigned w = a->w + b->w;
    if (isC(a) && isC(b)) return C((a->val << b->w) | b->val, w);
    if (isC(a) && a->val == 0) return zext(b, w);
    if (a->k == K_EXTRACT && b->k == K_EXTRACT && a->a == b->a && b->val + b->w == a->val) return extract(a->a, b->val, w);
    if (a->k == K_ZEXT) return zext(concat(a->a, b), w);
    if (a->k == K_SEXT && a->a->w == 1 && a->a->k == K_EXTRACT) { // copies of the sign bit above the value itself
      Expr *x = a->a->a; if (a->a->val + 1 == x->w && (b == x || (b->k == K_SEXT && b->a == x))) return sext(x, w);
      if (b->k == K_SEXT && b->a == a->a) return sext(a->a, w); }
    if (a->k == K_EXTRACT && a->w == 1 && a->val + 1 == a->a->w && (b == a->a || (b->k == K_SEXT && b->a == a->a))) return sext(a->a, w);
    if (b->k == K_CONCAT) { // right-nested -> try merge a with b->a
      Expr *x = a, *y = b->a;
      if (x->k == K_EXTRACT && y->k == K_EXTRACT && x->a == y->a && y->val + y->w == x->val) return concat(extract(x->a, y->val, x->w + y->w), b->b);
      if (isC(x) && isC(y)) return concat(C((x->val << y->w) | y->val, x->w + y->w), b->b);
    }
    if (a->k == K_CONCAT) return concat(a->a, concat(a->b, b));
    return mk(K_CONCAT, w, a, b);
  }
  enum { BIG = 2000 };
  std::unordered_map<u64, Expr *> extractMemo; // shared subterms: without it the walk below is one over the tree, not the graph
  Expr *extract(Expr *e, unsigned off, unsigned w) {
    if (off == 0 && w == e->w) return e;
    if (isC(e)) return C(e->val >> off, w);
    if (e->size < 64) return extract1(e, off, w);
    u64 key = (u64)e->id << 16 | off << 8 | w; auto it = extractMemo.find(key); if (it != extractMemo.end()) return it->second;
    Expr *r = extract1(e, off, w); extractMemo[key] = r; return r;
  }
  Expr *extract1(Expr *e, unsigned off, unsigned w) {
    u64 mm = mask(w) << off;
    if (((e->kz | e->ko) & mm) == mm) return C((e->ko >> off) & mask(w), w);
    switch (e->k) {
      case K_EXTRACT: return extract(e->a, e->val + off, w);
      case K_CONCAT: {
        unsigned lw = e->b->w;
        if (off >= lw) return extract(e->a, off - lw, w);
        if (off + w <= lw) return extract(e->b, off, w);
        return concat(extract(e->a, 0, off + w - lw), extract(e->b, off, lw - off)); }
      case K_ZEXT: {
        unsigned lw = e->a->w;
        if (off >= lw) return C(0, w);
        if (off + w <= lw) return extract(e->a, off, w);
        return zext(extract(e->a, off, lw - off), w); }
      case K_SEXT: {
        unsigned lw = e->a->w;
        if (off + w <= lw) return extract(e->a, off, w);
        if (off >= lw) return sext(extract(e->a, lw - 1, 1), w);
        return sext(extract(e->a, off, lw - off), w); }
      case K_ITE: if ((isC(e->b) || isC(e->c)) || e->size < 64) return ite(e->a, extract(e->b, off, w), extract(e->c, off, w)); break;
      case K_AND: case K_OR: case K_XOR: if (e->size >= BIG) break; return bin(e->k, extract(e->a, off, w), extract(e->b, off, w));
      case K_NOT: if (e->size >= BIG) break; return not_(extract(e->a, off, w));
      case K_ADD: case K_SUB: case K_MUL: if (off == 0 && e->size < BIG) return bin(e->k, extract(e->a, 0, w), extract(e->b, 0, w)); break;
      default: break;
    }
    return mk(K_EXTRACT, w, e, nullptr, nullptr, off);
  }
  Expr *zext(Expr *e, unsigned w) {
    if (w == e->w) return e;
    if (isC(e)) return C(e->val, w);
    if (e->k == K_ZEXT) return zext(e->a, w);
    if (e->k == K_EXTRACT && e->val == 0 && e->a->umax <= mask(e->w)) return w == e->a->w ? e->a : w > e->a->w ? zext(e->a, w) : extract(e->a, 0, w);
    if (e->k == K_ITE && isC(e->b) && isC(e->c) && !(e->b->val == 1 && e->c->val == 0)) return ite(e->a, C(e->b->val, w), C(e->c->val, w));
    if (e->size < 400) {
      u64 m = mask(e->w);
      if (e->k == K_ADD) { u64 s = e->a->umax + e->b->umax; if (s >= e->a->umax && s <= m) return add(zext(e->a, w), zext(e->b, w)); if (isC(e->b)) { u64 k = (0 - e->b->val) & m; if (e->a->umin >= k) return add(zext(e->a, w), C(0 - k, w)); } }
      if (e->k == K_SUB && e->a->umin >= e->b->umax) return sub(zext(e->a, w), zext(e->b, w));
      if (e->k == K_MUL && isC(e->b) && (unsigned __int128)e->a->umax * e->b->val <= m) return mul(zext(e->a, w), C(e->b->val, w));
    }
    return mk(K_ZEXT, w, e);
  }
  Expr *sext(Expr *e, unsigned w) {
    if (w == e->w) return e;
    if (isC(e)) return C((u64)sx(e->val, e->w), w);
    if (e->k == K_SEXT) return sext(e->a, w);
    if (e->k == K_ZEXT) return zext(e->a, w);
    if ((e->kz >> (e->w - 1)) & 1) return zext(e, w);
    if (e->k == K_ITE && isC(e->b) && isC(e->c)) return ite(e->a, sext(e->b, w), sext(e->c, w));
    return mk(K_SEXT, w, e);
  }
  Expr *un(EK k, Expr *a, unsigned w, u64 val = 0) { if (isC(a)) return fold(k, w, a, nullptr, nullptr, val);
    if (k == K_FPCAST && a->k == K_FPCAST && a->w == 64 && a->a->w == 32 && w == 32) return a->a;
    return mk(k, w, a, nullptr, nullptr, val); }

  // ---- evaluation under a model
  u64 eval(Expr *e, const std::vector<u64> &model) { ++epoch; return ev(e, model); }
  u64 ev(Expr *e, const std::vector<u64> &m) {
    if (e->k == K_CONST) return e->val;
    if (e->k == K_VAR) return (e->val < m.size() ? m[e->val] : vars[e->val].dflt) & mask(e->w);
    if (e->evEpoch == epoch) return e->evVal;
    u64 r;
    if (e->k == K_ITE) { r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); }
    else { u64 a = ev(e->a, m), b = e->b ? ev(e->b, m) : 0, c = e->c ? ev(e->c, m) : 0;
      r = evalOp(e->k, e->w, e->val, a, e->a->w, b, e->b ? e->b->w : 0, c); }
    e->evEpoch = epoch; e->evVal = r; return r;
  }
  void collectVars(Expr *e, std::vector<u32> &out, std::unordered_map<u32, bool> &seen) {
    if (seen[e->id]) return; seen[e->id] = true;
    if (e->k == K_VAR) { out.push_back((u32)e->val); return; }
    for (Expr *x : {e->a, e->b, e->c}) if (x) collectVars(x, out, seen);
  }
  std::string str(Expr *e, int depth = 6) {
    if (e->k == K_CONST) { char b[40]; snprintf(b, sizeof b, "%llu:%u", (unsigned long long)e->val, e->w); return b; }
    if (e->k == K_VAR) return vars[e->val].name;
    if (!depth) return "...";
    std::string s = std::string("(") + EKN[e->k] + (e->k == K_EXTRACT ? "@" + std::to_string(e->val) + "+" + std::to_string(e->w) : "");
    for (Expr *x : {e->a, e->b, e->c}) if (x) s += " " + str(x, depth - 1);
    return s + ")";
  }
};
