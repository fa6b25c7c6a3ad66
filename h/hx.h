// Shared helpers for the harnesses.
#pragma once
#include "library.hpp"
#include "library/Java/Lang/ArithmeticException/ArithmeticException.hpp"
#include "sym.h"
#include <cstring>
#include <cstdlib>
#include <climits>
using namespace Java::Lang;
// evaluates code; true when it threw X
#define THROWS(X, code) ([&]() -> bool { try { code; } catch (X &) { return true; } return false; }())
#define THROWSANY(code) ([&]() -> bool { try { code; } catch (...) { return true; } return false; }())
#define NOTHROW(code) ([&]() -> bool { try { code; } catch (...) { return false; } return true; }())
struct Text { char b[72]; int n; };
// text of length n (n concrete), every byte any non-zero value
static inline void anyText(Text &t, const char *name, int n) { t.n = n; for (int i = 0; i < n; i++) { t.b[i] = (char)sym_byte(name); sym_assume(t.b[i] != 0); } t.b[n] = 0; }
// text of any length 0..max
static inline void anyTextUpTo(Text &t, const char *name, int max) { anyText(t, name, sym_choice(name, max + 1)); }
static inline void textFrom(Text &t, const char *name, int n, char lo, char hi) { t.n = n; for (int i = 0; i < n; i++) t.b[i] = (char)sym_range(name, lo, hi); t.b[n] = 0; }
static inline bool sameBytes(const char *a, const char *b, int n) { return memcmp(a, b, n) == 0; }
// s holds exactly the n bytes at b
static inline bool isText(const String &s, const char *b, int n) { if (s.length() != n) return false; const char *p = s.toCharPointer(); return sameBytes(p, b, n) && p[n] == 0; }
static inline bool isText(const String &s, const Text &t) { return isText(s, t.b, t.n); }
static inline bool isText(const String &s, const char *lit) { return isText(s, lit, (int)strlen(lit)); }
// any lower-case hexadecimal digit and its value
static inline char hexDigit(const char *name, int &d) { unsigned char c = sym_byte(name); sym_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f'))); d = (int)symx_ite(c <= '9', c - '0', c - 'a' + 10); return (char)c; }
// any n decimal digits (n <= 19): the text at p, the value returned
static inline unsigned long decDigits(const char *name, char *p, int n) { unsigned long lim = 1; for (int i = 0; i < n; i++) lim *= 10; unsigned long v = (unsigned long)sym_long(name); sym_assume(v < lim); symx_digits(v, p, n, 10); for (int i = 0; i < n; i++) p[i] += '0'; return v; }
// the code under test run by f leaves no heap block behind
template <class F> static inline void noLeak(F f) { long b = sym_heap_live(); f(); sym_assert(sym_heap_live() == b, "no memory is left allocated"); }
#define NOLEAK(...) noLeak([&]() { __VA_ARGS__; })
// position of the first / last match of p (length m) in t (length n) that starts in [from, n-m] (last: in [0, from]); no forks
static inline int matchAt(const char *t, const char *p, int m) { int r = 1; for (int i = 0; i < m; i++) r &= t[i] == p[i]; return r; }
static inline int firstMatch(const char *t, int n, const char *p, int m, int from) { int r = -1; for (int i = n - m; i >= 0; i--) r = (int)symx_ite(matchAt(t + i, p, m) & (i >= from), i, r); return r; }
static inline int lastMatch(const char *t, int n, const char *p, int m, int from) { int r = -1; for (int i = 0; i + m <= n; i++) r = (int)symx_ite(matchAt(t + i, p, m) & (i <= from), i, r); return r; }
// x itself; split into one case per value inside [lo, hi], one case for everything below and one for everything above
static inline int pin(int x, int lo, int hi) { if (x < lo) return x; if (x > hi) return x; return (int)sym_concrete(x); }
// runs code once before a balance is taken, so that lazily initialised statics of the implementation are not counted
template <class F> static inline void sym_warm(F f) { f(); }
