// BitSet
#include "hx.h"
#include "library/Java/Util/BitSet/BitSet.hpp"
using namespace Java::Util;
#define IOOB IndexOutOfBoundsException
typedef unsigned long u64;
// the reference: 256 bits
struct RB { u64 w[4]; RB() { for (int i = 0; i < 4; i++) w[i] = 0; } int used() const { int n = 4; while (n > 0 && w[n - 1] == 0) n--; return n; } bool bit(int i) const { return (w[i >> 6] >> (i & 63)) & 1; } };
static u64 low(int n) { return n >= 64 ? ~0UL : (1UL << n) - 1; }
// bits [a, e) of word k; a, e concrete word positions, symbolic offsets
static u64 span(int a, int e, int k) { long lo = (long)a - 64 * k, hi = (long)e - 64 * k; u64 up = (u64)symx_ite(hi >= 64, -1L, symx_ite(hi <= 0, 0, (long)((1UL << (hi & 63)) - 1))); u64 dn = (u64)symx_ite(lo >= 64, -1L, symx_ite(lo <= 0, 0, (long)((1UL << (lo & 63)) - 1))); return up & ~dn; }
// a set with n words of arbitrary bits, exact or with spare zero words
static BitSet mk(RB &m, int max) { int n = sym_choice("words", max + 1); Array<long> a; for (int i = 0; i < n; i++) { m.w[i] = (u64)sym_long("w"); a.push((long)m.w[i]); } return BitSet::valueOf(a); }
static void spare(BitSet &b, const RB &m) { if (sym_choice("spare", 2)) { b.set(230); b.clear(230); (void)m; } }
static void same(const BitSet &b, const RB &m, const char *what) { int n = m.used(); Array<long> a = b.toLongArray(); sym_assert(a.length == n, what); bool ok = true; for (int i = 0; i < n && i < a.length; i++) ok &= (u64)a[i] == m.w[i]; sym_assert(ok, what); sym_assert(b.isEmpty() == (n == 0) && b.size() >= 64 * n && b.size() % 64 == 0, "isEmpty and size"); }
// the words beyond the last one in use hide nothing
static void later(BitSet &b, RB &m) { b.set(250); m.w[3] |= 1UL << 58; same(b, m, "growing later uncovers nothing"); }
// an index anywhere in [-2, hi]: its word is split, its bit is symbolic
static int gridIndex(const char *name, int hi) { static const int off[] = {0, 1, 33, 63}; int w = sym_choice(name, hi / 64 + 2), o = sym_choice("off", w ? 4 : 1); return w ? (w - 1) * 64 + off[o] : -1; }
static int anyIndex(const char *name, int hi) { int i = sym_int(name); if (i < 0) return i; sym_assume(i <= hi); sym_concrete(i >> 6); return i; }
extern "C" void bs_bit() { sym_quiet(1); NOLEAK(RB m; BitSet b = mk(m, 2); spare(b, m); int i = anyIndex("i", 200), k = sym_choice("api", 6); bool th, r = false; bool old = i >= 0 ? m.bit(i) : false;
  switch (k) { case 0: th = THROWS(IOOB, b.set(i)); break; case 1: th = THROWS(IOOB, b.clear(i)); break; case 2: th = THROWS(IOOB, b.flip(i)); break; case 3: th = THROWS(IOOB, b.set(i, true)); break; case 4: th = THROWS(IOOB, b.set(i, false)); break; default: th = THROWS(IOOB, r = b.get(i)); }
  sym_assert(th == (i < 0), "throws exactly for a negative index"); if (i >= 0) { int k6 = (int)sym_concrete(i >> 6); u64 one = 1UL << (i & 63); if (k == 0 || k == 3) m.w[k6] |= one; else if (k == 1 || k == 4) m.w[k6] &= ~one; else if (k == 2) m.w[k6] ^= one; else sym_assert(r == old, "get is the bit"); sym_reach("in"); } same(b, m, "exactly the named bit changes"); later(b, m)); sym_reach("end"); }
extern "C" void bs_range() { sym_quiet(1); NOLEAK(RB m; BitSet b = mk(m, sym_param("W", 1)); int x = sym_param("full", 0) ? anyIndex("x", 200) : gridIndex("x", 150), y = anyIndex("y", sym_param("hi", 140)), k = sym_choice("api", 5); bool th, bad = (x < 0) | (y < 0) | (x > y);
  switch (k) { case 0: th = THROWS(IOOB, b.set(x, y)); break; case 1: th = THROWS(IOOB, b.clear(x, y)); break; case 2: th = THROWS(IOOB, b.flip(x, y)); break; case 3: th = THROWS(IOOB, b.set(x, y, true)); break; default: th = THROWS(IOOB, b.set(x, y, false)); }
  sym_assert(th == bad, "throws exactly for a bad range"); if (!th) { for (int i = 0; i < 4; i++) { u64 s = span(x, y, i); if (k == 0 || k == 3) m.w[i] |= s; else if (k == 1 || k == 4) m.w[i] &= ~s; else m.w[i] ^= s; } sym_reach("in"); } same(b, m, "exactly the bits in the range change"); later(b, m)); sym_reach("end"); }
extern "C" void bs_getrange() { sym_quiet(1); RB m; int full = sym_param("full", 0); BitSet b = mk(m, sym_param("W", 2)); if (!full) for (int i = 0; i < 4; i++) if (m.w[i]) sym_assume(m.w[i] >> 40 == 1); int x = full ? anyIndex("x", 150) : gridIndex("x", 150), y = anyIndex("y", 150); bool bad = (x < 0) | (y < 0) | (x > y); BitSet r; bool th = THROWS(IOOB, r = b.get(x, y)); sym_assert(th == bad, "get throws exactly for a bad range"); if (!th) { RB e; for (int i = 0; i < 3; i++) { u64 mask = ~0UL; int from = x + 64 * i; int wi = (int)sym_concrete(from >> 6), sh = from & 63; u64 lo = wi < 4 ? (m.w[wi] & span(x, y, wi)) >> sh : 0, hi = wi + 1 < 4 ? (u64)symx_ite(sh == 0, 0, (long)((m.w[wi + 1] & span(x, y, wi + 1)) << ((64 - sh) & 63))) : 0; e.w[i] = (lo | hi) & mask; } same(r, e, "get(range) is the bits of the range, moved to zero"); sym_reach("in"); } same(b, m, "get changes nothing"); sym_reach("end"); }
extern "C" void bs_logic() { NOLEAK(RB x, y; BitSet a = mk(x, 2), b = mk(y, 2); spare(a, x); int k = sym_choice("op", 5); bool meet = false; for (int i = 0; i < 4; i++) meet |= (x.w[i] & y.w[i]) != 0;
  if (k == 0) { a.bitAnd(b); for (int i = 0; i < 4; i++) x.w[i] &= y.w[i]; } else if (k == 1) { a.bitOr(b); for (int i = 0; i < 4; i++) x.w[i] |= y.w[i]; } else if (k == 2) { a.bitXor(b); for (int i = 0; i < 4; i++) x.w[i] ^= y.w[i]; } else if (k == 3) { a.andNot(b); for (int i = 0; i < 4; i++) x.w[i] &= ~y.w[i]; } else sym_assert(a.intersects(b) == meet && b.intersects(a) == meet, "intersects exactly when a bit is in both");
  same(a, x, "the result is the bitwise operation"); later(a, x); same(b, y, "the argument is unchanged")); sym_reach("end"); }
extern "C" void bs_self() { RB x; BitSet a = mk(x, 2); int k = sym_choice("op", 4); if (k == 0) a.bitAnd(a); else if (k == 1) a.bitOr(a); else if (k == 2) { a.bitXor(a); x = RB(); } else { a.andNot(a); x = RB(); } same(a, x, "an operation with itself"); later(a, x); sym_reach("end"); }
extern "C" void bs_equal() { RB x, y; BitSet a = mk(x, 2), b = mk(y, 2); spare(a, x); bool eq = true; for (int i = 0; i < 4; i++) eq &= x.w[i] == y.w[i]; const Object &ob = b; sym_assert((a == b) == eq && a.equals(b) == eq, "equal exactly when the same bits are set"); if (eq) sym_assert(a.hashCode() == b.hashCode(), "equal sets have equal hash codes"); u64 h = 1234; for (int i = 3; i >= 0; i--) h ^= x.w[i] * (i + 1); sym_assert(a.hashCode() == (int)((long)h >> 32 ^ (long)h), "hashCode is that of the set bits"); (void)ob; sym_reach("end"); }
// next/previous: r is right when no j between contradicts it
extern "C" void bs_scan() { sym_quiet(1); RB m; BitSet b = mk(m, 2); int i = anyIndex("i", 180), k = sym_choice("api", 4), j = sym_range("j", 0, 255), r = 0; bool th, fwd = k < 2, set = k == 0 || k == 2; if (k == 0) th = THROWS(IOOB, r = b.nextSetBit(i)); else if (k == 1) th = THROWS(IOOB, r = b.nextClearBit(i)); else if (k == 2) th = THROWS(IOOB, r = b.previousSetBit(i)); else th = THROWS(IOOB, r = b.previousClearBit(i));
  sym_assert(th == (fwd ? i < 0 : i < -1), "throws exactly for a negative start"); if (!th) { sym_concrete(j >> 6); bool hit = m.bit(j) == set; bool none = r == -1; sym_assert(r >= -1 && r < 256 && (none || (fwd ? r >= i : r <= i)), "the index lies in the searched direction"); if (r >= 0) { sym_concrete(r >> 6); sym_assert(m.bit(r) == set, "the bit found is of the searched kind"); } sym_assert(!(hit && (fwd ? (j >= i && (none || j < r)) : (j <= i && j > r))), "no nearer bit is of the searched kind"); sym_reach("in"); } same(b, m, "scanning changes nothing"); sym_reach("end"); }
extern "C" void bs_length() { RB m; BitSet b = mk(m, 2); int n = b.length(), j = sym_range("j", 0, 255); if (n > 0) { sym_concrete((n - 1) >> 6); sym_assert(n <= 256 && m.bit(n - 1), "the highest set bit is at length - 1"); } sym_concrete(j >> 6); sym_assert(!(m.bit(j) && j >= n), "no bit is set at or beyond length"); sym_reach("end"); }
extern "C" void bs_cardinality() { BitSet b; int n = 0; for (int i = 0; i < 6; i++) { int at = i * 37 % 130; if (sym_bool("b")) { b.set(at); n++; } } sym_assert(b.cardinality() == n, "cardinality counts the set bits"); sym_reach("end"); }
extern "C" void bs_copy() { NOLEAK(RB m; int k = sym_choice("how", 4); BitSet a = k < 2 ? mk(m, 2) : BitSet(); if (k >= 2) for (int i = 0; i < 3; i++) if (sym_choice("w", 2)) { a.set(i * 64 + 9); m.w[i] = 1UL << 9; } if (k == 0) { BitSet c(a); same(c, m, "copy"); c.flip(0, 70); } else if (k == 1) { BitSet c = a.clone(); same(c, m, "clone"); c.clear(); } else if (k == 2) { BitSet c; c.set(3); if (sym_choice("wide", 2)) c.set(190); c.toString(); c = a; same(c, m, "assignment"); c.toString(); c = c; same(c, m, "assignment to itself"); c.toString(); c.set(5, 9); } else { a.toString(); BitSet c = a; c.toString(); a.toString(); same(c, m, "copy after toString"); }
    same(a, m, "the original is unchanged"); a.clear(); same(a, RB(), "cleared")); sym_reach("end"); }
extern "C" void bs_bytes() { int n = sym_choice("n", 11); Array<byte> in; RB m; for (int i = 0; i < n; i++) { unsigned char c = sym_byte("b"); in.push(c); m.w[i / 8] |= (u64)c << (8 * (i % 8)); } BitSet b = BitSet::valueOf(in); same(b, m, "valueOf(bytes) sets the little-endian bits"); Array<byte> out = b.toByteArray(); bool ok = out.length <= n; for (int i = 0; i < n; i++) ok &= i < out.length ? out[i] == in[i] : in[i] == 0; sym_assert(ok && (out.length == 0 || out[out.length - 1] != 0), "toByteArray gives the bytes without trailing zeros"); sym_reach("end"); }
extern "C" void bs_longs() { int n = sym_choice("n", 4); Array<long> in; RB m; for (int i = 0; i < n; i++) { long c = sym_long("w"); in.push(c); m.w[i] = (u64)c; } same(BitSet::valueOf(in), m, "valueOf(longs)"); sym_reach("end"); }
extern "C" void bs_tostring() { BitSet b; char e[64]; int n = 0; e[n++] = '{'; const int at[] = {0, 7, 63, 64, 129}; bool first = true; for (int i = 0; i < 5; i++) if (sym_choice("in", 2)) { b.set(at[i]); if (!first) { e[n++] = ','; e[n++] = ' '; } first = false; int v = at[i]; if (v >= 100) e[n++] = '0' + v / 100; if (v >= 10) e[n++] = '0' + v / 10 % 10; e[n++] = '0' + v % 10; } e[n++] = '}'; sym_assert(isText(b.toString(), e, n), "toString lists the indices"); sym_assert(isText(b.toString(), e, n), "again"); sym_reach("end"); }
extern "C" void bs_construct() { sym_quiet(1); int n = pin(sym_int("n"), 0, 1); sym_assume(n <= 200); if (n > 0) sym_concrete((n - 1) >> 6); bool th = false; try { BitSet b(n); same(b, RB(), "a new set is empty"); sym_assert(b.size() == (n + 63) / 64 * 64 && b.length() == 0, "size"); b.set(70); sym_assert(b.get(70) && !b.get(69) && b.length() == 71, "grows"); } catch (NegativeArraySizeException &) { th = true; } sym_assert(th == (n < 0), "throws exactly for a negative size"); BitSet d; sym_assert(d.size() == 64 && d.isEmpty(), "default size"); sym_reach("end"); }
extern "C" void bs_history() { RB m; BitSet b = mk(m, 1); int N = sym_param("N", 2); for (int s = 0; s < N; s++) { static const int at[] = {0, 5, 63, 64, 129}; int op = sym_choice("op", 4); int i = at[sym_choice("i", 5)], k = i >> 6; if (op == 0) { b.set(i); m.w[k] |= 1UL << (i & 63); } else if (op == 1) { b.clear(i); m.w[k] &= ~(1UL << (i & 63)); } else if (op == 2) { b.flip(i, 131); for (int w = 0; w < 4; w++) m.w[w] ^= span(i, 131, w); } else { b.clear(0, i); for (int w = 0; w < 4; w++) m.w[w] &= ~span(0, i, w); } } same(b, m, "after every operation the set holds what the operations define"); sym_reach("end"); }
