// java.util.Random: the documented generator, seen only through its results
#include "hx.h"
#include <thread>
#include <cmath>
#include "library/Java/Util/Random/Random.hpp"
#include "library/Java/Lang/InterruptedException/InterruptedException.hpp"
using namespace Java::Util;
static const unsigned long MUL = 0x5DEECE66DUL, MASK48 = (1UL << 48) - 1;
struct Ref { unsigned long s; void seed(long v) { s = ((unsigned long)v ^ MUL) & MASK48; } int next(int bits) { s = (s * MUL + 11) & MASK48; return (int)(s >> (48 - bits)); } };
struct Open : Random { Open() {} Open(long s) : Random(s) {} int bits(int n) { return next(n); } };
static long anySeed(Ref &r) { long s = sym_long("seed"); r.seed(s); return s; }
extern "C" void rnd_next() { Ref e; Open r(anySeed(e)); int b = 1 + sym_choice("bits", 32); sym_assert(r.bits(b) == e.next(b), "first"); sym_assert(r.bits(b) == e.next(b), "second"); sym_reach("end"); }
static void one(Random &r, Ref &e, int k) {
  if (k == 0) sym_assert(r.nextInt() == e.next(32), "nextInt"); else if (k == 1) { long a = e.next(32); a = (long)((unsigned long)a << 32) + e.next(32); sym_assert(r.nextLong() == a, "nextLong"); }
  else if (k == 2) sym_assert(r.nextBoolean() == (e.next(1) != 0), "nextBoolean"); else if (k == 3) { float f = r.nextFloat(); int a = e.next(24); sym_assert(f == a / 16777216.0f, "nextFloat"); }
  else if (k == 4) { double d = r.nextDouble(); long a = e.next(26); a = (a << 27) + e.next(27); sym_assert(d == a * 0x1p-53, "nextDouble"); }
  else { int b = k == 5 ? 64 : 1 << 30; sym_assert(r.nextInt(b) == (int)((long)b * e.next(31) >> 31), "nextInt of a power of two"); } }
extern "C" void rnd_history() { Ref e; Random r(anySeed(e)); int n = sym_param("N", 3); for (int i = 0; i < n; i++) one(r, e, sym_choice("op", 7)); sym_reach("end"); }
extern "C" void rnd_setseed() { Random r(5); for (int i = sym_choice("before", 3); i > 0; i--) r.nextInt(); Ref e; r.setSeed(anySeed(e)); one(r, e, sym_choice("op", 7)); Random c(r); one(c, e, 0); sym_reach("end"); }
extern "C" void rnd_bound() { static const int B[] = {1, 2, 3, 7, 10, 62, 100, 1000, 1 << 20, (1 << 20) + 1, 1 << 30, (1 << 30) + 1, 0x7fffffff, 0x55555555}; Ref e; Random r(anySeed(e)); int b = B[sym_choice("bound", 14)]; int u = e.next(31), v = u % b; bool keep = (long)u - v + (b - 1) <= INT_MAX; 
  if ((b & (b - 1)) == 0) v = (int)((long)b * u >> 31); else if (!keep) { u = e.next(31); v = u % b; sym_assume((long)u - v + (b - 1) <= INT_MAX); } int g = r.nextInt(b); sym_assert(g >= 0 && g < b, "in range"); sym_assert(g == v, "the documented value"); sym_assert(r.nextInt() == e.next(32), "no draw more"); sym_reach("end"); }
extern "C" void rnd_bound_bad() { Ref e; Random r(anySeed(e)); int b = sym_int("b"); sym_assume(b <= 0); bool t = false; try { r.nextInt(b); } catch (InterruptedException &x) { t = x.getMessage() == String("bound must be positive"); } sym_assert(t, "a bound that is not positive is refused"); sym_assert(r.nextInt() == e.next(32), "nothing is drawn"); sym_reach("end"); }
extern "C" void rnd_unit() { Ref e; Random r(anySeed(e)); if (sym_choice("kind", 2)) { float f = r.nextFloat(); sym_assert(f >= 0.0f && f < 1.0f, "float in [0, 1)"); } else { double d = r.nextDouble(); sym_assert(d >= 0.0 && d < 1.0, "double in [0, 1)"); } sym_reach("end"); }
extern "C" void rnd_bytes() { Ref e; Random r(anySeed(e)); int n = sym_choice("n", 4); Array<byte> a(n); r.nextBytes(&a); sym_assert(a.length == n, "the array keeps its length"); bool ok = true; for (int i = 0; i < n; i++) ok &= a[i] == (byte)(e.next(32) >> 8); sym_assert(ok, "every byte is drawn"); sym_reach("end"); }
extern "C" void rnd_string() { static const char *L = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"; int n = sym_choice("n", 5); Ref e; long s; if (n < 2) s = anySeed(e); else e.seed(s = sym_choice("seed", 8) * 99999999977L); if (n == 4) n = 20; Random r(s); char want[24]; for (int i = 0; i < n; i++) { int u = e.next(31); sym_assume(u < 0x7fffffff / 62 * 62); want[i] = L[u % 62]; } String t = r.nextString(n); sym_assert(t.length() == n, "the length asked for"); const char *q = t.toCharPointer(); int ok = 1; for (int i = 0; i < n; i++) ok &= q[i] == want[i]; sym_assert(ok, "the characters drawn"); sym_assert(r.nextInt() == e.next(32), "one draw per character"); sym_reach("end"); }
extern "C" void rnd_gaussian() { long s = sym_choice("seed", 6) * 77777777L; Random r(s), q(s); double a = r.nextGaussian(), b = r.nextGaussian(); Ref e; e.seed(s); double x, y, z; do { long i = e.next(26), j = e.next(27); x = 2 * (((i << 27) + j) * 0x1p-53) - 1; i = e.next(26); j = e.next(27); y = 2 * (((i << 27) + j) * 0x1p-53) - 1; z = x * x + y * y; } while (z >= 1 || z == 0); double m = sqrt(-2 * log(z) / z); sym_assert(a == x * m && b == y * m, "a pair by the polar method"); sym_assert(r.nextInt() == e.next(32), "two values per pair"); q.nextGaussian(); q.setSeed(s); sym_assert(q.nextGaussian() == a, "setSeed forgets the second value"); sym_reach("end"); }
extern "C" void rnd_fresh() { Open a, b; sym_assert(a.bits(48) != b.bits(48), "two generators made in the same instant differ"); sym_reach("end"); }
// ---- one generator, two threads
extern "C" void rnd_threads() { Ref e; Random r(anySeed(e)); int x = 0, y = 0; int two = sym_choice("two", 2); int x2 = 0; { sym_thread(0); std::thread a([&]() { sym_thread(1); x = r.nextInt(); if (two) x2 = r.nextInt(); }); std::thread b([&]() { sym_thread(2); y = r.nextInt(); }); a.join(); b.join(); }
  int e1 = e.next(32), e2 = e.next(32), e3 = two ? e.next(32) : 0; if (!two) sym_assert((x == e1 && y == e2) || (x == e2 && y == e1), "two threads draw the first two values"); else sym_assert((x == e1 && x2 == e2 && y == e3) || (x == e1 && y == e2 && x2 == e3) || (y == e1 && x == e2 && x2 == e3), "three draws of two threads are the first three values in order"); sym_assert(r.nextInt() == e.next(32), "no value is lost"); sym_reach("end"); }
extern "C" void rnd_fresh_threads() { int x = 0, y = 0; { sym_thread(0); std::thread a([&]() { sym_thread(1); Open r; x = r.bits(48); }); std::thread b([&]() { sym_thread(2); Open r; y = r.bits(48); }); a.join(); b.join(); } sym_assert(x != y, "two generators made at once differ"); sym_reach("end"); }
