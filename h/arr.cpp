// Array and Arrays
#include "hx.h"
#include "library/Java/Util/Arrays/Arrays.hpp"
using namespace Java::Util;
template <class E> struct A { static E any(const char *n) { return (E)sym_int(n); } };
template <> struct A<long> { static long any(const char *n) { return sym_long(n); } };
template <> struct A<boolean> { static boolean any(const char *n) { return sym_bool(n); } };
template <> struct A<double> { static double any(const char *n) { double d = sym_double(n); sym_assume(d == d); return d; } };
template <> struct A<float> { static float any(const char *n) { return (float)(short)sym_int(n); } };
template <class E> static Array<E> mk(E *v, int n, const char *name) { Array<E> a; for (int i = 0; i < n; i++) { v[i] = A<E>::any(name); a.push(v[i]); } return a; }
template <class E> static bool holds(const Array<E> &a, const E *v, int n) { bool ok = a.length == n; for (int i = 0; i < n && i < a.length; i++) ok &= a[i] == v[i]; return ok; }
#define TEACH(k, F) switch (k) { case 0: F<int>(); break; case 1: F<char>(); break; case 2: F<byte>(); break; case 3: F<short>(); break; case 4: F<long>(); break; case 5: F<double>(); break; default: F<float>(); }
// ---- Array<E>
template <class E> static void arrBasic() { sym_quiet(1); E v[8], x = A<E>::any("x"); int n = sym_choice("n", 4), k = sym_choice("how", 5); NOLEAK(Array<E> a = mk(v, n, "v"); int at = pin(sym_int("at"), 0, n); bool bad = (at < 0) | (at >= n); bool th = false; const Array<E> &ca = a;
  if (k == 0) { E r = x; try { r = a.get(at); } catch (std::out_of_range &) { th = true; } sym_assert(th == bad, "get throws exactly for an index outside the array"); if (!th) sym_assert(r == v[(int)sym_concrete(at)], "get"); }
  else if (k == 1) { try { a[at] = x; } catch (std::out_of_range &) { th = true; } sym_assert(th == bad, "an index outside the array throws"); if (!th) { v[(int)sym_concrete(at)] = x; sym_reach("in"); } }
  else if (k == 2) { E r = x; try { r = ca[at]; } catch (std::out_of_range &) { th = true; } sym_assert(th == bad, "an index outside a constant array throws"); if (!th) sym_assert(r == v[(int)sym_concrete(at)], "element"); }
  else if (k == 3) { Array<E> r = (a += {x, (E)5}); v[n++] = x; v[n++] = (E)5; sym_assert(holds(r, v, n), "+= returns the array"); }
  else { Array<E> b = a; b.push(x); if (n) b[0] = (E)1; Array<E> c; c = a; sym_assert(holds(c, v, n), "assignment copies"); Array<E> d{x, x}; sym_assert(d.length == 2 && d[0] == x && d[1] == x, "built from a list"); }
  sym_assert(holds(a, v, n), "only the named element changes"); int i = 0; bool ok = true; for (E e : a) { ok &= i < n && e == v[i]; i++; } sym_assert(ok && i == n, "iteration visits the elements in order")); sym_reach("end"); }
extern "C" void arr_basic() { int k = sym_choice("type", 7); TEACH(k, arrBasic); }
extern "C" void arr_sized() { sym_quiet(1); int n = sym_choice("n", 5) - 1; bool th = false; try { Array<long> a((long)n); sym_assert(a.length == n, "length"); bool ok = true; for (int i = 0; i < n; i++) ok &= a[i] == 0; sym_assert(ok, "elements start at zero"); a.push(3); sym_assert(a.length == n + 1 && a[n] == 3, "push"); } catch (std::length_error &) { th = true; } sym_assert(th == (n < 0), "a negative size is refused"); sym_reach("end"); }
extern "C" void arr_texts() { Text s; anyTextUpTo(s, "s", 2); char *p[] = {s.b, (char *)"xy", nullptr}; Array<String> a(p); sym_assert(a.length == 2 && isText(a[0], s.b, s.n) && a[1] == String("xy"), "one element per text"); char *q[] = {nullptr}; Array<String> b(q); sym_assert(b.length == 0, "no texts"); sym_reach("end"); }
// ---- sorting: the result is ordered and a permutation (counted for an arbitrary value)
template <class E> static void sortOne() { E v[8], w[8]; int n = sym_choice("n", sym_param("N", 4) + 1), api = sym_choice("api", 5); for (int i = 0; i < n; i++) w[i] = v[i] = A<E>::any("v"); E probe = A<E>::any("probe"); int from = 0, to = n - 1; if (api == 1 || api == 3) { from = sym_choice("from", n ? n : 1); to = from + sym_choice("len", n - from + 1) - 1; }
  E *h = new E[n ? n : 1]; for (int i = 0; i < n; i++) h[i] = v[i]; Array<E> a; for (int i = 0; i < n; i++) a.push(v[i]);
  if (api == 0) Arrays::sort(h, n); else if (api == 1) Arrays::sort(h, from, to); else if (api == 2) Arrays::sort(&a, n); else if (api == 3) Arrays::sort(&a, from, to); else Arrays::sort(h, 0, n - 1);
  for (int i = 0; i < n; i++) v[i] = api == 2 || api == 3 ? a[i] : h[i]; delete[] h; bool ok = true, same = true; int c = 0, d = 0; for (int i = from; i < to; i++) ok &= v[i] <= v[i + 1]; for (int i = 0; i < n; i++) { if (i < from || i > to) same &= v[i] == w[i]; c += v[i] == probe; d += w[i] == probe; } sym_assert(ok, "the range is ascending"); sym_assert(c == d, "the same elements, each as often"); sym_assert(same, "elements outside the range stay"); sym_reach("end"); }
extern "C" void arr_sort_int() { sortOne<int>(); }
extern "C" void arr_sort_long() { sortOne<long>(); }
extern "C" void arr_sort_char() { sortOne<char>(); }
extern "C" void arr_sort_double() { sortOne<double>(); }
extern "C" void arr_sort_other() { int k = sym_choice("type", 3), n = 3; if (k == 0) { byte b[3]; for (int i = 0; i < n; i++) b[i] = A<byte>::any("b"); Arrays::sort(b, n); sym_assert(b[0] <= b[1] && b[1] <= b[2], "bytes"); } else if (k == 1) { short s[3]; for (int i = 0; i < n; i++) s[i] = A<short>::any("s"); int api = sym_choice("api", 3); if (api == 0) Arrays::sortByArraySize(s, n); else if (api == 1) Arrays::sortByIndexArraySize(s, 0, 2, (short)3); else Arrays::sort(s, 0, 2); sym_assert(s[0] <= s[1] && s[1] <= s[2], "shorts"); } else { float f[3]; for (int i = 0; i < n; i++) f[i] = A<float>::any("f"); if (sym_choice("api", 2)) Arrays::sortByIndex(f, 0, 2); else Arrays::sort(f, n); sym_assert(f[0] <= f[1] && f[1] <= f[2], "floats"); } sym_reach("end"); }
extern "C" void arr_sort_strings() { Integer a[3] = {Integer(sym_int("a")), Integer(sym_int("b")), Integer(sym_int("c"))}; Arrays::sort(a, 3); sym_assert(a[0].intValue() <= a[1].intValue() && a[1].intValue() <= a[2].intValue(), "objects"); sym_reach("end"); }
// ---- binary search in ascending ranges
template <class E> static void findOne() { E v[8]; int n = sym_choice("n", sym_param("N", 5) + 1), api = sym_choice("api", 5); for (int i = 0; i < n; i++) v[i] = A<E>::any("v"); int from = 0, to = n - 1; if (api == 1 || api == 3 || api == 4) { from = sym_choice("from", n ? n : 1); to = from + sym_choice("len", n - from + 1) - 1; } for (int i = from; i < to; i++) sym_assume(v[i] <= v[i + 1]); E key = A<E>::any("key");
  E *h = new E[n ? n : 1]; for (int i = 0; i < n; i++) h[i] = v[i]; Array<E> a; for (int i = 0; i < n; i++) a.push(v[i]); int r;
  if (api == 0) r = Arrays::binarySearchByKey(h, key, n); else if (api == 1) r = Arrays::binarySearchByIndex(h, from, to, key); else if (api == 2) r = Arrays::binarySearch(a, key, n); else if (api == 3) r = Arrays::binarySearch(a, from, to, key); else r = Arrays::binarySearch(h, from, to, key); delete[] h;
  int e = -1; for (int i = to; i >= from; i--) e = (int)symx_ite(v[i] == key, i, e); sym_assert(r == e, "the first position of the key in the range, -1 when it is absent"); sym_reach("end"); }
extern "C" void arr_search_int() { findOne<int>(); }
extern "C" void arr_search_long() { findOne<long>(); }
extern "C" void arr_search_small() { int k = sym_choice("type", 3); if (k == 0) findOne<char>(); else if (k == 1) findOne<byte>(); else findOne<short>(); }
extern "C" void arr_search_bad() { sym_quiet(1); int v[3] = {1, 2, 3}; int from = sym_int("from"), to = sym_int("to"); sym_assume((from < 0) | (to < 0) | (to < from)); int r = sym_choice("api", 2) ? Arrays::binarySearchByIndex(v, from, to, 2) : Arrays::binarySearch(Array<int>{1, 2, 3}, from, to, 2); sym_assert(r == -1, "nothing is found in a bad range"); sym_reach("end"); }
// ---- copies, fill, equality, hash code
template <class E> static void copyOne() { sym_quiet(1); E v[8]; int n = sym_choice("n", 4); Array<E> a = mk(v, n, "v"); if (sym_choice("api", 2)) { int m = pin(sym_int("m"), 0, 5); sym_assume(m <= 5); Array<E> r = Arrays::copyOf(a, m); int len = m < 0 ? 0 : (int)sym_concrete(m); bool ok = r.length == len; for (int i = 0; i < len && i < r.length; i++) ok &= i < n ? r[i] == v[i] : r[i] == (E)0; sym_assert(ok, "copyOf is the prefix padded with zeros"); }
  else { int f = pin(sym_int("from"), 0, n), t = pin(sym_int("to"), 0, n); bool bad = (f < 0) | (t < f) | (t > n); Array<E> r = Arrays::copyOfRange(a, f, t); if (bad) sym_assert(r.length == 0, "a bad range gives nothing"); else { int x = (int)sym_concrete(f), y = (int)sym_concrete(t); bool ok = r.length == y - x; for (int i = x; i < y && i - x < r.length; i++) ok &= r[i - x] == v[i]; sym_assert(ok, "copyOfRange is the range"); sym_reach("in"); } } sym_assert(holds(a, v, n), "the original is unchanged"); sym_reach("end"); }
extern "C" void arr_copy() { int k = sym_choice("type", 7); TEACH(k, copyOne); }
template <class E> static void fillOne() { sym_quiet(1); E v[8], x = A<E>::any("x"); int n = sym_choice("n", 4); Array<E> a = mk(v, n, "v"); if (sym_choice("api", 2)) { Arrays::fill(&a, x); for (int i = 0; i < n; i++) v[i] = x; } else { int f = pin(sym_int("from"), 0, n), t = pin(sym_int("to"), 0, n); bool bad = (f < 0) | (t < f) | (t >= n); Arrays::fillByIndex(&a, f, t, x); if (!bad) { int p = (int)sym_concrete(f), q = (int)sym_concrete(t); for (int i = p; i <= q; i++) v[i] = x; sym_reach("in"); } } sym_assert(holds(a, v, n), "exactly the range is filled"); sym_reach("end"); }
extern "C" void arr_fill() { int k = sym_choice("type", 7); TEACH(k, fillOne); }
template <class E> static void equalOne() { E v[8], w[8]; int n = sym_choice("n", 4), m = sym_choice("m", 4); Array<E> a = mk(v, n, "v"), b = mk(w, m, "w"); bool eq = n == m; for (int i = 0; i < n && i < m; i++) eq &= v[i] == w[i]; sym_assert(Arrays::equals(a, b) == eq, "equal exactly when all elements are"); sym_reach("end"); }
extern "C" void arr_equal() { int k = sym_choice("type", 7); TEACH(k, equalOne); }
template <class E> static unsigned hc(E e) { return (unsigned)(int)e; }
static unsigned hc(long e) { return (unsigned)(int)(e ^ (long)((unsigned long)e >> 32)); }
static unsigned hc(boolean e) { return e ? 1231 : 1237; }
template <class E> static void hashOne() { E v[8]; int n = sym_choice("n", 4); Array<E> a = mk(v, n, "v"); unsigned h = n ? 1 : 0; for (int i = 0; i < n; i++) h = 31 * h + hc(v[i]); sym_assert((unsigned)Arrays::hashCode(a) == h, "hashCode is the polynomial of the elements"); sym_reach("end"); }
extern "C" void arr_hash() { int k = sym_choice("type", 6); switch (k) { case 0: hashOne<int>(); break; case 1: hashOne<char>(); break; case 2: hashOne<byte>(); break; case 3: hashOne<short>(); break; case 4: hashOne<long>(); break; default: hashOne<boolean>(); } }
extern "C" void arr_aslist() { int x = sym_int("x"), y = sym_int("y"); ArrayList<int> l = Arrays::asList({x, y, 3}); sym_assert(l.size() == 3 && l.get(0) == x && l.get(1) == y && l.get(2) == 3, "asList holds the elements"); sym_reach("end"); }
// longer arrays: every order of N elements; each carries its own mark
struct Marked { unsigned char k; int id; Marked(unsigned char k = 0, int id = -1) : k(k), id(id) {} bool operator<(const Marked &o) const { return k < o.k; } bool operator>(const Marked &o) const { return k > o.k; } bool operator<=(const Marked &o) const { return k <= o.k; } bool operator>=(const Marked &o) const { return k >= o.k; } bool operator==(const Marked &o) const { return k == o.k; } bool operator!=(const Marked &o) const { return k != o.k; } };
extern "C" void arr_sort_orders() { Marked v[10], w[10]; int n = sym_param("N", 6), from = sym_choice("from", 2), to = n - 1 - sym_choice("less", 2); for (int i = 0; i < n; i++) w[i] = v[i] = Marked(sym_byte("v"), i); if (sym_param("api", 0)) { Array<Marked> a; for (int i = 0; i < n; i++) a.push(v[i]); Arrays::sort(&a, from, to); for (int i = 0; i < n; i++) v[i] = a[i]; } else Arrays::sort(v, from, to);
  bool ok = true, once = true, in[10] = {}; for (int i = from; i < to; i++) ok &= v[i].k <= v[i + 1].k; for (int i = 0; i < n; i++) { int id = v[i].id; bool g = id >= 0 && id < n && !in[id]; once &= g; if (g) { in[id] = true; once &= v[i].k == w[id].k; if (i < from || i > to) once &= id == i; } } sym_assert(ok, "the range is ascending"); sym_assert(once, "every element once, those outside the range in place"); sym_reach("end"); }
