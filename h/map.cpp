// HashMap, Set, PriorityQueue
#include "hx.h"
#include "library/Java/Util/HashMap/HashMap.hpp"
#include "library/Java/Util/Set/Set.hpp"
#include "library/Java/Util/PriorityQueue/PriorityQueue.hpp"
using namespace Java::Util;
// the reference: distinct keys with values
struct RM { int k[8], v[8], n; RM() : n(0) {} int at(int x) const { int r = -1; for (int i = 0; i < n; i++) r = (int)symx_ite(k[i] == x, i, r); return (int)sym_concrete(r); } void put(int x, int y) { int i = at(x); if (i < 0) i = n++; k[i] = x; v[i] = y; } void cut(int i) { n--; k[i] = k[n]; v[i] = v[n]; } bool hasV(int y) const { bool r = false; for (int i = 0; i < n; i++) r |= v[i] == y; return r; } };
template <class K> struct Ky; 
template <> struct Ky<String> { static int any(const char *n) { return sym_range(n, 1, 255); } static String of(int v) { char b[2] = {(char)v, 0}; return String(b); } static int of(const String &s) { return s.length() == 1 ? (unsigned char)s.toCharPointer()[0] : -1; } };
template <> struct Ky<Integer> { static int any(const char *n) { return sym_choice(n, 3) * 7 - 1; } static Integer of(int v) { return Integer(v); } static int of(const Integer &s) { return s.intValue(); } };
template <class K> struct HM { typedef HashMap<K, Integer> T; };
template <class K> static void hmSame(HashMap<K, Integer> &h, const RM &m, const char *what) {
  sym_assert(h.size() == m.n && h.isEmpty() == (m.n == 0), what); bool ok = true; for (int i = 0; i < m.n; i++) { K k = Ky<K>::of(m.k[i]); ok &= h.containsKey(k); ok &= h.get(k).intValue() == m.v[i]; } sym_assert(ok, what); }
template <class K> static void hmAll(HashMap<K, Integer> &h, const RM &m, const char *what) { hmSame(h, m, what); int seen = 0; bool ok = true; for (auto &e : h) { int i = m.at(Ky<K>::of(e.first)); ok &= i >= 0 && e.second.intValue() == m.v[i]; seen++; } sym_assert(ok && seen == m.n, "iteration visits every entry once"); }
template <class K> static void hmMake(HashMap<K, Integer> &h, RM &m, int max) { int n = sym_choice("size", max + 1); for (int i = 0; i < n; i++) { int k = Ky<K>::any("k"), v = sym_int("v"); sym_assume(m.at(k) < 0); h.put(Ky<K>::of(k), Integer(v)); m.put(k, v); } }
template <class K> static void hmOp() { NOLEAK(HashMap<K, Integer> h; RM m; hmMake(h, m, sym_param("N", 2)); int x = Ky<K>::any("x"), y = sym_int("y"), z = sym_int("z"), op = sym_choice("op", 12); K k = Ky<K>::of(x); Integer v(y), w(z); int i = m.at(x), old = i >= 0 ? m.v[i] : 0;
  if (op == 0) { h.put(k, v); m.put(x, y); } else if (op == 1) sym_assert(h.get(k).intValue() == old, "get is the value of the key, the default for an absent key"); else if (op == 2) sym_assert(h.getOrDefault(k, v).intValue() == (i >= 0 ? old : y), "getOrDefault"); else if (op == 3) sym_assert(h.containsKey(k) == (i >= 0), "containsKey"); else if (op == 4) sym_assert(h.containsValue(v) == m.hasV(y), "containsValue");
  else if (op == 5) { Integer r = h.putIfAbsent(k, v); sym_assert(r.intValue() == old, "putIfAbsent returns the present value"); if (i < 0) m.put(x, y); } else if (op == 6) { Integer r = h.remove(k); sym_assert(r.intValue() == old, "remove returns the removed value"); if (i >= 0) m.cut(i); }
  else if (op == 7) { bool hit = i >= 0 && old == y; sym_assert(h.remove(k, v) == hit, "remove(key, value) tells whether it removed"); if (hit) m.cut(i); } else if (op == 8) { Integer r = h.replace(k, v); sym_assert(r.intValue() == old, "replace returns the previous value"); if (i >= 0) m.v[i] = y; }
  else if (op == 9) { bool hit = i >= 0 && old == y; sym_assert(h.replace(k, v, w) == hit, "replace(key, old, new) tells whether it replaced"); if (hit) m.v[i] = z; } else if (op == 10) { h.clear(); m.n = 0; } else { h.reinitialize(); m.n = 0; }
  hmAll(h, m, "only the named entry changes")); sym_reach("end"); }
extern "C" void hm_op_string() { hmOp<String>(); }
extern "C" void hm_op_integer() { hmOp<Integer>(); }
template <class K> static void hmTwo() { NOLEAK(HashMap<K, Integer> a, b; RM ma, mb; hmMake(a, ma, sym_param("N", 2)); int k = sym_choice("how", 5), x = Ky<K>::any("x"), y = sym_int("y"); K kx = Ky<K>::of(x); Integer vy(y);
  if (k == 0) { HashMap<K, Integer> c = a; RM mc = ma; c.put(kx, vy); mc.put(x, y); hmAll(c, mc, "a copy changes alone"); } else if (k == 1) { HashMap<K, Integer> c = a.clone(); hmAll(c, ma, "clone"); sym_assert(a.equals(c) && c.equals(a), "a clone is equal"); } else if (k == 2) { HashMap<K, Integer> c; c.put(kx, vy); if (sym_choice("more", 2)) { c.put(Ky<K>::of(1), vy); c.put(Ky<K>::of(2), vy); c.put(Ky<K>::of(9), vy); } c = a; hmAll(c, ma, "assignment"); c = c; hmAll(c, ma, "assignment to itself"); c.clear(); }
  else { hmMake(b, mb, 2); if (k == 3) { bool eq = ma.n == mb.n; for (int i = 0; i < ma.n && eq; i++) { int j = mb.at(ma.k[i]); if (j < 0 || ma.v[i] != mb.v[j]) eq = false; } sym_assert(a.equals(b) == eq, "equals compares the entries"); } else { HashMap<K, Integer> c = b; RM mc = mb; c.putAll(a); for (int i = 0; i < ma.n; i++) mc.put(ma.k[i], ma.v[i]); hmAll(c, mc, "putAll copies every entry over"); } hmSame(b, mb, "the other map keeps its entries"); }
  hmSame(a, ma, "the original keeps its entries")); sym_reach("end"); }
extern "C" void hm_two_string() { hmTwo<String>(); }
extern "C" void hm_two_integer() { hmTwo<Integer>(); }
extern "C" void hm_visit() { NOLEAK(HashMap<String, Integer> h; RM m; hmMake(h, m, 2); int stop = sym_choice("stop", 4), seen = 0; bool ok = true; bool got[4] = {}; auto hit = [&](const String &k, const Integer &v) { int i = m.at(Ky<String>::of(k)); ok &= i >= 0 && !got[i] && v.intValue() == m.v[i]; if (i >= 0) got[i] = true; seen++; };
  if (sym_choice("api", 2)) { h.forEach([&](String k, Integer v) -> boolean { hit(k, v); return seen != stop; }); sym_assert(ok && seen == (stop > 0 && stop < m.n ? stop : m.n), "forEach visits every entry once until the action returns false"); }
  else { Set<Map<String, Integer>::Entry> s = h.entrySet(); sym_assert(s.size() == m.n, "entrySet has one entry per key"); for (Map<String, Integer>::Entry e : s) hit(e.getKey(), e.getValue()); sym_assert(ok && seen == m.n, "entrySet has every entry"); } hmSame(h, m, "visiting changes nothing")); sym_reach("end"); }
extern "C" void hm_entry() { int a = sym_int("a"), b = sym_int("b"), c = sym_int("c"); Map<Integer, Integer>::Entry e((Integer(a)), Integer(b)); sym_assert(e.getKey().intValue() == a && e.getValue().intValue() == b, "an entry holds its key and value"); Integer r = e.setValue(Integer(c)); sym_assert(r.intValue() == b && e.getValue().intValue() == c && e.getKey().intValue() == a, "setValue replaces the value and returns the previous one"); sym_reach("end"); }
// {"k": "v"}: text values are quoted unless they already are an array or object text
extern "C" void hm_tostring() { Text k, v; anyTextUpTo(k, "k", 2); anyTextUpTo(v, "v", 2); char e[32]; int n = 0; int c = sym_choice("type", 3); String r; auto q = [&](const Text &t, bool quote) { if (quote) e[n++] = '"'; memcpy(e + n, t.b, t.n); n += t.n; if (quote) e[n++] = '"'; }; e[n++] = '{';
  if (c == 0) { HashMap<String, String> h; h.put(String(k.b), String(v.b)); r = h.toString(); q(k, true); e[n++] = ':'; e[n++] = ' '; q(v, v.n == 0 || (v.b[0] != '[' && v.b[0] != '{')); } else if (c == 1) { HashMap<Integer, String> h; h.put(Integer(5), String(v.b)); r = h.toString(); e[n++] = '5'; e[n++] = ':'; e[n++] = ' '; q(v, v.n == 0 || (v.b[0] != '[' && v.b[0] != '{')); } else { HashMap<String, String> h; r = h.toString(); } e[n++] = '}'; sym_assert(isText(r, e, n), "toString renders the entry"); sym_reach("end"); }
extern "C" void hm_tostring2() { HashMap<String, String> h; h.put("a", "x"); h.put("b", "[y]"); String r = h.toString(); sym_assert(r == String("{\"a\": \"x\", \"b\": [y]}") || r == String("{\"b\": [y], \"a\": \"x\"}"), "entries are separated by a comma"); sym_reach("end"); }
// a primitive value type: an absent key gives zero
extern "C" void hm_primitive() { HashMap<String, int> h; int v = sym_int("v"), x = Ky<String>::any("x"); h.put("a", v); String k = Ky<String>::of(x); bool in = x == 'a'; int op = sym_choice("op", 5), r = 0; if (op == 0) r = h.get(k); else if (op == 1) r = h.putIfAbsent(k, 3); else if (op == 2) r = h.remove(k); else if (op == 3) r = h.replace(k, 4); else r = h.getOrDefault(k, 0); sym_assert(r == (in ? v : 0), "the value of the key, zero for an absent key"); sym_reach("end"); }
extern "C" void hm_history() { NOLEAK(HashMap<String, Integer> h; RM m; int N = sym_param("N", 3); for (int s = 0; s < N; s++) { int op = sym_choice("op", 4), x = sym_range("x", 1, 3), v = sym_int("v"); String k = Ky<String>::of(x); if (op == 0) { h.put(k, Integer(v)); m.put(x, v); } else if (op == 1) { h.remove(k); int i = m.at(x); if (i >= 0) m.cut(i); } else if (op == 2) { h.putIfAbsent(k, Integer(v)); if (m.at(x) < 0) m.put(x, v); } else { HashMap<String, Integer> c = h; h.clear(); h.putAll(c); } hmAll(h, m, "after every operation the map holds what the operations define"); }); sym_reach("end"); }
// enough entries that the table grows several times
extern "C" void hm_grow() { HashMap<Integer, Integer> h; int n = 30, d = sym_int("d"); for (int i = 0; i < n; i++) h.put(Integer(i * 3), Integer(i ^ d)); bool ok = h.size() == n; for (int i = 0; i < n; i++) ok &= h.get(Integer(i * 3)).intValue() == (i ^ d); for (int i = 0; i < n; i++) ok &= !h.containsKey(Integer(i * 3 + 1)); sym_assert(ok, "all entries survive the growth of the table"); for (int i = 0; i < n; i += 2) h.remove(Integer(i * 3)); ok = h.size() == n / 2; for (int i = 0; i < n; i++) ok &= h.containsKey(Integer(i * 3)) == (i % 2 == 1); sym_assert(ok, "exactly the removed entries are gone"); sym_reach("end"); }
// ---- Set
extern "C" void set_ops() { NOLEAK(Set<Integer> s; int v[4], n = sym_choice("size", 4), c = 0; for (int i = 0; i < n; i++) { v[i] = sym_int("v"); bool dup = false; for (int j = 0; j < i; j++) dup |= v[j] == v[i]; sym_assert(s.add(Integer(v[i])) == !dup, "add tells whether the element was new"); if (!dup) c++; }
  sym_assert(s.size() == c && s.isEmpty() == (c == 0), "size counts the distinct elements"); bool ok = true; int seen = 0; bool first = true; int prev = 0; for (const Integer &e : s) { int x = e.intValue(); bool in = false; for (int i = 0; i < n; i++) in |= v[i] == x; ok &= in; ok &= first || prev < x; prev = x; first = false; seen++; } sym_assert(ok && seen == c, "iteration visits every element once in ascending order"); Set<Integer> t = s; s.clear(); sym_assert(s.size() == 0 && t.size() == c, "clear empties this set only")); sym_reach("end"); }
// ---- PriorityQueue
template <class E> struct Pq; template <> struct Pq<int> { static int of(int v) { return v; } static int to(int e) { return e; } }; template <> struct Pq<Integer> { static Integer of(int v) { return Integer(v); } static int to(const Integer &e) { return e.intValue(); } };
template <class E> static void pqDrain(PriorityQueue<E> &q, int *v, int n) { sym_assert(q.size() == n, "size"); for (int k = n; k > 0; k--) { int mx = v[0]; for (int i = 1; i < k; i++) mx = (int)symx_ite(v[i] > mx, v[i], mx); sym_assert(Pq<E>::to(q.peek()) == mx, "peek is the greatest element"); sym_assert(Pq<E>::to(q.poll()) == mx, "poll returns the greatest element"); sym_assert(q.size() == k - 1, "poll takes out one element"); int gone = 0; for (int i = 0; i < k - 1; i++) { int hit = !gone & (v[i] == mx); int g2 = gone | hit; v[i] = (int)symx_ite(g2, v[i + 1], v[i]); gone = g2; } } sym_assert(Pq<E>::to(q.peek()) == 0 && Pq<E>::to(q.poll()) == 0 && q.size() == 0, "an empty queue gives the default element"); }
template <class E> static void pqOrder() { int v[6], n, k = sym_choice("how", 4); NOLEAK(
  if (k == 0) { PriorityQueue<E> q; n = sym_choice("n", sym_param("N", 4) + 1); for (int i = 0; i < n; i++) { v[i] = sym_int("v"); bool r = i & 1 ? q.add(Pq<E>::of(v[i])) : q.offer(Pq<E>::of(v[i])); sym_assert(r, "add returns true"); } pqDrain(q, v, n); }
  else if (k == 1) { for (int i = 0; i < 4; i++) v[i] = sym_int("v"); PriorityQueue<E> q{Pq<E>::of(v[0]), Pq<E>::of(v[1]), Pq<E>::of(v[2])}; q.add(Pq<E>::of(v[3])); pqDrain(q, v, 4); }
  else { PriorityQueue<E> q; n = 3; for (int i = 0; i < n; i++) { v[i] = sym_int("v"); q.add(Pq<E>::of(v[i])); } PriorityQueue<E> c(q); if (k == 3) { PriorityQueue<E> d; d.add(Pq<E>::of(1)); d = q; q.clear(); sym_assert(q.size() == 0, "clear"); pqDrain(d, v, n); } else { q.poll(); pqDrain(c, v, n); } }); sym_reach("end"); }
extern "C" void pq_order_int() { pqOrder<int>(); }
extern "C" void pq_order_integer() { pqOrder<Integer>(); }
extern "C" void pq_remove() { int v[6], n = sym_choice("n", sym_param("N", 4) + 1); PriorityQueue<int> q; for (int i = 0; i < n; i++) { v[i] = sym_int("v"); q.add(v[i]); } int x = sym_int("x"), f = -1; for (int i = n - 1; i >= 0; i--) f = (int)symx_ite(v[i] == x, i, f); bool in = f >= 0; sym_assert(q.contains(x) == in, "contains"); sym_assert(q.remove(x) == in, "remove tells whether the element was present"); f = (int)sym_concrete(f); if (f >= 0) { for (int i = f; i + 1 < n; i++) v[i] = v[i + 1]; n--; sym_reach("in"); } pqDrain(q, v, n); sym_reach("end"); }
extern "C" void pq_toarray() { int v[4], n = sym_choice("n", 4); PriorityQueue<int> q(3); for (int i = 0; i < n; i++) { v[i] = sym_range("v", 1, 3); q.add(v[i]); } int len = sym_choice("len", 6); Array<int> a; for (int i = 0; i < len; i++) a.push(-7); Array<int> r = sym_choice("api", 2) ? q.toArray() : q.toArray(a); bool ok = true; int cnt = 0; for (int x = 1; x <= 3; x++) { int c = 0, d = 0; for (int i = 0; i < n; i++) { c += v[i] == x; d += i < r.length && r[i] == x; } ok &= c == d; } sym_assert(ok && (r.length == n || (r.length == len && len > n && r[n] == 0)), "toArray gives every element once"); sym_assert(q.size() == n, "toArray changes nothing"); sym_reach("end"); }
extern "C" void pq_capacity() { sym_quiet(1); int c = pin(sym_int("cap"), 1, 4); sym_assume(c <= 4); bool th = THROWSANY(PriorityQueue<int> q(c)); sym_assert(th == (c < 1), "throws exactly for a capacity below one"); sym_reach("end"); }
