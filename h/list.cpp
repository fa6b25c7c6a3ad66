// ArrayList, Vector, Stack, LinkedList
#include "hx.h"
#include "library/Java/Util/ArrayList/ArrayList.hpp"
#include "library/Java/Util/Vector/Vector.hpp"
#include "library/Java/Util/Stack/Stack.hpp"
#include "library/Java/Util/LinkedList/LinkedList.hpp"
using namespace Java::Util;
#define IOOB IndexOutOfBoundsException
#define IAE IllegalArgumentException
// the reference: a plain sequence of numbers
struct Ref { int v[16]; int n; Ref() : n(0) {} void put(int at, int x) { for (int i = n; i > at; i--) v[i] = v[i - 1]; v[at] = x; n++; } void cut(int at) { for (int i = at; i + 1 < n; i++) v[i] = v[i + 1]; n--; }
  int first(int x, int from = 0) const { int r = -1; for (int i = n - 1; i >= from; i--) r = (int)symx_ite(v[i] == x, i, r); return r; } int last(int x, int upto) const { int r = -1; for (int i = 0; i <= upto && i < n; i++) r = (int)symx_ite(v[i] == x, i, r); return r; } };
// element types: a number maps to an element and back; every value in the type's range is covered
template <class E> struct El; 
template <> struct El<long> { static int any(const char *n) { return sym_int(n); } static long of(int v) { return v; } static bool is(long e, int v) { return e == v; } };
template <> struct El<Integer> { static int any(const char *n) { return sym_int(n); } static Integer of(int v) { return Integer(v); } static bool is(const Integer &e, int v) { return e.intValue() == v; } };
template <> struct El<String> { static int any(const char *n) { return sym_range(n, 1, 255); } static String of(int v) { char b[2] = {(char)v, 0}; return String(b); } static bool is(const String &e, int v) { char b[2] = {(char)v, 0}; return isText(e, b, 1); } };
// ---- ArrayList
template <class E> static void alMake(ArrayList<E> &a, Ref &m, int max) { int n = sym_choice("size", max + 1); for (int i = 0; i < n; i++) { int v = El<E>::any("e"); sym_assert(a.add(El<E>::of(v)), "add returns true"); m.put(m.n, v); } if (sym_choice("slack", 2)) a.trimToSize(); }
template <class E> static void alSame(ArrayList<E> &a, const Ref &m, const char *what) {
  sym_assert(a.size() == m.n && a.isEmpty() == (m.n == 0), what); bool ok = true; for (int i = 0; i < m.n; i++) { ok &= El<E>::is(a.get(i), m.v[i]); ok &= El<E>::is(a[i], m.v[i]); } sym_assert(ok, what);
  int i = 0; ok = true; for (const E &e : a) { ok &= i < m.n && El<E>::is(e, m.v[i]); i++; } const ArrayList<E> &ca = a; sym_assert(ok && i == m.n && ca.end() - ca.begin() == m.n, "iteration visits the elements in order"); }
#define EACH(k, call) do { if ((k) == 0) call<long>(); else if ((k) == 1) call<Integer>(); else call<String>(); } while (0)
template <class E> static void alConstruct() { int k = sym_choice("how", 5), v[3]; for (int i = 0; i < 3; i++) v[i] = El<E>::any("v"); Ref m; NOLEAK(
    if (k == 0) { ArrayList<E> a; alSame(a, m, "a new list is empty"); } else if (k == 1) { ArrayList<E> a{El<E>::of(v[0]), El<E>::of(v[1]), El<E>::of(v[2])}; for (int i = 0; i < 3; i++) m.put(i, v[i]); alSame(a, m, "built from a list"); }
    else if (k == 2) { Array<E> s; int n = sym_choice("n", 4); for (int i = 0; i < n; i++) { s.push(El<E>::of(v[i])); m.put(i, v[i]); } ArrayList<E> a(s); alSame(a, m, "built from an Array"); Array<E> t = a.toArray(); bool ok = t.length == n; for (int i = 0; i < n; i++) ok &= El<E>::is(t[i], v[i]); sym_assert(ok, "toArray gives the elements in order"); }
    else { ArrayList<E> a; Ref r; alMake(a, r, 3); int w = El<E>::any("w"); if (k == 3) { ArrayList<E> b = a; b.add(El<E>::of(w)); Ref rb = r; rb.put(rb.n, w); alSame(b, rb, "a copy changes alone"); } else { ArrayList<E> b = a.clone(); alSame(b, r, "clone"); a.add(El<E>::of(w)); if (r.n) a.set(0, El<E>::of(w)); alSame(b, r, "a clone is independent"); if (r.n) r.v[0] = w; r.put(r.n, w); ArrayList<E> c; for (int i = sym_choice("tsize", 5); i > 0; i--) c.add(El<E>::of(w)); c = a; alSame(c, r, "assignment"); } alSame(a, r, "the original keeps its elements"); a.clear(); alSame(a, Ref(), "cleared"); }); sym_reach("end"); }
extern "C" void al_construct() { int k = sym_choice("type", 3); EACH(k, alConstruct); }
template <class E> static void alAdd() { sym_quiet(1); ArrayList<E> a; Ref m; alMake(a, m, sym_param("N", 3)); int v = El<E>::any("v"), w = El<E>::any("w"); int at = pin(sym_int("at"), 0, m.n); a.add(at, El<E>::of(v));
  if (at >= 0 && at <= m.n) { m.put((int)sym_concrete(at), v); sym_reach("in"); } alSame(a, m, "add(index) inserts before the index, and does nothing outside [0, size]"); a.add(El<E>::of(w)); m.put(m.n, w); alSame(a, m, "add appends"); sym_reach("end"); }
extern "C" void al_add() { int k = sym_choice("type", 3); EACH(k, alAdd); }
template <class E> static void alAt() { sym_quiet(1); ArrayList<E> a; Ref m; alMake(a, m, sym_param("N", 3)); int v = El<E>::any("v"); int at = pin(sym_int("at"), 0, m.n); bool bad = (at < 0) | (at >= m.n), th; int k = sym_choice("api", 3); E r = El<E>::of(7);
  if (k == 0) th = THROWS(IOOB, r = a.get(at)); else if (k == 1) th = THROWS(IOOB, r = a.set(at, El<E>::of(v))); else th = THROWS(IOOB, r = a.remove(at)); sym_assert(th == bad, "throws exactly for an index outside the list");
  if (!th) { int i = (int)sym_concrete(at); sym_assert(El<E>::is(r, m.v[i]), "returns the element that was at the index"); if (k == 1) m.v[i] = v; if (k == 2) m.cut(i); sym_reach("in"); } alSame(a, m, "only the named element changes (nothing when it throws)"); sym_reach("end"); }
extern "C" void al_at() { int k = sym_choice("type", 3); EACH(k, alAt); }
template <class E> static void alFind() { ArrayList<E> a; Ref m; alMake(a, m, sym_param("N", 3)); int v = El<E>::any("v"); E x = El<E>::of(v); int f = m.first(v), l = m.last(v, 99);
  sym_assert(a.contains(x) == (f >= 0), "contains"); sym_assert(a.indexOf(x) == f, "indexOf is the first occurrence or -1"); sym_assert(a.lastIndexOf(x) == l, "lastIndexOf is the last occurrence or -1"); alSame(a, m, "searching changes nothing"); sym_reach("end"); }
extern "C" void al_find() { int k = sym_choice("type", 3); EACH(k, alFind); }
template <class E> static void alRemove() { ArrayList<E> a; Ref m; alMake(a, m, sym_param("N", 3)); int v = El<E>::any("v"); E x = El<E>::of(v); int f = m.first(v); boolean r = a.remove(x); sym_assert(r == (f >= 0), "remove tells whether the element was present"); f = (int)sym_concrete(f); if (f >= 0) { m.cut(f); sym_reach("in"); } alSame(a, m, "remove takes out the first occurrence only"); sym_reach("end"); }
extern "C" void al_remove() { int k = sym_choice("type", 2); if (k) alRemove<Integer>(); else alRemove<String>(); }
extern "C" void al_foreach() { ArrayList<Integer> a; Ref m; alMake(a, m, 4); int stop = sym_choice("stop", 6), seen = 0; bool ok = true; a.forEach([&](Integer e) -> boolean { ok &= seen < m.n && e.intValue() == m.v[seen]; seen++; return seen != stop; }); sym_assert(ok && seen == (stop > 0 && stop < m.n ? stop : m.n), "forEach visits the elements in order until the action returns false"); alSame(a, m, "forEach changes nothing"); sym_reach("end"); }
// [a, b, c]; Strings quoted unless they already are an array or object text
extern "C" void al_tostring() { char e[96]; int n = 0; int k = sym_choice("type", 2), c = sym_choice("size", 4); e[n++] = '['; String r;
  if (k == 0) { ArrayList<String> a; for (int i = 0; i < c; i++) { Text t; anyTextUpTo(t, "t", 2); a.add(String(t.b)); bool q = t.n == 0 || (t.b[0] != '[' && t.b[0] != '{'); if (i) { e[n++] = ','; e[n++] = ' '; } if (q) e[n++] = '"'; memcpy(e + n, t.b, t.n); n += t.n; if (q) e[n++] = '"'; } r = a.toString(); }
  else { ArrayList<Integer> a; for (int i = 0; i < c; i++) { int v = sym_range("v", -9, 9); a.add(Integer(v)); if (i) { e[n++] = ','; e[n++] = ' '; } if (v < 0) { e[n++] = '-'; e[n++] = (char)('0' - v); } else e[n++] = (char)('0' + v); } r = a.toString(); sym_assert(a.toString() == r, "toString can be repeated"); }
  e[n++] = ']'; sym_assert(isText(r, e, n), "toString lists the elements in order"); sym_reach("end"); }
extern "C" void al_history() { sym_quiet(1); NOLEAK(ArrayList<Integer> a; Ref m; int N = sym_param("N", 3); for (int s = 0; s < N; s++) { int op = sym_choice("op", 6), v = sym_int("v"); Integer x(v);
      if (op == 0) { a.add(x); m.put(m.n, v); } else if (op == 1) { int at = sym_choice("at", m.n + 1); a.add(at, x); m.put(at, v); } else if (op == 2) { if (m.n) { int at = sym_choice("at", m.n); Integer r = a.remove(at); sym_assert(r.intValue() == m.v[at], "remove(index) returns the element"); m.cut(at); } else sym_assert(THROWS(IOOB, a.remove(0)), "remove from an empty list throws"); }
      else if (op == 3) { int f = (int)sym_concrete(m.first(v)); sym_assert(a.remove(x) == (f >= 0), "remove(element)"); if (f >= 0) m.cut(f); } else if (op == 4) { if (m.n) { int at = sym_choice("at", m.n); Integer r = a.set(at, x); sym_assert(r.intValue() == m.v[at], "set returns the previous element"); m.v[at] = v; } else a.trimToSize(); } else { a.clear(); m.n = 0; }
      alSame(a, m, "after every operation the list holds what the operations define"); }); sym_reach("end"); }
// ---- Vector
template <class E> struct VecX : public Vector<E> { VecX() {} VecX(int c, int i) : Vector<E>(c, i) {} void cutRange(int a, int b) { this->removeRange(a, b); } };
template <class V, class E> static void vMake(V &a, Ref &m, int max) { int n = sym_choice("size", max + 1); for (int i = 0; i < n; i++) { int v = El<E>::any("e"); sym_assert(a.add(El<E>::of(v)), "add returns true"); m.put(m.n, v); } if (sym_choice("slack", 2)) a.trimToSize(); }
template <class E> static void vSame(Vector<E> &a, const Ref &m, const char *what) { const Vector<E> &ca = a;
  sym_assert(a.size() == m.n && a.isEmpty() == (m.n == 0) && a.capacity() >= m.n, what); bool ok = true; for (int i = 0; i < m.n; i++) { ok &= El<E>::is(a.get(i), m.v[i]); ok &= El<E>::is(a[i], m.v[i]); ok &= El<E>::is(ca[i], m.v[i]); ok &= El<E>::is(a.elementAt(i), m.v[i]); } sym_assert(ok, what);
  int i = 0; ok = true; for (const E &e : a) { ok &= i < m.n && El<E>::is(e, m.v[i]); i++; } sym_assert(ok && i == m.n && ca.end() - ca.begin() == m.n && ca.cend() - ca.cbegin() == m.n, "iteration visits the elements in order");
  bool t1 = false, t2 = false; try { sym_assert(El<E>::is(a.firstElement(), m.v[0]), "firstElement"); } catch (Exception &) { t1 = true; } try { sym_assert(El<E>::is(a.lastElement(), m.v[m.n ? m.n - 1 : 0]), "lastElement"); } catch (Exception &) { t2 = true; } sym_assert(t1 == (m.n == 0) && t2 == (m.n == 0), "firstElement and lastElement throw exactly on an empty vector"); }
template <class E> static void vConstruct() { int k = sym_choice("how", 8), v[3]; for (int i = 0; i < 3; i++) v[i] = El<E>::any("v"); Ref m; NOLEAK(
    if (k == 0) { Vector<E> a; sym_assert(a.capacity() >= 10, "default capacity"); vSame(a, m, "a new vector is empty"); }
    else if (k == 1) { Vector<E> a{El<E>::of(v[0]), El<E>::of(v[1]), El<E>::of(v[2])}; for (int i = 0; i < 3; i++) m.put(i, v[i]); vSame(a, m, "built from a list"); a.add(El<E>::of(v[0])); m.put(3, v[0]); vSame(a, m, "grown after building from a list"); }
    else if (k == 2) { int c = pin(sym_int("cap"), 0, 4); sym_assume(c <= 4); bool th = false; try { Vector<E> a(c, 2); sym_assert(a.capacity() >= c, "requested capacity"); vSame(a, m, "a new vector is empty"); } catch (std::invalid_argument &) { th = true; } catch (Exception &) { th = true; } sym_assert(th == (c < 0), "throws exactly for a negative capacity"); }
    else { Vector<E> a; Ref r; vMake<Vector<E>, E>(a, r, 3); int w = El<E>::any("w"); E x = El<E>::of(w);
      if (k == 3) { Vector<E> b = a; b.add(x); Ref rb = r; rb.put(rb.n, w); vSame(b, rb, "a copy changes alone"); } else if (k == 4) { Vector<E> b = a.clone(); vSame(b, r, "clone"); sym_assert(a.equals(b) && b.equals(a), "a clone is equal"); b.add(x); sym_assert(!a.equals(b) && !b.equals(a), "vectors of different sizes differ"); }
      else if (k == 5) { Vector<E> c; for (int i = sym_choice("tsize", 5); i > 0; i--) c.add(x); c = a; vSame(c, r, "assignment"); c = c; vSame(c, r, "assignment to itself"); c.add(x); if (r.n) c.set(0, x); }
      else if (k == 6) { Vector<E> c; c.add(x); c = {El<E>::of(v[0]), El<E>::of(v[1])}; Ref rc; rc.put(0, v[0]); rc.put(1, v[1]); vSame(c, rc, "assignment of a list"); bool eq = r.n == 2 && ((int)(r.v[0] == v[0]) & (int)(r.v[1] == v[1])); sym_assert(a.equals(c) == eq, "equals is element by element"); }
      else { Array<E> t = a.toArray(), u; u.push(x); a.copyInto(u); bool ok = (t.length == r.n) & (u.length == r.n + 1) && El<E>::is(u[0], w); for (int i = 0; i < r.n; i++) { ok &= El<E>::is(t[i], r.v[i]); ok &= El<E>::is(u[i + 1], r.v[i]); } sym_assert(ok, "toArray and copyInto give the elements in order"); }
      vSame(a, r, "the original keeps its elements"); if (sym_choice("clr", 2)) a.clear(); else a.removeAllElements(); vSame(a, Ref(), "cleared"); }); sym_reach("end"); }
#define VEACH(k, call) do { if ((k) == 0) call<Integer>(); else call<String>(); } while (0)
extern "C" void v_construct() { int k = sym_choice("type", 2); VEACH(k, vConstruct); }
template <class E> static void vAt() { sym_quiet(1); VecX<E> a; Ref m; vMake<VecX<E>, E>(a, m, sym_param("N", 3)); int v = El<E>::any("v"); E x = El<E>::of(v), r = El<E>::of(7); int k = sym_choice("api", 12); int at = pin(sym_int("at"), 0, m.n); bool th, bad = (at < 0) | (at >= m.n), ins = k < 2; const Vector<E> &ca = a; if (ins) bad = (at < 0) | (at > m.n);
  switch (k) { case 0: th = THROWS(IAE, a.add(at, x)); break; case 1: th = THROWS(IAE, a.insertElementAt(x, at)); break; case 2: th = THROWS(IAE, r = a.set(at, x)); break; case 3: th = THROWS(IAE, a.setElementAt(x, at)); break; case 4: th = THROWS(IAE, r = a.remove(at)); break; case 5: th = THROWS(IAE, a.removeElementAt(at)); break;
    case 6: th = THROWS(IAE, r = a.get(at)); break; case 7: th = THROWS(IAE, r = a.elementAt(at)); break; case 8: th = THROWS(IAE, r = a[at]); break; case 9: th = THROWSANY(r = ca[at]); break; case 10: { int i = 0; th = THROWS(IAE, i = a.indexOf(x, at)); if (!th) sym_assert(i == m.first(v, (int)sym_concrete(at)), "indexOf from an index"); break; } default: { int i = 0; th = THROWS(IAE, i = ca.lastIndexOf(x, at)); if (!th) sym_assert(i == m.last(v, (int)sym_concrete(at)), "lastIndexOf from an index"); } }
  sym_assert(th == bad, "throws exactly for an index outside the vector"); if (!th) { int i = (int)sym_concrete(at); if (ins) m.put(i, v); else { if (k == 2 || k == 4 || (k >= 6 && k <= 9)) sym_assert(El<E>::is(r, m.v[i]), "returns the element that was at the index"); if (k == 2 || k == 3) m.v[i] = v; if (k == 4 || k == 5) m.cut(i); } sym_reach("in"); }
  vSame(a, m, "only the named element changes (nothing when it throws)"); sym_reach("end"); }
extern "C" void v_at() { int k = sym_choice("type", 2); VEACH(k, vAt); }
extern "C" void v_range() { sym_quiet(1); VecX<Integer> a; Ref m; vMake<VecX<Integer>, Integer>(a, m, sym_param("N", 4)); int x = pin(sym_int("x"), 0, m.n), y = pin(sym_int("y"), 0, m.n); sym_assume((x != y) & (y != m.n)); bool bad = (x < 0) | (y < 0) | (x > y) | (y > m.n), th = THROWS(IAE, a.cutRange(x, y)); sym_assert(th == bad, "removeRange throws exactly for a bad range"); if (!th) { int i = (int)sym_concrete(x), j = (int)sym_concrete(y); while (j-- > i) m.cut(i); sym_reach("in"); } vSame(a, m, "removeRange takes out the range (nothing when it throws)"); sym_reach("end"); }
template <class E> static void vFind() { Vector<E> a; Ref m; vMake<Vector<E>, E>(a, m, sym_param("N", 3)); int v = El<E>::any("v"), w = El<E>::any("w"); E x = El<E>::of(v), y = El<E>::of(w); int f = m.first(v);
  sym_assert(a.contains(x) == (f >= 0), "contains"); sym_assert(a.indexOf(x) == f, "indexOf is the first occurrence or -1"); sym_assert(a.lastIndexOf(x) == m.last(v, 99), "lastIndexOf is the last occurrence or -1"); bool all = (f >= 0) & (m.first(w) >= 0); sym_assert(a.containsAll({x, y}) == all && a.containsAll({}), "containsAll"); vSame(a, m, "searching changes nothing"); sym_reach("end"); }
extern "C" void v_find() { int k = sym_choice("type", 2); VEACH(k, vFind); }
template <class E> static void vRemove() { Vector<E> a; Ref m; vMake<Vector<E>, E>(a, m, sym_param("N", 3)); int v = El<E>::any("v"), w = El<E>::any("w"), k = sym_choice("api", 5); E x = El<E>::of(v), y = El<E>::of(w); bool r;
  if (k < 2) { int f = (int)sym_concrete(m.first(v)); const Object &o = x; r = k ? a.removeElement(o) : a.remove(o); sym_assert(r == (f >= 0), "remove tells whether the element was present"); if (f >= 0) { m.cut(f); sym_reach("in"); } }
  else if (k == 2) { Boolean other(true); const Object &o = other; sym_assert(!a.remove(o), "an object of another type is not in the vector"); }
  else { int n = m.n; r = k == 3 ? a.removeAll({x, y}) : a.retainAll({x, y}); for (int i = 0; i < m.n;) { bool in = (m.v[i] == v) | (m.v[i] == w); if (sym_concrete(in == (k == 3))) m.cut(i); else i++; } sym_assert(r == (m.n != n), "tells whether the vector changed"); }
  vSame(a, m, "exactly the named elements are gone"); sym_reach("end"); }
extern "C" void v_remove() { vRemove<Integer>(); }
extern "C" void v_addall() { sym_quiet(1); Vector<Integer> a; Ref m; vMake<Vector<Integer>, Integer>(a, m, sym_param("N", 3)); int v = sym_int("v"), w = sym_int("w"), k = sym_choice("api", 3); Integer x(v), y(w);
  if (k == 0) { sym_assert(a.addAll({x, y}), "addAll tells the vector changed"); m.put(m.n, v); m.put(m.n, w); sym_reach("in"); } else if (k == 1) { int at = pin(sym_int("at"), 0, m.n); bool bad = (at < 0) | (at > m.n), th = THROWS(IAE, a.addAll(at, {x, y})); sym_assert(th == bad, "addAll throws exactly for an index outside [0, size]"); if (!th) { int i = (int)sym_concrete(at); m.put(i, v); m.put(i + 1, w); } } else sym_assert(!a.addAll({}), "addAll of nothing changes nothing");
  vSame(a, m, "addAll inserts the elements in order"); sym_reach("end"); }
extern "C" void v_size() { sym_quiet(1); int cap = sym_choice("cap", 3), inc = sym_choice("inc", 3); VecX<Integer> a(cap, inc); Ref m; vMake<VecX<Integer>, Integer>(a, m, 3); int k = sym_choice("api", 2), x = pin(sym_int("x"), 0, 7); sym_assume(x <= 7); int old = a.capacity();
  if (k == 0) { bool th = THROWS(IAE, a.setSize(x)); sym_assert(th == (x < 0), "setSize throws exactly for a negative size"); if (!th) { int n = (int)sym_concrete(x); while (m.n < n) m.put(m.n, 0); m.n = n; sym_reach("in"); } }
  else { a.ensureCapacity(x); int want = inc > 0 ? old + inc : old * 2; int e = (int)symx_ite(x <= old, old, symx_ite(want < x, x, want)); sym_assert(a.capacity() == e, "ensureCapacity grows by the increment, or doubles, or to the minimum"); }
  vSame(a, m, "setSize truncates or fills with default elements"); a.addElement(Integer(5)); m.put(m.n, 5); vSame(a, m, "addElement appends"); sym_reach("end"); }
extern "C" void v_stack() { Stack<Integer> s; Ref m; int N = sym_param("N", 4); NOLEAK(Stack<Integer> t; (void)t); for (int i = 0; i < N; i++) { int op = sym_choice("op", 4), v = sym_int("v"); Integer x(v), r;
    if (op == 0) { r = s.push(x); sym_assert(r.intValue() == v, "push returns the element"); m.put(m.n, v); } else if (op == 1) { bool th = THROWS(EmptyStackException, r = s.pop()); sym_assert(th == (m.n == 0), "pop throws exactly on an empty stack"); if (!th) { sym_assert(r.intValue() == m.v[m.n - 1], "pop returns the top"); m.n--; } } else if (op == 2) { bool th = THROWS(EmptyStackException, r = s.peek()); sym_assert(th == (m.n == 0), "peek throws exactly on an empty stack"); if (!th) sym_assert(r.intValue() == m.v[m.n - 1], "peek returns the top"); } else sym_assert(s.search(x) == m.last(v, 99), "search gives the topmost occurrence's index or -1");
    sym_assert(s.empty() == (m.n == 0), "empty"); vSame<Integer>(s, m, "the stack holds what was pushed and not popped"); } sym_reach("end"); }
extern "C" void v_history() { sym_quiet(1); NOLEAK(int cap = sym_choice("cap", 2), inc = sym_choice("inc", 2); Vector<Integer> a(cap, inc); Ref m; int N = sym_param("N", 3); for (int s = 0; s < N; s++) { int op = sym_choice("op", 6), v = sym_int("v"); Integer x(v);
      if (op == 0) { a.add(x); m.put(m.n, v); } else if (op == 1) { int at = sym_choice("at", m.n + 1); a.add(at, x); m.put(at, v); } else if (op == 2) { if (m.n) { int at = sym_choice("at", m.n); Integer r = a.remove(at); sym_assert(r.intValue() == m.v[at], "remove(index) returns the element"); m.cut(at); } else sym_assert(THROWS(IAE, a.remove(0)), "remove from an empty vector throws"); }
      else if (op == 3) { int f = (int)sym_concrete(m.first(v)); const Object &o = x; sym_assert(a.remove(o) == (f >= 0), "remove(element)"); if (f >= 0) m.cut(f); } else if (op == 4) { if (m.n) { int at = sym_choice("at", m.n); Integer r = a.set(at, x); sym_assert(r.intValue() == m.v[at], "set returns the previous element"); m.v[at] = v; } else a.trimToSize(); } else { Vector<Integer> b; b.add(x); b = a; a = b; }
      vSame(a, m, "after every operation the vector holds what the operations define"); }); sym_reach("end"); }
// ---- LinkedList
#define NSE NoSuchElementException
template <class E> static void llMake(LinkedList<E> &a, Ref &m, int max) { int n = sym_choice("size", max + 1); for (int i = 0; i < n; i++) { int v = El<E>::any("e"); sym_assert(a.add(El<E>::of(v)), "add returns true"); m.put(m.n, v); } }
template <class E> static void llSame(LinkedList<E> &a, const Ref &m, const char *what) { sym_assert(a.size() == m.n, what); bool ok = true; for (int i = 0; i < m.n; i++) ok &= El<E>::is(a.get(i), m.v[i]); sym_assert(ok, what); int i = 0; for (Node<E> *e : a) { ok &= i < m.n && El<E>::is(e->element, m.v[i]); i++; } sym_assert(ok && i == m.n, "iteration visits the elements in order"); }
template <class E> static void llEnds() { NOLEAK(LinkedList<E> a; Ref m; llMake(a, m, sym_param("N", 3)); E r = El<E>::of(7); int k = sym_choice("api", 12), e = 0; bool th;
  switch (k) { case 0: th = THROWS(NSE, r = a.getFirst()); break; case 1: th = THROWS(NSE, r = a.peek()); break; case 2: th = THROWS(NSE, r = a.peekFirst()); break; case 3: th = THROWS(NSE, r = a.element()); break; case 4: th = THROWS(NSE, r = a.getLast()); break; case 5: th = THROWS(NSE, r = a.peekLast()); break;
    case 6: th = THROWS(NSE, r = a.poll()); break; case 7: th = THROWS(NSE, r = a.pollFirst()); break; case 8: th = THROWS(NSE, r = a.pop()); break; case 9: th = THROWS(NSE, r = a.remove()); break; case 10: th = THROWS(NSE, r = a.pollLast()); break; default: th = THROWS(NSE, r = a.removeLast()); }
  bool pk = k == 1 || k == 2 || k == 5; sym_assert(th == (m.n == 0 && !pk), "throws exactly on an empty list, peek gives the default element"); if (!m.n) { if (pk) sym_assert(r == E(), "the default element"); } else { bool last = k == 4 || k == 5 || k >= 10; int i = last ? m.n - 1 : 0; sym_assert(El<E>::is(r, m.v[i]), "returns the element at that end"); if (k >= 6) m.cut(i); sym_reach("in"); } llSame(a, m, "takes out exactly the returned element (or nothing)")); sym_reach("end"); }
extern "C" void ll_ends() { int k = sym_choice("type", 2); VEACH(k, llEnds); }
template <class E> static void llInsert() { NOLEAK(LinkedList<E> a; Ref m; llMake(a, m, sym_param("N", 3)); int v = El<E>::any("v"); E x = El<E>::of(v); int k = sym_choice("api", 7); if (k == 0) a.add(x); else if (k == 1) a.addLast(x); else if (k == 2) sym_assert(a.offerLast(x), "offerLast"); else if (k == 3) sym_assert(a.offer(x), "offer"); else if (k == 4) a.addFirst(x); else if (k == 5) sym_assert(a.offerFirst(x), "offerFirst"); else a.push(x); m.put(k < 4 ? m.n : 0, v); llSame(a, m, "the element is added at the right end")); sym_reach("end"); }
extern "C" void ll_insert() { int k = sym_choice("type", 2); VEACH(k, llInsert); }
template <class E> static void llAt() { sym_quiet(1); NOLEAK(LinkedList<E> a; Ref m; llMake(a, m, sym_param("N", 3)); int v = El<E>::any("v"); E x = El<E>::of(v), r = El<E>::of(7); int k = sym_choice("api", 4), at = pin(sym_int("at"), 0, m.n); bool bad = (at < 0) | (at >= m.n);
  if (k == 0) { sym_assert(THROWS(IOOB, r = a.get(at)) == bad, "get throws exactly for an index outside the list"); if (!bad) sym_assert(El<E>::is(r, m.v[(int)sym_concrete(at)]), "get"); } else if (k == 1) { bool th = THROWS(IOOB, r = a.set(at, x)); sym_assert(th == bad, "set throws exactly for an index outside the list"); if (!th) { int i = (int)sym_concrete(at); sym_assert(El<E>::is(r, m.v[i]), "set returns the previous element"); m.v[i] = v; sym_reach("in"); } }
  else if (k == 2) { bool b = a.remove(at); sym_assert(b == !bad, "remove tells whether there was such an element"); if (!bad) m.cut((int)sym_concrete(at)); } else if (m.n) { int pos = sym_choice("node", m.n), i = 0; Node<E> *nd = 0; for (Node<E> *e : a) if (i++ == pos) nd = e; sym_assert(a.remove(*nd), "remove(node)"); m.cut(pos); Node<E> other(x); sym_assert(!a.remove(other), "a node of no list is not removed"); }
  llSame(a, m, "only the named element changes")); sym_reach("end"); }
extern "C" void ll_at() { int k = sym_choice("type", 2); VEACH(k, llAt); }
extern "C" void ll_copy() { NOLEAK(LinkedList<Integer> a; Ref m; llMake(a, m, 3); int v = sym_int("v"), k = sym_choice("how", 3); Integer x(v); if (k == 0) { LinkedList<Integer> b = a; llSame(b, m, "a copy holds the elements"); b.add(x); Ref r = m; r.put(r.n, v); llSame(b, r, "a copy changes alone"); if (m.n) b.pop(); } else if (k == 1) { LinkedList<Integer> b; for (int i = sym_choice("tsize", 5); i > 0; i--) b.add(x); b = a; llSame(b, m, "assignment"); b = b; llSame(b, m, "assignment to itself"); b.push(x); if (m.n) b.removeLast(); } else { LinkedList<Integer> b{x, x}; Ref r; r.put(0, v); r.put(1, v); llSame(b, r, "built from a list"); b.clear(); llSame(b, Ref(), "cleared"); b.add(x); }
    llSame(a, m, "the original is untouched"); a.clear(); llSame(a, Ref(), "cleared")); sym_reach("end"); }
extern "C" void ll_foreach() { NOLEAK(LinkedList<Integer> a; Ref m; llMake(a, m, 3); int stop = sym_choice("stop", 5), seen = 0; bool del = sym_choice("del", 2); bool ok = true; a.forEach([&](Node<Integer> *n) -> boolean { ok &= seen < m.n && n->element.intValue() == m.v[seen]; seen++; if (del) a.remove(*n); return seen != stop; }); int vis = stop > 0 && stop < m.n ? stop : m.n; sym_assert(ok && seen == vis, "forEach visits the elements in order until the action returns false"); if (del) while (vis--) m.cut(0); llSame(a, m, "elements removed during forEach are gone, the others stay")); sym_reach("end"); }
extern "C" void ll_history() { NOLEAK(LinkedList<Integer> a; Ref m; int N = sym_param("N", 4); for (int s = 0; s < N; s++) { int op = sym_choice("op", 6), v = sym_int("v"); Integer x(v), r;
      if (op == 0) { a.add(x); m.put(m.n, v); } else if (op == 1) { a.push(x); m.put(0, v); } else if (op == 2) { if (m.n) { r = a.poll(); sym_assert(r.intValue() == m.v[0], "poll"); m.cut(0); } else sym_assert(THROWS(NSE, a.poll()), "poll on empty"); } else if (op == 3) { if (m.n) { r = a.pollLast(); sym_assert(r.intValue() == m.v[m.n - 1], "pollLast"); m.n--; } else sym_assert(THROWS(NSE, a.pollLast()), "pollLast on empty"); } else if (op == 4) { int at = sym_choice("at", m.n + 1); a.remove(at); if (at < m.n) m.cut(at); } else { LinkedList<Integer> b = a; a = b; }
      llSame(a, m, "after every operation the list holds what the operations define"); }); sym_reach("end"); }
// ---- elements and objects of the collection itself as arguments
extern "C" void al_alias() { NOLEAK(ArrayList<String> a; Ref m; alMake(a, m, 3); if (m.n) { int i = sym_choice("of", m.n), j = sym_choice("at", m.n + 1), k = sym_choice("api", 4); int v = m.v[i]; if (k == 0) { a.add(a[i]); m.put(m.n, v); } else if (k == 1) { a.add(j, a[i]); m.put(j, v); } else if (k == 2) { int f = (int)sym_concrete(m.first(v)); sym_assert(a.remove(a[i]), "remove of an element of the list"); m.cut(f); } else { a.set(j % m.n, a[i]); m.v[j % m.n] = v; } } alSame(a, m, "an element of the list itself as argument")); sym_reach("end"); }
extern "C" void v_alias() { NOLEAK(int cap = sym_choice("cap", 3), inc = sym_choice("inc", 3); VecX<String> a(cap, inc); Ref m; vMake<VecX<String>, String>(a, m, 3); if (m.n) { int i = sym_choice("of", m.n), j = sym_choice("at", m.n + 1), k = sym_choice("api", 5); int v = m.v[i]; if (k == 0) { a.add(a[i]); m.put(m.n, v); } else if (k == 1) { a.add(j, a[i]); m.put(j, v); } else if (k == 2) { a.insertElementAt(a[i], j); m.put(j, v); } else if (k == 3) { a.addElement(a[i]); m.put(m.n, v); } else { a.set(j % m.n, a[i]); m.v[j % m.n] = v; } } vSame(a, m, "an element of the vector itself as argument")); sym_reach("end"); }
extern "C" void ll_alias() { NOLEAK(LinkedList<String> a; Ref m; llMake(a, m, 3); if (m.n) { int i = sym_choice("of", m.n), j = sym_choice("at", m.n + 1), k = sym_choice("api", 5), c = 0; int v = m.v[i]; String *e = 0; for (Node<String> *n : a) if (c++ == i) e = &n->element; if (k == 0) { a.add(*e); m.put(m.n, v); } else if (k == 1) { a.push(*e); m.put(0, v); } else if (k == 2) { a.addFirst(*e); m.put(0, v); } else if (k == 3) { a.offerLast(*e); m.put(m.n, v); } else { a.set(j % m.n, *e); m.v[j % m.n] = v; } } llSame(a, m, "an element of the list itself as argument")); sym_reach("end"); }
