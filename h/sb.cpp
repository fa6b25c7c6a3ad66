// StringBuilder
#include "hx.h"
#include "library/Java/Lang/StringIndexOutOfBoundsException/StringIndexOutOfBoundsException.hpp"
#include "library/Java/Lang/IndexOutOfBoundsException/IndexOutOfBoundsException.hpp"
#include "library/Java/Lang/NegativeArraySizeException/NegativeArraySizeException.hpp"
#define IOOB IndexOutOfBoundsException
typedef StringBuilder SB;
struct Seq { char b[96]; int n; Seq() : n(0) {} void cut(int s, int e) { memmove(b + s, b + e, n - e); n -= e - s; } void put(int at, const char *p, int m) { memmove(b + at + m, b + at, n - at); memcpy(b + at, p, m); n += m; } };
// a builder in one of its representations (exact buffer, slack, slack holding deleted characters), holding t
static void mk(SB &s, Seq &m, const char *name, int max, bool few = false) {
  Text t; anyTextUpTo(t, name, max); int how = few ? 1 + sym_choice("state", 2) : sym_choice("state", 4); m.n = 0; m.put(0, t.b, t.n);
  if (how == 0) s.append(String(t.b)); else if (how == 1) { for (int i = 0; i < t.n; i++) s.append(t.b[i]); s.trimToSize(); }
  else if (how == 2) { s.append(String(t.b)); s.append(String("stale tail")); s.setLength(t.n); } else { s.append(String("old")); s.append(String(t.b)); s.deleteRange(0, 3); s.trimToSize(); } }
static void same(const SB &s, const Seq &m, const char *what) { sym_assert(s.length() == m.n, what); bool ok = true; for (int i = 0; i < m.n; i++) ok &= s.charAt(i) == m.b[i]; sym_assert(ok, what); sym_assert(s.capacity() >= m.n, "capacity is at least the length"); }
// same, and the capacity is really there
static void fine(SB &s, Seq &m, const char *what) { same(s, m, what); String t = s.toString(); m.b[m.n] = 0; sym_assert(isText(t, m.b, (int) strlen(m.b) < m.n ? (int) strlen(m.b) : m.n), "toString gives the characters"); int extra = s.capacity() - m.n; for (int i = 0; i <= extra && m.n < 90; i++) { s.append('+'); m.put(m.n, "+", 1); } same(s, m, "later appends"); }
extern "C" void sb_construct() {
  Text t; anyTextUpTo(t, "c", sym_param("L", 3)); int k = sym_choice("how", 7); NOLEAK(
    if (k == 0) { SB s; Seq m; sym_assert(s.capacity() == 16, "default capacity"); fine(s, m, "empty builder"); }
    else if (k == 1) { SB s((String(t.b))); Seq m; m.put(0, t.b, t.n); sym_assert(s.capacity() == 16 + t.n, "capacity"); fine(s, m, "from a String"); }
    else if (k == 2) { String q(t.b); const CharSequence &c = q; SB s(c); Seq m; m.put(0, t.b, t.n); fine(s, m, "from a CharSequence"); }
    else if (k == 3) { char a = t.n > 0 ? t.b[0] : 'x'; char b = t.n > 1 ? t.b[1] : 'y'; SB s{a, b}; Seq m; m.put(0, &a, 1); m.put(1, &b, 1); fine(s, m, "from a list"); }
    else if (k == 4) { SB o((String(t.b))); SB s(o); Seq m; m.put(0, t.b, t.n); Seq mo = m; s.append('z'); m.put(m.n, "z", 1); same(o, mo, "the source of a copy is independent"); fine(s, m, "copy"); }
    else if (k == 5) { SB o((String(t.b))); SB s(String("previous")); s = o; Seq m; m.put(0, t.b, t.n); Seq mo = m; s = s; same(s, m, "assigned"); s.append('z'); m.put(m.n, "z", 1); if (t.n > 0) s.setCharAt(0, 'q'); same(o, mo, "the source of an assignment is independent"); if (t.n > 0) m.b[0] = 'q'; fine(s, m, "assigned builder"); }
    else { int c = sym_int("cap"); sym_assume(c <= 3); bool th = false; try { SB s(c); sym_assert(s.capacity() == c, "requested capacity"); Seq m; fine(s, m, "empty builder with a capacity"); } catch (NegativeArraySizeException &) { th = true; } sym_assert(th == (c < 0), "throws exactly for a negative capacity"); }); sym_reach("end"); }
extern "C" void sb_append() {
  SB s; Seq m; mk(s, m, "c", sym_param("L", 2)); Text t; anyTextUpTo(t, "t", sym_param("M", 2)); int k = sym_choice("api", 7); SB *r = 0;
  if (k == 0) { r = &s.append(String(t.b)); } else if (k == 1) { Array<char> a; for (int i = 0; i < t.n; i++) a.push(t.b[i]); r = &s.append(a); } else if (k == 2) { Array<Character> a; for (int i = 0; i < t.n; i++) a.push(Character(t.b[i])); r = &s.append(a); }
  else if (k == 3) { String q(t.b); const CharSequence &c = q; r = &s.append(c); } else if (k == 4) { SB q((String(t.b))); const CharSequence &c = q; r = &s.append(c); }
  else if (k == 5) { t.n = 1; t.b[0] = (char) sym_byte("one"); sym_assume(t.b[0] != 0); r = &s.append(t.b[0]); } else { t.n = 1; t.b[0] = (char) sym_byte("one"); sym_assume(t.b[0] != 0); r = &s.append(Character(t.b[0])); }
  sym_assert(r == &s, "append returns the builder"); m.put(m.n, t.b, t.n); fine(s, m, "appended"); sym_reach("end"); }
extern "C" void sb_append_range() { sym_quiet(1);
  SB s; Seq m; mk(s, m, "c", sym_param("L", 1), sym_param("few", 1)); Text t; anyTextUpTo(t, "t", sym_param("M", 3)); int k = sym_choice("api", 3); int x = pin(sym_int("x"), 0, 3), y = pin(sym_int("y"), 0, 3); bool th, bad; 
  if (k == 0) { String q(t.b); const CharSequence &c = q; bad = (x < 0) | (x > y) | (y > t.n); th = THROWS(IOOB, s.append(c, x, y)); if (!th) { int a = (int) sym_concrete(x), e = (int) sym_concrete(y); m.put(m.n, t.b + a, e - a); } }
  else { Array<char> a; Array<Character> A; for (int i = 0; i < t.n; i++) { a.push(t.b[i]); A.push(Character(t.b[i])); } bad = (x < 0) | (y < 0) | ((long) x + y > t.n); if (k == 1) th = THROWS(IOOB, s.append(a, x, y)); else th = THROWS(IOOB, s.append(A, x, y)); if (!th) { int o = (int) sym_concrete(x), l = (int) sym_concrete(y); m.put(m.n, t.b + o, l); } }
  sym_assert(th == bad, "throws exactly for a range outside the argument"); fine(s, m, "appended range (unchanged when it throws)"); if (!th) sym_reach("in"); sym_reach("end"); }
extern "C" void sb_append_value() {
  SB s(String("n=")); int k = sym_choice("api", 8); int v = sym_range("v", -120, 120); String e;
  if (k == 0) { s.append(v); e = String::valueOf(v); } else if (k == 1) { s.append((long) v); e = String::valueOf((long) v); } else if (k == 2) { s.append(Integer(v)); e = String::valueOf(v); } else if (k == 3) { s.append(Long(v)); e = String::valueOf((long) v); } else if (k == 4) { s.append(v > 0 ? true : false); e = String(v > 0 ? "true" : "false"); } else if (k == 5) { s.append(Boolean(v > 0 ? true : false)); e = String(v > 0 ? "true" : "false"); }
  else if (k == 6) { s.insert(1, v); sym_assert(s.toString() == String("n") + String::valueOf(v) + String("="), "insert(int)"); return; } else { s.insert(0, (long) v); sym_assert(s.toString() == String::valueOf((long) v) + String("n="), "insert(long)"); return; }
  sym_assert(s.toString() == String("n=") + e, "the text of the value is appended"); sym_reach("end"); }
extern "C" void sb_insert() { sym_quiet(1);
  SB s; Seq m; mk(s, m, "c", sym_param("L", 2)); Text t; anyTextUpTo(t, "t", sym_param("M", 2)); int k = sym_choice("api", 6); int at = pin(sym_int("at"), 0, m.n); bool th, bad = (at < 0) | (at > m.n); 
  if (k == 0) th = THROWS(IOOB, s.insert(at, String(t.b))); else if (k == 1) { Array<char> a; for (int i = 0; i < t.n; i++) a.push(t.b[i]); th = THROWS(IOOB, s.insert(at, a)); } else if (k == 2) { Array<Character> a; for (int i = 0; i < t.n; i++) a.push(Character(t.b[i])); th = THROWS(IOOB, s.insert(at, a)); }
  else if (k == 3) { SB q((String(t.b))); const CharSequence &c = q; th = THROWS(IOOB, s.insert(at, c)); } else { t.n = 1; t.b[0] = (char) sym_byte("one"); sym_assume(t.b[0] != 0); if (k == 4) th = THROWS(IOOB, s.insert(at, t.b[0])); else th = THROWS(IOOB, s.insert(at, Character(t.b[0]))); }
  sym_assert(th == bad, "throws exactly for an offset outside the text"); if (!th) { m.put((int) sym_concrete(at), t.b, t.n); sym_reach("in"); } fine(s, m, "inserted (unchanged when it throws)"); sym_reach("end"); }
extern "C" void sb_insert_range() { sym_quiet(1);
  SB s; Seq m; mk(s, m, "c", sym_param("L", 1), sym_param("few", 1)); Text t; anyTextUpTo(t, "t", sym_param("M", 2)); int k = sym_choice("api", 3); int at = pin(sym_int("at"), 0, m.n), x = pin(sym_int("x"), 0, 3), y = pin(sym_int("y"), 0, 3); bool th, bad = (at < 0) | (at > m.n); int o, l;
  if (k == 0) { String q(t.b); const CharSequence &c = q; bad |= (x < 0) | (y < 0) | (x > y) | (y > t.n); th = THROWS(IOOB, s.insert(at, c, x, y)); if (!th) { o = (int) sym_concrete(x); l = (int) sym_concrete(y) - o; } }
  else { Array<char> a; Array<Character> A; for (int i = 0; i < t.n; i++) { a.push(t.b[i]); A.push(Character(t.b[i])); } bad |= (x < 0) | (y < 0) | ((long) x + y > t.n); if (k == 1) th = THROWS(IOOB, s.insert(at, a, x, y)); else th = THROWS(IOOB, s.insert(at, A, x, y)); if (!th) { o = (int) sym_concrete(x), l = (int) sym_concrete(y); } }
  sym_assert(th == bad, "throws exactly for a bad offset or range"); if (!th) { m.put((int) sym_concrete(at), t.b + o, l); sym_reach("in"); } fine(s, m, "inserted range (unchanged when it throws)"); sym_reach("end"); }
extern "C" void sb_delete() { sym_quiet(1);
  SB s; Seq m; mk(s, m, "c", sym_param("L", 3)); int k = sym_choice("api", 2); int x = pin(sym_int("x"), 0, m.n), y = k ? 0 : pin(sym_int("y"), 0, m.n); bool th;
  if (k == 0) { bool bad = (x < 0) | (x > m.n) | (x > y); th = THROWS(IOOB, s.deleteRange(x, y)); sym_assert(th == bad, "deleteRange throws exactly for a bad range"); if (!th) { int a = (int) sym_concrete(x), e = (int) sym_concrete(symx_ite(y > m.n, m.n, y)); m.cut(a, e); sym_reach("in"); } }
  else { bool bad = (x < 0) | (x >= m.n); th = THROWS(IOOB, s.deleteCharAt(x)); sym_assert(th == bad, "deleteCharAt throws exactly for a bad index"); if (!th) { int a = (int) sym_concrete(x); m.cut(a, a + 1); sym_reach("in"); } }
  fine(s, m, "the rest closes up (unchanged when it throws)"); sym_reach("end"); }
extern "C" void sb_replace() { sym_quiet(1);
  SB s; Seq m; mk(s, m, "c", sym_param("L", 3)); Text t; anyTextUpTo(t, "t", sym_param("M", 2)); int x = pin(sym_int("x"), 0, 3), y = pin(sym_int("y"), 0, 3); bool bad = (x < 0) | (x > m.n) | (x > y); bool th = THROWS(IOOB, s.replace(x, y, String(t.b)));
  sym_assert(th == bad, "replace throws exactly for a bad range"); if (!th) { int a = (int) sym_concrete(x), e = (int) sym_concrete(symx_ite(y > m.n, m.n, y)); m.cut(a, e); m.put(a, t.b, t.n); sym_reach("in"); } fine(s, m, "replaced (unchanged when it throws)"); sym_reach("end"); }
extern "C" void sb_setters() { sym_quiet(1);
  SB s; Seq m; mk(s, m, "c", sym_param("L", 3)); int k = sym_choice("api", 6); int k2 = k == 2 ? 24 : k == 4 ? 70 : 3; int x = pin(sym_int("x"), 0, k2); char c = (char) sym_byte("v"); sym_assume(c != 0); bool th; const SB &cs = s;
  if (k < 2) { th = k ? THROWS(IOOB, s.setCharAt(x, c)) : THROWS(IOOB, s.setCharAt(x, Character(c))); sym_assert(th == ((x < 0) | (x >= m.n)), "setCharAt throws exactly for a bad index"); if (!th) { m.b[(int) sym_concrete(x)] = c; sym_reach("in"); } }
  else if (k == 2) { sym_assume(x <= 24); th = THROWS(IOOB, s.setLength(x)); sym_assert(th == (x < 0), "setLength throws exactly for a negative length"); if (!th) { int n = (int) sym_concrete(x); while (m.n < n) { char z = 0; m.put(m.n, &z, 1); } m.n = n; sym_reach("in"); } }
  else if (k == 3) { char r = 0; th = THROWS(IOOB, r = cs.charAt(x)); sym_assert(th == ((x < 0) | (x >= m.n)), "charAt throws exactly for a bad index"); if (!th) { sym_assert(r == m.b[(int) sym_concrete(x)], "charAt"); sym_reach("in"); } }
  else if (k == 4) { sym_assume(x <= 70); int before = s.capacity(); s.ensureCapacity(x); sym_assert(s.capacity() >= x && s.capacity() >= before, "ensureCapacity"); sym_reach("in"); } else { s.trimToSize(); sym_assert(s.capacity() == m.n, "trimToSize"); sym_reach("in"); }
  fine(s, m, "only the named position changes"); sym_reach("end"); }
extern "C" void sb_reverse() { SB s; Seq m; mk(s, m, "c", sym_param("L", 5)); s.reverse(); Seq r; for (int i = m.n - 1; i >= 0; i--) r.put(r.n, m.b + i, 1); fine(s, r, "reversed"); sym_reach("end"); }
extern "C" void sb_substring() { sym_quiet(1);
  SB s; Seq m; mk(s, m, "c", sym_param("L", 3)); int k = sym_choice("api", 2); int x = pin(sym_int("x"), 0, m.n), y = k ? m.n : pin(sym_int("y"), 0, m.n); String r; bool bad = (x < 0) | (y > m.n) | (x > y); bool th = k ? THROWS(StringIndexOutOfBoundsException, r = s.substring(x)) : THROWS(StringIndexOutOfBoundsException, r = s.substring(x, y));
  sym_assert(th == bad, "substring throws exactly for a bad range"); if (!th) { int a = (int) sym_concrete(x), e = (int) sym_concrete(y); sym_assert(isText(r, m.b + a, e - a), "substring"); sym_reach("in"); } fine(s, m, "substring changes nothing"); sym_reach("end"); }
extern "C" void sb_indexof() {
  SB s; Seq m; mk(s, m, "c", sym_param("L", 4)); Text p; anyTextUpTo(p, "p", sym_param("M", 3)); int from = sym_int("from"); int k = sym_choice("api", 2); if (k) from = 0; int r = k ? s.indexOf(String(p.b)) : s.indexOf(String(p.b), from);
  int f = (int) symx_ite(from < 0, 0, from), e = p.n == 0 ? (int) symx_ite(f > m.n, m.n, f) : firstMatch(m.b, m.n, p.b, p.n, f); sym_assert(r == e, "indexOf is the first occurrence at or after the start"); sym_reach("end"); }
extern "C" void sb_lastindexof() {
  SB s; Seq m; mk(s, m, "c", sym_param("L", 4)); Text p; anyTextUpTo(p, "p", sym_param("M", 3)); int k = sym_choice("api", 2);
  if (k) { int r = s.lastIndexOf(String(p.b)); sym_assert(r == (p.n == 0 ? m.n : lastMatch(m.b, m.n, p.b, p.n, 99)), "lastIndexOf is the last occurrence"); }
  else { int from = sym_int("from"); sym_assume(p.n > 0); int r = s.lastIndexOf(String(p.b), from); sym_assert(r == lastMatch(m.b, m.n, p.b, p.n, (int) symx_ite(from > m.n, m.n, symx_ite(from < 0, -1, from)) - (p.n - 1)), "lastIndexOf with a start is the last occurrence that ends at or before it"); } sym_reach("end"); }
// long patterns with nested borders: a prefix of the pattern, then free letters
extern "C" void sb_indexof_long() {
  static const char *const P[] = {"aabaaab", "aabaaaa", "abaabab", "abacabad", "aaaaab", "ababaca"}; const char *p = P[sym_choice("pattern", 6)]; int m = (int) strlen(p), back = sym_choice("back", 2); int k = sym_choice("prefix", m); char t[20], q[12]; int n = 0; for (int i = 0; i < k; i++) t[n++] = p[i]; int F = sym_param("F", 5); for (int i = 0; i < F; i++) t[n++] = (char) sym_range("c", 'a', 'b'); 
  if (k + F < m) for (int i = k + F; i < m; i++) t[n++] = p[i]; t[n] = 0; strcpy(q, p); if (back) { for (int i = 0; i < n / 2; i++) { char c = t[i]; t[i] = t[n - 1 - i]; t[n - 1 - i] = c; } for (int i = 0; i < m / 2; i++) { char c = q[i]; q[i] = q[m - 1 - i]; q[m - 1 - i] = c; } }
  SB s(String((char *) t)); if (back) sym_assert(s.lastIndexOf(String(q)) == lastMatch(t, n, q, m, 99), "lastIndexOf of a long pattern"); else sym_assert(s.indexOf(String(q)) == firstMatch(t, n, q, m, 0), "indexOf of a long pattern"); sym_reach("end"); }
// two operations in sequence, no leak
extern "C" void sb_history() {
  NOLEAK(SB s; Seq m; Text t; anyTextUpTo(t, "c", 2); s.append(String(t.b)); m.put(0, t.b, t.n);
  for (int i = 0; i < sym_param("N", 2); i++) { int op = sym_choice("op", 8); if (op == 7) { s.trimToSize(); continue; } if (op == 6) { SB c(s); c.append('k'); s = c; m.put(m.n, "k", 1); continue; }
    int a = op == 3 ? 0 : sym_choice("a", 4), e = op == 1 || op == 2 ? sym_choice("e", 4) : 0; if (op == 0) { bool th = THROWS(IOOB, s.insert(a, String("ab"))); sym_assert(th == (a > m.n), "insert throws"); if (!th) m.put(a, "ab", 2); } else if (op == 1) { bool th = THROWS(IOOB, s.deleteRange(a, e)); sym_assert(th == (a > e || a > m.n), "deleteRange throws"); if (!th) m.cut(a, e > m.n ? m.n : e); }
    else if (op == 2) { bool th = THROWS(IOOB, s.replace(a, e, String("xyz"))); sym_assert(th == (a > e || a > m.n), "replace throws"); if (!th) { m.cut(a, e > m.n ? m.n : e); m.put(a, "xyz", 3); } } else if (op == 3) { s.reverse(); for (int x = 0, y = m.n - 1; x < y; x++, y--) { char q = m.b[x]; m.b[x] = m.b[y]; m.b[y] = q; } } else if (op == 4) { s.setLength(a < m.n ? a : m.n); m.n = a < m.n ? a : m.n; } else { for (int x = 0; x < a * 5; x++) { s.append('f'); m.put(m.n, "f", 1); } } }
  fine(s, m, "the sequence of operations")); sym_reach("end"); }
extern "C" void sb_codepoints() { sym_quiet(1); SB s; Seq m; Text t; t.n = sym_choice("n", 4); for (int i = 0; i < t.n; i++) t.b[i] = (char) sym_range("c", 1, 127); t.b[t.n] = 0; s.append(String(t.b)); int x = pin(sym_int("x"), 0, 3), y = pin(sym_int("y"), 0, 3); int k = sym_choice("api", 3); int r = 0; bool th;
  if (k == 0) { th = THROWS(IOOB, r = s.codePointAt(x)); sym_assert(th == ((x < 0) | (x >= t.n)), "codePointAt throws exactly for a bad index"); if (!th) sym_assert(r == t.b[(int) sym_concrete(x)], "codePointAt"); } else if (k == 1) { sym_assume(x != INT_MIN); th = THROWS(IOOB, r = s.codePointBefore(x)); sym_assert(th == ((x < 1) | (x > t.n)), "codePointBefore throws exactly for a bad index"); if (!th) sym_assert(r == t.b[(int) sym_concrete(x) - 1], "codePointBefore"); }
  else { th = THROWS(IOOB, r = s.codePointCount(x, y)); sym_assert(th == ((x < 0) | (y > t.n) | (x > y)), "codePointCount throws exactly for a bad range"); if (!th) sym_assert(r == y - x, "codePointCount"); } sym_reach("end"); }
