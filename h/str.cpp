// String: construction, comparison, search, transformation, formatting
#include "hx.h"
#include "library/Java/Lang/StringIndexOutOfBoundsException/StringIndexOutOfBoundsException.hpp"
#include "library/Java/Lang/InterruptedException/InterruptedException.hpp"
#define SIOOB StringIndexOutOfBoundsException
static int sgn(int x) { return (x > 0) - (x < 0); }
static bool isAscii(const Text &t) { bool r = true; for (int i = 0; i < t.n; i++) r &= t.b[i] > 0; return r; }
static char lowerOf(char c) { return (char)symx_ite((c >= 'A') & (c <= 'Z'), c + 32, c); }
static char upperOf(char c) { return (char)symx_ite((c >= 'a') & (c <= 'z'), c - 32, c); }
// ---- construction and observation
extern "C" void str_construct() {
  Text t; anyTextUpTo(t, "c", sym_param("L", 4)); int k = sym_choice("how", 8);
  NOLEAK(
    String s; 
    if (k == 0) { s = String(t.b); }
    else if (k == 1) { String o((string) t.b); String c(o); s = c; }
    else if (k == 2) { Array<char> a; for (int i = 0; i < t.n; i++) a.push(t.b[i]); s = String(a); sym_assert(String::fromCharArray(a).equals(s) && String::copyValueOf(a).equals(s), "the char array factories"); }
    else if (k == 3) { Array<byte> a; for (int i = 0; i < t.n; i++) a.push((byte) t.b[i]); s = String(a); }
    else if (k == 4) { s = String((const_string) t.b, t.n); }
    else if (k == 5) { s = String(std::string(t.b)); }
    else if (k == 6) { s = String::valueOf((string) t.b); }
    else { s = String(t.b).clone(); }
    sym_assert(s.length() == t.n && s.getSize() == t.n, "length"); sym_assert(s.isEmpty() == (t.n == 0), "isEmpty"); sym_assert(isText(s, t), "characters"); sym_assert(isText(s.toString(), t), "toString");
    bool ok = true; for (int i = 0; i < t.n; i++) ok &= (s.charAt(i) == t.b[i]) & (s[i] == t.b[i]); sym_assert(ok, "charAt and operator[]");
    Array<byte> bs = s.getBytes(); Array<char> cs = s.toCharArray(); sym_assert(bs.length == t.n && cs.length == t.n, "array lengths"); ok = true; for (int i = 0; i < t.n; i++) ok &= (bs[i] == (byte) t.b[i]) & (cs[i] == t.b[i]); sym_assert(ok, "getBytes and toCharArray")); sym_reach("end"); }
extern "C" void str_nul() { int n = sym_choice("len", sym_param("L", 4) + 1); char b[8]; for (int i = 0; i < n; i++) b[i] = (char)sym_byte("c"); b[n] = 1; String s((const_string) b, n); sym_assert(s.length() == n, "length"); bool ok = true; for (int i = 0; i < n; i++) ok &= s.charAt(i) == b[i]; sym_assert(ok, "NUL characters kept"); String c(s); sym_assert(c.length() == n && c == s && c.equals(s), "copy keeps them"); sym_reach("end"); }
extern "C" void str_index() {
  Text t; anyTextUpTo(t, "c", sym_param("L", 3)); int i = sym_int("i"); String s(t.b); bool in = (i >= 0) & (i < t.n); int api = sym_choice("api", 2);
  if (api == 0) { char r = 0; bool th = THROWS(SIOOB, r = s.charAt(i)); sym_assert(th == !in, "charAt throws exactly outside the text"); if (!th) { sym_assert(r == t.b[sym_concrete(i)], "charAt"); sym_reach("in"); } }
  else { String r; bool th = THROWS(SIOOB, r = s.getStringFromIndex(i)); sym_assert(th == !in, "getStringFromIndex throws exactly outside the text"); if (!th) { int k = (int) sym_concrete(i); sym_assert(isText(r, t.b + k, t.n - k), "getStringFromIndex"); sym_reach("in"); } } sym_reach("end"); }
extern "C" void str_fromarray() {
  Text t; anyTextUpTo(t, "c", sym_param("L", 3)); int off = sym_int("off"), len = sym_int("len"); int k = sym_choice("kind", 3); Array<char> a; Array<byte> b; for (int i = 0; i < t.n; i++) { a.push(t.b[i]); b.push((byte) t.b[i]); }
  bool bad = (off < 0) | (len < 0) | ((long) off + len > t.n); String r; bool th = THROWS(SIOOB, r = k == 0 ? String(a, off, len) : k == 1 ? String(b, off, len) : String::copyValueOf(a, off, len)); sym_assert(th == bad, "throws exactly for a range outside the array"); if (!th) { sym_assert(isText(r, t.b + sym_concrete(off), (int) sym_concrete(len)), "characters of the range"); sym_reach("in"); } sym_reach("end"); }
extern "C" void str_getchars() {
  Text t; anyTextUpTo(t, "c", sym_param("L", 3)); int sb = sym_int("sb"), se = sym_int("se"), db = sym_int("db"), dn = sym_choice("dn", 4); Array<char> d; char o[4]; for (int i = 0; i < dn; i++) { o[i] = (char) sym_byte("d"); d.push(o[i]); } String s(t.b);
  bool bad = (sb < 0) | (sb > se) | (se > t.n) | (db < 0) | ((long) db + se - sb > dn); bool th = THROWS(SIOOB, s.getChars(sb, se, d, db)); sym_assert(th == bad, "throws exactly for a bad range"); sym_assert(d.length == dn, "the destination keeps its length"); bool ok = true; 
  if (!th) { int S = (int) sym_concrete(sb), E = (int) sym_concrete(se), D = (int) sym_concrete(db); for (int i = 0; i < dn; i++) ok &= d[i] == ((i >= D && i < D + E - S) ? t.b[S + i - D] : o[i]); sym_reach("in"); } else for (int i = 0; i < dn; i++) ok &= d[i] == o[i]; sym_assert(ok, "only the range is copied"); sym_reach("end"); }
// ---- comparison
extern "C" void str_compare() {
  Text a, b; int L = sym_param("L", 3); anyTextUpTo(a, "a", L); anyTextUpTo(b, "b", L); String A(a.b), B(b.b); int e = 0; for (int i = (a.n < b.n ? a.n : b.n); i >= 0; i--) { unsigned char x = (unsigned char) a.b[i], y = (unsigned char) b.b[i]; e = (int) symx_ite(x != y, symx_ite(x < y, -1, 1), e); }
  int c = A.compareTo(B); sym_assert(sgn(c) == e, "compareTo orders by the first different byte"); sym_assert((A < B) == (e < 0) && (A > B) == (e > 0) && (A <= B) == (e <= 0) && (A >= B) == (e >= 0), "relational operators");
  sym_assert((A == B) == (e == 0) && (A != B) == (e != 0) && A.equals(B) == (e == 0), "equality"); sym_assert(A.contentEquals(B) == (e == 0), "contentEquals"); sym_assert(sgn(B.compareTo(A)) == -e, "antisymmetry"); sym_reach("end"); }
extern "C" void str_ignorecase() {
  Text a, b; int L = sym_param("L", 3); anyTextUpTo(a, "a", L); anyTextUpTo(b, "b", L); sym_assume(isAscii(a) & isAscii(b)); String A(a.b), B(b.b); int e = 0; for (int i = (a.n < b.n ? a.n : b.n); i >= 0; i--) { char x = lowerOf(a.b[i]), y = lowerOf(b.b[i]); e = (int) symx_ite(x != y, symx_ite(x < y, -1, 1), e); }
  sym_assert(sgn(A.compareToIgnoreCase(B)) == e, "compareToIgnoreCase"); sym_assert(A.equalsIgnoreCase(B) == (e == 0), "equalsIgnoreCase"); sym_reach("end"); }
static int polyHash(const char *p, int n) { int h = 0; for (int i = 0; i < n; i++) h = 31 * h + p[i]; return h; }
extern "C" void str_hash() {
  Text a, b; int L = sym_param("L", 3); anyTextUpTo(a, "a", L); anyTextUpTo(b, "b", L); String A(a.b), B(b.b); int op = sym_choice("op", 6); sym_assert(A.hashCode() == polyHash(a.b, a.n), "hashCode is 31-polynomial"); sym_assert(A.hashCode() == polyHash(a.b, a.n), "hashCode again");
  Text r; if (op == 0) { A = B; r = b; } else if (op == 1 || op == 2) { r = a; memcpy(r.b + r.n, b.b, b.n + 1); r.n += b.n; if (op == 1) A += B; else A += (const_string) b.b; } else if (op == 3) { r = a; r.b[r.n++] = 'x'; r.b[r.n] = 0; A += 'x'; } else if (op == 4) { r = a; if (a.n) { r.b[0] = 'y'; A[0] = 'y'; } } else { r = a; String C(A); A = C; }
  sym_assert(isText(A, r), "contents after the change"); sym_assert(A.hashCode() == polyHash(r.b, r.n), "hashCode follows the contents"); sym_reach("end"); }
extern "C" void str_concat() {
  Text a, b; int L = sym_param("L", 3); anyTextUpTo(a, "a", L); anyTextUpTo(b, "b", L); char x = (char) sym_byte("x"); sym_assume(x != 0); Text r = a; memcpy(r.b + r.n, b.b, b.n + 1); r.n += b.n;
  NOLEAK(
    String A(a.b), B(b.b); sym_assert(isText(A.concat(B), r), "concat"); sym_assert(isText(A + B, r), "operator+"); const String &CA = A; sym_assert(isText(CA + B, r), "operator+ on constants"); sym_assert(isText(A, a) && isText(B, b), "operands unchanged");
    String C(A); C += B; sym_assert(isText(C, r), "operator+= String"); String D(A); D += (const_string) b.b; sym_assert(isText(D, r), "operator+= text"); String E(A); E += x; Text q = a; q.b[q.n++] = x; q.b[q.n] = 0; sym_assert(isText(E, q), "operator+= char"); sym_assert(isText(A, a), "copies are independent");
    String F(A); F += F; sym_assert(F.length() == 2 * a.n && sameBytes(F.toCharPointer(), a.b, a.n) && sameBytes(F.toCharPointer() + a.n, a.b, a.n), "appending a String to itself"); String G(A); G = G; sym_assert(isText(G, a), "self assignment")); sym_reach("end"); }
// ---- search
extern "C" void str_indexof_char() {
  Text t; anyTextUpTo(t, "c", sym_param("L", 4)); char c = (char) sym_byte("x"); sym_assume(c != 0); int from = sym_int("from"); int k = sym_choice("api", 4); const int n = t.n; long ob = 0; 
  NOLEAK(String s(t.b); int r; if (k == 0) { r = s.indexOf((int) c); sym_assert(r == firstMatch(t.b, n, &c, 1, 0), "indexOf(char)"); } else if (k == 1) { r = s.indexOf((int) c, from); sym_assert(r == firstMatch(t.b, n, &c, 1, from), "indexOf(char, from)"); } else if (k == 2) { r = s.lastIndexOf((int) c); sym_assert(r == lastMatch(t.b, n, &c, 1, n), "lastIndexOf(char)"); } else { r = s.lastIndexOf((int) c, from); sym_assert(r == lastMatch(t.b, n, &c, 1, from), "lastIndexOf(char, from)"); } ob = r); sym_observe("r", ob); sym_reach("end"); }
extern "C" void str_indexof_str() {
  Text t, p; anyTextUpTo(t, "c", sym_param("L", 4)); anyText(p, "p", 1 + sym_choice("m", sym_param("M", 2))); int from = sym_int("from"); int k = sym_choice("api", 2); String s(t.b), q(p.b); int r; if (k == 0) { r = s.indexOf(q); sym_assert(r == firstMatch(t.b, t.n, p.b, p.n, 0), "indexOf(text)"); } else { r = s.indexOf(q, from); sym_assert(r == firstMatch(t.b, t.n, p.b, p.n, from), "indexOf(text, from)"); } sym_observe("r", r); sym_reach("end"); }
extern "C" void str_lastindexof_str() {
  Text t, p; anyTextUpTo(t, "c", sym_param("L", 4)); anyText(p, "p", 1 + sym_choice("m", sym_param("M", 2))); int from = sym_int("from"); int k = sym_choice("api", 2); String s(t.b), q(p.b); int r; if (k == 0) { r = s.lastIndexOf(q); sym_assert(r == lastMatch(t.b, t.n, p.b, p.n, t.n), "lastIndexOf(text)"); } else { sym_assume((from <= t.n - p.n) | (from >= t.n)); r = s.lastIndexOf(q, from); sym_assert(r == lastMatch(t.b, t.n, p.b, p.n, from), "lastIndexOf(text, from)"); } sym_observe("r", r); sym_reach("end"); }
extern "C" void str_lastindexof_tail() { Text t, p; anyTextUpTo(t, "c", 4); anyText(p, "p", 1 + sym_choice("m", 2)); int from = sym_range("from", 0, 4); sym_assume((from > t.n - p.n) & (from < t.n)); sym_assert(String(t.b).lastIndexOf(String(p.b), from) == lastMatch(t.b, t.n, p.b, p.n, from), "lastIndexOf(text, from) close to the end"); }
extern "C" void str_contains() {
  Text t, p; anyTextUpTo(t, "c", sym_param("L", 4)); anyTextUpTo(p, "p", sym_param("M", 2)); String s(t.b), q(p.b); bool e = p.n == 0 || firstMatch(t.b, t.n, p.b, p.n, 0) >= 0; int k = sym_choice("api", 2); sym_assert((k ? s.contains(q) : s.contains((const CharSequence &) q)) == e, "contains"); sym_reach("end"); }
extern "C" void str_startends() {
  Text t, p; anyTextUpTo(t, "c", sym_param("L", 4)); anyTextUpTo(p, "p", sym_param("M", 3)); int off = sym_int("off"); String s(t.b), q(p.b); bool fit = p.n <= t.n; int k = sym_choice("api", 3);
  if (k == 0) sym_assert(s.startsWith(q) == (fit && matchAt(t.b, p.b, p.n)), "startsWith"); else if (k == 1) sym_assert(s.endsWith(q) == (fit && matchAt(t.b + (fit ? t.n - p.n : 0), p.b, p.n)), "endsWith"); else { bool e = false; if ((off >= 0) & (off <= t.n - p.n)) e = matchAt(t.b + sym_concrete(off), p.b, p.n); sym_assert(s.startsWith(q, off) == e, "startsWith at an offset"); } sym_reach("end"); }
extern "C" void str_region() {
  Text t, p; anyTextUpTo(t, "c", sym_param("L", 3)); anyTextUpTo(p, "p", 3); int ic = sym_choice("ignorecase", 2); if (ic) sym_assume(isAscii(t) & isAscii(p)); int a = sym_int("a"), b = sym_int("b"), len = sym_int("len"); sym_assume(len >= 0); String s(t.b), q(p.b); bool ia = (a >= 0) & ((long) a + len <= t.n), ib = (b >= 0) & ((long) b + len <= p.n); sym_assume(ia | ib); if (len == 0) sym_assume(ia & ib);
  bool r = ic ? s.regionMatches(true, a, q, b, len) : s.regionMatches(a, q, b, len); bool e = false; if (ia & ib) { int A = (int) sym_concrete(a), B = (int) sym_concrete(b), n = (int) sym_concrete(len); e = true; for (int i = 0; i < n; i++) e &= ic ? lowerOf(t.b[A + i]) == lowerOf(p.b[B + i]) : t.b[A + i] == p.b[B + i]; } sym_assert(r == e, "regionMatches"); sym_reach("end"); }
// ---- transformation
extern "C" void str_substring() {
  Text t; anyTextUpTo(t, "c", sym_param("L", 4)); int b = sym_int("b"), e = sym_int("e"); int k = sym_choice("api", 2); String s(t.b); if (k == 0) e = t.n; String r; if (k == 0) r = s.subString(b); else r = s.subString(b, e); if ((b >= 0) & (b <= e) & (e <= t.n)) { int B = (int) sym_concrete(b), E = (int) sym_concrete(e); sym_assert(isText(r, t.b + B, E - B), "subString in range"); sym_reach("in"); } else sym_assert(isText(r, "", 0), "subString out of range is empty"); sym_assert(isText(s, t), "unchanged"); sym_reach("end"); }
extern "C" void str_trim() { Text t; anyTextUpTo(t, "c", sym_param("L", 5)); String s(t.b); String r = s.trim(); int b = 0, e = t.n; while (b < e && t.b[b] == ' ') b++; while (e > b && t.b[e - 1] == ' ') e--; sym_assert(isText(r, t.b + b, e - b), "trim removes leading and trailing blanks"); sym_assert(isText(r.trim(), t.b + b, e - b), "idempotent"); sym_reach("end"); }
extern "C" void str_replace_char() { Text t; anyTextUpTo(t, "c", sym_param("L", 5)); char o = (char) sym_byte("o"), w = (char) sym_byte("w"); sym_assume((o != 0) & (w != 0)); Text e = t; for (int i = 0; i < t.n; i++) e.b[i] = (char) symx_ite(t.b[i] == o, w, t.b[i]); String s(t.b); sym_assert(isText(s.replace(o, w), e), "replace(char, char)"); sym_assert(isText(s, t), "unchanged"); sym_reach("end"); }
// leftmost non-overlapping replacement; forks
static Text replaceAll(const Text &t, const Text &p, const Text &w, int max) { Text r; r.n = 0; int i = 0, done = 0; if (p.n == 0) { for (i = 0; i <= t.n; i++) { for (int j = 0; j < w.n; j++) r.b[r.n++] = w.b[j]; if (++done == max) break; if (i < t.n) r.b[r.n++] = t.b[i]; } while (i < t.n) r.b[r.n++] = t.b[i++]; r.b[r.n] = 0; return r; }
  while (i < t.n) { if (done < max && i + p.n <= t.n && matchAt(t.b + i, p.b, p.n)) { for (int j = 0; j < w.n; j++) r.b[r.n++] = w.b[j]; i += p.n; done++; } else r.b[r.n++] = t.b[i++]; } r.b[r.n] = 0; return r; }
extern "C" void str_replace() {
  Text t, p, w; anyTextUpTo(t, "c", sym_param("L", 4)); anyTextUpTo(p, "p", sym_param("M", 2)); anyTextUpTo(w, "w", sym_param("W", 2)); int k = sym_choice("api", 3); String s(t.b), q(p.b), x(w.b); String r = k == 0 ? s.replace(q, x) : k == 1 ? s.replaceAll(q, x) : s.replaceFirst(q, x); Text e = replaceAll(t, p, w, k == 2 ? 1 : 99); sym_assert(isText(r, e), "every (the first) occurrence is replaced, from left to right"); sym_assert(isText(s, t), "unchanged"); sym_reach("end"); }
static int splitAll(const Text &t, const Text &p, int limit, Text *o) { int n = 0; if (p.n == 0) { for (int i = 0; i < t.n && (limit <= 0 || n < limit - 1); i++) { o[n].n = 1; o[n].b[0] = t.b[i]; o[n++].b[1] = 0; } if (n < t.n || n == 0) { int k = n; o[n].n = t.n - k; memcpy(o[n].b, t.b + k, t.n - k + 1); n++; } return n; }
  o[0].n = 0; int i = 0; while (i < t.n) { if ((limit <= 0 || n < limit - 1) && i + p.n <= t.n && matchAt(t.b + i, p.b, p.n)) { o[n].b[o[n].n] = 0; n++; o[n].n = 0; i += p.n; } else o[n].b[o[n].n++] = t.b[i++]; } o[n].b[o[n].n] = 0; return n + 1; }
extern "C" void str_split() {
  Text t, p; anyTextUpTo(t, "c", sym_param("L", 4)); anyTextUpTo(p, "p", sym_param("M", 2)); int k = sym_choice("api", 2); int limit = 0; if (k) limit = (int) sym_concrete(sym_range("limit", -1, 4)); String s(t.b), q(p.b); Array<String> r = k ? s.split(q, limit) : s.split(q); Text e[8]; int n = splitAll(t, p, limit, e); sym_assert(r.length == n, "number of parts"); bool ok = true; for (int i = 0; i < n; i++) ok = ok && isText(r[i], e[i]); sym_assert(ok, "parts between separators"); sym_reach("end"); }
extern "C" void str_case() { Text t; anyTextUpTo(t, "c", sym_param("L", 4)); sym_assume(isAscii(t)); Text lo = t, up = t; for (int i = 0; i < t.n; i++) { lo.b[i] = lowerOf(t.b[i]); up.b[i] = upperOf(t.b[i]); } String s(t.b); sym_assert(isText(s.toLowerCase(), lo), "toLowerCase"); sym_assert(isText(s.toUpperCase(), up), "toUpperCase"); sym_assert(isText(s, t), "unchanged"); sym_reach("end"); }
extern "C" void str_join() { Text a, b, c, d; anyTextUpTo(a, "a", 2); anyTextUpTo(b, "b", 1); anyTextUpTo(c, "c", 1); anyTextUpTo(d, "d", 2); String A(a.b), B(b.b), C(c.b), D(d.b); Text e; e.n = 0; Text *v[5] = {&a, &d, &b, &d, &c}; int m = 1 + sym_choice("m", 3); for (int k = 0; k < 2 * m - 1; k++) { memcpy(e.b + e.n, v[k]->b, v[k]->n); e.n += v[k]->n; } e.b[e.n] = 0; String r = m == 1 ? String::join(D, A) : m == 2 ? String::join(D, A, B) : String::join(D, A, B, C); sym_assert(isText(r, e), "join"); sym_reach("end"); }
// ---- values as text
static void decText(const String &s, long v, const char *label) { int n = s.length(); const char *p = s.toCharPointer(); int neg = p[0] == '-'; sym_assert(neg == (v < 0), "minus sign"); n -= neg; p += neg; unsigned long m = neg ? 0ul - (unsigned long) v : (unsigned long) v, lim = 1; sym_assert(n >= 1 && n <= 19, "length"); for (int i = 1; i < n; i++) lim *= 10; sym_assert((n == 1) | (m >= lim), "no leading zero"); if (n < 19) sym_assert(m < lim * 10, "all digits"); char d[20]; symx_digits(m, d, n, 10); bool ok = true; for (int i = 0; i < n; i++) ok &= p[i] == d[i] + '0'; sym_assert(ok, label); }
extern "C" void str_valueof() { int k = sym_choice("kind", 7); 
  NOLEAK(if (k == 0) { bool b = sym_bool("b"); sym_assert(isText(String::valueOf((boolean) b), b ? "true" : "false"), "valueOf(boolean)"); } else if (k == 1) { char c = (char) sym_byte("c"); char t[2] = {c, 0}; sym_assert(isText(String::valueOf(c), t, c != 0), "valueOf(char)"); } else if (k == 2) { short v = sym_short("v"); decText(String::valueOf(v), v, "valueOf(short)"); } else if (k == 3) { int v = sym_int("v"); decText(String::valueOf(v), v, "valueOf(int)"); } else if (k == 4) { int v = sym_int("v"); decText(String::valueOf((long long) v), v, "valueOf(long long)"); } else if (k == 5) { Text t; anyTextUpTo(t, "c", 3); sym_assert(isText(String::valueOf((const_string) t.b), t) && isText(String::valueOf(String(t.b)), t), "valueOf(text)"); } else { double d = sym_double("d"); float f = sym_float("f"); String x = String::valueOf(d), y = String::valueOf(f); }) ; sym_reach("end"); }
extern "C" void str_valueof_long() { long v = sym_long("v"); decText(String::valueOf(v), v, "valueOf(long)"); sym_reach("end"); }
// format("lit %d lit") and friends
extern "C" void str_format_lit() { Text t; anyTextUpTo(t, "c", sym_param("L", 4)); int k = sym_choice("args", 2); bool pc = false; for (int i = 0; i < t.n; i++) pc |= t.b[i] == '%'; sym_assume(!pc); String f(t.b); String r = k ? String::format(f, 7) : String::format(f); sym_assert(isText(r, t), "text without conversions is copied"); sym_reach("end"); }
extern "C" void str_format_percent() { Text a, b; anyTextUpTo(a, "a", 2); anyTextUpTo(b, "b", 2); for (int i = 0; i < a.n; i++) sym_assume(a.b[i] != '%'); for (int i = 0; i < b.n; i++) sym_assume(b.b[i] != '%'); Text f; int n = 0; memcpy(f.b, a.b, a.n); n = a.n; f.b[n++] = '%'; f.b[n++] = '%'; memcpy(f.b + n, b.b, b.n); n += b.n; f.b[n] = 0; Text e = a; e.b[e.n++] = '%'; memcpy(e.b + e.n, b.b, b.n); e.n += b.n; e.b[e.n] = 0; int k = sym_choice("args", 2); sym_assert(isText(k ? String::format(String(f.b), 5) : String::format(String(f.b)), e), "%% is a percent sign"); sym_reach("end"); }
extern "C" void str_format_args() {
  Text a, b, c, x; int L = sym_param("L", 1); anyTextUpTo(a, "a", L); anyTextUpTo(b, "b", L); anyTextUpTo(c, "c", L); anyTextUpTo(x, "x", sym_param("X", 1)); for (Text *t : {&a, &b, &c}) for (int i = 0; i < t->n; i++) sym_assume(t->b[i] != '%' && (unsigned char)(t->b[i]) > 127);
  int v = sym_int("v"); int k = sym_choice("types", 4); std::string f = std::string(a.b) + (k == 0 ? "%d" : k == 1 ? "%s" : k == 2 ? "%x" : "%c") + b.b + "%s" + c.b; Text e; e.n = 0; auto put = [&](const char *p, int n) { memcpy(e.b + e.n, p, n); e.n += n; };
  put(a.b, a.n); String r; if (k == 0) { sym_assume((v >= -9999) & (v <= 99999)); String d = String::valueOf(v); put(d.toCharPointer(), d.length()); r = String::format(f, v, String(x.b)); } else if (k == 1) { put(x.b, x.n); r = String::format(f, String(x.b), String(x.b)); } else if (k == 2) { sym_assume((v >= 0) & (v < 256)); char d[3]; int n = 0; for (int s = 4; s >= 0; s -= 4) { int q = (v >> s) & 15; if (s == 4 && q == 0) continue; d[n++] = (char) symx_ite(q < 10, '0' + q, 'a' + q - 10); } put(d, n); r = String::format(f, v, String(x.b)); } else { sym_assume((v > 0) & (v < 128)); char d = (char) v; put(&d, 1); r = String::format(f, v, String(x.b)); }
  put(b.b, b.n); put(x.b, x.n); put(c.b, c.n); e.b[e.n] = 0; sym_assert(isText(r, e), "literals and arguments in order"); sym_reach("end"); }
extern "C" void str_format_missing() { Text a; anyTextUpTo(a, "a", 2); for (int i = 0; i < a.n; i++) sym_assume(a.b[i] != '%' && (unsigned char)(a.b[i]) > 127); int k = sym_choice("n", 3); std::string f = std::string(a.b); bool th; if (k == 0) th = THROWS(InterruptedException, String::format(f + "%d")); else if (k == 1) th = THROWS(InterruptedException, String::format(f + "%d%s", 1)); else th = THROWS(InterruptedException, String::format("%d" + f + "%d%%%s", 1, 2)); sym_assert(th, "a conversion without an argument throws"); sym_assert(!THROWSANY(String::format("%d" + f, 1, 2)), "extra arguments are ignored"); sym_reach("end"); }
extern "C" void str_format_wide() { int w = sym_range("w", 1, sym_param("W", 300)); int k = sym_choice("kind", 3); int W = (int) sym_concrete(w); char f[16]; int n = 0; f[n++] = '%'; if (W >= 100) f[n++] = '0' + W / 100; if (W >= 10) f[n++] = '0' + W / 10 % 10; f[n++] = '0' + W % 10; f[n++] = k == 2 ? 's' : 'd'; f[n] = 0; NOLEAK(String r = k == 0 ? String::format(String(f), 7) : k == 1 ? String::format(String(f), (long) 7) : String::format(String(f), "7"); sym_assert(r.length() == W, "the width is honoured"); bool ok = r[W - 1] == '7'; for (int i = 0; i < W - 1; i++) ok &= r[i] == ' '; sym_assert(ok, "padded with blanks")); sym_reach("end"); }
