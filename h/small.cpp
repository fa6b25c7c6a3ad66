// Short, Bytes, Boolean, Character
#include "hx.h"
static int sgn(int x) { return (x > 0) - (x < 0); }
extern "C" void short_arith() {
  short a = sym_short("a"), b = sym_short("b"); Short A(a), Bv(b);
  sym_assert((A + Bv).shortValue() == (short)(a + b), "operator+ wraps"); sym_assert((A - Bv).shortValue() == (short)(a - b), "operator- wraps"); sym_assert((A * Bv).shortValue() == (short)(a * b), "operator* wraps");
  sym_assert((A == Bv) == (a == b) && (A != Bv) == (a != b), "equality"); sym_assert((A < Bv) == (a < b) && (A > Bv) == (a > b) && (A <= Bv) == (a <= b) && (A >= Bv) == (a >= b), "ordering");
  sym_assert(A.intValue() == a && A.longValue() == a && A.shortValue() == a, "integer conversions"); sym_assert(A.floatValue() == (float)a && A.doubleValue() == (double)a, "floating conversions");
  Short C(A); sym_assert(C.shortValue() == a, "copy"); C = Bv; sym_assert(C.shortValue() == b, "assignment"); sym_assert(Short().shortValue() == 0, "default"); sym_observe("s", (A + Bv).shortValue()); sym_reach("end"); }
extern "C" void short_div() { short a = sym_short("a"), b = sym_short("b"); sym_assume(b != 0); Short A(a), Bv(b); sym_assert((A / Bv).shortValue() == (short)(a / b), "operator/"); sym_assert((A % Bv).shortValue() == (short)(a % b), "operator%"); sym_reach("end"); }
extern "C" void short_text() {
  short a = sym_short("a"); Short A(a); String s = A.toString(); int n = s.length(); const char *p = s.toCharPointer(); int neg = p[0] == '-'; sym_assert(neg == (a < 0), "sign"); int v = 0; bool ok = n - neg >= 1; for (int i = neg; i < n; i++) { ok &= (unsigned)(p[i] - '0') < 10u; v = v * 10 + (p[i] - '0'); }
  sym_assert(ok && (n - neg == 1 || p[neg] != '0'), "decimal digits without leading zero"); sym_assert((neg ? -v : v) == a, "the text is the value"); sym_assert(Short::parseShort(s).shortValue() == a, "parseShort reads it back"); sym_assert(A.charValue() == p[0], "charValue is the first character of the text"); Short Bv(0); Bv = A; sym_assert(isText(Bv.toString(), p, n), "assignment keeps the text"); sym_reach("end"); }
typedef unsigned char u8;
extern "C" void bytes_arith() {
  u8 a = sym_byte("a"), b = sym_byte("b"); Bytes A(a), Bv(b); int op = sym_choice("op", 3);
  if (op == 0) { sym_assert((A + Bv).byteValue() == (u8)(a + b), "operator+ wraps"); A += Bv; sym_assert(A.byteValue() == (u8)(a + b), "operator+="); a = (u8)(a + b); }
  else if (op == 1) { sym_assert((A - Bv).byteValue() == (u8)(a - b), "operator- wraps"); A -= Bv; sym_assert(A.byteValue() == (u8)(a - b), "operator-="); a = (u8)(a - b); }
  else { sym_assert((A * Bv).byteValue() == (u8)(a * b), "operator* wraps"); A *= Bv; sym_assert(A.byteValue() == (u8)(a * b), "operator*="); a = (u8)(a * b); }
  sym_assert((A == Bv) == (a == b) && (A != Bv) == (a != b), "equality"); sym_assert((A < Bv) == (a < b) && (A > Bv) == (a > b) && (A <= Bv) == (a <= b) && (A >= Bv) == (a >= b), "ordering");
  sym_assert(Bytes::compare(a, b) == a - b && A.compareTo(Bv) == a - b, "compare"); sym_assert(A.hashCode() == a && Bytes::hashCode(b) == b, "hashCode"); sym_assert(Bytes::toUnsignedInt(a) == a && Bytes::toUnsignedLong(a) == a, "toUnsigned");
  sym_assert(A.intValue() == a && A.longValue() == a && A.shortValue() == a && (u8)A.charValue() == a && A.floatValue() == (float)a && A.doubleValue() == (double)a, "conversions"); Bytes C(A); sym_assert(C.byteValue() == a, "copy"); C = Bv; sym_assert(C.byteValue() == b, "assignment"); sym_observe("r", a); sym_reach("end"); }
extern "C" void bytes_div() { u8 a = sym_byte("a"), b = sym_byte("b"); Bytes A(a), Bv(b); int op = sym_choice("op", 2); 
  if (b == 0) { sym_assert(THROWS(ArithmeticException, op ? A % Bv : A / Bv), "division by zero throws"); sym_assert(THROWS(ArithmeticException, op ? A %= Bv : A /= Bv), "compound division by zero throws"); sym_assert(A.byteValue() == a, "value kept after the exception"); String t = A.toString(); sym_assert(Bytes::parseBytes(t) == a, "text kept after the exception"); sym_reach("zero"); }
  else { u8 e = op ? a % b : a / b; sym_assert((op ? A % Bv : A / Bv).byteValue() == e, "division"); if (op) A %= Bv; else A /= Bv; sym_assert(A.byteValue() == e, "compound division"); sym_assert(isText(A.toString(), Bytes(e).toString().toCharPointer()) && A.equals(Bytes(e)), "text after compound division"); sym_reach("end"); } }
static int dec3(const String &s) { int n = s.length(); const char *p = s.toCharPointer(); if (n < 1 || n > 3) return -1; if (n > 1 && p[0] == '0') return -2; int v = 0; for (int i = 0; i < n; i++) { if ((unsigned)(p[i] - '0') > 9u) return -3; v = v * 10 + (p[i] - '0'); } return v; }
extern "C" void bytes_text() { u8 a = sym_byte("a"), b = sym_byte("b"); int op = sym_choice("op", 5); Bytes A(a); u8 e = a; if (op == 1) { A += Bytes(b); e = a + b; } else if (op == 2) { A -= Bytes(b); e = a - b; } else if (op == 3) { A = Bytes(b); e = b; } else if (op == 4) { A *= Bytes(b); e = a * b; }
  sym_assert(dec3(A.toString()) == e, "toString is the value"); sym_assert(dec3(Bytes::toString(e)) == e, "static toString"); sym_assert(Bytes::parseBytes(A.toString()) == e, "parseBytes reads it back"); sym_assert(A.equals(Bytes(e)), "equals its own value"); Bytes Cp(A); sym_assert(dec3(Cp.toString()) == e, "text of a copy"); sym_reach("end"); }
extern "C" void bytes_parse() { int n = 1 + sym_choice("len", sym_param("L", 5)); int neg = sym_choice("neg", 2); Text t; int o = 0; if (neg) t.b[o++] = '-'; int v = 0; for (int i = 0; i < n; i++) { t.b[o] = (char)sym_range("d", '0', '9'); v = v * 10 + (t.b[o++] - '0'); } t.b[o] = 0; if (neg) v = -v; String s(t.b); byte r = 0; int k = sym_choice("api", 4); bool th = THROWS(NumberFormatException, r = k == 0 ? Bytes::parseBytes(s) : k == 1 ? Bytes::valueOf(s).byteValue() : k == 2 ? Bytes(s).byteValue() : Bytes::valueOf(s, 10).byteValue()); sym_assert(th == (v < 0 || v > 255), "NumberFormatException exactly when out of range"); if (!th) { sym_assert(r == v, "value"); sym_reach("end"); } }
extern "C" void bytes_valueof() { u8 a = sym_byte("a"), b = sym_byte("b"); { static const u8 base[] = {0, 62, 126, 200, 254}; a = base[sym_choice("base", 5)] + (a & 1); b = base[sym_choice("base2", 5)] + (b & 1); } Bytes A = Bytes::valueOf(a), Bv = Bytes::valueOf(b); sym_assert(A.byteValue() == a && Bv.byteValue() == b, "valueOf twice"); sym_reach("end"); }
extern "C" void bytes_decode() { int k = sym_choice("form", 3); int n = 1 + sym_choice("len", 3); Text t; int o = 0; int v = 0; if (k) { t.b[o++] = '0'; if (k == 1) t.b[o++] = 'x'; } for (int i = 0; i < n; i++) { if (k == 0) { t.b[o] = (char)sym_range("d", i ? '0' : '1', '9'); v = v * 10 + t.b[o++] - '0'; } else if (k == 2) { t.b[o] = (char)sym_range("d", '0', '7'); v = v * 8 + t.b[o++] - '0'; } else { int d; t.b[o++] = hexDigit("h", d); v = v * 16 + d; } } t.b[o] = 0; int r = 0; bool th = THROWS(NumberFormatException, r = Bytes::decode(String(t.b)).byteValue()); sym_assert(th == (v > 255), "NumberFormatException exactly when out of range"); sym_assert(th || r == v, "value"); sym_reach("end"); }
extern "C" void boolean_ops() { bool a = sym_bool("a"), b = sym_bool("b"); Boolean A(a), Bv(b); sym_assert(A.booleanValue() == a, "booleanValue"); sym_assert(sgn(Boolean::compare(a, b)) == (int)a - (int)b, "compare"); sym_assert(sgn(A.compareTo(Bv)) == (int)a - (int)b, "compareTo"); sym_assert(isText(A.toString(), a ? "true" : "false"), "toString"); sym_assert(isText(Boolean::toString((boolean) b), b ? "true" : "false"), "static toString"); sym_assert(Boolean::valueOf(a).booleanValue() == a, "valueOf"); A = Bv; sym_assert(A.booleanValue() == b, "assignment"); sym_assert(Boolean::parseBoolean(Bv.toString().toCharPointer()) == b, "parseBoolean reads toString back"); sym_reach("end"); }
extern "C" void boolean_parse() { int n = sym_choice("len", sym_param("L", 6) + 1); Text t; textFrom(t, "c", n, 1, 127); bool e = n == 4 && (t.b[0] | 32) == 't' && (t.b[1] | 32) == 'r' && (t.b[2] | 32) == 'u' && (t.b[3] | 32) == 'e'; int k = sym_choice("api", 3); bool r = k == 0 ? Boolean::parseBoolean(t.b) : k == 1 ? Boolean::valueOf(t.b).booleanValue() : Boolean::getBoolean(t.b); sym_assert(r == e, "true exactly for the word true in any case"); sym_reach("end"); }
extern "C" void char_digit() { int c = sym_int("c"), r = sym_int("radix"); int d = Character::digit(c, r); int v = (int)symx_ite((unsigned)(c - '0') < 10u, c - '0', symx_ite((unsigned)(c - 'a') < 26u, c - 'a' + 10, symx_ite((unsigned)(c - 'A') < 26u, c - 'A' + 10, -1))); int e = (int)symx_ite((r >= 2) & (r <= 36) & (v < r), v, -1); sym_assert(d == e, "digit value in any radix from 2 to 36"); sym_observe("d", d); sym_reach("end"); }
extern "C" void short_parse() { int n = 1 + sym_choice("len", sym_param("L", 6)); int neg = sym_choice("neg", 2); Text t; int o = 0; if (neg) t.b[o++] = '-'; int v = 0; for (int i = 0; i < n; i++) { t.b[o] = (char)sym_range("d", '0', '9'); v = v * 10 + (t.b[o++] - '0'); } t.b[o] = 0; if (neg) v = -v; short r = 0; bool th = THROWS(NumberFormatException, r = Short::parseShort(String(t.b)).shortValue()); sym_assert(th == (v < -32768 || v > 32767), "NumberFormatException exactly when out of range"); if (!th) { sym_assert(r == v, "decimal value"); sym_reach("end"); } }
extern "C" void short_parse_bad() { int n = 1 + sym_choice("len", sym_param("L", 2)); Text t; anyText(t, "c", n); char c = t.b[n - 1]; sym_assume((unsigned)(c - '0') > 9u); sym_assert(THROWS(NumberFormatException, Short::parseShort(String(t.b))), "a text that is no number"); sym_reach("end"); }
extern "C" void char_misc() { char a = (char)sym_byte("a"), b = (char)sym_byte("b"); int cp = sym_int("cp"); sym_assert(Character::compare(a, b) == a - b, "compare"); Character A(a), Bv(b); sym_assert(A.charValue() == a, "charValue"); sym_assert(A.compareTo(Bv) == a - b, "compareTo"); sym_assert(Character().charValue() == 0, "default"); sym_assert(A.charCount(cp) == (cp >= 0x10000 ? 2 : 1), "charCount"); sym_reach("end"); }
extern "C" void char_surrogate() { int h = sym_int("h"), l = sym_int("l"); bool eh = h >= 0xD800 && h <= 0xDBFF, el = l >= 0xDC00 && l <= 0xDFFF; sym_assert(Character::isHighSurrogate(h) == eh, "isHighSurrogate"); sym_assert(Character::isLowSurrogate(l) == el, "isLowSurrogate"); sym_assert(Character::isSurrogate(h) == (h >= 0xD800 && h <= 0xDFFF), "isSurrogate"); sym_assume(eh && el); sym_assert(Character::toCodePoint(h, l) == 0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00), "toCodePoint"); sym_reach("end"); }
extern "C" void char_codepoints() { int n = 1 + sym_choice("len", sym_param("L", 3)); Text t; anyText(t, "c", n); Array<char> a; for (int i = 0; i < n; i++) a.push(t.b[i]); int ix = sym_range("i", -2, n + 2), lim = sym_range("lim", -2, n + 2);
  int r = 0; int k = sym_choice("api", 3); if (k == 0) { sym_assume(ix >= 0); r = Character::codePointAt(a, ix, lim); sym_assert(r == ((ix >= lim || lim < 0 || lim > n) ? -1 : (int)t.b[sym_concrete(ix) < n ? sym_concrete(ix) : 0]), "codePointAt with limit"); } else if (k == 1) { sym_assume(ix <= n); r = Character::codePointBefore(a, ix, lim); sym_assert(r == ((ix <= lim || lim < 0 || lim >= n) ? -1 : (int)t.b[sym_concrete(ix) >= 1 ? sym_concrete(ix) - 1 : 0]), "codePointBefore with start"); } else { r = Character::codePointCount(a, ix, lim); sym_assert(r == ((lim > n - ix || ix < 0 || lim < 0) ? -1 : lim), "codePointCount"); } sym_reach("end"); }
