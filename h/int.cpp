#include "hx.h"
// Java's definitions, written bit by bit
static int refClz(unsigned x) { int n = 32; for (int i = 0; i < 32; i++) n = (int)symx_ite((x >> i) & 1, 31 - i, n); return n; }
static int refCtz(unsigned x) { int n = 32; for (int i = 31; i >= 0; i--) n = (int)symx_ite((x >> i) & 1, i, n); return n; }
extern "C" void int_bits() {
  int x = sym_int("x"); unsigned u = (unsigned)x;
  int r = Integer::reverse(x); unsigned e = 0; for (int i = 0; i < 32; i++) e |= ((u >> i) & 1) << (31 - i); sym_assert((unsigned)r == e, "reverse mirrors the 32 bits");
  sym_assert(Integer::reverse(r) == x, "reverse twice is the identity");
  unsigned rb = (u << 24) | ((u & 0xff00) << 8) | ((u >> 8) & 0xff00) | (u >> 24); sym_assert((unsigned)Integer::reverseBytes(x) == rb, "reverseBytes swaps the four bytes");
  sym_assert(Integer::numberOfLeadingZeros(x) == refClz(u), "numberOfLeadingZeros"); 
  int c = refClz(u); unsigned hi = 0; for (int i = 0; i < 32; i++) hi = (unsigned)symx_ite(c == 31 - i, 1u << i, hi);
  sym_assert((unsigned)Integer::highestOneBit(x) == hi, "highestOneBit keeps only the highest set bit");
  sym_assert((unsigned)Integer::lowestOneBit(x) == (u & (0u - u)), "lowestOneBit keeps only the lowest set bit");
  sym_assert(Integer::signum(x) == (x > 0) - (x < 0), "signum"); sym_assert(Integer::hashCode(x) == x, "hashCode of an int is the int"); sym_observe("rev", r); sym_reach("end"); }
extern "C" void int_ctz_count() {
  int x = sym_int("x"); unsigned u = (unsigned)x; int pc = 0; for (int i = 31; i >= 0; i--) pc += (u >> i) & 1;
  sym_assert(Integer::bitCount(x) == pc, "bitCount counts the set bits"); sym_assert(Integer::numberOfTrailingZeros(x) == refCtz(u), "numberOfTrailingZeros"); sym_observe("n", Integer::bitCount(x)); sym_reach("end"); }
extern "C" void int_rotate() {
  int x = sym_int("x"), d = sym_int("d"); unsigned u = (unsigned)x; unsigned k = (unsigned)d & 31; unsigned l = k ? (u << k) | (u >> (32 - k)) : u, r = k ? (u >> k) | (u << (32 - k)) : u;
  sym_assert((unsigned)Integer::rotateLeft(x, d) == l, "rotateLeft"); sym_assert((unsigned)Integer::rotateRight(x, d) == r, "rotateRight");
  sym_assert(Integer::rotateRight(Integer::rotateLeft(x, d), d) == x, "rotations cancel"); sym_reach("end"); }
extern "C" void int_compare() {
  int a = sym_int("a"), b = sym_int("b"); int c = Integer::compare(a, b), cu = Integer::compareUnsigned(a, b); int e = a < b ? -1 : a > b ? 1 : 0, eu = (unsigned)a < (unsigned)b ? -1 : (unsigned)a > (unsigned)b ? 1 : 0;
  sym_assert(c == e, "compare orders signed values"); sym_assert(cu == eu, "compareUnsigned orders unsigned values"); sym_assert(Integer::max(a, b) == (a > b ? a : b), "max"); sym_assert(Integer::min(a, b) == (a < b ? a : b), "min"); sym_assert(Integer::sum(a, b) == (int)((unsigned)a + (unsigned)b), "sum wraps");
  sym_assert(Integer::toUnsignedLong(a) == (long)(unsigned)a, "toUnsignedLong");
  Integer A(a), Bv(b); sym_assert(A.compareTo(Bv) == e, "compareTo agrees with compare"); sym_assert((A == Bv) == (a == b), "operator=="); sym_assert((A != Bv) == (a != b), "operator!="); sym_assert((A < Bv) == (a < b), "operator<"); sym_assert((A > Bv) == (a > b), "operator>"); sym_assert((A <= Bv) == (a <= b), "operator<="); sym_assert((A >= Bv) == (a >= b), "operator>=");
  sym_assert(A.equals(Bv) == (a == b), "equals"); sym_assert(A.hashCode() == a, "hashCode agrees with equals");
  sym_assert(A.longValue() == (long)a && A.intValue() == a && A.shortValue() == (short)a && A.byteValue() == (byte)a, "conversions to other integer widths"); sym_observe("c", c); sym_reach("end"); }
extern "C" void int_fp() { int a = sym_int("a"); Integer A(a); sym_assert(A.doubleValue() == (double)a, "doubleValue"); sym_assert(A.floatValue() == (float)a, "floatValue"); sym_reach("end"); }
extern "C" void int_div() {
  int a = sym_int("a"), b = sym_int("b"); int op = sym_choice("op", 2);
  if (op == 0) { if (b == 0) { sym_assert(THROWS(ArithmeticException, Integer::divideUnsigned(a, b)), "divideUnsigned by zero throws ArithmeticException"); sym_assert(THROWS(ArithmeticException, Integer::remainderUnsigned(a, b)), "remainderUnsigned by zero throws ArithmeticException"); sym_reach("zero"); }
    else { sym_assert((unsigned)Integer::divideUnsigned(a, b) == (unsigned)a / (unsigned)b, "divideUnsigned"); sym_assert((unsigned)Integer::remainderUnsigned(a, b) == (unsigned)a % (unsigned)b, "remainderUnsigned"); sym_reach("nonzero"); } }
  else { Integer A(a), Bv(b);
    if (b == 0) { sym_assert(THROWS(ArithmeticException, A / Bv), "operator/ by zero throws"); sym_assert(THROWS(ArithmeticException, A % Bv), "operator% by zero throws"); sym_assert(THROWS(ArithmeticException, A /= Bv), "operator/= by zero throws"); sym_assert(THROWS(ArithmeticException, A %= Bv), "operator%= by zero throws"); sym_assert(A.intValue() == a, "a failed division leaves the value"); }
    else { sym_assert((A / Bv).intValue() == (int)((long)a / b), "operator/ wraps"); sym_assert((A % Bv).intValue() == (int)((long)a % b), "operator%"); Integer C(a); C /= Bv; sym_assert(C.intValue() == (int)((long)a / b), "operator/="); Integer D(a); D %= Bv; sym_assert(D.intValue() == (int)((long)a % b), "operator%="); } }
  sym_reach("end"); }
extern "C" void int_div_min() { Integer A(INT_MIN), Bv(-1); int op = sym_choice("op", 4); int r = op == 0 ? (A / Bv).intValue() : op == 1 ? (A % Bv).intValue() : op == 2 ? (A /= Bv).intValue() : (A %= Bv).intValue(); sym_assert(r == ((op & 1) ? 0 : INT_MIN), "MIN_VALUE / -1 wraps"); sym_reach("end"); }
static bool sameBox(const Integer &i, int v) { Integer w(v); return i.intValue() == v && strcmp(i.stringValue(), w.stringValue()) == 0; }
extern "C" void int_arith() {
  int a = sym_int("a"), b = sym_int("b"); Integer A(a), Bv(b); unsigned ua = a, ub = b;
  sym_assert((A + Bv).intValue() == (int)(ua + ub), "operator+ wraps"); sym_assert((A - Bv).intValue() == (int)(ua - ub), "operator- wraps"); sym_assert((A * Bv).intValue() == (int)(ua * ub), "operator* wraps");
  Integer C(a); C += Bv; sym_assert(C.intValue() == (int)(ua + ub), "operator+="); Integer D(a); D -= Bv; sym_assert(D.intValue() == (int)(ua - ub), "operator-="); Integer F(a); F *= Bv; sym_assert(F.intValue() == (int)(ua * ub), "operator*=");
  Integer G(0); G = A; sym_assert(G.intValue() == a && G == A, "assignment copies the value"); Integer H(A); sym_assert(H.intValue() == a, "copy construction copies the value"); sym_assert(Bv.intValue() == b && A.intValue() == a, "operands are unchanged"); sym_assert(Integer().intValue() == 0, "default value is 0"); sym_assert(Integer::valueOf(a).intValue() == a, "valueOf(int)"); sym_reach("end"); }
// the text carried by a boxed Integer follows its value through every mutation
extern "C" void int_boxtext() {
  int R = sym_param("R", 300); int a = sym_range("a", -R, R), b = sym_range("b", -R, R); int op = sym_choice("op", 5); Integer A(a), Bv(b); int e = a; 
  switch (op) { case 0: A += Bv; e = a + b; break; case 1: A -= Bv; e = a - b; break; case 2: A = Bv; e = b; break; case 3: sym_assume(b != 0); A /= Bv; e = a / b; break; default: sym_assume(b != 0); A %= Bv; e = a % b; break; }
  sym_assert(A.intValue() == e, "value after the operation"); String t = A.toString(); sym_assert(Integer::parseInt(t) == e, "toString() reads back as the value"); sym_assert(strcmp(A.stringValue(), t.toCharPointer()) == 0, "stringValue() and toString() agree"); sym_assert(t == Integer(e).toString(), "equal values have equal texts"); sym_reach("end"); }
extern "C" void int_roundtrip() {
  int x = sym_int("x"); String s = Integer::toString(x); int n = s.length(); sym_assert(n >= 1 && n <= 11, "length of the decimal text"); const char *p = s.toCharPointer(); int i = x < 0 ? 1 : 0; if (x < 0) sym_assert(p[0] == '-', "minus sign"); bool dig = true; for (int k = i; k < n; k++) dig &= (unsigned)(p[k] - '0') < 10u; sym_assert(dig, "only decimal digits"); sym_assert(n - i == 1 || p[i] != '0', "no leading zero");
  sym_assert(Integer::parseInt(s) == x, "parseInt(toString(x)) == x"); sym_reach("end"); }
extern "C" void int_roundtrip_box() { int x = sym_int("x"); Integer A(x); String s = A.toString(); sym_assert(Integer::valueOf(s).intValue() == x, "valueOf(toString()) == value"); Integer Bv(s); sym_assert(Bv == A, "construction from the text"); sym_reach("end"); }
extern "C" void int_radix() {
  int x = sym_int("x"); int k = sym_choice("radix", 3); int radix = k == 0 ? 2 : k == 1 ? 8 : 16; int sh = k == 0 ? 1 : k == 1 ? 3 : 4; unsigned u = x;
  String s = k == 0 ? Integer::toBinaryString(x) : k == 1 ? Integer::toOctalString(x) : Integer::toHexString(x); int n = s.length(); sym_assert(n >= 1 && n <= (32 + sh - 1) / sh, "length"); const char *p = s.toCharPointer();
  bool ok = true; for (int i = 0; i < n; i++) { unsigned d = (u >> (sh * (n - 1 - i))) & ((1u << sh) - 1); ok &= (unsigned)(unsigned char)p[i] == (unsigned)symx_ite(d < 10, d + '0', d - 10 + 'a'); } sym_assert(ok, "digits are those of the unsigned value"); sym_assert(n * sh >= 32 || (u >> (n * sh)) == 0, "no digit is missing"); sym_assert(n == 1 || p[0] != '0', "no leading zero"); 
  sym_assert(Integer::parseUnsignedInt(s, radix) == x, "parseUnsignedInt reads it back"); sym_reach("end"); }
extern "C" void int_unsigned_dec() { int x = sym_int("x"); String s = Integer::toUnsignedString(x); sym_assert(Integer::parseUnsignedInt(s) == x, "parseUnsignedInt(toUnsignedString(x)) == x"); sym_reach("end"); }
// reading any text of digits, with an optional minus sign
extern "C" void int_parse() {
  int n = 1 + sym_choice("len", sym_param("L", 11)); int neg = sym_choice("neg", 2); Text t; int o = 0; if (neg) t.b[o++] = '-'; for (int i = 0; i < n; i++) t.b[o++] = (char)sym_range("digit", '0', '9'); t.b[o] = 0; t.n = o;
  long v = 0; for (int i = 0; i < n; i++) v = v * 10 + (t.b[neg + i] - '0'); if (neg) v = -v; bool fits = v >= INT_MIN && v <= INT_MAX; int r = 0; String s(t.b); bool nfe = THROWS(NumberFormatException, r = Integer::parseInt(s));
  sym_assert(nfe == !fits, "NumberFormatException exactly when the value does not fit"); if (fits) { sym_assert(r == (int)v, "value of the digits"); sym_reach("fits"); } else sym_reach("range"); sym_reach("end"); }
// texts that are not numbers
extern "C" void int_parse_bad() {
  Text t; anyText(t, "c", 1 + sym_choice("len", sym_param("L", 2))); char c = t.b[0]; sym_assume(!((c >= '0' && c <= '9') || c == '-' || c == '+' || c == ' ' || (c >= 9 && c <= 13))); String s(t.b);
  sym_assert(THROWS(NumberFormatException, Integer::parseInt(s)), "parseInt rejects a text that starts with no digit"); sym_assert(THROWS(NumberFormatException, Integer::parseUnsignedInt(s)), "parseUnsignedInt rejects it"); sym_assert(THROWS(NumberFormatException, Integer::valueOf(s)), "valueOf rejects it"); sym_assert(THROWS(NumberFormatException, Integer x(s)), "the constructor rejects it"); sym_reach("end"); }
extern "C" void int_parse_edge() {
  sym_assert(THROWS(NumberFormatException, Integer::parseInt(String(""))), "empty text"); sym_assert(THROWS(NumberFormatException, Integer::decode(String(""))), "empty text to decode"); sym_assert(THROWS(NumberFormatException, Integer::parseUnsignedInt(String("-1"))), "unsigned minus"); int r = sym_int("radix"); sym_assume(r < 2 || r > 36); sym_assert(THROWS(NumberFormatException, Integer::parseInt(String("1"), r)), "radix outside 2..36"); sym_assert(THROWS(NumberFormatException, Integer::parseUnsignedInt(String("1"), r)), "unsigned radix outside 2..36"); sym_reach("end"); }
// any text up to L characters: a number exactly when it is an optional sign followed by decimal digits
extern "C" void int_parse_any() { int n = 1 + sym_choice("len", sym_param("L", 3)); Text t; anyText(t, "c", n); char c0 = t.b[0]; int i = (int)symx_ite((c0 == '-') | (c0 == '+'), 1, 0); i = (int)sym_concrete(i); bool good = n > i; long v = 0; for (int k = i; k < n; k++) { good = good & ((unsigned)(t.b[k] - '0') <= 9u); v = v * 10 + (t.b[k] - '0'); } if (c0 == '-') v = -v; String s(t.b); int r = 0; int k = sym_choice("api", 4); bool uns = k == 1; if (uns) good = good & (c0 != '-');
  bool th = THROWS(NumberFormatException, r = k == 0 ? Integer::parseInt(s) : uns ? Integer::parseUnsignedInt(s) : k == 2 ? Integer::valueOf(s).intValue() : Integer(s).intValue()); sym_assert(th == !good, "NumberFormatException exactly for a text that is no number"); if (good) sym_assert(r == (int)v, "the value"); sym_reach("end"); }
extern "C" void int_parse_hex() { int n = 1 + sym_choice("len", sym_param("L", 9)); int neg = sym_choice("neg", 2); Text t; int o = 0; if (neg) t.b[o++] = '-'; unsigned long v = 0; for (int i = 0; i < n; i++) { int d; t.b[o++] = hexDigit("h", d); v = v * 16 + (unsigned long)d; } t.b[o] = 0; int k = sym_choice("api", 2); if (k && neg) return; String s(t.b); int r = 0; bool th = THROWS(NumberFormatException, r = k ? Integer::parseUnsignedInt(s, 16) : Integer::parseInt(s, 16)); bool fits = k ? v <= 0xfffffffful : neg ? v <= 0x80000000ul : v <= 0x7ffffffful; sym_assert(th == !fits, "NumberFormatException exactly when the value does not fit"); if (fits) sym_assert((unsigned)r == (neg ? 0u - (unsigned)v : (unsigned)v), "the value"); sym_reach("end"); }
extern "C" void int_parse_uns() { int n = 1 + sym_choice("len", sym_param("L", 12)); int plus = sym_choice("plus", 2); Text t; int o = 0; if (plus) t.b[o++] = '+'; unsigned long v = 0; for (int i = 0; i < n; i++) { t.b[o] = (char)sym_range("digit", '0', '9'); v = v * 10 + (unsigned long)(t.b[o++] - '0'); } t.b[o] = 0; String s(t.b); int r = 0; bool th = THROWS(NumberFormatException, r = Integer::parseUnsignedInt(s)); bool fits = v <= 0xfffffffful; sym_assert(th == !fits, "NumberFormatException exactly when the value does not fit 32 bits"); if (fits) sym_assert((unsigned)r == (unsigned)v, "the value, leading zeros included"); sym_reach("end"); }
extern "C" void int_parse_wrap() { Text t; for (int i = 0; i < 20; i++) t.b[i] = (char)sym_range("digit", '0', '9'); t.b[20] = 0; sym_assume(t.b[0] == '1'); String s(t.b); sym_assert(THROWS(NumberFormatException, Integer::parseInt(s)), "twenty digits never fit"); sym_reach("end"); }
extern "C" void int_decode_edge() {
  int k = sym_choice("form", 3); Text t; strcpy(t.b, k == 0 ? "-2147483648" : k == 1 ? "-0x80000000" : "-020000000000"); int last = (int)strlen(t.b) - 1; int d = sym_range("d", 0, 7); t.b[last] = (char)('0' + d); long v = k == 0 ? -2147483640l - d : -2147483648l - d; int r = 0; bool th = THROWS(NumberFormatException, r = Integer::decode(String(t.b)).intValue()); sym_assert(th == (v < INT_MIN) && (th || r == (int)v), "the smallest value is read, anything below throws");
  t.n = 1 + sym_choice("len", 2); anyText(t, "c", t.n); sym_assume(t.b[0] == '-' || t.b[0] == '+'); sym_assume(t.n == 1 || (unsigned)(t.b[1] - '0') > 9u); sym_assert(THROWS(NumberFormatException, Integer::decode(String(t.b))), "a sign without digits is no number"); sym_reach("end"); }
extern "C" void int_decode() {
  int k = sym_choice("form", 3); int neg = sym_choice("neg", 2); int n = 1 + sym_choice("len", sym_param("L", 4)); Text t; int o = 0; if (neg) t.b[o++] = '-'; long v = 0;
  if (k == 0) { for (int i = 0; i < n; i++) { t.b[o] = (char)sym_range("d", i == 0 && n > 1 ? '1' : '0', '9'); v = v * 10 + (t.b[o++] - '0'); } }
  else if (k == 1) { t.b[o++] = '0'; t.b[o++] = sym_choice("X", 2) ? 'X' : 'x'; for (int i = 0; i < n; i++) { int d = sym_range("h", 0, 15); t.b[o++] = (char)symx_ite(d < 10, d + '0', d - 10 + 'a'); v = v * 16 + d; } }
  else { t.b[o++] = '0'; for (int i = 0; i < n; i++) { t.b[o] = (char)sym_range("d", '0', '7'); v = v * 8 + (t.b[o++] - '0'); } }
  t.b[o] = 0; if (neg) v = -v; int r = 0; bool ok = NOTHROW(r = Integer::decode(String(t.b)).intValue()); sym_assert(ok && r == (int)v, "decode reads decimal, 0x and leading-0 octal"); sym_reach("end"); }
