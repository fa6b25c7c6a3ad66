#include "hx.h"
typedef unsigned long u64;
static int refClz(u64 x) { int n = 64; for (int i = 0; i < 64; i++) n = (int)symx_ite((int)((x >> i) & 1), 63 - i, n); return n; }
static int refCtz(u64 x) { int n = 64; for (int i = 63; i >= 0; i--) n = (int)symx_ite((int)((x >> i) & 1), i, n); return n; }
extern "C" void lng_bits() {
  long x = sym_long("x"); u64 u = (u64)x; long h = Long::highestOneBit(x); int c = refClz(u); u64 hi = 0; for (int i = 0; i < 64; i++) hi = (u64)symx_ite(c == 63 - i, (long)(1ul << i), (long)hi);
  sym_assert((u64)h == hi, "highestOneBit keeps only the highest set bit"); sym_assert((u64)Long::lowestOneBit(x) == (u & (0ul - u)), "lowestOneBit keeps only the lowest set bit");
  sym_assert(Long::signum(x) == (x > 0) - (x < 0), "signum"); Long A(x); sym_assert(A.hashCode() == (int)(u ^ (u >> 32)), "hashCode folds the two halves"); sym_observe("h", h); sym_reach("end"); }
extern "C" void lng_reverse() {
  long x = sym_long("x"); u64 u = (u64)x, e = 0; for (int i = 0; i < 64; i++) e |= ((u >> i) & 1) << (63 - i); sym_assert((u64)Long::reverse(x) == e, "reverse mirrors the 64 bits");
  u64 rb = 0; for (int i = 0; i < 8; i++) rb |= ((u >> (8 * i)) & 255) << (56 - 8 * i); sym_assert((u64)Long::reverseBytes(x) == rb, "reverseBytes swaps the eight bytes"); sym_reach("end"); }
extern "C" void lng_clz() { long x = sym_long("x"); sym_assert(Long::numberOfLeadingZeros(x) == refClz((u64)x), "numberOfLeadingZeros"); sym_observe("n", Long::numberOfLeadingZeros(x)); sym_reach("end"); }
extern "C" void lng_ctz() { long x = sym_long("x"); sym_assert(Long::numberOfTrailingZeros(x) == refCtz((u64)x), "numberOfTrailingZeros"); sym_observe("n", Long::numberOfTrailingZeros(x)); sym_reach("end"); }
// bitCount of x is the sum over its 16-bit quarters, and right for every 16-bit value at every quarter
extern "C" void lng_count() { long x = sym_long("x"); u64 u = (u64)x; int sum = 0; for (int q = 0; q < 4; q++) sum += Long::bitCount((long)(u & (0xfffful << (16 * q)))); sym_assert(Long::bitCount(x) == sum, "bitCount adds up over the quarters"); sym_reach("end"); }
extern "C" void lng_count16() { u64 h = (u64)sym_range("h", 0, 0xffff); int q = sym_choice("quarter", 4); int pc = 0; for (int i = 0; i < 16; i++) pc += (int)((h >> i) & 1); sym_assert(Long::bitCount((long)(h << (16 * q))) == pc, "bitCount counts the set bits"); sym_reach("end"); }
extern "C" void lng_rotate() {
  long x = sym_long("x"); int d = sym_int("d"); u64 u = (u64)x; unsigned k = (unsigned)d & 63; u64 l = k ? (u << k) | (u >> (64 - k)) : u, r = k ? (u >> k) | (u << (64 - k)) : u;
  sym_assert((u64)Long::rotateLeft(x, d) == l, "rotateLeft"); sym_assert((u64)Long::rotateRight(x, d) == r, "rotateRight"); sym_reach("end"); }
extern "C" void lng_compare() {
  long a = sym_long("a"), b = sym_long("b"); int e = a < b ? -1 : a > b ? 1 : 0; sym_assert(Long::compare(a, b) == e, "compare orders signed values");
  Long A(a), Bv(b); sym_assert(A.compareTo(Bv) == e, "compareTo agrees with compare"); sym_assert((A == Bv) == (a == b), "operator=="); sym_assert((A != Bv) == (a != b), "operator!="); sym_assert((A < Bv) == (a < b), "operator<"); sym_assert((A > Bv) == (a > b), "operator>"); sym_assert((A <= Bv) == (a <= b), "operator<="); sym_assert((A >= Bv) == (a >= b), "operator>=");
  sym_assert(A.equals(Bv) == (a == b), "equals"); sym_assert(a != b || A.hashCode() == Bv.hashCode(), "equal values have equal hash codes");
  sym_assert(A.longValue() == a && A.intValue() == (int)a && A.shortValue() == (short)a && A.byteValue() == (int)(signed char)a, "conversions to other integer widths"); sym_observe("c", e); sym_reach("end"); }
extern "C" void lng_fp() { long a = sym_long("a"); Long A(a); sym_assert(A.doubleValue() == (double)a, "doubleValue"); sym_assert(A.floatValue() == (float)a, "floatValue"); sym_reach("end"); }
extern "C" void lng_arith() {
  long a = sym_long("a"), b = sym_long("b"); Long A(a), Bv(b); u64 ua = a, ub = b;
  sym_assert((A + Bv).longValue() == (long)(ua + ub), "operator+ wraps"); sym_assert((A - Bv).longValue() == (long)(ua - ub), "operator- wraps"); sym_assert((A * Bv).longValue() == (long)(ua * ub), "operator* wraps");
  Long C(a); C += Bv; sym_assert(C.longValue() == (long)(ua + ub), "operator+="); Long D(a); D -= Bv; sym_assert(D.longValue() == (long)(ua - ub), "operator-="); Long F(a); F *= Bv; sym_assert(F.longValue() == (long)(ua * ub), "operator*=");
  Long G(0); G = A; sym_assert(G.longValue() == a && G == A, "assignment copies the value"); Long H(A); sym_assert(H.longValue() == a, "copy construction copies the value"); sym_assert(Bv.longValue() == b && A.longValue() == a, "operands are unchanged"); sym_assert(Long().longValue() == 0, "default value is 0"); sym_assert(Long::valueOf(a).longValue() == a, "valueOf(long)"); sym_reach("end"); }
extern "C" void lng_div() {
  int R = sym_param("R", 100000); long a = sym_long("a"), b = sym_range("b", -R, R); sym_assume((b != 0) & (b != -1)); Long A(a), Bv(b); int op = sym_choice("op", 2);
  if (op == 0) { sym_assert((A / Bv).longValue() == a / b, "operator/"); Long C(a); C /= Bv; sym_assert(C.longValue() == a / b, "operator/="); } else { sym_assert((A % Bv).longValue() == a % b, "operator%"); Long D(a); D %= Bv; sym_assert(D.longValue() == a % b, "operator%="); } sym_reach("end"); }
extern "C" void lng_div_zero() { Long A(sym_long("a")), Z(0); int op = sym_choice("op", 4); bool t = op == 0 ? THROWS(ArithmeticException, A / Z) : op == 1 ? THROWS(ArithmeticException, A % Z) : op == 2 ? THROWS(ArithmeticException, A /= Z) : THROWS(ArithmeticException, A %= Z); sym_assert(t, "division by zero throws"); sym_reach("end"); }
extern "C" void lng_div_min() { long a = sym_long("a"); Long A(a), Bv(-1); int op = sym_choice("op", 4); if (op == 2) A /= Bv; else if (op == 3) A %= Bv; long r = op == 0 ? (A / Bv).longValue() : op == 1 ? (A % Bv).longValue() : A.longValue(); sym_assert(r == ((op & 1) ? 0 : (long)(0ul - (unsigned long)a)), "division by -1 negates, MIN_VALUE wraps"); sym_reach("end"); }
extern "C" void lng_boxtext() {
  int R = sym_param("R", 300); long a = sym_range("a", -R, R), b = sym_range("b", -R, R); int op = sym_choice("op", 6); Long A(a), Bv(b); long e = a;
  switch (op) { case 0: A += Bv; e = a + b; break; case 1: A -= Bv; e = a - b; break; case 2: A = Bv; e = b; break; case 3: sym_assume(b != 0); A /= Bv; e = a / b; break; case 4: sym_assume(b != 0); A %= Bv; e = a % b; break; default: A *= Bv; e = a * b; }
  sym_assert(A.longValue() == e, "value after the operation"); String t = A.toString(); sym_assert(Long::parseLong(t) == e, "toString() reads back as the value"); sym_reach("end"); }
extern "C" void lng_roundtrip() {
  long x = sym_long("x"); Long A(x); String s = A.toString(); int n = s.length(); sym_assert(n >= 1 && n <= 20, "length of the decimal text"); const char *p = s.toCharPointer(); int i = x < 0 ? 1 : 0; if (x < 0) sym_assert(p[0] == '-', "minus sign"); bool dig = true; for (int k = i; k < n; k++) dig &= (unsigned)(p[k] - '0') < 10u; sym_assert(dig, "only decimal digits"); sym_assert(n - i == 1 || p[i] != '0', "no leading zero");
  sym_assert(Long::parseLong(s) == x, "parseLong(toString()) == value"); sym_reach("end"); }
extern "C" void lng_static_text() { long x = sym_long("x"), y = sym_long("y"); String a = Long::toString(x), b = Long::toString(y); sym_assert(Long::parseLong(a) == x, "toString(long) of the first value"); sym_assert(Long::parseLong(b) == y, "toString(long) of a later value"); sym_reach("end"); }
extern "C" void lng_radix() {
  long x = sym_long("x"); int k = sym_param("k", 0); int sh = k == 0 ? 1 : k == 1 ? 3 : 4; u64 u = (u64)x;
  String s = k == 0 ? Long::toBinaryString(x) : k == 1 ? Long::toOctalString(x) : Long::toHexString(x); int n = s.length(); sym_assert(n >= 1 && n <= (64 + sh - 1) / sh, "length"); const char *p = s.toCharPointer();
  bool ok = true; for (int i = 0; i < n; i++) { unsigned d = (unsigned)((u >> (sh * (n - 1 - i))) & ((1u << sh) - 1)); ok &= (unsigned)(unsigned char)p[i] == (unsigned)symx_ite(d < 10, d + '0', d - 10 + 'a'); } sym_assert(ok, "digits are those of the unsigned value"); sym_assert(n * sh >= 64 || (u >> (n * sh)) == 0, "no digit is missing"); sym_assert(n == 1 || p[0] != '0', "no leading zero");
  if (k == 2 && x >= 0) sym_assert(Long::parseLong(s, 16) == x, "parseLong radix 16 reads it back"); sym_reach("end"); }
extern "C" void lng_radix_bin() { lng_radix(); }
extern "C" void lng_radix_oct() { lng_radix(); }
extern "C" void lng_radix_hex() { lng_radix(); }
extern "C" void lng_parse() {
  int n = 1 + sym_choice("len", sym_param("L", 19)); int sg = sym_choice("sign", 3); int pad = sym_choice("pad", 2); int neg = sg == 1; Text t; int o = 0; if (sg) t.b[o++] = sg == 1 ? '-' : '+'; if (pad) t.b[o++] = '0'; u64 v = decDigits("v", t.b + o, n); o += n; t.b[o] = 0;
  bool fits = neg ? v <= 9223372036854775808ul : v <= 9223372036854775807ul; long e = neg ? (long)(0ul - v) : (long)v; long r = Long::parseLong(String(t.b)); sym_assert(r == symx_ite(fits, e, -1), "value of the digits, or -1 when it does not fit"); sym_observe("r", r); sym_reach("end"); }
extern "C" void lng_parse_long() { int n = 20 + sym_choice("len", sym_param("L", 3)); int sg = sym_choice("sign", 3); Text t; int o = 0; if (sg) t.b[o++] = sg == 1 ? '-' : '+'; u64 v = decDigits("v", t.b + o, 18); sym_assume(v >= 100000000000000000ul); o += 18; for (int i = 18; i < n; i++) t.b[o++] = (char)sym_range("d", '0', '9'); t.b[o] = 0; sym_assert(Long::parseLong(String(t.b)) == -1, "twenty digits or more never fit"); sym_reach("end"); }
extern "C" void lng_parse_bad() {
  int n = sym_choice("len", sym_param("L", 3) + 1); Text t; anyText(t, "c", n); int i = n > 0 && (t.b[0] == '-' || t.b[0] == '+') ? 1 : 0; bool bad = i == n; for (int k = i; k < n; k++) bad = bad | ((unsigned)(t.b[k] - '0') > 9u); sym_assume(bad); sym_assert(Long::decode(String("")).longValue() == -1, "empty text to decode"); sym_assert(Long::parseLong(String(t.b)) == -1, "a text that is not a decimal number reads as -1"); sym_assert(Long::valueOf(String(t.b), 10).longValue() == -1, "valueOf with radix agrees"); sym_reach("end"); }
extern "C" void lng_parse_hex() {
  int n = 1 + sym_choice("len", sym_param("L", 15)); Text t; t.n = n; u64 v = 0; for (int i = 0; i < n; i++) { int d; t.b[i] = hexDigit("h", d); v = v * 16 + (u64)d; } t.b[n] = 0; sym_assert(Long::parseLong(String(t.b), 16) == (long)v, "radix 16"); sym_reach("end"); }
extern "C" void lng_decode() {
  int k = sym_choice("form", 4); int sg = sym_choice("sign", 3); int n = 1 + sym_choice("len", sym_param("L", 5)); Text t; int o = 0; if (sg) t.b[o++] = sg == 1 ? '-' : '+'; long v = 0;
  if (k == 0) for (int i = 0; i < n; i++) { t.b[o] = (char)sym_range("d", i == 0 && n > 1 ? '1' : '0', '9'); v = v * 10 + (t.b[o++] - '0'); }
  else { if (k == 3) t.b[o++] = '#'; else { t.b[o++] = '0'; t.b[o++] = k == 1 ? 'x' : 'X'; } for (int i = 0; i < n; i++) { int d; t.b[o++] = hexDigit("h", d); v = v * 16 + d; } }
  t.b[o] = 0; if (sg == 1) v = -v; sym_assert(Long::decode(String(t.b)).longValue() == v, "decode reads decimal, 0x, 0X and #"); sym_assert(Long::getLong(String(t.b)).longValue() == v && Long::valueOf(String(t.b)).longValue() == v, "getLong and valueOf agree with decode"); sym_reach("end"); }
extern "C" void lng_decode_oct() { Text t; int o = 0; int neg = sym_choice("neg", 2); if (neg) t.b[o++] = '-'; t.b[o++] = '0'; int n = 1 + sym_choice("len", 3); long v = 0; for (int i = 0; i < n; i++) { t.b[o] = (char)sym_range("d", '0', '7'); v = v * 8 + (t.b[o++] - '0'); } t.b[o] = 0; if (neg) v = -v; sym_assert(Long::decode(String(t.b)).longValue() == v, "decode reads octal"); sym_reach("end"); }
