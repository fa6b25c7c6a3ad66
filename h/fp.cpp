// Float, Double, Math
#include "hx.h"
#include <cmath>
#include <cstdint>
static unsigned fb(float f) { unsigned u; memcpy(&u, &f, 4); return u; }
static unsigned long db(double d) { unsigned long u; memcpy(&u, &d, 8); return u; }
static bool sameF(float a, float b) { return (a != a && b != b) || fb(a) == fb(b); }
static bool sameD(double a, double b) { return (a != a && b != b) || db(a) == db(b); }
extern "C" void flt_compare() {
  float a = sym_float("a"), b = sym_float("b"); bool na = a != a, nb = b != b; sym_assume(!(na && nb)); int e = na ? 1 : nb ? -1 : a < b ? -1 : a > b ? 1 : 0; 
  if (na || nb) { float v = na ? b : a; sym_assume(v == 1.5f || v == 0.0f || v == -2.0f || v == Float::POSITIVE_INFINITY || v == Float::NEGATIVE_INFINITY); if (na) b = (float)0; }
  if (na) { int k = sym_choice("other", 4); b = k == 0 ? 1.5f : k == 1 ? -2.0f : k == 2 ? INFINITY : -INFINITY; a = NAN; } else if (nb) { int k = sym_choice("other", 4); a = k == 0 ? 1.5f : k == 1 ? -2.0f : k == 2 ? INFINITY : -INFINITY; b = NAN; }
  sym_assert(Float::compare(a, b) == e, "compare orders by value, NaN last"); sym_assume(!na && !nb); Float A(a), Bv(b); sym_assert(A.compareTo(Bv) == e, "compareTo agrees"); sym_assert((A == Bv) == (e == 0) && (A != Bv) == (e != 0), "equality operators"); sym_assert((A < Bv) == (e < 0) && (A > Bv) == (e > 0) && (A <= Bv) == (e <= 0) && (A >= Bv) == (e >= 0), "ordering operators"); sym_assert(A.equals(Bv) == (e == 0), "equals"); sym_reach("end"); }
extern "C" void dbl_compare() {
  double a = sym_double("a"), b = sym_double("b"); sym_assume(a == a && b == b); int e = a < b ? -1 : a > b ? 1 : 0; 
  sym_assert(Double::compare(a, b) == e, "compare orders by value"); Double A(a), Bv(b); sym_assert(A.compareTo(Bv) == e, "compareTo agrees"); sym_assert((A == Bv) == (e == 0) && (A != Bv) == (e != 0), "equality operators"); sym_assert((A < Bv) == (e < 0) && (A > Bv) == (e > 0) && (A <= Bv) == (e <= 0) && (A >= Bv) == (e >= 0), "ordering operators"); sym_assert(A.equals(Bv) == (e == 0), "equals"); sym_reach("end"); }
extern "C" void flt_arith() { float a = sym_float("a"), b = sym_float("b"); Float A(a), Bv(b); int op = sym_choice("op", 4); float e = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; Float R = op == 0 ? A + Bv : op == 1 ? A - Bv : op == 2 ? A * Bv : A / Bv; sym_assert(sameF(R.floatValue(), e), "IEEE arithmetic"); Float Q = op == 0 ? (A += Bv) : op == 1 ? (A -= Bv) : op == 2 ? (A *= Bv) : (A /= Bv); sym_assert(sameF(Q.floatValue(), e), "compound operators yield the result"); sym_reach("end"); }
extern "C" void dbl_arith() { double a = sym_double("a"), b = sym_double("b"); Double A(a), Bv(b); int op = sym_choice("op", 4); double e = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; Double R = op == 0 ? A + Bv : op == 1 ? A - Bv : op == 2 ? A * Bv : A / Bv; sym_assert(sameD(R.doubleValue(), e), "IEEE arithmetic"); Double Q = op == 0 ? (A += Bv) : op == 1 ? (A -= Bv) : op == 2 ? (A *= Bv) : (A /= Bv); sym_assert(sameD(Q.doubleValue(), e), "compound operators yield the result"); sym_reach("end"); }
extern "C" void flt_value() { float a = sym_float("a"), b = sym_float("b"); Float A(a); sym_assert(sameF(A.floatValue(), a), "floatValue"); sym_assert(sameD(A.doubleValue(), (double)a), "doubleValue"); Float C(A); sym_assert(sameF(C.floatValue(), a), "copy"); C = Float(b); sym_assert(sameF(C.floatValue(), b), "assignment"); sym_assert(sameF(Float::valueOf(a).floatValue(), a), "valueOf"); sym_assert(Float().floatValue() == 0, "default");
  sym_assert(Float::isNaN(a) == (a != a) && A.isNaN() == (a != a), "isNaN"); bool inf = (fb(a) & 0x7fffffffu) == 0x7f800000u; sym_assert(Float::isInfinite(a) == inf && A.isInfinite() == inf, "isInfinite"); sym_assert(Float::isFinite(a) == ((fb(a) & 0x7f800000u) != 0x7f800000u), "isFinite");
  int bits = sym_int("bits"); float f = Float::intBitsToFloat(bits); sym_assert(sameF(f, ({ float t; memcpy(&t, &bits, 4); t; })), "intBitsToFloat"); sym_assume(a > -2147483000.0f && a < 2147483000.0f); sym_assert(A.intValue() == (int)a && A.longValue() == (long)a, "integer conversions"); sym_reach("end"); }
extern "C" void dbl_value() { double a = sym_double("a"), b = sym_double("b"); Double A(a); sym_assert(sameD(A.doubleValue(), a), "doubleValue"); sym_assert(sameF(A.floatValue(), (float)a), "floatValue"); Double C(A); sym_assert(sameD(C.doubleValue(), a), "copy"); C = Double(b); sym_assert(sameD(C.doubleValue(), b), "assignment"); sym_assert(sameD(Double::valueOf(a).doubleValue(), a), "valueOf"); sym_assert(Double().doubleValue() == 0, "default");
  sym_assert(Double::isNaN(a) == (a != a) && A.isNaN() == (a != a), "isNaN"); bool inf = (db(a) & 0x7fffffffffffffffull) == 0x7ff0000000000000ull; sym_assert(Double::isInfinite(a) == inf && A.isInfinite() == inf, "isInfinite"); sym_assert(Double::isFinite(a) == ((db(a) & 0x7ff0000000000000ull) != 0x7ff0000000000000ull), "isFinite");
  sym_assume(a > -2147483000.0 && a < 2147483000.0); sym_assert(A.intValue() == (int)a && A.longValue() == (long)a, "integer conversions"); sym_reach("end"); }
extern "C" void flt_bits() { float f = sym_float("f"); sym_assume(f == f); unsigned u = fb(f); int e = (int)symx_ite(f == 0, 0, (u >> 31) ? -(int)(u & 0x7fffffff) : (int)u); sym_assert(Float::floatToIntBits(f) == e, "floatToIntBits: the IEEE bits, negated magnitude for negative values"); sym_assert(Float::floatToRawIntBits(f) == e && Float::hashCode(f) == e, "hashCode and raw bits agree"); sym_observe("b", e); sym_reach("end"); }
extern "C" void dbl_bits() { double f = sym_double("f"); sym_assume(f == f); unsigned long u = db(f); long e = symx_ite(f == 0, 0, (u >> 63) ? -(long)(u & 0x7fffffffffffffff) : (long)u); sym_assert(Double::doubleToLongBits(f) == e, "doubleToLongBits: the IEEE bits, negated magnitude for negative values"); sym_assert(Double::doubleToRawLongBits(f) == e && Double::hashCode(f) == (e ^ (e >> 32)), "hashCode and raw bits agree"); sym_observe("b", e); sym_reach("end"); }
extern "C" void dbl_unbits() { int R = sym_param("R", 20); int k = sym_range("k", -R, R); int j = sym_choice("scale", 3); k = (int)sym_concrete(k); double f = (double)k / (1 << (5 * j)); long b = Double::doubleToLongBits(f); sym_assert((b < 0 ? (unsigned long)-b | 0x8000000000000000ul : (unsigned long)b) == db(f) || k == 0, "magnitude bits are the IEEE bits"); sym_assert(k < 0 || Double::longBitsToDouble(b) == f || k == 0, "longBitsToDouble inverts"); sym_assert(Double::hashCode(f) == (b ^ (b >> 32)), "hashCode"); sym_reach("end"); }
// Math
template <class T> static T clampT(__int128 v) { return (T)v; }
extern "C" void math_exact_int() { int a = sym_int("a"), b = sym_int("b"); long A = a, Bv = b; int op = sym_choice("op", 7); long e = op == 0 ? A + Bv : op == 1 ? A - Bv : op == 2 ? A * Bv : op == 3 ? -A : op == 4 ? A + 1 : op == 5 ? A - 1 : 0; long lx = 0; if (op == 6) { lx = sym_long("x"); e = lx; } int r = 0;
  bool th = THROWS(ArithmeticException, r = op == 0 ? Math::addExact(a, b) : op == 1 ? Math::subtractExact(a, b) : op == 2 ? Math::multiplyExact(a, b) : op == 3 ? Math::negateExact(a) : op == 4 ? Math::incrementExact(a) : op == 5 ? Math::decrementExact(a) : Math::toIntExact(lx)); bool fits = e == (long)(int)e; sym_assert(th == !fits, "throws exactly on overflow"); if (!th) { sym_assert(r == (int)e, "exact result"); sym_reach("end"); } else sym_reach("overflow"); }
extern "C" void math_exact_long() { long a = sym_long("a"), b = sym_long("b"); int op = sym_choice("op", 5); unsigned long ua = a, ub = b; unsigned long e = op == 0 ? ua + ub : op == 1 ? ua - ub : op == 2 ? 0 - ua : op == 3 ? ua + 1 : ua - 1; bool ov = op == 0 ? (b >= 0 ? (long)e < a : (long)e > a) : op == 1 ? (b >= 0 ? (long)e > a : (long)e < a) : op == 2 || op == 4 ? a == LONG_MIN : a == LONG_MAX; long r = 0;
  bool th = THROWS(ArithmeticException, r = op == 0 ? Math::addExact(a, b) : op == 1 ? Math::subtractExact(a, b) : op == 2 ? Math::negateExact(a) : op == 3 ? Math::incrementExact(a) : Math::decrementExact(a)); sym_assert(th == ov, "throws exactly on overflow"); if (!th) { sym_assert(r == (long)e, "exact result"); sym_reach("end"); } else sym_reach("overflow"); }
extern "C" void math_mul_long() { int k = sym_choice("shape", 3); long a, b; bool ov; long lo; if (k == 0) { a = sym_range("a", -INT_MAX, INT_MAX); b = sym_range("b", -INT_MAX, INT_MAX); lo = a * b; ov = false; } else if (k == 1) { static const int SH[] = {30, 31, 32, 33, 47, 62, 63}; int s = SH[sym_choice("shift", 7)]; b = (long)(1ul << s); a = sym_long("a"); lo = (long)((unsigned long)a << s); ov = (lo >> s) != a || (s == 63 && a != 0 && a != 1); if (s == 63) ov = !(a == 0 || a == 1); } else { a = sym_long("a"); int c = sym_choice("const", 4); b = c == 0 ? -1 : c == 1 ? 0 : c == 2 ? 1 : 3; ov = c == 0 ? a == LONG_MIN : c == 3 ? (a > LONG_MAX / 3 || a < LONG_MIN / 3) : false; lo = (long)((unsigned long)a * (unsigned long)b); }
  int sw = sym_choice("swap", 2); long r = 0; bool th = THROWS(ArithmeticException, r = sw ? Math::multiplyExact(b, a) : Math::multiplyExact(a, b)); sym_assert(th == ov, "throws exactly on overflow"); if (!th) { sym_assert(r == lo, "exact product"); sym_reach("end"); } else sym_reach("overflow"); }
extern "C" void math_floor_int() { int a = sym_int("a"); int R = sym_param("R", 9), W = sym_param("W", 4000); int b = sym_range("b", -R, R); int big = sym_choice("big", 2); if (!big) sym_assume(a >= -W && a <= W); else { int hi = sym_choice("end", 2); sym_assume(hi ? a > INT_MAX - W : a < INT_MIN + W); } if (b == 0) { sym_assert(THROWSANY(Math::floorDiv(a, b)), "floorDiv by zero throws"); sym_assert(THROWSANY(Math::floorMod(a, b)), "floorMod by zero throws"); sym_reach("zero"); return; } b = (int)sym_concrete(b); int q = b == -1 ? (int)(0u - (unsigned)a) : a / b, m = b == -1 ? 0 : a % b; int fix = m != 0 && ((m ^ b) < 0); sym_assert(Math::floorDiv(a, b) == q - fix, "floorDiv"); sym_assert(Math::floorMod(a, b) == (fix ? m + b : m), "floorMod"); sym_reach("end"); }
extern "C" void math_floor_long() { long a = sym_long("a"); int R = sym_param("R", 5); long W = sym_param("W", 4000); int big = sym_choice("big", 3); sym_assume(big == 0 ? a >= -W && a <= W : big == 1 ? a > LONG_MAX - W : a < LONG_MIN + W); long b = sym_range("b", -R, R); if (b == 0) { sym_assert(THROWSANY(Math::floorDiv(a, b)), "floorDiv by zero throws"); sym_reach("zero"); return; } sym_assume(!(a == LONG_MIN && b == -1)); b = sym_concrete(b); long q = a / b, m = a % b; int fix = m != 0 && ((m ^ b) < 0); sym_assert(Math::floorDiv(a, b) == q - fix, "floorDiv"); sym_assert(Math::floorMod(a, b) == (fix ? m + b : m), "floorMod"); sym_reach("end"); }
extern "C" void math_floor_min() { int op = sym_choice("op", 2); if (op) { int a = sym_int("a"); sym_assert(Math::floorDiv(a, -1) == (int)(0u - (unsigned)a), "floorDiv by -1 negates, MIN_VALUE wraps"); } else { long a = sym_long("a"); sym_assert(Math::floorDiv(a, -1L) == (long)(0ul - (unsigned long)a), "floorDiv by -1 negates, MIN_VALUE wraps"); } sym_reach("end"); }
extern "C" void math_minmax() { int a = sym_int("a"), b = sym_int("b"); long la = sym_long("la"), lb = sym_long("lb"); sym_assert(Math::max(a, b) == (a > b ? a : b) && Math::min(a, b) == (a < b ? a : b), "int max/min"); sym_assert(Math::max(la, lb) == (la > lb ? la : lb) && Math::min(la, lb) == (la < lb ? la : lb), "long max/min"); sym_assert(Math::abs(a) == (a < 0 ? (int)(0u - (unsigned)a) : a), "int abs"); sym_assert(Math::abs(la) == (la < 0 ? (long)(0ul - (unsigned long)la) : la), "long abs");
  float fa = sym_float("fa"), fb_ = sym_float("fb"); double da = sym_double("da"), dd = sym_double("dd"); sym_assume(fa == fa && fb_ == fb_ && da == da && dd == dd); sym_assert(Math::max(fa, fb_) == (fa > fb_ ? fa : fb_) && Math::min(fa, fb_) == (fa < fb_ ? fa : fb_), "float max/min"); sym_assert(Math::max(da, dd) == (da > dd ? da : dd) && Math::min(da, dd) == (da < dd ? da : dd), "double max/min"); sym_assert(Math::abs(fa) == fabsf(fa) && Math::abs(da) == fabs(da), "floating abs"); sym_assert(Float::min(fa, fb_) == (fa < fb_ ? fa : fb_) && Double::min(da, dd) == (da < dd ? da : dd), "Float.min and Double.min"); sym_reach("end"); }
extern "C" void math_sign() { double d = sym_double("d"), s = sym_double("s"); float f = sym_float("f"), g = sym_float("g"); unsigned long M = 0x7ffffffffffffffful; sym_assert(d != d || s != s || db(Math::copySign(d, s)) == ((db(d) & M) | (db(s) & ~M)), "copySign double"); sym_assert(f != f || g != g || fb(Math::copySign(f, g)) == ((fb(f) & 0x7fffffffu) | (fb(g) & 0x80000000u)), "copySign float"); sym_assert(sameD(Math::signum(d), d != d ? d : d > 0 ? 1.0 : d < 0 ? -1.0 : d), "signum double"); sym_assert(sameF(Math::signum(f), f != f ? f : f > 0 ? 1.0f : f < 0 ? -1.0f : f), "signum float"); sym_reach("end"); }
extern "C" void math_round() { double d = sym_double("d"); sym_assume(d > -4503599627370496.0 && d < 4503599627370496.0); sym_assume((db(d) & 0xffffffffful) == 0); double fl = Math::floor(d), ce = Math::ceil(d), ri = Math::rint(d); sym_assert(fl <= d && fl + 1 > d && fl == (double)(long)fl, "floor"); sym_assert(ce >= d && ce - 1 < d && ce == (double)(long)ce, "ceil"); sym_assert(ri == fl || ri == ce, "rint is a neighbouring integer"); sym_assert(fabs(ri - d) <= 0.5, "rint is nearest"); long r = Math::round(d); sym_assert((double)r == fl || (double)r == ce, "round is a neighbouring integer"); sym_assert(fabs((double)r - d) <= 0.5, "round is nearest"); sym_reach("end"); }
extern "C" void math_roundf() { float d = sym_float("d"); sym_assume(d > -8388608.0f && d < 8388608.0f); int r = Math::round(d); sym_assert(fabsf((float)r - d) <= 0.5f, "round(float) is nearest"); sym_reach("end"); }
extern "C" void math_next() { double d = sym_double("d"); sym_assume(d == d); unsigned long u = db(d); bool inf = (u << 1) == 0xffe0000000000000ul; double up = Math::nextUp(d); if (inf && d > 0) sym_assert(db(up) == u, "nextUp(inf)"); else if (d == 0) sym_assert(db(up) == 1, "nextUp(0)"); else sym_assert(db(up) == (d > 0 ? u + 1 : u - 1), "nextUp is the adjacent value"); double dn = Math::nextDown(d); if (inf && d < 0) sym_assert(db(dn) == u, "nextDown(-inf)"); else if (d != 0) sym_assert(db(dn) == (d > 0 ? u - 1 : u + 1), "nextDown is the adjacent value"); sym_reach("end"); }
extern "C" void math_nextf() { float d = sym_float("d"); sym_assume(d == d); unsigned u = fb(d); bool inf = (u << 1) == 0xff000000u; float up = Math::nextUp(d); if (inf && d > 0) sym_assert(fb(up) == u, "nextUp(inf)"); else if (d == 0) sym_assert(fb(up) == 1, "nextUp(0)"); else sym_assert(fb(up) == (d > 0 ? u + 1 : u - 1), "nextUp is the adjacent value"); float dn = Math::nextDown(d); if (inf && d < 0) sym_assert(fb(dn) == u, "nextDown(-inf)"); else if (d != 0) sym_assert(fb(dn) == (d > 0 ? u - 1 : u + 1), "nextDown is the adjacent value"); sym_reach("end"); }
extern "C" void math_exp() { double d = sym_double("d"); int e = (int)((db(d) >> 52) & 0x7ff); sym_assume(d >= 0 || e != 0); sym_assert(Math::getExponent(d) == (d == 0 ? -1023 : e - 1023), "getExponent(double) is the unbiased exponent"); float f = sym_float("f"); int ef = (int)((fb(f) >> 23) & 0xff); sym_assume(f >= 0 || ef != 0); sym_assert(Math::getExponent(f) == ef - 127, "getExponent(float) is the unbiased exponent"); sym_reach("end"); }
extern "C" void math_trig() { double x = sym_double("x"); sym_assume(x == x); int k = sym_choice("f", 16); double r = 0, e = 0; switch (k) { case 0: r = Math::sin(x); e = sin(x); break; case 1: r = Math::cos(x); e = cos(x); break; case 2: r = Math::tan(x); e = tan(x); break; case 3: r = Math::asin(x); e = asin(x); break; case 4: r = Math::acos(x); e = acos(x); break; case 5: r = Math::atan(x); e = atan(x); break; case 6: r = Math::sinh(x); e = sinh(x); break; case 7: r = Math::cosh(x); e = cosh(x); break; case 8: r = Math::tanh(x); e = tanh(x); break; case 9: r = Math::exp(x); e = exp(x); break; case 10: r = Math::log(x); e = log(x); break; case 11: r = Math::log10(x); e = log10(x); break; case 12: r = Math::sqrt(x); e = sqrt(x); break; case 13: r = Math::cbrt(x); e = cbrt(x); break; case 14: r = Math::expm1(x); e = expm1(x); break; default: r = Math::log1p(x); e = log1p(x); } sym_assert(r == e || (r != r && e != e), "the function named"); sym_reach("end"); }
extern "C" void flt_unbits() { int i = sym_int("i"); unsigned m = (unsigned)i & 0x7fffffff; sym_assume(m <= 0x7f800000u); sym_assert(fb(Float::intBitsToFloat(i)) == (unsigned)i, "intBitsToFloat has exactly the given bits"); sym_reach("end"); }
extern "C" void dbl_decode() {
  static const int ex[] = {0, 1, 2, 1022, 1023, 1024, 1076, 2046, 2047}; unsigned long e = ex[sym_choice("exponent", 9)], m = 0; static const int pos[] = {0, 1, 26, 50, 51}; for (int i = 0; i < 5; i++) if (sym_bool("bit")) m |= 1ul << pos[i];
  long v = (long)(e << 52 | m); int neg = sym_choice("neg", 2); double r = Double::longBitsToDouble(neg ? -v : v); if (e == 2047 && m) { sym_assert(r != r, "a NaN pattern decodes to NaN"); sym_reach("nan"); } else if (v == 0) { sym_assert(r == 0, "zero"); sym_assert(Double::longBitsToDouble(LONG_MIN) == 0, "the sign bit alone is zero"); sym_reach("zero"); } else { sym_assert(db(r) == ((unsigned long)v | (neg ? 1ul << 63 : 0)), "longBitsToDouble is the value with these bits"); sym_assert(Double::doubleToLongBits(r) == (neg ? -v : v), "doubleToLongBits inverts"); } sym_reach("end"); }
// decimal text to value: sign, integer digits, point, fraction digits
static int decText(Text &t, int ni, int nf, unsigned long &m) { int o = 0; m = 0; int sg = sym_choice("sign", 3); if (sg) t.b[o++] = sg == 1 ? '-' : '+'; for (int i = 0; i < ni + nf; i++) { if (i == ni) t.b[o++] = '.'; t.b[o] = (char)sym_range("d", '0', '9'); m = m * 10 + (unsigned long)(t.b[o++] - '0'); } t.b[o] = 0; return sg == 1; }
extern "C" void dbl_parse() { int ni = sym_choice("int", sym_param("L", 3)), nf = sym_choice("frac", 3); sym_assume(ni + nf > 0); Text t; unsigned long m; int neg = decText(t, ni, nf, m); double v = nf == 0 ? (double)m : nf == 1 ? (double)m / 10 : (double)m / 100; if (neg) v = -v; int k = sym_choice("api", 2); double r = k ? Double::valueOf(String(t.b)).doubleValue() : Double::parseDouble(String(t.b)).doubleValue(); sym_assert(db(r) == db(v), "the double nearest to the text"); sym_reach("end"); }
extern "C" void flt_parse() { int ni = sym_choice("int", sym_param("L", 3)), nf = sym_choice("frac", 3); sym_assume(ni + nf > 0); Text t; unsigned long m; int neg = decText(t, ni, nf, m); float v = nf == 0 ? (float)m : nf == 1 ? (float)m / 10 : (float)m / 100; if (neg) v = -v; int k = sym_choice("api", 3); float r = k == 0 ? Float::parseFloat(String(t.b)).floatValue() : k == 1 ? Float::valueOf(String(t.b)).floatValue() : Float(String(t.b)).floatValue(); sym_assert(fb(r) == fb(v), "the float nearest to the text"); sym_reach("end"); }
extern "C" void fp_parse_bad() { int n = sym_choice("len", sym_param("L", 3)); Text t; anyText(t, "c", n); if (n) { char c = t.b[0]; sym_assume(!((c >= '0' && c <= '9') || c == '-' || c == '+' || c == '.' || c == ' ' || (c >= 9 && c <= 13) || (c | 32) == 'i' || (c | 32) == 'n')); } int k = sym_choice("api", 5); String s(t.b);
  sym_assert(k == 0 ? THROWS(NumberFormatException, Double::parseDouble(s)) : k == 1 ? THROWS(NumberFormatException, Double::valueOf(s)) : k == 2 ? THROWS(NumberFormatException, Float::parseFloat(s)) : k == 3 ? THROWS(NumberFormatException, Float::valueOf(s)) : THROWS(NumberFormatException, Float x(s)), "a text that is no number throws NumberFormatException"); sym_reach("end"); }
