// the wrapper classes own the text they keep: whatever is done with them, every block they allocate is freed exactly once
#include "hx.h"
template <class T> static void life(const T &A, const T &Bv) { T c(A), d; d = Bv; d = d; c = d; { T e(c); } bool q = c == d; q ^= c < d; q ^= c != d; q ^= c <= d; q ^= c > d; q ^= c >= d; sym_assert(q || !q, "compared"); c.toString(); c.intValue(); c.longValue(); c.shortValue(); c.floatValue(); c.doubleValue(); }
template <class T> static void arith(const T &A, const T &Bv, bool nz) { T c(A); c + Bv; c - Bv; c * Bv; if (nz) { c / Bv; } c += Bv; c -= Bv; c *= Bv; if (nz) c /= Bv; c.toString(); }
// a small range keeps the rendered text short; the paths are the same for every value
extern "C" void mem_integer() { int a = sym_range("a", -9, 9), b = sym_range("b", -9, 9); int op = sym_choice("op", 5); bool th = false; sym_warm([&] { String s(Integer(1).toString()); });
  NOLEAK(Integer A(a), B(b); if (op == 0) { life(A, B); A.charValue(); } else if (op == 1) { arith(A, B, b != 0); if (b) { A % B; A %= B; } } else if (op == 2) { Integer::valueOf(A.toString()); Integer x(A.toString()); Integer::toBinaryString(a); Integer::toHexString(a); Integer::toOctalString(a); Integer::toUnsignedString(a); Integer::toString(a); } else if (op == 3) { Integer Z(0); th = THROWS(ArithmeticException, A / Z) & THROWS(ArithmeticException, A %= Z) & THROWS(ArithmeticException, A /= Z); } else { th = THROWS(NumberFormatException, Integer x(String("zz"))) & THROWS(NumberFormatException, Integer::decode(String(""))) & THROWS(NumberFormatException, Integer::parseInt(String("99999999999"))); });
  sym_assert(op < 3 || th, "the failing operations throw"); sym_reach("end"); }
extern "C" void mem_long() { long a = sym_range("a", -9, 9), b = sym_range("b", -9, 9); int op = sym_choice("op", 3); sym_warm([&] { Long(1).toString(); });
  NOLEAK(Long A(a), B(b); if (op == 0) { life(A, B); } else if (op == 1) { A + B; A - B; A * B; A += B; A -= B; A *= B; if (b) { A / B; A % B; A /= B; A %= B; } A.toString(); } else { Long::valueOf(A.toString()); Long::decode(A.toString()); Long::toString(a); Long::toHexString(a); Long::toBinaryString(a); Long::toOctalString(a); Long::valueOf(String("x")); A.hashCode(); }); sym_reach("end"); }
extern "C" void mem_small() { int a = sym_range("a", 0, 19), b = sym_range("b", 0, 19); int op = sym_choice("op", 5); bool th = false; sym_warm([&] { Short(1).toString(); Bytes((byte)1).toString(); Bytes::valueOf((byte)1); Boolean(true).toString(); });
  NOLEAK(if (op == 0) { Short A((short)a), B((short)b); Short c(A), d; d = B; d = d; c = d; A + B; A - B; A * B; if (b) { A / B; A % B; } c.toString(); c.charValue(); Short::parseShort(A.toString()); } else if (op == 1) { Bytes A((byte)a), B((byte)b); life(A, B); arith(A, B, b != 0); Bytes x(A.toString()); Bytes::valueOf((byte)a); Bytes::toString((byte)a); } else if (op == 2) { Bytes A((byte)a), Z((byte)0); th = THROWS(ArithmeticException, A / Z) & THROWS(ArithmeticException, A /= Z) & THROWS(NumberFormatException, Bytes x(String("300"))) & THROWS(NumberFormatException, Short::parseShort(String("x"))); } else if (op == 3) { Boolean A((boolean)(a & 1)), B((boolean)(b & 1)); Boolean c(A), d(B); d = B; d = d; c = d; c.toString(); Boolean::valueOf("true"); c.compareTo(d); } else { Character A((char)(a + 48)), B((char)(b + 48)); Character c(A), d; d = B; d = d; c = d; c.compareTo(d); c.charValue(); });
  sym_assert(op != 2 || th, "the failing operations throw"); sym_reach("end"); }
extern "C" void mem_float() { static const double vals[] = {0, -1.5, 1e30, 0.1, 1e-30, 123456789.0, -0.0, __builtin_nan(""), __builtin_inf(), -__builtin_inf()}; double a = vals[sym_choice("a", 10)], b = vals[sym_choice("b", 3)]; int op = sym_choice("op", 3); bool th = false; sym_warm([&] { Float(1.0f).toString(); Double(1.0).toString(); });
  NOLEAK(if (op == 0) { Float A((float)a), B((float)b); life(A, B); A + B; A - B; A * B; if (b != 0) A / B; Float::valueOf(String("1.5")); Float x(String("2.5")); Float::floatToIntBits((float)a); A.equals(B); A.compareTo(B); } else if (op == 1) { Double A(a), B(b); life(A, B); A + B; A - B; A * B; if (b != 0) A / B; Double::valueOf(String("1.5")); Double::longBitsToDouble(Double::doubleToLongBits(a)); A.equals(B); A.compareTo(B); } else th = THROWS(NumberFormatException, Double::parseDouble(String("x"))) & THROWS(NumberFormatException, Float x(String("x"))););
  sym_assert(op != 2 || th, "the failing operations throw"); sym_reach("end"); }
