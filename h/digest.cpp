// MD5 and SHA-1 against reference functions written from RFC 1321 and FIPS 180
#include "hx.h"
#include "library/Java/Security/MessageDigest/MessageDigest.hpp"
#include "library/Java/Security/MessageDigest/MD5MessageDigest.hpp"
#include "library/Java/Security/MessageDigest/SHA1MessageDigest.hpp"
#include "library/Java/Security/NoSuchAlgorithmException/NoSuchAlgorithmException.hpp"
#include "library/Java/Lang/InterruptedException/InterruptedException.hpp"
using namespace Java::Security;
typedef unsigned u32; typedef unsigned char u8;
static u32 rol(u32 x, int n) { return x << n | x >> (32 - n); }
static const u32 T[64] = {0xd76aa478u, 0xe8c7b756u, 0x242070dbu, 0xc1bdceeeu, 0xf57c0fafu, 0x4787c62au, 0xa8304613u, 0xfd469501u, 0x698098d8u, 0x8b44f7afu, 0xffff5bb1u, 0x895cd7beu, 0x6b901122u, 0xfd987193u, 0xa679438eu, 0x49b40821u, 0xf61e2562u, 0xc040b340u, 0x265e5a51u, 0xe9b6c7aau, 0xd62f105du, 0x02441453u, 0xd8a1e681u, 0xe7d3fbc8u, 0x21e1cde6u, 0xc33707d6u, 0xf4d50d87u, 0x455a14edu, 0xa9e3e905u, 0xfcefa3f8u, 0x676f02d9u, 0x8d2a4c8au, 0xfffa3942u, 0x8771f681u, 0x6d9d6122u, 0xfde5380cu, 0xa4beea44u, 0x4bdecfa9u, 0xf6bb4b60u, 0xbebfbc70u, 0x289b7ec6u, 0xeaa127fau, 0xd4ef3085u, 0x04881d05u, 0xd9d4d039u, 0xe6db99e5u, 0x1fa27cf8u, 0xc4ac5665u, 0xf4292244u, 0x432aff97u, 0xab9423a7u, 0xfc93a039u, 0x655b59c3u, 0x8f0ccc92u, 0xffeff47du, 0x85845dd1u, 0x6fa87e4fu, 0xfe2ce6e0u, 0xa3014314u, 0x4e0811a1u, 0xf7537e82u, 0xbd3af235u, 0x2ad7d2bbu, 0xeb86d391u};
static const int S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
// pads n bytes of m (the tail of a message of hi:lo bits) into blocks; returns their number
static int pad(const u8 *m, int n, u32 hi, u32 lo, bool big, u8 *b) { int k = 0; for (; k < n; k++) b[k] = m[k]; b[k++] = 0x80; while (k % 64 != 56) b[k++] = 0; for (int i = 0; i < 8; i++) { int j = big ? 7 - i : i; b[k++] = (u8)((j < 4 ? lo : hi) >> 8 * (j & 3)); } return k / 64; }
static void refMd5(const u8 *m, int n, u32 hi, u32 lo, u8 *out) { u8 p[320]; int nb = pad(m, n, hi, lo, false, p); u32 h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}; for (int k = 0; k < nb; k++) { u32 x[16]; for (int i = 0; i < 16; i++) x[i] = p[k * 64 + 4 * i] | (u32)p[k * 64 + 4 * i + 1] << 8 | (u32)p[k * 64 + 4 * i + 2] << 16 | (u32)p[k * 64 + 4 * i + 3] << 24; u32 a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; i++) { int r = i / 16; u32 f = r == 0 ? (b & c) | (~b & d) : r == 1 ? (b & d) | (c & ~d) : r == 2 ? b ^ c ^ d : c ^ (b | ~d); int g = r == 0 ? i : r == 1 ? (5 * i + 1) % 16 : r == 2 ? (3 * i + 5) % 16 : 7 * i % 16; u32 t = a + f + x[g] + T[i]; a = d; d = c; c = b; b = rol(t, S[r][i % 4]) + b; }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; } for (int i = 0; i < 16; i++) out[i] = (u8)(h[i / 4] >> 8 * (i % 4)); }
static void refSha(const u8 *m, int n, u32 hi, u32 lo, u8 *out) { u8 p[320]; int nb = pad(m, n, hi, lo, true, p); u32 h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}; for (int k = 0; k < nb; k++) { u32 w[80]; for (int i = 0; i < 16; i++) w[i] = (u32)p[k * 64 + 4 * i] << 24 | (u32)p[k * 64 + 4 * i + 1] << 16 | (u32)p[k * 64 + 4 * i + 2] << 8 | p[k * 64 + 4 * i + 3]; for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1); u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; i++) { int r = i / 20; u32 f = r == 0 ? ((c ^ d) & b) ^ d : r == 2 ? (b & c) | (d & (b | c)) : b ^ c ^ d; static const u32 K[4] = {0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xca62c1d6}; u32 t = rol(a, 5) + f + e + w[i] + K[r]; e = d; d = c; c = rol(b, 30); b = a; a = t; }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; } for (int i = 0; i < 20; i++) out[i] = (u8)(h[i / 4] >> (24 - 8 * (i % 4))); }
static int alg() { return sym_param("alg", 0); }
static int len() { return alg() ? 20 : 16; }
static MessageDigest make() { return MessageDigest::getInstance(alg() ? "SHA1" : "MD5"); }
static void ref(const u8 *m, int n, u8 *out) { if (alg()) refSha(m, n, 0, 8 * n, out); else refMd5(m, n, 0, 8 * n, out); }
static void any(u8 *m, int n) { for (int i = 0; i < n; i++) m[i] = sym_byte("m"); }
static void check(MessageDigest &d, const u8 *m, int n, const char *what) { u8 e[20], g[24]; ref(m, n, e); memset(g, 0x77, 24); sym_assert(d.digest(g, len() + sym_choice("room", 2)) == len(), "digest returns its length"); int ok = 1; for (int i = 0; i < 24; i++) ok &= g[i] == (i < len() ? e[i] : 0x77); sym_assert(ok, what); }
// every content of messages around the block and padding limits, fed in up to three pieces from any alignment
extern "C" void md_value() { static const int N[] = {0, 1, 3, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 200}; int n = N[sym_choice("n", 15)], off = n ? sym_choice("align", 4) : 0; u8 buf[208]; u8 *m = buf + off; any(m, n); MessageDigest d = make(); sym_assert(d.getDigestLength() == len() && d.getAlgorithm() == String(alg() ? "SHA1" : "MD5"), "name and length"); if (n) d.update(m, n); check(d, m, n, "the digest of the message"); sym_reach("end"); }
extern "C" void md_pieces() { static const int N[] = {2, 64, 65, 130, 193}; int n = N[sym_choice("n", 5)]; static const int C[] = {1, 55, 63, 64, 65, 127, 128, 129, 192}; u8 m[208]; any(m, n); int a = C[sym_choice("cut", 9)], b = C[sym_choice("cut2", 9)]; sym_assume(a < n && (b >= n || b > a)); MessageDigest d = make(); d.update(m, a); if (b < n) { d.update(m + a, b - a); d.update(m + b, n - b); } else d.update(m + a, n - a); check(d, m, n, "the pieces make the message"); sym_reach("end"); }
extern "C" void md_reuse() { static const int N[] = {0, 1, 64, 70}; int n = N[sym_choice("first", 4)], n2 = N[sym_choice("second", 4)]; u8 a[72], b[72]; any(a, n); any(b, n2); MessageDigest d = make(); if (n) d.update(a, n); if (sym_choice("how", 2)) d.reset(); else check(d, a, n, "first message"); if (n2) d.update(b, n2); check(d, b, n2, "nothing is left of the message before"); sym_reach("end"); }
extern "C" void md_bad() { u8 m[4], g[20]; any(m, 4); MessageDigest d = make(); d.update(m, 4); int k = sym_choice("k", 4), n = sym_int("n"); memset(g, 0x11, 20); if (k == 0) sym_assert(THROWS(InterruptedException, d.update(nullptr, n)), "no input"); else if (k == 1) sym_assert(THROWS(InterruptedException, d.update(m, 0)), "empty input"); else if (k == 2) sym_assert(THROWS(InterruptedException, d.digest(nullptr, n)), "no output buffer"); else { sym_assume(n < len()); sym_assert(THROWS(InterruptedException, d.digest(g, n)), "output buffer too small"); int ok = 1; for (int i = 0; i < 20; i++) ok &= g[i] == 0x11; sym_assert(ok, "nothing is written"); } check(d, m, 4, "the message goes on"); sym_reach("end"); }
extern "C" void md_name() { Text t; int n = sym_choice("n", 6); anyText(t, "t", n); bool known = (n == 3 && matchAt(t.b, "MD5", 3)) || (n == 4 && matchAt(t.b, "SHA1", 4)); bool bad = false; String s = t.b; try { MessageDigest d = MessageDigest::getInstance(s); sym_assert(d.getDigestLength() == (n == 3 ? 16 : 20) && isText(d.getAlgorithm(), t), "the algorithm asked for"); sym_reach("known"); } catch (NoSuchAlgorithmException &x) { bad = true; Text e = t; memcpy(e.b + n, " not found", 11); e.n = n + 10; sym_assert(isText(x.getMessage(), e), "the message names it"); } sym_assert(bad == !known, "exactly MD5 and SHA1 are known"); sym_reach("end"); }
extern "C" void md_leak() { u8 m[70], g[20]; any(m, 70); { MessageDigest w = make(); } NOLEAK(MessageDigest d = make(); d.update(m, 70); d.digest(g, 20)); sym_reach("end"); }
// the length field for a message of any length: the tail of one whose first blocks left any state behind
extern "C" void md_length() { static const u32 LO[] = {0, 0x7ffffe00, 0x80000000, 0xfffffe00}; u32 hi = (u32)sym_int("hi"), lo = LO[sym_choice("lo", 4)]; int n = sym_choice("n", 5) * 30; u8 m[128], e[20], g[20]; any(m, n); u32 lo2 = lo + 8 * n, hi2 = hi + (lo2 < lo); if (alg()) { SHA_CTX c; SHA1_Init(&c); c.sizeLo = lo; c.sizeHi = hi; SHA1_Update(&c, m, n); SHA1_Final(g, &c); refSha(m, n, hi2, lo2, e); } else { md5_state_t c; md5_init(&c); c.count[0] = lo; c.count[1] = hi; md5_append(&c, m, n); md5_finish(&c, g); refMd5(m, n, hi2, lo2, e); } int ok = 1; for (int i = 0; i < len(); i++) ok &= g[i] == e[i]; sym_assert(ok, "the whole length is part of the digest"); sym_reach("end"); }
