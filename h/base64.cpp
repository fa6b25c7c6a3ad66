// Base64
#include "hx.h"
#include "library/Java/Util/Base64/Base64.hpp"
#include "library/Java/Lang/InterruptedException/InterruptedException.hpp"
using namespace Java::Util;
static inline long in(long c, long lo, long hi) { return (c >= lo) & (c <= hi); }
// the digit of a value / the value of a digit (-1: none), without splitting the path
static char digit(int v, bool url) { return (char)symx_ite(v < 26, 'A' + v, symx_ite(v < 52, 'a' + v - 26, symx_ite(v < 62, '0' + v - 52, symx_ite(v == 62, url ? '-' : '+', url ? '_' : '/')))); }
static int value(unsigned char c, bool url) { return (int)symx_ite(in(c, 'A', 'Z'), c - 'A', symx_ite(in(c, 'a', 'z'), c - 'a' + 26, symx_ite(in(c, '0', '9'), c - '0' + 52, symx_ite(c == (url ? '-' : '+'), 62, symx_ite(c == (url ? '_' : '/'), 63, -1))))); }
struct Buf { unsigned char b[256]; int n; };
static Array<byte> arr(const Buf &s) { Array<byte> a; for (int i = 0; i < s.n; i++) a.push((byte)s.b[i]); return a; }
static void any(Buf &s, const char *name, int n) { s.n = n; for (int i = 0; i < n; i++) s.b[i] = sym_byte(name); }
static bool same(const Array<byte> &a, const Buf &s) { if (a.length != s.n) return false; bool ok = true; for (int i = 0; i < s.n; i++) ok &= (unsigned char)a[i] == s.b[i]; return ok; }
static void each(const Array<byte> &a, const Buf &s, const char *what) { sym_assert(a.length == s.n, what); for (int i = 0; i < s.n && i < a.length; i++) sym_assert((unsigned char)a[i] == s.b[i], what); }
// the reference encoder
static void ref(const Buf &s, Buf &o, bool url, bool pad, int line, const char *sep) { int c = 0; o.n = 0; for (int i = 0; i < s.n; i += 3) { if (line > 0 && c == line) { for (const char *p = sep; *p; p++) o.b[o.n++] = *p; c = 0; } int k = s.n - i, x = s.b[i] << 16 | (k > 1 ? s.b[i + 1] << 8 : 0) | (k > 2 ? s.b[i + 2] : 0);
  for (int j = 0; j < 4; j++) if (j <= k) o.b[o.n++] = digit(x >> (18 - 6 * j) & 63, url); else if (pad) o.b[o.n++] = '='; c += 4; } }
static Array<byte> lit(const char *s) { Array<byte> a; for (; *s; s++) a.push((byte)*s); return a; }
// the source holds any bytes; when it is long only three of them, anywhere, are arbitrary
static void source(Buf &s, int n, int all) { if (n <= all) { any(s, "s", n); return; } s.n = n; for (int i = 0; i < n; i++) s.b[i] = (unsigned char)(i * 37 + 200); int w = sym_choice("window", 3), at = w == 0 ? 0 : w == 1 ? n - 3 : (n > 57 ? 57 : n) - 2; for (int i = at; i < at + 3 && i < n; i++) s.b[i] = sym_byte("s"); }
static void encodeWith(const Base64::Encoder &e, const Base64::Decoder &d, bool url, int line, const char *sep, int n, int all = 99) { Buf s, o; source(s, n, all); bool pad = sym_choice("pad", 2); ref(s, o, url, pad, line, sep); Base64::Encoder x = pad ? e : e.withoutPadding(); Array<byte> a = arr(s); NOLEAK(Array<byte> r = x.encode(a); each(r, o, "the encoding is the one of RFC 4648/2045"); each(a, s, "the source is unchanged"); Array<byte> back = d.decode(r); each(back, s, "decoding gives the source back")); sym_reach("end"); }
extern "C" void b64_basic() { encodeWith(Base64::getEncoder(), Base64::getDecoder(), false, 0, "", sym_choice("n", sym_param("N", 7))); }
extern "C" void b64_url() { encodeWith(Base64::getUrlEncoder(), Base64::getUrlDecoder(), true, 0, "", sym_choice("n", sym_param("N", 7))); }
extern "C" void b64_mime() { int ns[] = {0, 1, 2, 3, 56, 57, 58, 60, 114, 115}; encodeWith(Base64::getMimeEncoder(), Base64::getMimeDecoder(), false, 76, "\r\n", ns[sym_choice("n", 10)], 3); }
extern "C" void b64_line() { const char *seps[] = {"\n", "\r\n", "", "**-"}; const char *sep = seps[sym_param("sep", 0)]; int ls[] = {2, 4, 8, 7, -1, 3, 12}, l = ls[sym_choice("line", sym_param("lines", 3))], n = sym_choice("n", sym_param("N", 10)); int line = l < 4 ? 0 : l / 4 * 4; encodeWith(Base64::getMimeEncoder(l, lit(sep)), Base64::getMimeDecoder(), false, line, sep, n, 3); }
extern "C" void b64_line_bad() { Buf s; any(s, "sep", sym_choice("n", 3)); int l = sym_range("line", -3, 3) * 4; bool bad = false; for (int i = 0; i < s.n; i++) bad |= (value(s.b[i], false) >= 0) | (s.b[i] == '='); sym_assert(THROWS(InterruptedException, Base64::getMimeEncoder(l, arr(s))) == bad, "a separator of base64 characters is refused"); sym_reach("end"); }
// encoding into an array of the caller
extern "C" void b64_into() { Buf s, o; any(s, "s", sym_choice("n", 5)); bool url = sym_choice("url", 2), pad = sym_choice("pad", 2); ref(s, o, url, pad, 0, ""); Base64::Encoder e = url ? Base64::getUrlEncoder() : Base64::getEncoder(); Base64::Encoder x = pad ? e : e.withoutPadding(); int m = sym_choice("size", 11), k = 0; Array<byte> a = arr(s); Array<byte> d((long)m); bool th = THROWS(InterruptedException, k = x.encode(a, d)); sym_assert(th == (m < o.n), "an array that is too small is refused"); bool ok = d.length == m; for (int i = 0; i < m; i++) ok &= (unsigned char)d[i] == (!th && i < o.n ? o.b[i] : 0); sym_assert(ok && (th || k == o.n), "exactly the encoding is written"); sym_reach("end"); }
extern "C" void b64_text() { Buf s, o; any(s, "s", sym_choice("n", 5)); ref(s, o, false, true, 0, ""); Base64::Encoder e = Base64::getEncoder(); String t = e.encodeToString(arr(s)); sym_assert(isText(t, (char *)o.b, o.n), "encodeToString"); Base64::Decoder d = Base64::getDecoder(); sym_assert(same(d.decode(t), s), "decoding a text"); sym_reach("end"); }
// the reference decoder: the length of the result or -1 when the text is refused. kind 0: basic, 1: url, 2: mime
static int decodeRef(const Buf &s, Buf &o, int kind) { bool url = kind == 1, mime = kind == 2; int bits = 0, q = 0, i = 0; o.n = 0;
  if (s.n == 1 && !mime) return -1;
  for (; i < s.n;) { int c = s.b[i++], v = value((unsigned char)c, url); if (v < 0) { if (c == '=') { if (q == 0 || q == 1) return -1; if (q == 2 && (i == s.n || s.b[i++] != '=')) return -1; break; } if (mime) continue; return -1; }
    bits = bits << 6 | v; if (++q == 4) { o.b[o.n++] = (unsigned char)(bits >> 16); o.b[o.n++] = (unsigned char)(bits >> 8); o.b[o.n++] = (unsigned char)bits; q = 0; bits = 0; } }
  if (q == 1) return -1; if (q == 2) o.b[o.n++] = (unsigned char)(bits >> 4); if (q == 3) { o.b[o.n++] = (unsigned char)(bits >> 10); o.b[o.n++] = (unsigned char)(bits >> 2); }
  for (; i < s.n; i++) if (!mime || value(s.b[i], url) >= 0) return -1; return o.n; }
static void decodeAny(int n, int kind, int lo = 0) { Buf s, o; any(s, "s", n); for (int i = 0; i < lo; i++) sym_assume(value(s.b[i], kind == 1) >= 0); int r = decodeRef(s, o, kind); Array<byte> a = arr(s), got; Base64::Decoder d = kind == 0 ? Base64::getDecoder() : kind == 1 ? Base64::getUrlDecoder() : Base64::getMimeDecoder(); bool th = false; NOLEAK(try { Array<byte> g = d.decode(a); if (r >= 0) sym_assert(same(g, o), "the bytes decoded"); } catch (InterruptedException &) { th = true; }); sym_assert(th == (r < 0), "exactly malformed input is refused"); sym_assert(same(a, s), "the source is unchanged"); if (th) sym_reach("bad"); sym_reach("end"); }
extern "C" void b64_decode() { int n = sym_choice("n", sym_param("N", 5)); decodeAny(n, 0); }
extern "C" void b64_decode_url() { int n = sym_choice("n", sym_param("N", 5)); decodeAny(n, 1); }
extern "C" void b64_decode_mime() { int n = sym_choice("n", sym_param("N", 5)); decodeAny(n, 2); }
extern "C" void b64_decode_end() { int n = 5 + sym_choice("n", 5), kind = sym_choice("kind", 3); decodeAny(n, kind, n - 3); }
extern "C" void b64_decode_into() { Buf s, o; any(s, "s", sym_choice("n", 4) * 2); for (int i = 0; i < s.n; i++) sym_assume(value(s.b[i], false) >= 0); int r = decodeRef(s, o, 0), m = sym_choice("size", 6), k = -1; Array<byte> d((long)m); Base64::Decoder b = Base64::getDecoder(); bool th = THROWS(InterruptedException, k = b.decode(arr(s), d)); sym_assert(th == (m < r), "an array that is too small is refused"); bool ok = true; for (int i = 0; i < m; i++) ok &= (unsigned char)d[i] == (!th && i < r ? o.b[i] : 0); sym_assert(ok && (th || k == r), "exactly the bytes are written"); sym_reach("end"); }
// lines: an array of exactly the size is enough, one byte less is refused
extern "C" void b64_line_into() { const char *seps[] = {"\r\n", "\n", "**-"}; Buf s, o; int which = sym_choice("coder", 3), ns[] = {0, 1, 3, 55, 56, 57, 58, 60, 114, 115}, n = which == 0 ? ns[sym_choice("n", 10)] : sym_choice("n", 8); source(s, n, 3); bool pad = sym_choice("pad", 2); int line = which == 0 ? 76 : which == 1 ? 4 : 8; ref(s, o, false, pad, line, seps[which]);
  Base64::Encoder e = which == 0 ? Base64::getMimeEncoder() : Base64::getMimeEncoder(line, lit(seps[which])); Base64::Encoder x = pad ? e : e.withoutPadding(); int m = o.n - 1 + sym_choice("more", 3), k = 0; if (m < 0) return; Array<byte> a = arr(s); Array<byte> d((long)m); bool th = THROWS(InterruptedException, k = x.encode(a, d));
  sym_assert(th == (m < o.n), "an array that is too small is refused"); sym_assert(d.length == m && (th || k == o.n), "the length written"); if (!th) for (int i = 0; i < m; i++) sym_assert((unsigned char)d[i] == (i < o.n ? o.b[i] : 0), "exactly the encoding is written"); sym_reach("end"); }
// MIME texts with bytes that are skipped: an array of exactly the decoded size is enough
extern "C" void b64_mime_into() { Buf s, o; int kind = sym_choice("kind", 3); if (kind == 0) { any(s, "s", sym_choice("n", sym_param("N", 5))); } else { const char *t = kind == 1 ? "Q\r\nU\r\nJ\r\nD\r\n" : "\r\nQUJD\r\nQU\r\nI=\r\n"; s.n = 0; for (; *t; t++) s.b[s.n++] = *t; int at = sym_choice("at", s.n); s.b[at] = sym_byte("s"); }
  int r = decodeRef(s, o, 2), m = (r < 0 ? 3 : r) - 1 + sym_choice("more", 3), k = -1; if (m < 0) return; Array<byte> d((long)m); Base64::Decoder b = Base64::getMimeDecoder(); bool th = THROWS(InterruptedException, k = b.decode(arr(s), d)); sym_assert(th == (r < 0 || m < r), "only malformed text or an array that is too small is refused"); if (!th) { sym_assert(k == r, "the length decoded"); for (int i = 0; i < m; i++) sym_assert((unsigned char)d[i] == (i < r ? o.b[i] : 0), "exactly the bytes are written"); } sym_reach("end"); }
