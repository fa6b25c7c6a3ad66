// URLEncoder and URLDecoder
#include "hx.h"
#include "library/Java/Net/URLEncoder/URLEncoder.hpp"
#include "library/Java/Net/URLDecoder/URLDecoder.hpp"
#include "library/Java/Io/UnsupportedEncodingException/UnsupportedEncodingException.hpp"
using namespace Java::Net; using namespace Java::IO;
static void warm() { if (sym_native()) { URLEncoder::encode("a %"); URLDecoder::decode("a+%41"); } }
static int in(int c, int lo, int hi) { return (c >= lo) & (c <= hi); }
static int plain(int c) { return in(c, 'a', 'z') | in(c, 'A', 'Z') | in(c, '0', '9') | (c == '-') | (c == '_') | (c == '.') | (c == '~'); }
static char hexOf(int v) { return (char)(v + symx_ite(v < 10, '0', 'a' - 10)); }
static int hexVal(int c) { return (int)symx_ite(in(c, '0', '9'), c - '0', symx_ite(in(c, 'a', 'f'), c - 'a' + 10, symx_ite(in(c, 'A', 'F'), c - 'A' + 10, -1))); }
static void refEncode(const Text &s, Text &o) { o.n = 0; for (int i = 0; i < s.n; i++) { unsigned char c = s.b[i]; if (plain(c)) o.b[o.n++] = c; else if (c == ' ') o.b[o.n++] = '+'; else { o.b[o.n++] = '%'; o.b[o.n++] = hexOf(c >> 4); o.b[o.n++] = hexOf(c & 15); } } o.b[o.n] = 0; }
extern "C" void url_encode() { Text s, o; anyTextUpTo(s, "s", sym_param("N", 3)); refEncode(s, o); String x = s.b; warm(); NOLEAK(String r = sym_choice("api", 2) ? URLEncoder::encode(x) : URLEncoder::encode(x, "UTF-8"); sym_assert(isText(r, o), "letters, digits and -_.~ stay, a space becomes +, every other byte %xx"); sym_assert(isText(x, s), "the source is unchanged"); String d = URLDecoder::decode(r); sym_assert(isText(d, s), "decoding gives the text back")); sym_reach("end"); }
// pieces of a well-formed text: a plain character, +, or an escape with digits of either case
extern "C" void url_decode() { Text t, o; t.n = o.n = 0; int n = sym_choice("n", sym_param("N", 3) + 1); for (int i = 0; i < n; i++) { int k = sym_choice("piece", 3); if (k == 0) { int c = sym_range("c", 1, 255); sym_assume((c != '%') & (c != '+')); t.b[t.n++] = o.b[o.n++] = (char)c; } else if (k == 1) { t.b[t.n++] = '+'; o.b[o.n++] = ' '; } else { int h = sym_range("h", 1, 127), l = sym_range("l", 1, 127); sym_assume((hexVal(h) >= 0) & (hexVal(l) >= 0) & (hexVal(h) * 16 + hexVal(l) != 0)); t.b[t.n++] = '%'; t.b[t.n++] = (char)h; t.b[t.n++] = (char)l; o.b[o.n++] = (char)(hexVal(h) * 16 + hexVal(l)); } } t.b[t.n] = o.b[o.n] = 0;
  String x = t.b; warm(); NOLEAK(String r = sym_choice("api", 2) ? URLDecoder::decode(x) : URLDecoder::decode(x, "utf-8"); sym_assert(isText(r, o), "escapes become their byte, + a space, all else stays"); sym_assert(isText(x, t), "the source is unchanged")); sym_reach("end"); }
// any text at all: the decoder stays inside it and ends
extern "C" void url_decode_any() { Text t; anyTextUpTo(t, "t", sym_param("N", 3)); warm(); NOLEAK(String r = URLDecoder::decode(String(t.b)); sym_assert(r.length() <= t.n, "never longer than the text")); sym_reach("end"); }
extern "C" void url_charset() { Text e; int k = sym_choice("n", 6); textFrom(e, "e", k, ' ', '~'); bool utf = false; if (k == 5) { const char *u = "UTF-8"; utf = true; for (int i = 0; i < 5; i++) utf &= (e.b[i] == u[i]) | ((e.b[i] == u[i] + 32) & (i < 3)); } String s = "a b", enc = e.b; bool th = false; String r; int api = sym_choice("api", 2); try { if (api) r = URLEncoder::encode(s, enc); else r = URLDecoder::decode("a+b", enc); } catch (UnsupportedEncodingException &x) { th = true; sym_assert(isText(x.getMessage(), e), "the message names the encoding"); } sym_assert(th == !utf, "exactly UTF-8, in any case, is supported"); if (!th) { sym_assert(isText(r, api ? "a+b" : "a b"), "result"); sym_reach("utf"); } sym_reach("end"); }
