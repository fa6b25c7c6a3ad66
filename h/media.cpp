// MediaType
#include "hx.h"
#include "library/Javax/Ws/Rs/Core/MediaType.hpp"
#include "library/Javax/Ws/Rs/Core/MediaTypeException/MediaTypeException.hpp"
using namespace Javax::Ws::Rs::Core;
static bool star(const Text &t) { return t.n == 1 && t.b[0] == '*'; }
static bool starPlus(const Text &t) { return t.n >= 2 && t.b[0] == '*' && t.b[1] == '+'; }
static int find(const Text &t, char c) { for (int i = 0; i < t.n; i++) if (t.b[i] == c) return i; return -1; }
static void cut(Text &o, const Text &t, int from, int to) { o.n = 0; for (int i = from; i < to; i++) o.b[o.n++] = t.b[i]; o.b[o.n] = 0; }
static bool eq(const Text &a, const Text &b) { return a.n == b.n && sameBytes(a.b, b.b, a.n); }
static void joined(Text &o, const Text &a, const Text &b) { cut(o, a, 0, a.n); o.b[o.n++] = '/'; for (int i = 0; i < b.n; i++) o.b[o.n++] = b.b[i]; o.b[o.n] = 0; }
static void fields(MediaType &m, const Text &t, const Text &s) { Text j; joined(j, t, s); sym_assert(isText(m.getType(), t) && isText(m.getSubtype(), s), "type and subtype as given"); sym_assert(m.isWildcardType() == star(t), "isWildcardType"); sym_assert(m.isWildcardSubtype() == (star(s) || starPlus(s)), "isWildcardSubtype: * or *+suffix"); sym_assert(isText(String(m.toString()), j), "toString is type/subtype"); }
extern "C" void mt_make() { Text t, s; int N = sym_param("N", 2); anyTextUpTo(t, "t", N); anyTextUpTo(s, "s", N); int api = sym_choice("api", 2); String x = t.b, y = s.b; bool bad = t.n == 0 || s.n == 0 || (star(t) && !star(s)), th = false;
  if (sym_native()) { try { MediaType w("", ""); } catch (MediaTypeException &e) {} }
  NOLEAK(try { HashMap<String, String> p; p.put("k", "v"); MediaType m = api ? MediaType(x, y, p) : MediaType(x, y); sym_assert(!bad, "an empty part and */x are refused"); fields(m, t, s); sym_assert(m.getParameters().size() == api, "the parameters given"); if (api) sym_assert(isText(m.getParameters().get("k"), "v"), "the parameter given"); MediaType c(m); fields(c, t, s); } catch (MediaTypeException &e) { th = true; }); sym_assert(th == bad, "MediaTypeException exactly for an empty part or */x"); sym_reach(th ? "bad" : "ok"); sym_reach("end"); }
extern "C" void mt_default() { NOLEAK(MediaType m; Text t; t.n = 1; t.b[0] = '*'; t.b[1] = 0; fields(m, t, t); sym_assert(m.getParameters().size() == 0, "no parameters")); sym_reach("end"); }
// any text; or a well-formed one with blanks and parameters around
static void check(Text &in) { int e = find(in, ';'); if (e < 0) e = in.n; int a = 0; while (a < e && in.b[a] == ' ') a++; while (e > a && in.b[e - 1] == ' ') e--; Text f; cut(f, in, a, e); if (star(f)) { f.n = 3; f.b[1] = '/'; f.b[2] = '*'; f.b[3] = 0; }
  int sl = find(f, '/'); Text t, s; bool bad = f.n == 0 || sl < 0; if (!bad) { cut(t, f, 0, sl); cut(s, f, sl + 1, f.n); bad = t.n == 0 || s.n == 0 || (star(t) && !star(s)); } bool th = false; String x = in.b; if (sym_native()) { try { MediaType::valueOf(""); } catch (MediaTypeException &e) {} }
  NOLEAK(try { MediaType m = MediaType::valueOf(x); sym_assert(!bad, "an ill-formed text is refused"); fields(m, t, s); } catch (MediaTypeException &e) { th = true; }); sym_assert(th == bad, "MediaTypeException exactly for an ill-formed text"); sym_assert(isText(x, in), "the text is unchanged"); sym_reach(th ? "bad" : "ok"); }
extern "C" void mt_valueof() { Text in; anyTextUpTo(in, "c", sym_param("N", 4)); check(in); sym_reach("end"); }
extern "C" void mt_valueof_shape() { Text in; in.n = 0; auto put = [&](const char *s) { while (*s) in.b[in.n++] = *s++; }; const char *L[] = {"", " ", "  "}; put(L[sym_choice("lead", 3)]); auto any = [&](const char *nm) { in.b[in.n] = (char)sym_byte(nm); sym_assume(in.b[in.n] != 0); in.n++; }; any("t"); put("/"); any("s"); const char *T[] = {"", " ", ";q=1", " ; a=b", ";", ";a/b", "+xml", "/x"}; put(T[sym_choice("tail", 8)]); in.b[in.n] = 0; check(in); sym_reach("end"); }
// subtypes: arbitrary texts, *, *+suffix, prefix+suffix
static void part(Text &t, const char *nm, bool sub) { if (!sub) { if (sym_choice("wild", 2)) { t.n = 1; t.b[0] = '*'; t.b[1] = 0; } else anyText(t, nm, 1 + sym_choice("len", 2)); return; } int k = sym_choice("shape", 4); if (k == 0) { t.n = 1; t.b[0] = '*'; t.b[1] = 0; } else if (k == 1) anyText(t, nm, 1 + sym_choice("len", 2)); else { t.n = 0; if (k == 2) t.b[t.n++] = '*'; else { t.b[t.n] = (char)sym_byte(nm); sym_assume(t.b[t.n] != 0); t.n++; } t.b[t.n++] = '+'; t.b[t.n] = (char)sym_byte(nm); sym_assume(t.b[t.n] != 0); t.n++; t.b[t.n] = 0; } }
static int plusses(const Text &t) { int n = 0; for (int i = 0; i < t.n; i++) n += t.b[i] == '+'; return n; }
extern "C" void mt_compatible() { Text t, s, u, v; part(t, "t", false); part(s, "s", true); int same = sym_choice("same_type", 2); if (same) cut(u, t, 0, t.n); else part(u, "u", false); part(v, "v", true); sym_assume(!star(t) || star(s)); sym_assume(!star(u) || star(v));
  MediaType a(t.b, s.b), b(u.b, v.b); bool x = a.isCompatible(b), y = b.isCompatible(a); sym_assert(x == y, "the same answer in both directions"); sym_assert(a.isCompatible(a), "compatible with itself");
  bool want; if (star(t) || star(u)) want = true; else if (!eq(t, u)) want = false; else if (eq(s, v) || star(s) || star(v)) want = true; else { if (plusses(s) > 1 || plusses(v) > 1) { sym_reach("end"); return; } int p = find(s, '+'), q = find(v, '+'); want = false; if ((starPlus(s) || starPlus(v)) && p >= 0 && q >= 0) { Text g, h; cut(g, s, p, s.n); cut(h, v, q, v.n); want = eq(g, h); } }
  sym_assert(x == want, "compatible: equal, or a wildcard on either side covers the other"); fields(a, t, s); sym_reach(x ? "yes" : "no"); sym_reach("end"); }
extern "C" void mt_names() { struct { const String *s; const char *w; } L[] = {{&MediaType::APPLICATION_ATOM_XML, "application/atom+xml"}, {&MediaType::APPLICATION_FORM_URLENCODED, "application/x-www-form-urlencoded"}, {&MediaType::APPLICATION_JSON, "application/json"}, {&MediaType::APPLICATION_OCTET_STREAM, "application/octet-stream"}, {&MediaType::APPLICATION_SVG_XML, "application/svg+xml"}, {&MediaType::APPLICATION_XHTML_XML, "application/xhtml+xml"}, {&MediaType::APPLICATION_XML, "application/xml"}, {&MediaType::MEDIA_TYPE_WILDCARD, "*"}, {&MediaType::MULTIPART_FORM_DATA, "multipart/form-data"}, {&MediaType::TEXT_HTML, "text/html"}, {&MediaType::TEXT_PLAIN, "text/plain"}, {&MediaType::TEXT_XML, "text/xml"}, {&MediaType::WILDCARD, "*/*"}};
  for (auto &l : L) { sym_assert(isText(*l.s, l.w), "the name of the media type"); MediaType m = MediaType::valueOf(*l.s); Text f; f.n = (int)strlen(l.w); memcpy(f.b, l.w, f.n + 1); int p = find(f, '/'); Text t, s; if (p < 0) { t = f; s = f; } else { cut(t, f, 0, p); cut(s, f, p + 1, f.n); } fields(m, t, s); sym_assert(m.isCompatible(MediaType()), "*/* covers it"); } sym_reach("end"); }
