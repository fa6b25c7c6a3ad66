// Date and SimpleDateFormat in the zone UTC; the reference asks the C library directly
#include "hx.h"
#include <ctime>
#include <chrono>
#include <unistd.h>
#include <sys/syscall.h>
#include "library/Java/Util/Date/Date.hpp"
#include "library/Java/Text/SimpleDateFormat/SimpleDateFormat.hpp"
#include "library/Java/Lang/InterruptedException/InterruptedException.hpp"
using namespace Java::Util;
// the present, when an entry chooses it
static time_t present;
extern "C" time_t time(time_t *t) noexcept { time_t v = present ? present : sym_native() ? (time_t)syscall(SYS_time, (time_t *)0) : 1489399273; if (t) *t = v; return v; }
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return from_time_t(time(nullptr)); } } } }
static void utc() { if (sym_native()) { setenv("TZ", "UTC", 1); tzset(); } }
static tm norm(long y, int mo, int d, int h, int mi, int s, long &t) { tm r; memset(&r, 0, sizeof r); r.tm_year = (int)y; r.tm_mon = mo; r.tm_mday = d; r.tm_hour = h; r.tm_min = mi; r.tm_sec = s; t = mktime(&r); return r; }
static bool has(const Date &x, const tm &r, long t) { return (x.getYear() == r.tm_year) & (x.getMonth() == r.tm_mon) & (x.getDate() == r.tm_mday) & (x.getHours() == r.tm_hour) & (x.getMinutes() == r.tm_min) & (x.getSeconds() == r.tm_sec) & (x.getDay() == r.tm_wday) & (x.getTime() == t * 1000) & (x.getTimezoneOffset() == 0); }
static const int WHEN[][6] = {{117, 2, 13, 10, 1, 13}, {100, 1, 29, 23, 59, 59}, {70, 0, 1, 0, 0, 0}, {99, 11, 31, 12, 0, 0}, {138, 0, 19, 3, 14, 8}, {60, 5, 30, 1, 2, 3}};
// one field any value in its range, the others those of a chosen moment
static void pick(int *f) { const int *w = WHEN[sym_choice("when", 6)]; memcpy(f, w, 6 * sizeof *w); static const int LO[] = {-50, 0, 1, 0, 0, 0}, HI[] = {1000, 11, 28, 23, 59, 59}; int k = sym_choice("field", 6); f[k] = sym_range("value", LO[k], HI[k]); if (k < 2) f[2] = 28; if (k == 1) f[1] = (int)sym_concrete(f[1]); }
extern "C" void date_fields() { utc(); int f[6]; pick(f); int api = sym_choice("api", 3); if (api < 2) f[5] = 0; if (api < 1) f[3] = f[4] = 0; long t; tm r = norm(f[0], f[1], f[2], f[3], f[4], f[5], t); sym_quiet(1); Date x = api == 0 ? Date(f[0], f[1], f[2]) : api == 1 ? Date(f[0], f[1], f[2], f[3], f[4]) : Date(f[0], f[1], f[2], f[3], f[4], f[5]); Date other(70, 1, 1); sym_assert(has(x, r, t), "the fields name the moment"); sym_reach("end"); }
extern "C" void date_carry() { utc(); const int *w = WHEN[sym_choice("when", 6)]; int f[6]; memcpy(f, w, sizeof f); static const int V[] = {-400, -33, -1, 0, 12, 24, 31, 32, 60, 61, 3600}; f[sym_choice("field", 6)] = V[sym_choice("value", 11)]; long t; tm r = norm(f[0], f[1], f[2], f[3], f[4], f[5], t); Date x(f[0], f[1], f[2], f[3], f[4], f[5]); Date y(t * 1000), z; sym_assert(has(x, r, t) && has(y, r, t), "fields out of range carry"); sym_assert(Date::UTC(f[0], f[1], f[2], f[3], f[4], f[5]) == t * 1000, "UTC"); sym_reach("end"); }
extern "C" void date_set() { utc(); const int *w = WHEN[sym_choice("when", 6)]; int op = sym_choice("op", 6), v = sym_range("v", -400, 400); int f[6]; for (int i = 0; i < 6; i++) f[i] = w[i]; f[op] = v; long t; tm r = norm(f[0], f[1], f[2], f[3], f[4], f[5], t); sym_quiet(1); Date x(w[0], w[1], w[2], w[3], w[4], w[5]); Date keep(x); Date between(1);
  if (op == 0) x.setYear(v); else if (op == 1) x.setMonth(v); else if (op == 2) x.setDate(v); else if (op == 3) x.setHours(v); else if (op == 4) x.setMinutes(v); else x.setSeconds(v); Date after(1); sym_assert(has(x, r, t), "one field is set, the others carry"); tm q = norm(w[0], w[1], w[2], w[3], w[4], w[5], t); sym_assert(has(keep, q, t), "the copy stays"); sym_reach("end"); }
extern "C" void date_time() { utc(); long ms = sym_long("ms"); sym_assume((ms > -4000000000000L) & (ms < 40000000000000L)); sym_quiet(1); Date x(ms); sym_assert(x.getTime() == ms / 1000 * 1000, "whole seconds"); Date y; y.setTime(ms); sym_assert(y.getTime() == ms / 1000 * 1000, "setTime"); sym_assert(x.equals(y) && x.compareTo(y) == 0, "equal"); sym_reach("end"); }
extern "C" void date_order() { utc(); long base = sym_choice("base", 2) * 1500000000000L; long a = base + sym_range("a", 0, 200000), b = base + sym_range("b", 0, 200000); sym_quiet(1); Date x(a), y(b); a = x.getTime(); b = y.getTime(); sym_assert(x.after(y) == (a > b) && x.before(y) == (a < b) && x.equals(y) == (a == b), "after, before, equals"); sym_assert(x.compareTo(y) == (a > b) - (a < b), "compareTo"); sym_reach("end"); }
extern "C" void date_copy() { utc(); { Date w; Date::parse("1 Jan 1990"); } const int *a = WHEN[sym_choice("a", 6)], *b = WHEN[sym_choice("b", 6)]; int v = sym_range("v", -400, 400); long ta, tb, tv; tm ra = norm(a[0], a[1], a[2], a[3], a[4], a[5], ta), rb = norm(b[0], b[1], b[2], b[3], b[4], b[5], tb), rv = norm(a[0], a[1], a[2], v, a[4], a[5], tv); sym_quiet(1);
  NOLEAK(Date x(a[0], a[1], a[2], a[3], a[4], a[5]), y(b[0], b[1], b[2], b[3], b[4], b[5]); Date c(x); y = x; y = *&y; Date d = x.clone(); x.setHours(v); sym_assert(has(x, rv, tv), "the original changes"); sym_assert(has(c, ra, ta) && has(y, ra, ta) && has(d, ra, ta), "copies stay"); x = Date(tb * 1000); sym_assert(has(x, rb, tb), "assignment takes the value")); sym_reach("end"); }
static void fmt(Text &o, const char *f, tm r) { o.n = (int)strftime(o.b, 72, f, &r); }
extern "C" void date_text() { utc(); const int *w = WHEN[sym_choice("when", 6)]; int h = w[3], mi = w[4], s = w[5]; int k = sym_choice("field", 3); if (k == 0) h = sym_range("h", 0, 23); else if (k == 1) mi = sym_range("mi", 0, 59); else s = sym_range("s", 0, 59); long t; tm r = norm(w[0], w[1], w[2], h, mi, s, t); Text o; Date x(w[0], w[1], w[2], h, mi, s), y(w[0], 3, 3); fmt(o, "%a %b %d %T %Z %Y", r); sym_assert(isText(x.toString(), o), "toString"); fmt(o, "%b %d, %Y %I:%M:%S %p", r); sym_assert(isText(x.toLocaleString(), o), "toLocaleString"); fmt(o, "%d %b %Y %T GMT", r); sym_assert(isText(x.toGMTString(), o), "toGMTString"); String g = x.toString(); x.setYear(1); sym_assert(isText(x.toString()  , (fmt(o, "%a %b %d %T %Z %Y", norm(1, w[1], w[2], h, mi, s, t)), o)), "toString follows the setter"); sym_reach("end"); }
extern "C" void date_roundtrip() { utc(); const int *w = WHEN[sym_choice("when", 6)]; int h = w[3], mi = w[4], s = w[5]; int k = sym_choice("field", 3); if (k == 0) h = sym_range("h", 0, 23); else if (k == 1) mi = sym_range("mi", 0, 59); else s = sym_range("s", 0, 59); long t; norm(w[0], w[1], w[2], h, mi, s, t); Date x(t * 1000); String g = sym_choice("form", 2) ? x.toGMTString() : x.toString(); sym_assert(Date::parse(g) == t * 1000, "reading the text gives the moment back"); Date y(g); sym_assert(y.equals(x), "so does the constructor"); sym_reach("end"); }
static const char *MON[] = {"January", "february", "MAR", "April", "may", "Jun", "JULY", "aug", "September", "Oct", "nov", "Dec"};
extern "C" void date_parse_fields() { utc(); char b[64]; int m = sym_choice("month", 12), form = sym_choice("form", 3); int k = 0; unsigned long d, h, mi, s; char D[2], H[2], M[2], S[2]; d = decDigits("d", D, 2); h = decDigits("h", H, 2); mi = decDigits("mi", M, 2); s = decDigits("s", S, 2); sym_assume((d >= 1) & (d <= 28) & (h < 24) & (mi < 60) & (s < 60)); auto put = [&](const char *p, int n) { for (int i = 0; i < n; i++) b[k++] = p[i]; }; auto txt = [&](const char *p) { put(p, (int)strlen(p)); };
  if (form == 0) { txt(MON[m]); txt(" "); put(D, 2); txt(", 2009 "); } else if (form == 1) { put(D, 2); txt("-"); txt(MON[m]); txt(" (remark) 2009 "); } else { char q[2] = {(char)('0' + (m + 1) / 10), (char)('0' + (m + 1) % 10)}; put(q, 2); txt("/"); put(D, 2); txt("/"); txt("2009 "); } put(H, 2); txt(":"); put(M, 2); txt(":"); put(S, 2); txt(" UTC"); b[k] = 0; long t; norm(109, m, (int)d, (int)h, (int)mi, (int)s, t); sym_assert(Date::parse(b) == t * 1000, "the fields named by the text"); sym_reach("end"); }
extern "C" void date_parse_zone() { utc(); char b[64] = "15 Jun 2009 1:45:30 "; int k = (int)strlen(b); long base; norm(109, 5, 15, 1, 45, 30, base); long off; int form = sym_choice("form", 3); if (form == 2) { static const struct { const char *n; int h; } Z[] = {{"GMT", 0}, {"ut", 0}, {"Utc", 0}, {"EST", 5}, {"edt", 4}, {"CST", 6}, {"CDT", 5}, {"MST", 7}, {"MDT", 6}, {"PST", 8}, {"PDT", 7}}; int z = sym_choice("zone", 11); strcpy(b + k, Z[z].n); off = Z[z].h * 60; } else { bool plus = sym_choice("sign", 2); if (sym_choice("word", 2)) { strcpy(b + k, "GMT"); k += 3; } b[k++] = plus ? '+' : '-'; if (form == 0) { unsigned long h = decDigits("h", b + k, 2); sym_assume(h < 24); k += 2; off = (long)h * 60; } else { unsigned long h = decDigits("h", b + k, 2), m = decDigits("m", b + k + 2, 2); k += 4; sym_assume((h < 24) & (m < 60) & ((h > 0) | (m >= 24))); off = (long)(h * 60 + m); } b[k] = 0; if (plus) off = -off; } sym_assert(Date::parse(b) == (base + off * 60) * 1000, "the zone shifts the time"); sym_reach("end"); }
extern "C" void date_parse_ampm() { utc(); char b[64] = "Mon, Jun 15, 2009 "; int k = (int)strlen(b); unsigned long h = decDigits("h", b + k, 2); sym_assume(h < 24); bool pm = sym_choice("pm", 2); strcpy(b + k + 2, pm ? ":45:30 PM" : ":45:30 am"); bool ok = (h >= 1) & (h <= 12); long t = 0, base; norm(109, 5, 15, 0, 45, 30, base); bool th = false; try { t = Date::parse(b); } catch (InterruptedException &) { th = true; } sym_assert(th == !ok, "an hour of 1 to 12 is required"); if (ok) sym_assert(t == (base + (long)symx_ite(h == 12, 0, h) * 3600 + pm * 43200) * 1000, "the hour of the half day"); sym_reach(ok ? "ok" : "bad"); sym_reach("end"); }
extern "C" void date_parse_century() { utc(); char b[64] = "Jun 15, "; unsigned long yy = decDigits("yy", b + 8, 2); b[10] = 0; int n = sym_choice("spaces", 2); if (n) strcpy(b + 10, " 1:45:30"); static const long NOW[] = {1489399273, 946684799, 4102444800, 1799999999, 86400, 2000000000}; present = NOW[sym_choice("now", 6)]; time_t now = present; tm q = *gmtime(&now); long first = q.tm_year + 1900L - 80; long y = first / 100 * 100 + (long)yy; y += (long)symx_ite(y < first, 100, 0); long t; norm(y - 1900, 5, 15, n ? 1 : 0, n ? 45 : 0, n ? 30 : 0, t); sym_assert(Date::parse(b) == t * 1000, "two digits mean a year of the last 80 or next 20"); sym_reach("end"); }
static bool refused(const String &s) { try { Date::parse(s); } catch (InterruptedException &) { return true; } return false; }
extern "C" void date_parse_any() { utc(); static const char *PRE[] = {"", "1 Jan 2", "9:", "1/1", "Jun 1, 2009 1:45:30 PM +"}; Text t; const char *p = PRE[sym_choice("before", 5)]; int n = sym_choice("n", sym_param("N", 2) + 1); Text a; anyText(a, "a", n); strcpy(t.b, p); strcat(t.b, a.b); t.n = (int)strlen(p) + n; sym_quiet(1); bool th = false; try { Date::parse(String(t.b)); } catch (InterruptedException &) { th = true; } sym_reach(th ? "refused" : "read"); sym_reach("end"); }
extern "C" void date_parse_bad() { utc(); int k = sym_choice("k", 5); char b[64]; unsigned char c = sym_byte("c"); if (k == 0) { strcpy(b, "15 ?un 2009"); sym_assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z'))); sym_assume(((c | 32) != 'j') & ((c | 32) != 's')); b[3] = (char)c; } else if (k == 1) { strcpy(b, "15 Jun 2009 1:00:30:?"); if (sym_choice("min", 2)) b[14] = '4'; sym_assume((c >= '0') & (c <= '9')); b[20] = (char)c; } else if (k == 2) { strcpy(b, "15? Jun 2009"); sym_assume((c > ' ') & (c < 127) & (c != ',') & (c != '-') & (c != ':') & (c != '/') & ((c < '0') | (c > '9')) & (c != '(')); b[2] = (char)c; } else if (k == 3) { strcpy(b, "15 Jun 2009 Jul ?"); sym_assume((c >= '0') & (c <= '9')); b[16] = (char)c; } else { strcpy(b, "Jun 2009 ?:20"); sym_assume((c >= '0') & (c <= '9')); b[9] = (char)c; } sym_assert(refused(b), "a text that names no moment is refused"); sym_assert(refused(""), "so is the empty text"); sym_reach("end"); }
extern "C" void sdf_format() { utc(); const int *w = WHEN[sym_choice("when", 6)]; int mi = sym_range("mi", 0, 59); long t; tm r = norm(w[0], w[1], w[2], w[3], mi, w[5], t); Date x(t * 1000); static const char *F[] = {"%Y-%m-%dT%T%z", "%d/%m/%y %H:%M", " %A, %B %d ", "%%%j"}; const char *f = F[sym_choice("f", 4)]; Text o; fmt(o, f, r); int a = 0; while (a < o.n && o.b[a] == ' ') a++; while (o.n > a && o.b[o.n - 1] == ' ') o.n--; o.b[o.n] = 0; Java::Text::SimpleDateFormat s(f); sym_assert(isText(s.format(x), o.b + a, o.n - a), "the pattern filled in, without blanks around"); sym_assert(x.getTime() == t * 1000, "the date stays"); sym_reach("end"); }
extern "C" void sdf_long() { utc(); Date x(117, 2, 13, 10, 1, 13); char f[256], e[256]; int n = sym_choice("n", 16) + 1, k = 0, j = 0; for (int i = 0; i < n; i++) { memcpy(f + k, "%Y-%m-%d,", 9); k += 9; memcpy(e + j, "2017-03-13,", 11); j += 11; } f[k] = e[j] = 0; Java::Text::SimpleDateFormat s(f); String g = s.format(x); sym_assert(isText(g, e, j), "a long text is whole"); sym_reach("end"); }
extern "C" void date_parse_remarks() { utc(); char b[96]; int k = 0; static const char *P[] = {"15 ", "Jun ", "2009 ", "1:45 "}; long t; norm(109, 5, 15, 1, 45, 0, t); auto txt = [&](const char *p) { while (*p) b[k++] = *p++; }; unsigned char c = sym_byte("c"); sym_assume((c != 0) & (c != '(') & (c != ')')); int m = sym_choice("remarks", 16); for (int i = 0; i < 4; i++) { txt(P[i]); if (m >> i & 1) { b[k++] = '('; b[k++] = (char)c; b[k++] = 'q'; txt(") "); } } b[k] = 0; sym_assert(Date::parse(b) == t * 1000, "remarks in brackets do not count"); sym_reach("end"); }
extern "C" void date_parse_signs() { utc(); char b[64] = "15 Jun 2009 1:45 "; int k = (int)strlen(b); static const char S[] = "+-/:"; b[k++] = S[sym_choice("sign", 4)]; strcpy(b + k, "UTC "); k += 4; unsigned long s = decDigits("s", b + k, 2); b[k + 2] = 0; sym_assume(s < 60); long t; norm(109, 5, 15, 1, 45, (int)s, t); sym_assert(Date::parse(b) == t * 1000, "a sign before a word does not count"); sym_reach("end"); }
