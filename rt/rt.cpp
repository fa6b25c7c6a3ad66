// Models of the C and C++ runtime used by the code under test (symbolic run only; the native replay uses the real ones).
#include <string>
#include <sstream>
#include <thread>
#include <chrono>
#include <exception>
#include <list>
#include <unordered_map>
#include <map>
#include <cstdarg>
#include <cstring>
#include <cwchar>
#include <ctime>
#include <cstdlib>
#include <sys/time.h>
typedef unsigned char u8; typedef unsigned long u64;
extern "C" {
long symx_ite(int c, long a, long b); void symx_digits(u64 v, char *out, int n, int base); char *symx_lazy_fmt(u64 v, int kind, char *at); int sym_is_symbolic(u64 v); void sym_assume(int c); long sym_concrete(long v);
long symx_fmt_double(char *out, long cap, const char *spec, int prec, double v); double symx_strtod(const char *s, long *used); double symx_strtof(const char *s, long *used); long symx_cstr_concrete(const char *s); void symx_unsupported(const char *why); long symx_havoc(long d);
long symx_thread_create(void (*fn)(void *), void *arg); void symx_thread_join(long t); long symx_thread_self(void); void symx_yield(void); u64 symx_clock_ns(void); void symx_advance_clock(u64 ns); u64 sym_is_symbolic_d(double d);

// ---- strings
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
char *strcpy(char *d, const char *s) { size_t i = 0; for (;; i++) { d[i] = s[i]; if (!s[i]) break; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *stpcpy(char *d, const char *s) { size_t i = 0; for (;; i++) { d[i] = s[i]; if (!s[i]) break; } return d + i; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t k = strlen(d), i = 0; for (; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); if (p) memcpy(p, s, n); return p; }
char *rt_strchr(const char *s, int c) asm("strchr"); char *rt_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *rt_strrchr(const char *s, int c) asm("strrchr"); char *rt_strrchr(const char *s, int c) { char *r = nullptr; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
void *rt_memchr(const void *s, int c, size_t n) asm("memchr"); void *rt_memchr(const void *s, int c, size_t n) { const u8 *p = (const u8 *)s; for (size_t i = 0; i < n; i++) if (p[i] == (u8)c) return (void *)(p + i); return nullptr; }
char *rt_strstr(const char *h, const char *n) asm("strstr"); char *rt_strstr(const char *h, const char *n) { size_t k = strlen(n); if (!k) return (char *)h; for (; *h; h++) if (!strncmp(h, n, k)) return (char *)h; return nullptr; }
int tolower(int c) { return (int)symx_ite((unsigned)(c - 'A') < 26u, c + 32, c); }
int toupper(int c) { return (int)symx_ite((unsigned)(c - 'a') < 26u, c - 32, c); }
int isdigit(int c) { return (unsigned)(c - '0') < 10u ? 2048 : 0; }
int isalnum(int c) { return ((unsigned)(c - '0') < 10u) | ((unsigned)((c | 32) - 'a') < 26u) ? 8 : 0; }
int isalpha(int c) { return (unsigned)((c | 32) - 'a') < 26u ? 1024 : 0; }
int isspace(int c) { return (c == ' ') | ((unsigned)(c - 9) < 5u) ? 8192 : 0; }
int isupper(int c) { return (unsigned)(c - 'A') < 26u ? 256 : 0; }
int islower(int c) { return (unsigned)(c - 'a') < 26u ? 512 : 0; }
int isxdigit(int c) { return ((unsigned)(c - '0') < 10u) | ((unsigned)((c | 32) - 'a') < 6u) ? 4096 : 0; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = tolower((u8)*a), y = tolower((u8)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { int x = tolower((u8)*a), y = tolower((u8)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
wint_t towupper(wint_t c) { if (c < 128) return (wint_t)symx_ite((unsigned)(c - 'a') < 26u, (long)c - 32, c); symx_unsupported("towupper beyond ASCII"); return c; }
wint_t towlower(wint_t c) { if (c < 128) return (wint_t)symx_ite((unsigned)(c - 'A') < 26u, (long)c + 32, c); symx_unsupported("towlower beyond ASCII"); return c; }
size_t wcslen(const wchar_t *s) { size_t n = 0; while (s[n]) n++; return n; }
wchar_t *wmemcpy(wchar_t *d, const wchar_t *s, size_t n) { return (wchar_t *)memcpy(d, s, n * 4); }
wchar_t *wmemmove(wchar_t *d, const wchar_t *s, size_t n) { return (wchar_t *)memmove(d, s, n * 4); }
wchar_t *wmemset(wchar_t *d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
char *setlocale(int, const char *) { static char c[] = "C.UTF-8"; return c; }
static int rt_errno; int *__errno_location(void) { return &rt_errno; }
#include "ctype_table.inc"
const unsigned short **__ctype_b_loc(void) { static const unsigned short *p = rt_ctype + 128; return &p; }

// ---- floating point neighbours and decomposition, on the bit patterns
static u64 rt_db(double d) { u64 u; memcpy(&u, &d, 8); return u; } static double rt_bd(u64 u) { double d; memcpy(&d, &u, 8); return d; }
static unsigned rt_fb(float d) { unsigned u; memcpy(&u, &d, 4); return u; } static float rt_bf(unsigned u) { float d; memcpy(&d, &u, 4); return d; }
double nextafter(double x, double y) { if (x != x || y != y) return x + y; if (x == y) return y; u64 u = rt_db(x); u64 away = (x < y) == (x > 0); u64 r = (u64)symx_ite((u << 1) == 0, (long)(y > 0 ? 1ul : 0x8000000000000001ul), (long)(u + (u64)symx_ite((int)away, 1, -1))); return rt_bd(r); }
float nextafterf(float x, float y) { if (x != x || y != y) return x + y; if (x == y) return y; unsigned u = rt_fb(x); unsigned away = (x < y) == (x > 0); unsigned r = (unsigned)symx_ite((u << 1) == 0, (long)(y > 0 ? 1u : 0x80000001u), (long)(u + (unsigned)symx_ite((int)away, 1, -1))); return rt_bf(r); }
double frexp(double x, int *e) { u64 u = rt_db(x), m = u & 0xffffffffffffful; int f = (int)(u >> 52) & 2047; int p = 0; for (int i = 0; i < 52; i++) p = (int)symx_ite((int)(m >> i) & 1, i, p); u64 sub = (m << (52 - p)) & 0xffffffffffffful; int z = (u << 1) == 0, sp = f == 2047;
  *e = (int)symx_ite(z | sp, 0, symx_ite(f == 0, p - 1073, f - 1022)); return rt_bd((u64)symx_ite(z | sp, (long)u, (long)((u & 0x8000000000000000ul) | (1022ul << 52) | (u64)symx_ite(f == 0, (long)sub, (long)m)))); }
float frexpf(float x, int *e) { unsigned u = rt_fb(x), m = u & 0x7fffffu; int f = (int)(u >> 23) & 255; int p = 0; for (int i = 0; i < 23; i++) p = (int)symx_ite((int)(m >> i) & 1, i, p); unsigned sub = (m << (23 - p)) & 0x7fffffu; int z = (u << 1) == 0, sp = f == 255;
  *e = (int)symx_ite(z | sp, 0, symx_ite(f == 0, p - 148, f - 126)); return rt_bf((unsigned)symx_ite(z | sp, (long)u, (long)((u & 0x80000000u) | (126u << 23) | (unsigned)symx_ite(f == 0, (long)sub, (long)m)))); }
// ---- numbers from text
static long digitOf(int c) { return symx_ite((unsigned)(c - '0') < 10u, c - '0', symx_ite((unsigned)((c | 32) - 'a') < 26u, (c | 32) - 'a' + 10, 99)); }
static u64 scanU(const char *s, char **end, int base, bool *neg, bool *over) {
  const char *p = s; *neg = false; *over = false; while (isspace((u8)*p)) p++; if (*p == '-') { *neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && digitOf((u8)p[2]) < 16) { p += 2; base = 16; } else if (base == 0) base = p[0] == '0' ? 8 : 10;
  u64 v = 0; bool any = false, full = false; u64 most = 0, lim = ~0ul / (u64)base, last = ~0ul % (u64)base;
  for (;; p++) { long d = digitOf((u8)*p); if (d >= base) break; any = true; // no check while the count of digits alone rules overflow out
    if (most >= lim) full = true; if (!full) { most = most * base + base - 1; v = v * base + d; continue; }
    if (*over) continue; if ((v > lim) | ((v == lim) & ((u64)d > last))) *over = true; else v = v * base + d; }
  if (end) *end = (char *)(any ? p : s); return v;
}
unsigned long strtoul(const char *s, char **e, int b) { bool n, o; u64 v = scanU(s, e, b, &n, &o); if (o) { rt_errno = 34; return ~0ul; } return n ? 0 - v : v; }
unsigned long rt_strtoul(const char *s, char **e, int b) asm("strtoul"); unsigned long rt_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long rt_strtoull(const char *s, char **e, int b) asm("strtoull"); unsigned long long rt_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long strtol(const char *s, char **e, int b) { bool n, o; u64 v = scanU(s, e, b, &n, &o); if (n ? (o || v > 1ul << 63) : (o || v > ~0ul >> 1)) { rt_errno = 34; return n ? (long)(1ul << 63) : (long)(~0ul >> 1); } return n ? (long)(0 - v) : (long)v; }
long rt_strtol(const char *s, char **e, int b) asm("strtol"); long rt_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
long long rt_strtoll(const char *s, char **e, int b) asm("strtoll"); long long rt_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, nullptr, 10); }
long atol(const char *s) { return strtol(s, nullptr, 10); }
// decimal text: symbolic digits are read as one exactly representable integer divided by an exactly representable power of ten, which is the correctly rounded value
static double scanDouble(const char *s, long *used, bool flt) {
  if (symx_cstr_concrete(s)) return flt ? symx_strtof(s, used) : symx_strtod(s, used);
  *used = 0; const char *p = s; while (isspace((u8)*p)) p++; bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  unsigned long m = 0; int nd = 0, k = 0; bool any = false; while ((unsigned)(*p - '0') < 10u) { m = m * 10 + (unsigned long)(*p - '0'); nd++; any = true; p++; }
  if (*p == '.') { const char *q = p + 1; if (any || (unsigned)(*q - '0') < 10u) { p = q; while ((unsigned)(*p - '0') < 10u) { m = m * 10 + (unsigned long)(*p - '0'); nd++; k++; any = true; p++; } } }
  if (!any) { char c = *p; if (c == 'i' || c == 'I' || c == 'n' || c == 'N') { char d = p[1]; if ((c | 32) == 'i' ? d == 'n' || d == 'N' : d == 'a' || d == 'A') symx_unsupported("number parsed from symbolic text: infinity or nan"); } return 0; }
  if (*p == 'e' || *p == 'E' || *p == 'x' || *p == 'X') { symx_unsupported("number parsed from symbolic text: exponent or hexadecimal"); return 0; }
  if (nd > (flt ? 7 : 15) || k > (flt ? 10 : 22)) { symx_unsupported("number parsed from symbolic text: too many digits"); return 0; }
  *used = p - s; if (flt) { if (m > 16777216) symx_unsupported("number parsed from symbolic text: too many digits"); float t = 1; for (int i = 0; i < k; i++) t *= 10; float v = k ? (float)m / t : (float)m; return neg ? -v : v; }
  double t = 1; for (int i = 0; i < k; i++) t *= 10; double v = k ? (double)m / t : (double)m; return neg ? -v : v; }
double strtod(const char *s, char **e) { long n; double d = scanDouble(s, &n, false); if (e) *e = (char *)s + n; return d; }
double atof(const char *s) { return strtod(s, nullptr); }
float strtof(const char *s, char **e) { long n; double d = scanDouble(s, &n, true); if (e) *e = (char *)s + n; return (float)d; }

static int vscan(const char *s, const char *f, va_list ap) { // %d %i %u %x %ld %hi %lg %g
  int n = 0; const char *p = s; if (!*p) return -1;
  for (; *f; f++) {
    if (isspace(*f)) { while (isspace((u8)*p)) p++; continue; } if (*f != '%') { if (*p != *f) return n; p++; continue; } f++;
    int lng = 0, wid = 0; while (*f >= '0' && *f <= '9') wid = wid * 10 + *f++ - '0'; while (*f == 'l') { lng++; f++; } while (*f == 'h') { lng--; f++; }
    char *e; 
    if (*f == 'g' || *f == 'f' || *f == 'e') { long k; double d = scanDouble(p, &k, !lng); if (!k) return n; p += k; if (lng) *va_arg(ap, double *) = d; else *va_arg(ap, float *) = (float)d; n++; continue; }
    int base = *f == 'i' ? 0 : *f == 'x' ? 16 : *f == 'o' ? 8 : 10; if (*f != 'i' && *f != 'd' && *f != 'u' && *f != 'x') { symx_unsupported("sscanf conversion"); return n; }
    if (wid) symx_unsupported("sscanf width"); long v = *f == 'u' || *f == 'x' ? (long)strtoul(p, &e, base) : strtol(p, &e, base); if (e == p) return n; p = e; n++;
    if (lng >= 1) *va_arg(ap, long *) = v; else if (lng == 0) *va_arg(ap, int *) = (int)v; else if (lng == -1) *va_arg(ap, short *) = (short)v; else *va_arg(ap, char *) = (char)v; }
  return n; }
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }
int rt_sscanf(const char *s, const char *f, ...) asm("sscanf"); int rt_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }

// ---- text from numbers
struct Sink { char *b; size_t cap, n; void put(char c) { if (n + 1 < cap) b[n] = c; n++; } void end() { if (cap) b[n < cap ? n : cap - 1] = 0; } };
static const u64 P10[20] = {1ul, 10ul, 100ul, 1000ul, 10000ul, 100000ul, 1000000ul, 10000000ul, 100000000ul, 1000000000ul, 10000000000ul, 100000000000ul, 1000000000000ul, 10000000000000ul, 100000000000000ul, 1000000000000000ul, 10000000000000000ul, 100000000000000000ul, 1000000000000000000ul, 10000000000000000000ul};
void sym_thread(int) {}
static int quiet; void sym_quiet(int on) { quiet = on; }
static int udigits(u64 v, char *d, int base, bool up) { // digits as characters, returns count
  int n = 1; if (base == 10) { while (n < 20 && v >= P10[n]) n++; } else { int sh = base == 16 ? 4 : base == 8 ? 3 : 1; while (n * sh < 64 && (v >> (n * sh)) != 0) n++; }
  symx_digits(v, d, n, base); for (int i = 0; i < n; i++) { long c = (u8)d[i]; d[i] = base <= 10 ? (char)(c + '0') : (char)symx_ite(c < 10, c + '0', c - 10 + (up ? 'A' : 'a')); } return n; }
static void vfmt(Sink &o, const char *f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') { o.put(*f); continue; } f++;
    bool left = false, zero = false, plus = false, space = false, alt = false; for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break; }
    int width = 0, prec = -1; if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = true; width = -width; } } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    int l = 0; while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') { l++; f++; } while (*f == 'h') { l--; f++; }
    char c = *f; if (!c) return;
    if (c == '%') { o.put('%'); continue; }
    if (c == 'c') { char ch = (char)va_arg(ap, int); for (int i = 1; !left && i < width; i++) o.put(' '); o.put(ch); for (int i = 1; left && i < width; i++) o.put(' '); continue; }
    if (c == 's') { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; int n = 0; while ((prec < 0 || n < prec) && s[n]) n++; for (int i = n; !left && i < width; i++) o.put(' '); for (int i = 0; i < n; i++) o.put(s[i]); for (int i = n; left && i < width; i++) o.put(' '); continue; }
    if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p') {
      u64 v; bool neg = false; bool sg = c == 'd' || c == 'i'; if (c == 'p') { l = 1; alt = true; c = 'x'; }
      if (l >= 1) v = va_arg(ap, u64); else { int x = va_arg(ap, int); if (l == 0) v = sg ? (u64)(long)x : (u64)(unsigned)x; else if (l == -1) v = sg ? (u64)(long)(short)x : (u64)(unsigned short)x; else v = sg ? (u64)(long)(signed char)x : (u64)(u8)x; }
      if (quiet && sym_is_symbolic(v)) { o.put('#'); continue; }
      if (!sg && !alt && zero && !left && prec < 0 && (c == 'x' || c == 'X') && width > 0 && width <= 16) { // fixed width: no fork on the count of digits
        if (width == 16 || v < 1ul << (4 * width)) { for (int i = width - 1; i >= 0; i--) { long g = (long)(v >> (4 * i) & 15); o.put((char)(g + symx_ite(g < 10, '0', (c == 'X' ? 'A' : 'a') - 10))); } continue; } }
      if (sg && (long)v < 0) { neg = true; v = 0 - v; }
      char d[72]; int base = c == 'x' || c == 'X' ? 16 : c == 'o' ? 8 : 10; int n = udigits(v, d, base, c == 'X'); if (prec == 0 && n == 1 && d[0] == '0') n = 0;
      char pre[3]; int np = 0; if (neg) pre[np++] = '-'; else if (sg && plus) pre[np++] = '+'; else if (sg && space) pre[np++] = ' '; if (alt && base == 16 && v) { pre[np++] = '0'; pre[np++] = c; }
      int z = prec > n ? prec - n : 0; if (zero && !left && prec < 0 && width > n + np) z = width - n - np; int pad = width - n - np - z;
      if (!left) while (pad-- > 0) o.put(' '); for (int i = 0; i < np; i++) o.put(pre[i]); for (int i = 0; i < z; i++) o.put('0'); for (int i = 0; i < n; i++) o.put(d[i]); if (left) while (pad-- > 0) o.put(' '); continue; }
    if (c == 'f' || c == 'g' || c == 'e' || c == 'G' || c == 'E' || c == 'F') {
      double v = va_arg(ap, double); char sp[16]; int k = 0; sp[k++] = '%'; if (plus) sp[k++] = '+'; if (alt) sp[k++] = '#'; sp[k++] = '.'; sp[k++] = '*'; sp[k++] = c; sp[k] = 0; u64 bits; memcpy(&bits, &v, 8); char t[1200]; 
      if (sym_is_symbolic(bits)) { char *q = symx_lazy_fmt(bits, 2, nullptr); strcpy(t, q); free(q); } else symx_fmt_double(t, 1200, sp, prec < 0 ? 6 : prec, v);
      int n = strlen(t), pad = width - n; int i = 0; if (!left && !zero) while (pad-- > 0) o.put(' '); if (!left && zero && pad > 0) { if (t[0] == '-' || t[0] == '+') o.put(t[i++]); while (pad-- > 0) o.put('0'); } for (; i < n; i++) o.put(t[i]); if (left) while (pad-- > 0) o.put(' '); continue; }
    symx_unsupported("printf conversion"); return; }
}
// 1: %d-like int, 2: %ld, 3: floating; only whole-format matches
static int simpleFmt(const char *f) { if (sym_is_symbolic((u64)(u8)f[0]) || f[0] != '%') return 0; if (f[1] == 'd' && !f[2]) return 1; if (f[1] == 'l' && f[2] == 'd' && !f[3]) return 2; if ((f[1] == 'g' || f[1] == 'f') && !f[2]) return 3; if (f[1] == 'l' && (f[2] == 'g' || f[2] == 'f') && !f[3]) return 3; return 0; }
static bool simpleDbl(const char *f) { if (sym_is_symbolic((u64)(u8)f[0])) return false; int i = 0; if (f[i] == '-') i++; return f[i] == '%' && f[i + 1] == '.' && f[i + 2] == '*' && f[i + 3] == 'f' && !f[i + 4]; }
int vsnprintf(char *b, size_t cap, const char *f, va_list ap) { Sink o{b, cap, 0}; vfmt(o, f, ap); o.end(); return (int)o.n; }
int snprintf(char *b, size_t cap, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, cap, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { Sink o{b, ~0ul, 0}; vfmt(o, f, ap); o.end(); return (int)o.n; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); 
  if (simpleDbl(f)) { va_list aq; va_copy(aq, ap); (void)va_arg(aq, int); double v = va_arg(aq, double); va_end(aq); u64 bits; memcpy(&bits, &v, 8); if (sym_is_symbolic(bits) && symx_lazy_fmt(bits, 2, b)) { va_end(ap); return (int)((u64)symx_havoc(8) & 511); } }
  int r = vsprintf(b, f, ap); va_end(ap); return r; }
int vasprintf(char **out, const char *f, va_list ap) {
  int k = simpleFmt(f); if (k) { va_list aq; va_copy(aq, ap); u64 v; if (k == 1) v = (u64)(long)va_arg(aq, int); else if (k == 2) v = (u64)va_arg(aq, long); else { double d = va_arg(aq, double); memcpy(&v, &d, 8); } va_end(aq); if (quiet && k != 3 && sym_is_symbolic(v)) { *out = strdup("#"); return 1; } if (sym_is_symbolic(v)) { *out = symx_lazy_fmt(v, k == 3 ? 2 : 1, nullptr); return 1; } }
  char t[2048]; va_list aq; va_copy(aq, ap); int n = vsnprintf(t, 2048, f, aq); va_end(aq); if (n >= 2048) symx_unsupported("asprintf longer than 2047"); char *p = (char *)malloc(n + 1); memcpy(p, t, n + 1); *out = p; return n; }
int asprintf(char **out, const char *f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(out, f, ap); va_end(ap); return r; }
int printf(const char *, ...) { return 0; } int fprintf(FILE *, const char *, ...) { return 0; } int vprintf(const char *, va_list) { return 0; } int vfprintf(FILE *, const char *, va_list) { return 0; }
char *getenv(const char *) { return nullptr; } int putenv(char *) { return 0; } int setenv(const char *, const char *, int) { return 0; } int unsetenv(const char *) { return 0; }
__attribute__((weak)) int rand(void) { return (int)(symx_havoc(7) & 0x7fffffff); }

// ---- regex: only the conversion pattern of String::format, matched leftmost
int regcomp(void *re, const char *p, int) { if (strcmp(p, "%([[:digit:]]+)?([-#+0 ]*)?([[:digit:]]+)?(\\.[[:digit:]]+)?(l){0,2}([diuoxXfFeEgGaAcspnbB%])")) symx_unsupported("regular expression other than that of String::format"); *(void **)re = malloc(1); return 0; }
void regfree(void *re) { free(*(void **)re); }
static int rxConv(char c) { const char *v = "diuoxXfFeEgGaAcspnbB%"; int r = 0; for (int i = 0; v[i]; i++) r |= c == v[i]; return r; }
static int rxDigit(char c) { return (unsigned char)(c - '0') < 10; }
int regexec(const void *, const char *s, size_t nm, int *m, int) { // m: (start, end) pairs; only the whole match is given
  for (int i = 0; s[i]; i++) { if (s[i] != '%') continue; int j = i + 1; while (rxDigit(s[j])) j++; while ((s[j] == '-') | (s[j] == '#') | (s[j] == '+') | (s[j] == '0') | (s[j] == ' ')) j++; while (rxDigit(s[j])) j++;
    int k = j; if (s[k] == '.') { k++; if (rxDigit(s[k])) { while (rxDigit(s[k])) k++; j = k; } }
    if (s[j] == 'l') { j++; if (s[j] == 'l') j++; }
    if (rxConv(s[j])) { if (nm) { m[0] = i; m[1] = j + 1; } return 0; } }
  return 1; }

// ---- time (UTC)
__attribute__((weak)) time_t time(time_t *t) { time_t v = (time_t)(symx_clock_ns() / 1000000000ul); if (t) *t = v; return v; }
__attribute__((weak)) int gettimeofday(struct timeval *tv, void *) { u64 n = symx_clock_ns(); tv->tv_sec = n / 1000000000ul; tv->tv_usec = n % 1000000000ul / 1000; return 0; }
int clock_gettime(clockid_t, struct timespec *ts) { u64 n = symx_clock_ns(); ts->tv_sec = n / 1000000000ul; ts->tv_nsec = n % 1000000000ul; return 0; }
int nanosleep(const struct timespec *ts, struct timespec *) { symx_advance_clock((u64)ts->tv_sec * 1000000000ul + ts->tv_nsec); return 0; }
static long floorDiv(long a, long b) { long q = a / b, r = a % b; return symx_ite(r < 0, q - 1, q); }
static void civil(long z, long *y, int *m, int *d) { z += 719468; long era = floorDiv(z, 146097); unsigned doe = (unsigned)(z - era * 146097); unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; long yy = (long)yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100); unsigned mp = (5 * doy + 2) / 153; *d = (int)(doy - (153 * mp + 2) / 5 + 1); *m = (int)(mp < 10 ? mp + 3 : mp - 9); *y = yy + (*m <= 2); }
static long daysFrom(long y, long m, long d) { y -= m <= 2; long era = floorDiv(y, 400); unsigned yoe = (unsigned)(y - era * 400); unsigned doy = (unsigned)((153 * (m > 2 ? m - 3 : m + 9) + 2) / 5) + (unsigned)d - 1; unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (long)doe - 719468; }
// Calendar conversions of symbolic times: the fields of a time are any fields, but the same ones whenever the time is the same, and they
// convert back to it. In-range fields convert forward exactly. Concrete times are exact.
static struct { time_t t; struct tm v; } rt_cal[32]; static int rt_ncal; static void remember(time_t t, const struct tm *v) { if (rt_ncal == 32) symx_unsupported("more than 32 symbolic times"); rt_cal[rt_ncal].t = t; rt_cal[rt_ncal++].v = *v; }
static bool literally(bool c) { return !sym_is_symbolic((u64)c) && c; }
static void finishTm(struct tm *o) { o->tm_isdst = 0; o->tm_gmtoff = 0; o->tm_zone = "UTC"; }
static int anyIn(int lo, int hi) { int v = (int)symx_havoc(9); sym_assume((v >= lo) & (v <= hi)); return v; }
static struct tm *exactTm(const time_t *t, struct tm *o);
struct tm *gmtime_r(const time_t *t, struct tm *o) { if (!sym_is_symbolic((u64)*t)) return exactTm(t, o);
  for (int i = 0; i < rt_ncal; i++) if (literally(rt_cal[i].t == *t)) { *o = rt_cal[i].v; return o; } for (int i = 0; i < rt_ncal; i++) if (rt_cal[i].t == *t) { *o = rt_cal[i].v; return o; }
  o->tm_year = anyIn(-100000, 1000000); o->tm_mon = anyIn(0, 11); o->tm_mday = anyIn(1, 31); o->tm_hour = anyIn(0, 23); o->tm_min = anyIn(0, 59); o->tm_sec = anyIn(0, 59); o->tm_wday = anyIn(0, 6); o->tm_yday = anyIn(0, 365); finishTm(o); remember(*t, o); return o; }
static struct tm *exactTm(const time_t *t, struct tm *o) { long days = floorDiv(*t, 86400), s = *t - days * 86400; long y; int m, d; civil(days, &y, &m, &d); o->tm_year = (int)(y - 1900); o->tm_mon = m - 1; o->tm_mday = d; o->tm_hour = (int)(s / 3600); o->tm_min = (int)(s % 3600 / 60); o->tm_sec = (int)(s % 60); long w = (days + 4) % 7; o->tm_wday = (int)(w < 0 ? w + 7 : w); o->tm_yday = (int)(days - daysFrom(y, 1, 1)); o->tm_isdst = 0; o->tm_gmtoff = 0; o->tm_zone = "UTC"; return o; }
static struct tm rt_tm;
struct tm *gmtime(const time_t *t) { return gmtime_r(t, &rt_tm); } struct tm *localtime(const time_t *t) { return gmtime_r(t, &rt_tm); } struct tm *localtime_r(const time_t *t, struct tm *o) { return gmtime_r(t, o); }
static bool symTm(const struct tm *b) { return sym_is_symbolic((u64)b->tm_year) | sym_is_symbolic((u64)b->tm_mon) | sym_is_symbolic((u64)b->tm_mday) | sym_is_symbolic((u64)b->tm_hour) | sym_is_symbolic((u64)b->tm_min) | sym_is_symbolic((u64)b->tm_sec); }
time_t mktime(struct tm *b) { bool sy = symTm(b);
  if (sy) for (int i = 0; i < rt_ncal; i++) { const struct tm &v = rt_cal[i].v; if (literally(v.tm_year == b->tm_year) && literally(v.tm_mon == b->tm_mon) && literally(v.tm_mday == b->tm_mday) && literally(v.tm_hour == b->tm_hour) && literally(v.tm_min == b->tm_min) && literally(v.tm_sec == b->tm_sec)) { *b = v; return rt_cal[i].t; } }
  long mon = b->tm_mon, y = b->tm_year + 1900L; long ym = floorDiv(mon, 12); y += ym; mon -= ym * 12; long days = daysFrom(y, mon + 1, 1) + b->tm_mday - 1; time_t t = days * 86400 + b->tm_hour * 3600L + b->tm_min * 60L + b->tm_sec;
  int len = 28; if (!sym_is_symbolic((u64)b->tm_mon) && !sym_is_symbolic((u64)b->tm_year) && (unsigned)b->tm_mon < 12) len = b->tm_mon == 1 ? (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) ? 29 : 28) : b->tm_mon == 3 || b->tm_mon == 5 || b->tm_mon == 8 || b->tm_mon == 10 ? 30 : 31;
  if (sy && ((unsigned)b->tm_mon < 12) & (b->tm_mday >= 1) & (b->tm_mday <= len) & ((unsigned)b->tm_hour < 24) & ((unsigned)b->tm_min < 60) & ((unsigned)b->tm_sec < 60)) { long w = (days + 4) % 7; b->tm_wday = (int)symx_ite(w < 0, w + 7, w); b->tm_yday = (int)(days - daysFrom(y, 1, 1)); finishTm(b); if (sym_is_symbolic((u64)t)) remember(t, b); return t; }
  gmtime_r(&t, b); return t; }
time_t timegm(struct tm *b) { return mktime(b); }
double difftime(time_t a, time_t b) { return (double)a - (double)b; }
static const char *WD[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}; static const char *MN[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static void num(Sink &o, long v, int w) { if (quiet && sym_is_symbolic((u64)v)) { o.put('#'); return; } char d[24]; if (w >= 2 && sym_is_symbolic((u64)v)) { long lim = 1; for (int i = 0; i < w; i++) lim *= 10; if ((v >= 0) & (v < lim)) { symx_digits((u64)v, d, w, 10); for (int i = 0; i < w; i++) o.put((char)(d[i] + '0')); return; } } bool neg = v < 0; if (neg) { o.put('-'); v = -v; } int n = udigits((u64)v, d, 10, false); for (int i = n; i < w; i++) o.put('0'); for (int i = 0; i < n; i++) o.put(d[i]); }
static void name(Sink &o, const char **t, int i, int n);
static void str(Sink &o, const char *s, int n) { for (int i = 0; s[i] && (n < 0 || i < n); i++) o.put(s[i]); }
static void name(Sink &o, const char **t, int i, int n) { if (quiet && sym_is_symbolic((u64)i)) { o.put('#'); return; } str(o, t[sym_concrete(i)], n); }
static void sft(Sink &o, const char *f, const struct tm *t) {
  for (; *f; f++) { if (*f != '%') { o.put(*f); continue; } f++;
    switch (*f) { case 'Y': num(o, t->tm_year + 1900L, 1); break; case 'm': num(o, t->tm_mon + 1, 2); break; case 'd': num(o, t->tm_mday, 2); break; case 'H': num(o, t->tm_hour, 2); break; case 'M': num(o, t->tm_min, 2); break; case 'S': num(o, t->tm_sec, 2); break; case 'j': num(o, t->tm_yday + 1, 3); break; case 'y': num(o, (t->tm_year % 100 + 100) % 100, 2); break; case 'F': sft(o, "%Y-%m-%d", t); break; case 'T': sft(o, "%H:%M:%S", t); break; case 'D': sft(o, "%m/%d/%y", t); break; case 'R': sft(o, "%H:%M", t); break;
      case 'a': name(o, WD, t->tm_wday, 3); break; case 'A': name(o, WD, t->tm_wday, -1); break; case 'b': case 'h': name(o, MN, t->tm_mon, 3); break; case 'B': name(o, MN, t->tm_mon, -1); break; case 'Z': str(o, "UTC", -1); break; case 'z': str(o, "+0000", -1); break; case '%': o.put('%'); break; case 'n': o.put('\n'); break; case 't': o.put('\t'); break; case 'c': sft(o, "%a %b ", t); { long d = t->tm_mday; if (d < 10) o.put(' '); num(o, d, 1); } sft(o, " %H:%M:%S %Y", t); break;
      case 'I': { if (quiet && sym_is_symbolic((u64)t->tm_hour)) { o.put('#'); break; } int h = t->tm_hour % 12; num(o, h ? h : 12, 2); break; } case 'p': if (quiet && sym_is_symbolic((u64)t->tm_hour)) o.put('#'); else str(o, t->tm_hour < 12 ? "AM" : "PM", -1); break; case 'e': if (t->tm_mday < 10) o.put(' '); num(o, t->tm_mday, 1); break; default: symx_unsupported("strftime conversion"); } } }
size_t strftime(char *b, size_t cap, const char *f, const struct tm *t) { Sink o{b, cap, 0}; sft(o, f, t); if (o.n >= cap) return 0; b[o.n] = 0; return o.n; }
} // extern C

namespace std {
exception::~exception() noexcept {} const char *exception::what() const noexcept { return "std::exception"; }
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr st, void (*)()) { _State *p = st.release(); struct R { static void run(void *a) { _State *q = (_State *)a; q->_M_run(); delete q; } }; long id = symx_thread_create(&R::run, p); _M_id = thread::id((__gthread_t)(id + 1)); }
void thread::join() { u64 id; memcpy(&id, &_M_id, 8); symx_thread_join((long)id - 1); _M_id = thread::id(); }
void thread::detach() { _M_id = thread::id(); }
namespace chrono { inline namespace _V2 { __attribute__((weak)) system_clock::time_point system_clock::now() noexcept { return time_point(duration((long)symx_clock_ns())); } steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((long)symx_clock_ns())); } } }
// a weak hash: any function of the bytes is allowed, and this one makes collisions common
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const u8 *b = (const u8 *)p; size_t h = n; for (size_t i = 0; i < n; i++) h += b[i]; return h & 3; }
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t P[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173}; size_t r = 0; for (size_t p : P) { r = p; if (p >= n) break; } if (r < n) symx_unsupported("hash table size"); _M_next_resize = r; return r; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni <= _M_next_resize) return {false, 0}; size_t want = ne + ni; if (want < nb) { _M_next_resize = nb; return {false, 0}; } return {true, _M_next_bkt(want + 1 > nb * 2 ? want + 1 : nb * 2)}; }
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept { if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first; _List_node_base *t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
// red-black tree primitives: the tree is kept as a plain binary search tree (never rebalanced); iteration order,
// contents and node lifetimes are the same as with the balanced one
typedef _Rb_tree_node_base NB;
static NB *tInc(NB *x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NB *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static NB *tDec(NB *x) { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { NB *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { NB *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
NB *_Rb_tree_increment(NB *x) throw() { return tInc(x); } const NB *_Rb_tree_increment(const NB *x) throw() { return tInc((NB *)x); }
NB *_Rb_tree_decrement(NB *x) throw() { return tDec(x); } const NB *_Rb_tree_decrement(const NB *x) throw() { return tDec((NB *)x); }
void _Rb_tree_insert_and_rebalance(const bool left, NB *x, NB *p, NB &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
NB *_Rb_tree_rebalance_for_erase(NB *const z, NB &h) throw() {
  NB *&root = h._M_parent; NB *&lm = h._M_left; NB *&rm = h._M_right; NB *y = z, *x = 0, *xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y; if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { NB *t = x; while (t->_M_left) t = t->_M_left; lm = t; } } if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { NB *t = x; while (t->_M_right) t = t->_M_right; rm = t; } } }
  (void)xp; return y; }
template class basic_string<char>; template class basic_string<wchar_t>;
inline namespace __cxx11 {
static string rtS(long v) { char *p; asprintf(&p, "%ld", v); string s(p); free(p); return s; }
static string rtU(u64 v) { if (quiet && sym_is_symbolic(v)) return string("#"); char d[24]; int n = udigits(v, d, 10, false); return string(d, n); }
string rt_ts_i(int v) asm("_ZNSt7__cxx119to_stringEi"); string rt_ts_i(int v) { return rtS(v); }
string rt_ts_l(long v) asm("_ZNSt7__cxx119to_stringEl"); string rt_ts_l(long v) { return rtS(v); }
string rt_ts_x(long v) asm("_ZNSt7__cxx119to_stringEx"); string rt_ts_x(long v) { return rtS(v); }
string rt_ts_j(unsigned v) asm("_ZNSt7__cxx119to_stringEj"); string rt_ts_j(unsigned v) { return rtU(v); }
string rt_ts_m(u64 v) asm("_ZNSt7__cxx119to_stringEm"); string rt_ts_m(u64 v) { return rtU(v); }
string rt_ts_y(u64 v) asm("_ZNSt7__cxx119to_stringEy"); string rt_ts_y(u64 v) { return rtU(v); }
}
}
// std::bitset<N>::to_string writes every position from the bit's value (the library visits set bits one by one)
template <int N> static void bitText(const u64 *w, std::string &s, char zero, char one) { s.assign(N, zero); for (int i = 0; i < N; i++) s[N - 1 - i] = (char)symx_ite((w[i / 64] >> (i % 64)) & 1, (u8)one, (u8)zero); }
extern "C" {
void rt_bs32(const u64 *w, std::string &s, char z, char o) asm("_ZNKSt6bitsetILm32EE17_M_copy_to_stringIcSt11char_traitsIcESaIcEEEvRNSt7__cxx1112basic_stringIT_T0_T1_EES7_S7_"); void rt_bs32(const u64 *w, std::string &s, char z, char o) { bitText<32>(w, s, z, o); }
void rt_bs64(const u64 *w, std::string &s, char z, char o) asm("_ZNKSt6bitsetILm64EE17_M_copy_to_stringIcSt11char_traitsIcESaIcEEEvRNSt7__cxx1112basic_stringIT_T0_T1_EES7_S7_"); void rt_bs64(const u64 *w, std::string &s, char z, char o) { bitText<64>(w, s, z, o); }
}
// ---- iostreams: an output string stream that understands integers, characters and the base manipulators; standard streams discard
extern char rtCout[] asm("_ZSt4cout"), rtCerr[] asm("_ZSt4cerr"); static bool isStd(void *p) { return p == (void *)rtCout || p == (void *)rtCerr; }
struct RtStream { std::string *out; std::ios_base *fake; };
static RtStream *rs(void *p) { return (RtStream *)p; }
struct FakeBase { void *vptr; long prec, width; int flags; };
extern "C" {
void rt_ss_ctor(void *t) asm("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev"); void rt_ss_ctor(void *t) { rs(t)->out = new std::string(); FakeBase *f = (FakeBase *)calloc(1, sizeof(std::ios_base) + 64); f->flags = std::ios_base::dec | std::ios_base::skipws; rs(t)->fake = (std::ios_base *)f; }
void rt_ss_dtor(void *t) asm("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev"); void rt_ss_dtor(void *t) { delete rs(t)->out; free(rs(t)->fake); }
void rt_ss_ctor2(void *t) asm("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev"); void rt_ss_ctor2(void *t) { rt_ss_ctor(t); }
void rt_ss_dtor2(void *t) asm("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev"); void rt_ss_dtor2(void *t) { rt_ss_dtor(t); }
}
static void *insU(void *t, u64 v, bool sg) { std::string *o = t ? rs(t)->out : nullptr; if (!o) return t; int fl = ((FakeBase *)rs(t)->fake)->flags; int base = fl & std::ios_base::hex ? 16 : fl & std::ios_base::oct ? 8 : 10; char d[72]; if (sg && base == 10 && (long)v < 0) { o->push_back('-'); v = 0 - v; } int n = udigits(v, d, base, fl & std::ios_base::uppercase); o->append(d, n); return t; }
// stringstream's ostream part sits at offset 16
static void *osBase(void *t) { return (char *)t - 16; }
extern "C" {
void *rt_os_l(void *t, long v) asm("_ZNSolsEl"); void *rt_os_l(void *t, long v) { if (!isStd(t)) insU(osBase(t), v, true); return t; }
void *rt_os_m(void *t, u64 v) asm("_ZNSolsEm"); void *rt_os_m(void *t, u64 v) { if (!isStd(t)) insU(osBase(t), v, false); return t; }
void *rt_os_i(void *t, int v) asm("_ZNSolsEi"); void *rt_os_i(void *t, int v) { if (!isStd(t)) insU(osBase(t), (u64)(long)v, true); return t; }
void *rt_os_ios(void *t, std::ios_base &(*f)(std::ios_base &)) asm("_ZNSolsEPFRSt8ios_baseS0_E"); void *rt_os_ios(void *t, std::ios_base &(*f)(std::ios_base &)) { if (!isStd(t)) f(*rs(osBase(t))->fake); return t; }
void *rt_os_os(void *t, void *f) asm("_ZNSolsEPFRSoS_E"); void *rt_os_os(void *t, void *f) { return t; }
void *rt_os_s(void *t, const char *s) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"); void *rt_os_s(void *t, const char *s) { if (!isStd(t)) rs(osBase(t))->out->append(s); return t; }
void *rt_os_str(void *t, const std::string &s) asm("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE"); void *rt_os_str(void *t, const std::string &s) { if (!isStd(t)) rs(osBase(t))->out->append(s); return t; }
}
struct SSRet { std::string s; };
std::string rt_ss_str(const void *t) asm("_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv"); std::string rt_ss_str(const void *t) { return *rs((void *)t)->out; }
std::string rt_ss_str2(const void *t) asm("_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv"); std::string rt_ss_str2(const void *t) { return *rs((void *)t)->out; }
// ---- UTF-8 conversion facet
extern "C" {
void rt_cvt_ctor(void *t, size_t r) asm("_ZNSt7codecvtIwc11__mbstate_tEC2Em"); void rt_cvt_ctor(void *t, size_t r) { ((int *)t)[2] = r ? 1 : 0; }
void rt_cvt_dtor(void *t) asm("_ZNSt19__codecvt_utf8_baseIwED2Ev"); void rt_cvt_dtor(void *t) {}
int rt_cvt_in(void *t, void *st, const char *f, const char *fe, const char **fn, wchar_t *o, wchar_t *oe, wchar_t **on) asm("_ZNKSt19__codecvt_utf8_baseIwE5do_inER11__mbstate_tPKcS4_RS4_PwS6_RS6_");
int rt_cvt_in(void *t, void *st, const char *f, const char *fe, const char **fn, wchar_t *o, wchar_t *oe, wchar_t **on) { int res = 0; while (f != fe && o != oe) { unsigned c = (u8)*f; int k; unsigned cp; if (c < 0x80) { *o++ = c; f++; continue; } if (c < 0xC2) { res = 2; break; } if (c < 0xE0) { k = 1; cp = c & 31; } else if (c < 0xF0) { k = 2; cp = c & 15; } else if (c < 0xF5) { k = 3; cp = c & 7; } else { res = 2; break; } if (fe - f <= k) { res = 1; break; } bool bad = false; for (int i = 1; i <= k; i++) { unsigned x = (u8)f[i]; if ((x & 0xC0) != 0x80) { bad = true; break; } cp = cp << 6 | (x & 63); } if (bad || (k == 2 && cp < 0x800) || (k == 3 && (cp < 0x10000 || cp > 0x10FFFF)) || (cp >= 0xD800 && cp < 0xE000)) { res = 2; break; } *o++ = cp; f += k + 1; } if (res == 0 && f != fe) res = 1; *fn = f; *on = o; return res; }
int rt_cvt_out(void *t, void *st, const wchar_t *f, const wchar_t *fe, const wchar_t **fn, char *o, char *oe, char **on) asm("_ZNKSt19__codecvt_utf8_baseIwE6do_outER11__mbstate_tPKwS4_RS4_PcS6_RS6_");
int rt_cvt_out(void *t, void *st, const wchar_t *f, const wchar_t *fe, const wchar_t **fn, char *o, char *oe, char **on) { int res = 0; while (f != fe) { unsigned c = (unsigned)*f; if (c < 0x80) { if (oe - o < 1) { res = 1; break; } *o++ = (char)c; } else if (c < 0x800) { if (oe - o < 2) { res = 1; break; } *o++ = 0xC0 | c >> 6; *o++ = 0x80 | (c & 63); } else if (c < 0x10000) { if (oe - o < 3) { res = 1; break; } *o++ = 0xE0 | c >> 12; *o++ = 0x80 | (c >> 6 & 63); *o++ = 0x80 | (c & 63); } else if (c < 0x110000) { if (oe - o < 4) { res = 1; break; } *o++ = 0xF0 | c >> 18; *o++ = 0x80 | (c >> 12 & 63); *o++ = 0x80 | (c >> 6 & 63); *o++ = 0x80 | (c & 63); } else { res = 2; break; } f++; } *fn = f; *on = o; return res; }
int rt_cvt_enc(void *) asm("_ZNKSt19__codecvt_utf8_baseIwE11do_encodingEv"); int rt_cvt_enc(void *) { return 0; }
int rt_cvt_maxl(void *) asm("_ZNKSt19__codecvt_utf8_baseIwE13do_max_lengthEv"); int rt_cvt_maxl(void *) { return 4; }
bool rt_cvt_noconv(void *) asm("_ZNKSt19__codecvt_utf8_baseIwE16do_always_noconvEv"); bool rt_cvt_noconv(void *) { return false; }
int rt_cvt_unshift(void *, void *, char *o, char *, char **on) asm("_ZNKSt19__codecvt_utf8_baseIwE10do_unshiftER11__mbstate_tPcS3_RS3_"); int rt_cvt_unshift(void *, void *, char *o, char *, char **on) { *on = o; return 3; }
}
