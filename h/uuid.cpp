// UUID and libuuid. The environment (clock, /dev/urandom, state file) is a model in this file, used by both runs.
#include "hx.h"
#include "library/Java/Util/UUID/UUID.hpp"
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/stat.h>
using namespace Java::Util;
extern "C" int __uuid_generate_time(uuid_t out, int *num);
extern "C" void __uuid_generate_random(uuid_t out, int *num);
// ---- environment
static struct { int on, faults, nOpen, nRead, inCall, mode; long sec, usec, adv; unsigned seed; int lastFd; bool wrong; unsigned char got[64]; int nGot; } env;
extern "C" int open(const char *p, int fl, ...) { if (!env.on) { if (!sym_native()) return -1; va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
  if (strcmp(p, "/dev/urandom") != 0 && strcmp(p, "/dev/random") != 0) return -1; // no clock file
  if (env.faults && sym_choice("openFails", 2)) return -1; env.nOpen++; return env.lastFd = 700 + env.nOpen; }
extern "C" ssize_t read(int fd, void *b, size_t n) { if (!env.on) return sym_native() ? syscall(SYS_read, fd, b, n) : -1; if (fd != env.lastFd || n > 64) { env.wrong = true; return -1; } size_t k = n; if (env.faults && env.nRead++ < env.faults) { int c = sym_choice("read", 4); if (c == 0) return -1; if (c == 1) return 0; if (c == 2) k = 1; } unsigned char *p = (unsigned char *)b; for (size_t i = 0; i < k; i++) { p[i] = sym_byte("random"); if (env.nGot < 64) env.got[env.nGot++] = p[i]; } return (ssize_t)k; }
extern "C" int close(int fd) { if (!env.on) return sym_native() ? (int)syscall(SYS_close, fd) : 0; if (fd != env.lastFd) env.wrong = true; env.nOpen--; return 0; }
extern "C" int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); if (!env.on) return sym_native() ? (int)syscall(SYS_fcntl, fd, cmd, x) : 0; return 0; }
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept { if (!env.on) { if (!sym_native()) { tv->tv_sec = 7; tv->tv_usec = 1; return 0; } return (int)syscall(SYS_gettimeofday, tv, 0); } tv->tv_sec = env.sec; tv->tv_usec = env.usec; if (env.mode && ++env.inCall > 12) { if (++env.usec == 1000000) { env.usec = 0; env.sec++; } } return 0; }
static long atTime; // the wall clock, when set
extern "C" time_t time(time_t *t) noexcept { time_t v = atTime ? atTime : sym_native() ? (time_t)syscall(SYS_time, (time_t *)0) : 7; if (t) *t = v; return v; }
extern "C" int rand(void) noexcept { return (int)((env.seed = env.seed * 1103515245u + 12345u) & 0x7fffffff); }
extern "C" void srand(unsigned) noexcept {}
extern "C" pid_t getpid(void) noexcept { return 4711; }
extern "C" uid_t getuid(void) noexcept { return 1000; }
extern "C" mode_t umask(mode_t m) noexcept { return sym_native() && !env.on ? (mode_t)syscall(SYS_umask, m) : 022; }
static void begin(int faults) { env.on = 1; env.faults = faults; env.nOpen = env.nRead = env.nGot = 0; env.seed = 1; env.wrong = false; env.mode = 0; env.sec = 1000000; env.usec = 999983; env.inCall = 0; }
static void finish() { env.on = 0; sym_assert(env.nOpen == 0 && !env.wrong, "the random device is closed and used as opened"); }
// ---- the class
static char hexOf(int v) { return (char)(v + symx_ite(v < 10, '0', 'a' - 10)); }
static void refText(unsigned long m, unsigned long l, char *o) { int k = 0; for (int i = 0; i < 16; i++) { if (i == 8 || i == 12) o[k++] = '-'; o[k++] = hexOf((int)(m >> (60 - 4 * i) & 15)); } o[k++] = '-'; for (int i = 0; i < 16; i++) { if (i == 4) o[k++] = '-'; o[k++] = hexOf((int)(l >> (60 - 4 * i) & 15)); } o[k] = 0; }
extern "C" void uuid_text() { long m = sym_long("m"), l = sym_long("l"); UUID u(m, l); char e[40]; refText(m, l, e); String s = u.toString(); sym_assert(isText(s, e, 36), "8-4-4-4-12 lower-case digits"); sym_reach("end"); }
extern "C" void uuid_parse_text() { char t[40]; unsigned long m = 0, l = 0; for (int i = 0, k = 0; i < 36; i++) if (i == 8 || i == 13 || i == 18 || i == 23) t[i] = '-'; else { int d; t[i] = hexDigit("d", d); if (k++ < 16) m = m << 4 | (unsigned long)d; else l = l << 4 | (unsigned long)d; } t[36] = 0; UUID u = UUID::fromString(t); sym_assert(u.getMostSignificantBits() == (long)m && u.getLeastSignificantBits() == (long)l, "the digits give the bits"); sym_reach("end"); }
extern "C" void uuid_parse_bad() { Text t; int n = sym_choice("n", sym_param("N", 6)); textFrom(t, "t", n, '-', 'f'); int c = 0; for (int i = 0; i < n; i++) c += t.b[i] == '-'; sym_assume(c != 4); UUID u = UUID::fromString(t.b); sym_assert(u.getMostSignificantBits() == 0 && u.getLeastSignificantBits() == 0, "not five parts: the nil UUID"); sym_reach("end"); }
extern "C" void uuid_fields() { long m = sym_long("m"), l = sym_long("l"); unsigned long um = (unsigned long)m, ul = (unsigned long)l; UUID u(m, l); sym_assert(u.getMostSignificantBits() == m && u.getLeastSignificantBits() == l, "bits"); int v = (int)(um >> 12 & 15); sym_assert(u.version() == v, "version"); int top = (int)(ul >> 61); sym_assert(u.variant() == symx_ite(top < 4, 0, symx_ite(top < 6, 2, top)), "variant"); sym_assert(u.clockSequence() == symx_ite(v == 1, (long)(ul >> 48 & 0x3fff), -1), "clock sequence of a time-based UUID"); sym_assert(u.node() == (long)(ul & 0xffffffffffffUL), "node"); unsigned long x = um ^ ul; sym_assert((unsigned)u.hashCode() == ((unsigned)(x >> 32) ^ (unsigned)x), "hashCode"); sym_reach("end"); }
extern "C" void uuid_order() { long m = sym_long("m"), l = sym_long("l"), m2 = sym_long("m2"), l2 = sym_long("l2"); UUID a(m, l), b(m2, l2); sym_assert(a.equals(b) == ((m == m2) & (l == l2)), "equal exactly when all bits are"); int r = m < m2 ? -1 : m > m2 ? 1 : l < l2 ? -1 : l > l2; sym_assert(a.compareTo(b) == r, "ordered by the signed halves"); UUID n; sym_assert(n.getMostSignificantBits() == 0 && n.getLeastSignificantBits() == 0, "the default is nil"); sym_assert(n.getTimestamp() > 0, "a UUID knows when it was made"); sym_reach("end"); }
// two UUIDs of the same bits made at any two times are the same UUID
extern "C" void uuid_when() { long m = sym_long("m"), l = sym_long("l"), t1 = sym_range("t1", 1, 2147483647), t2 = sym_range("t2", 1, 2147483647); atTime = t1; UUID a(m, l); atTime = t2; UUID b(m, l); atTime = 1; UUID c(b); sym_assert(a.getTimestamp() == t1 && b.getTimestamp() == t2 && c.getTimestamp() == t2, "the time a UUID was made"); sym_assert(a.equals(b) && b.equals(a) && c.equals(a), "equal bits are equal UUIDs"); sym_assert(a.compareTo(b) == 0 && b.compareTo(a) == 0, "and compare equal"); sym_assert(a.hashCode() == b.hashCode() && c.hashCode() == a.hashCode(), "and have the same hash code"); atTime = 0; sym_reach("end"); }
// ---- random UUIDs: whatever the device gives or refuses
static void checkRandom(const unsigned char *u) { sym_assert((u[6] & 0xf0) == 0x40, "version 4"); sym_assert((u[8] & 0xc0) == 0x80, "variant 2"); }
extern "C" void uuid_random() { begin(sym_param("F", 2)); uuid_t u; uuid_generate_random(u); finish(); checkRandom(u); sym_reach("end"); }
extern "C" void uuid_random_entropy() { begin(0); uuid_t u; uuid_generate_random(u); unsigned char got[16]; sym_assert(env.nGot == 16, "all sixteen bytes come from the device"); memcpy(got, env.got, 16); finish(); begin(0); uuid_t w; uuid_generate_random(w); finish(); int diff = 0, same = 1; for (int i = 0; i < 16; i++) { int mk = i == 6 ? 0x0f : i == 8 ? 0x3f : 0xff; diff |= (got[i] ^ env.got[i]) & mk; same &= u[i] == w[i]; } sym_assume(diff); sym_assert(!same, "different random bits give different UUIDs"); sym_reach("end"); }
extern "C" void uuid_random_many() { begin(0); unsigned char u[3][16]; memset(u, 0, sizeof u); int n = 2; __uuid_generate_random(u[0], &n); finish(); checkRandom(u[0]); checkRandom(u[1]); int z = 0; for (int i = 0; i < 16; i++) z |= u[2][i]; sym_assert(z == 0, "exactly the UUIDs asked for are written"); sym_reach("end"); }
extern "C" void uuid_random_class() { begin(0); UUID r = UUID::randomUUID(); finish(); sym_assert(r.version() == 4 && r.variant() == 2, "a random UUID of version 4"); sym_reach("end"); }
// ---- time-based UUIDs
static unsigned long clockOf(const unsigned char *u) { unsigned long lo = (unsigned long)u[0] << 24 | u[1] << 16 | u[2] << 8 | u[3], mid = (unsigned long)u[4] << 8 | u[5], hi = (unsigned long)(u[6] & 15) << 8 | u[7]; return hi << 48 | mid << 32 | lo; }
static int seqOf(const unsigned char *u) { return (u[8] & 0x3f) << 8 | u[9]; }
static void gen(unsigned char *u, int *num = nullptr) { env.inCall = 0; env.mode = 1; __uuid_generate_time(u, num); env.mode = 0; sym_assert((u[6] & 0xf0) == 0x10 && (u[8] & 0xc0) == 0x80, "version 1, variant 2"); sym_assert(u[10] & 1, "a made-up node has the multicast bit"); }
static void anyTime(const char *name) { env.sec = 999999 + sym_choice(name, 3); env.usec = sym_range("usec", 0, 999999); }
static void apart(const unsigned char *a, int na, const unsigned char *b, int nb) { unsigned long x = clockOf(a), y = clockOf(b); sym_assert((seqOf(a) != seqOf(b)) | (x + na <= y) | (y + nb <= x), "no two time-based UUIDs are the same"); }
extern "C" void uuid_time_first() { begin(0); uuid_t u; gen(u); finish(); struct timeval tv; sym_assert(uuid_time(u, &tv) == 1000000 && tv.tv_usec == 999983, "the time stands in the UUID"); sym_assert(uuid_type(u) == 1 && uuid_variant(u) == 1, "type and variant"); sym_reach("end"); }
extern "C" void uuid_time_later() { begin(0); uuid_t u, v, w; gen(u); anyTime("t1"); gen(v); anyTime("t2"); gen(w); finish(); apart(u, 1, v, 1); apart(u, 1, w, 1); apart(v, 1, w, 1); sym_reach("end"); }
extern "C" void uuid_time_burst() { begin(0); unsigned char u[14][16]; int k = 1 + sym_choice("k", 12); for (int i = 0; i < k; i++) { env.sec = 1000000; env.usec = 999983; gen(u[i]); } env.sec = 1000000; env.usec = sym_range("usec", 0, 999999); gen(u[k]); finish(); for (int i = 0; i < k; i++) apart(u[i], 1, u[k], 1); for (int i = 0; i < k - 1; i++) apart(u[i], 1, u[k - 1], 1); sym_reach("end"); }
extern "C" void uuid_time_bulk() { begin(0); uuid_t u, v, w; gen(u); static const int NS[] = {1, 2, 10, 11, 21, 30}; int n = NS[sym_choice("n", 6)]; anyTime("t1"); gen(v, &n); anyTime("t2"); gen(w); finish(); apart(u, 1, v, n); apart(v, n, w, 1); sym_reach("end"); }
extern "C" void uuid_time_class() { begin(0); uuid_t f; gen(f); env.sec = 1000001; env.usec = sym_range("usec", 0, 999999); long us = env.usec; env.mode = 1; env.inCall = 0; UUID r = UUID::timeUUID(); finish(); unsigned long c = (unsigned long)(1000001L * 10000000 + us * 10) + 0x01B21DD213814000UL; unsigned long m = (c & 0xffffffff) << 32 | (c >> 32 & 0xffff) << 16 | 0x1000 | c >> 48; sym_assert(r.getMostSignificantBits() == (long)m, "the time stands in the UUID"); sym_assert(r.version() == 1 && r.variant() == 2, "a time-based UUID"); sym_reach("end"); }
// ---- libuuid's helpers
static void anyU(unsigned char *u, const char *n) { for (int i = 0; i < 16; i++) u[i] = sym_byte(n); }
static int upper(int c) { return c - (int)symx_ite((c >= 'a') & (c <= 'z'), 32, 0); }
extern "C" void uuid_lib_unparse() { uuid_t u, w; anyU(u, "u"); unsigned long m = 0, l = 0; for (int i = 0; i < 8; i++) { m = m << 8 | u[i]; l = l << 8 | u[8 + i]; } char e[40], t[40]; refText(m, l, e); int k = sym_choice("api", 3); memset(t, 'x', 40); if (k == 0) uuid_unparse_lower(u, t); else if (k == 1) uuid_unparse_upper(u, t); else uuid_unparse(u, t); bool ok = t[36] == 0 && t[37] == 'x'; for (int i = 0; i < 36; i++) ok &= t[i] == (k == 1 ? upper(e[i]) : e[i]); sym_assert(ok, "the text of the sixteen bytes"); sym_reach("end"); }
extern "C" void uuid_lib_parse() { char t[40]; uuid_t u, e; memset(u, 0x55, 16); for (int i = 0, k = 0; i < 36; i++) if (i == 8 || i == 13 || i == 18 || i == 23) t[i] = '-'; else { int d; t[i] = hexDigit("d", d); int &b = k; if (b % 2 == 0) e[b / 2] = (unsigned char)(d << 4); else e[b / 2] |= (unsigned char)d; b++; } t[36] = 0; sym_assert(uuid_parse(t, u) == 0, "a well-formed text is accepted"); bool ok = true; for (int i = 0; i < 16; i++) ok &= u[i] == e[i]; sym_assert(ok, "its bytes"); sym_reach("end"); }
extern "C" void uuid_lib_parse_bad() { char t[48]; strcpy(t, "38400000-8cf0-11bd-b23e-10b96e4ef00d"); int at = sym_choice("at", 36); unsigned char c = sym_byte("c"); bool dash = at == 8 || at == 13 || at == 18 || at == 23; bool hex = ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); t[at] = (char)c; if (c == 0) t[at] = 0; uuid_t u; int r = uuid_parse(t, u); sym_assert(r == (int)symx_ite(dash ? c == '-' : hex, 0, -1), "accepted exactly when the character fits its place"); char x[48]; strcpy(x, "38400000-8cf0-11bd-b23e-10b96e4ef00d"); int n = sym_choice("len", 3); if (n == 0) x[35] = 0; else if (n == 1) strcat(x, "0"); else x[0] = 0; sym_assert(uuid_parse(x, u) == -1, "another length is refused"); sym_reach("end"); }
extern "C" void uuid_lib_misc() { uuid_t a, b, c; anyU(a, "a"); anyU(b, "b"); int r = 0; for (int i = 15; i >= 0; i--) r = (int)symx_ite(a[i] == b[i], r, symx_ite(a[i] < b[i], -1, 1)); int g = uuid_compare(a, b); sym_assert((g < 0) == (r < 0) && (g > 0) == (r > 0), "compare orders by the bytes"); int z = 0; for (int i = 0; i < 16; i++) z |= a[i]; sym_assert((uuid_is_null(a) != 0) == (z == 0), "null exactly when all bytes are zero"); uuid_copy(c, a); sym_assert(memcmp(c, a, 16) == 0, "copy"); uuid_clear(c); z = 0; for (int i = 0; i < 16; i++) z |= c[i]; sym_assert(z == 0, "clear"); sym_assert(uuid_type(a) == a[6] >> 4, "type"); int v = a[8]; sym_assert(uuid_variant(a) == symx_ite((v & 0x80) == 0, 0, symx_ite((v & 0x40) == 0, 1, symx_ite((v & 0x20) == 0, 2, 3))), "variant"); sym_reach("end"); }
