// Native side of the harness interface: replays one list of input values against the real build.
#include "../h/sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <atomic>
#include <thread>
#include <memory>
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
struct In { std::string n; unsigned w; unsigned long long v; };
static std::vector<In> *ins; static size_t pos; static std::atomic<int> live{0}; static FILE *O;
static void out(const char *k, const char *l, long v, bool hasV) { if (hasV) fprintf(O, "%s %ld %s\n", k, v, l); else fprintf(O, "%s %s\n", k, l); fflush(O); }
static unsigned long long next(const char *name) {
  if (pos >= ins->size() || (*ins)[pos].n != name) { fprintf(O, "DIVERGED %s\n", name); fflush(O); _exit(3); }
  return (*ins)[pos++].v; }
extern "C" {
int sym_int(const char *n) { return (int)next(n); }
long sym_long(const char *n) { return (long)next(n); }
short sym_short(const char *n) { return (short)next(n); }
unsigned char sym_byte(const char *n) { return (unsigned char)next(n); }
int sym_bool(const char *n) { return (int)(next(n) & 1); }
double sym_double(const char *n) { unsigned long long v = next(n); double d; memcpy(&d, &v, 8); return d; }
float sym_float(const char *n) { unsigned v = (unsigned)next(n); float d; memcpy(&d, &v, 4); return d; }
int sym_range(const char *n, int lo, int hi) { int v = (int)next(n); if (v < lo || v > hi) { out("DIVERGED", n, 0, false); _exit(3); } return v; }
int sym_choice(const char *n, int k) { return sym_range(n, 0, k - 1); }
long sym_concrete(long v) { return v; }
void sym_assume(int c) { if (!c) { fprintf(O, "ASSUME\n"); fflush(O); _exit(4); } }
void sym_assert(int c, const char *l) { if (!c) { out("FAIL", l, 0, false); _exit(10); } }
void sym_reach(const char *l) { out("REACH", l, 0, false); }
void sym_observe(const char *l, long v) { out("OBS", l, v, true); }
long sym_heap_live(void) { return live; }
int sym_param(const char *n, int d) { std::string e = std::string("P_") + n; const char *p = getenv(e.c_str()); return p ? atoi(p) : d; }
int sym_native(void) { return 1; }
long symx_ite(int c, long a, long b) { return c ? a : b; }
int sym_is_symbolic(unsigned long) { return 0; }
void symx_digits(unsigned long v, char *o, int n, int b) { for (int i = n - 1; i >= 0; i--) { o[i] = (char)(v % b); v /= b; } }
void sym_quiet(int) {}
void sym_thread(int k);
void symx_yield(void) { usleep(1); }
void symx_sched(int) {}
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
}
// The schedule of a counterexample: the order in which the threads take locks. A thread waits for its turn before it takes a
// lock; a thread with no further turn waits for the end of the schedule. Plain volatile words that ThreadSanitizer is told to
// ignore, so that the replay orders the threads without synchronising them.
#define NOTSAN __attribute__((no_sanitize_thread, noinline))
static volatile int schedT[1 << 12], schedN, schedPos, schedOn; static __thread int self;
NOTSAN static void schedLoad() { const char *p = getenv("SYM_SCHED"); while (p && *p && schedN < (1 << 12)) { schedT[schedN++] = (int)strtol(p, (char **)&p, 10); if (*p == ',') p++; } }
NOTSAN static int schedWait() { if (!schedOn) return 0; for (int n = 0; n < 4000; n++) { int p = schedPos; if (p >= schedN) return 0; bool mine = schedT[p] == self; if (mine) return 1; usleep(100); } schedPos = schedN; return 0; }
NOTSAN static void schedNext() { schedPos = schedPos + 1; }
extern "C" NOTSAN void sym_thread(int k) { self = k; if (k == 0) { schedLoad(); schedOn = 2; return; } bool any = false; for (int i = schedPos; i < schedN; i++) any |= schedT[i] == k; if (schedN) { if (any) schedWait(); else for (int n = 0; n < 4000 && schedPos < schedN; n++) usleep(100); } }
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *); 
extern "C" NOTSAN int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { int t = schedWait(); int r = __real_pthread_mutex_lock(m); if (t) schedNext(); return r; }
// spin locks in the ThreadSanitizer build: taking one is a step of the schedule as well
extern "C" char __real___tsan_atomic8_exchange(volatile char *, char, int) __attribute__((weak));
extern "C" NOTSAN char __wrap___tsan_atomic8_exchange(volatile char *p, char v, int mo) { int t = schedWait(); char r = __real___tsan_atomic8_exchange(p, v, mo); if (t && r != v) schedNext(); return r; }
// 8-byte atomics (counters, generator seeds): every access is a step
#define STEP64(R, NAME, PARAMS, ARGS) extern "C" R __real___tsan_atomic64_##NAME PARAMS __attribute__((weak)); extern "C" NOTSAN R __wrap___tsan_atomic64_##NAME PARAMS { int t = schedWait(); R r = __real___tsan_atomic64_##NAME ARGS; if (t) schedNext(); return r; }
STEP64(long, load, (const volatile long *p, int o), (p, o)) STEP64(long, exchange, (volatile long *p, long v, int o), (p, v, o)) STEP64(long, fetch_add, (volatile long *p, long v, int o), (p, v, o)) STEP64(long, fetch_sub, (volatile long *p, long v, int o), (p, v, o))
STEP64(int, compare_exchange_strong, (volatile long *p, long *c, long v, int o, int f), (p, c, v, o, f)) STEP64(int, compare_exchange_weak, (volatile long *p, long *c, long v, int o, int f), (p, c, v, o, f))
extern "C" void __real___tsan_atomic64_store(volatile long *, long, int) __attribute__((weak)); extern "C" NOTSAN void __wrap___tsan_atomic64_store(volatile long *p, long v, int o) { int t = schedWait(); __real___tsan_atomic64_store(p, v, o); if (t) schedNext(); }
// every std::thread gets its number (1, 2, ... in the order of creation) before it runs
struct Run { virtual ~Run() {} virtual void _M_run() = 0; }; // laid out as std::thread::_State
struct Numbered : Run { std::unique_ptr<Run> in; int k; Numbered(std::unique_ptr<Run> s, int n) : in(std::move(s)), k(n) {} void _M_run() override { sym_thread(k); in->_M_run(); } };
static int threads;
void realStart(std::thread *, std::unique_ptr<Run>, void (*)()) __asm__("__real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE");
void wrapStart(std::thread *, std::unique_ptr<Run>, void (*)()) __asm__("__wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE");
NOTSAN void wrapStart(std::thread *t, std::unique_ptr<Run> s, void (*d)()) { if (!schedOn) sym_thread(0); realStart(t, std::unique_ptr<Run>(new Numbered(std::move(s), ++threads)), d); }
static void onMalloc(const volatile void *, size_t) { live++; }
static void onFree(const volatile void *p) { if (p) live--; }
int main(int argc, char **argv) { // native ENTRY INPUTS OUTPUT
  O = fopen(argv[3], "w"); ins = new std::vector<In>(); FILE *f = fopen(argv[2], "r"); if (!f || !O) return 5; static char ob[4096]; setvbuf(O, ob, _IOFBF, sizeof ob);
  char nm[256]; unsigned w; unsigned long long v; while (fscanf(f, "%255s %u %llu", nm, &w, &v) == 3) ins->push_back({nm, w, v}); fclose(f);
  void (*e)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, argv[1]); if (!e) { fprintf(stderr, "no entry\n"); return 5; }
  if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
  e(); fprintf(O, "DONE\n"); fclose(O); fflush(stdout); _exit(0);
}
