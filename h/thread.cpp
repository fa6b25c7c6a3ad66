// Semaphore and Thread: every interleaving within the preemption bound
#include "hx.h"
#include <chrono>
#include <thread>
#include "library/Java/Lang/Thread/Thread.hpp"
#include "library/Java/Lang/IllegalArgumentException/IllegalArgumentException.hpp"
static long nowMs() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
// one thread: a counter with a lower bound
extern "C" void sem_sequential() { int p = sym_choice("start", 2) ? sym_range("p", 0, 1 << 28) : 0; Semaphore a(p), d; Semaphore &s = p || sym_choice("ctor", 2) ? a : d; for (int i = 0, N = sym_param("N", 2); i < N; i++) { int op = sym_choice("op", 7), k = op == 0 || op == 2 || op == 4 || op == 6 ? sym_range("k", 0, 1 << 28) : 1; if (op == 0) { s.release(k); p += k; } else if (op == 1) { s.release(); p++; } else if (op == 2) { bool g = s.tryAcquire(k); sym_assert(g == (k <= p), "tryAcquire(n) takes n permits or none"); if (g) p -= k; } else if (op == 3) { bool g = s.tryAcquire(); sym_assert(g == (p >= 1), "tryAcquire takes one permit or none"); if (g) p--; } else if (op == 4) { sym_assume(k <= p); s.acquire(k); p -= k; } else if (op == 5) { sym_assume(p >= 1); s.acquire(); p--; } else { bool g = s.tryAcquire(k, 3L); sym_assert(g == (k <= p), "a time limit does not make permits"); if (g) p -= k; } sym_assert(s.availablePermits() == p, "the permits are counted"); } sym_reach("end"); }
extern "C" void sem_text() { int p = sym_range("p", 0, 99); Semaphore s(p); s.release(1); p = (int)sym_concrete(p) + 1; char e[32]; snprintf(e, sizeof e, "[Permits = %d]", p); sym_assert(isText(s.toString(), e), "toString names the permits"); sym_reach("end"); }
extern "C" void sem_waits() { int k = 1 + sym_choice("k", 2), p = sym_choice("p", 2); sym_assume(p < k); long t = 1 + sym_choice("t", 3) * 7; Semaphore s(p); long a = nowMs(); bool g = s.tryAcquire(k, t); sym_assert(!g, "no permit appears"); sym_assert(nowMs() - a >= t, "the whole time limit is waited"); sym_assert(s.availablePermits() == p, "nothing is taken"); sym_reach("end"); }
// two waiters, permits released one by one or together: everybody returns
extern "C" void sem_acquire_release() { int n1 = 1 + sym_choice("n1", 2), n2 = 1 + sym_choice("n2", 2), p = sym_choice("p", 3), form = sym_choice("form", 2); sym_assume(p <= n1 + n2); Semaphore s(p); int done1 = 0, done2 = 0; { std::thread a([&]() { if (n1 == 1 && form) s.acquire(); else s.acquire(n1); done1 = 1; }); std::thread b([&]() { s.acquire(n2); done2 = 1; }); int need = n1 + n2 - p; if (form) { for (int i = 0; i < need; i++) s.release(); } else s.release(need); a.join(); b.join(); } sym_assert(s.availablePermits() == 0, "every permit is taken once"); sym_assert(done1 && done2, "both threads went on"); sym_reach("end"); }
// the first waiter wants more than there is, the second one does not
extern "C" void sem_small_passes() { Semaphore s(0); int done = 0; { std::thread b([&]() { s.acquire(1); done = 1; s.release(2); }); std::thread a([&]() { s.acquire(2); }); s.release(1); b.join(); a.join(); } sym_assert(s.availablePermits() == 0 && done, "one permit is enough for the one who wants one"); sym_reach("end"); }
extern "C" void sem_mutex() { Semaphore s(1); int count = 0; int form = sym_choice("form", 3); auto take = [&]() -> bool { if (form == 0) s.acquire(); else if (form == 1) s.acquire(1); else return s.tryAcquire(1, 40L); return true; }; auto body = [&]() { if (!take()) return; int c = count; count = c + 1; s.release(); }; { std::thread a(body), b(body); a.join(); b.join(); } sym_assert(count == 2 || (form == 2 && count == 1), "one permit lets one thread in at a time"); sym_assert(s.availablePermits() == 1, "the permit is back"); sym_reach("end"); }
extern "C" void sem_try() { int k1 = 1 + sym_choice("k1", 2), k2 = 1 + sym_choice("k2", 2), p = sym_choice("p", 5); Semaphore s(p); bool g1 = false, g2 = false; { std::thread a([&]() { g1 = k1 == 1 ? s.tryAcquire() : s.tryAcquire(k1); }); std::thread b([&]() { g2 = s.tryAcquire(k2); }); a.join(); b.join(); } int left = s.availablePermits(); sym_assert(left == p - g1 * k1 - g2 * k2 && left >= 0, "no permit is taken twice"); sym_assert((g1 || left < k1) && (g2 || left < k2), "who fails found too few permits"); sym_reach(g1 && g2 ? "both" : g1 || g2 ? "one" : "none"); }
extern "C" void sem_timed() { int k = 1 + sym_choice("k", 2), more = sym_choice("more", 3); Semaphore s(0); bool g = false; long a = nowMs(), e = 0; { std::thread t([&]() { g = s.tryAcquire(k, 60L); e = nowMs(); }); for (int i = 0; i < more; i++) s.release(1); t.join(); } if (!g) sym_assert(e - a >= 60, "a failure waits the whole time limit"); if (more < k) sym_assert(!g, "too few permits"); sym_assert(s.availablePermits() == more - (g ? k : 0), "permits taken exactly on success"); sym_reach(g ? "got" : "out"); }
// two consumers, one of them with a time limit it does not reach
extern "C" void sem_three() { Semaphore s(0); int got = 0; { std::thread a([&]() { s.acquire(); }); std::thread b([&]() { s.acquire(); }); std::thread c([&]() { s.release(); }); s.release(); a.join(); b.join(); c.join(); got = 1; } sym_assert(got && s.availablePermits() == 0, "two permits let two threads through"); sym_reach("end"); }
// looking at the permits while they change
extern "C" void sem_look() { Semaphore s(1); int form = sym_choice("form", 3); int seen = 0, from = 1, to = 1; { std::thread a([&]() { if (form == 0) s.release(); else if (form == 1) s.acquire(); else s.tryAcquire(); }); if (sym_choice("text", 2)) { s.toString(); seen = 1; } else seen = s.availablePermits(); a.join(); } if (form == 0) to = 2; else from = 0; sym_assert(seen >= from && seen <= to, "a number that was there"); sym_assert(s.availablePermits() == (form ? 0 : 2), "the number at the end"); sym_reach("end"); }
// wake-ups that bring too few permits do not prolong the wait
extern "C" void sem_timed_total() { Semaphore s(0), never(0); bool g = true; long e = 0, end = 0, done = 0; { std::thread t([&]() { long a = nowMs(); g = s.tryAcquire(1, 200L); done = nowMs(); e = done - a; }); for (int i = 0; i < 6; i++) { never.tryAcquire(1, 60L); s.release(0); } end = nowMs(); t.join(); } sym_assert(!g, "no permit"); sym_assert(e >= 199 && (e <= 290 || done <= end + 60), "the time limit counts from the call"); sym_reach("end"); }
// ---- Thread
struct Job : public virtual Runnable { int n = 0; unsigned long id = 0; Thread *cur = nullptr; void run() override { n++; id = (unsigned long)pthread_self(); cur = Thread::currentThread(); } };
static int plain; static void plainFn() { plain++; }
extern "C" void thr_run() { int kind = sym_choice("kind", 4); Job j; int n = 0; unsigned long id = 0; Thread *cur = nullptr; plain = 0; { Thread *t = kind == 0 ? new Thread(&j) : kind == 1 ? new Thread([&]() { n++; id = (unsigned long)pthread_self(); cur = Thread::currentThread(); }) : kind == 2 ? new Thread(plainFn) : new Thread(); sym_assert(!t->isAlive(), "not alive before start"); t->join(); t->start(); t->join(); sym_assert(!t->isAlive(), "join returns when the thread has ended"); int times = kind == 0 ? j.n : kind == 1 ? n : kind == 2 ? plain : 1; sym_assert(times == 1, "the function runs once"); if (kind < 2) { sym_assert(t->getId() == (kind ? id : j.id), "getId names the thread"); sym_assert((kind ? cur : j.cur) == t, "currentThread is the thread itself"); } sym_assert(Thread::currentThread() == nullptr, "elsewhere it is another"); t->join(); t->join(5); delete t; } sym_reach("end"); }
extern "C" void thr_alive() { Semaphore gate; int n = 0; Thread t([&]() { gate.acquire(); n = 1; }); t.start(); sym_assert(t.isAlive(), "alive from start on"); unsigned long id = t.getId(); sym_assert(id != 0, "it has a number"); if (sym_choice("again", 2)) t.start(); gate.release(); t.join(); sym_assert(n == 1, "what the thread wrote is seen after join"); sym_assert(!t.isAlive(), "ended"); sym_assert(t.getId() == id, "the number stays"); sym_reach("end"); }
extern "C" void thr_joins() { int n = 0; int x = 0, y = 0; Thread t([&]() { n = 7; }); t.start(); { std::thread a([&]() { t.join(); x = n; }); t.join(); y = n; a.join(); } sym_assert(x == 7 && y == 7, "every joiner sees the end"); sym_reach("end"); }
extern "C" void thr_join_timed() { Semaphore gate; int n = 0; Thread t([&]() { gate.acquire(); n = 1; }); t.start(); long a = nowMs(); bool let = sym_choice("let", 2); if (let) gate.release(); t.join(40); long e = nowMs(); if (t.isAlive()) sym_assert(e - a >= 40, "join with a limit waits for the end or the limit"); else sym_assert(let && n == 1, "ended"); if (!let) { sym_assert(t.isAlive(), "the limit does not end the thread"); gate.release(); } t.join(); sym_assert(n == 1 && !t.isAlive(), "join waits for the end"); sym_reach("end"); }
extern "C" void thr_destroy() { int n = 0; { Thread t([&]() { n = 3; }); t.start(); } sym_assert(n == 3, "a thread that goes out of scope is waited for"); { Thread never([&]() { n = 4; }); } sym_assert(n == 3, "a thread that was not started does nothing"); sym_reach("end"); }
extern "C" void thr_two() { Job j; int n = 0; Thread a(&j), b([&]() { n = 1; }); a.start(); b.start(); a.join(); sym_assert(!a.isAlive() && j.n == 1 && j.cur == &a, "one thread"); b.join(); sym_assert(!b.isAlive() && n == 1, "the other"); sym_assert(a.getId() != b.getId() && a.getId() == j.id, "two numbers"); sym_reach("end"); }
extern "C" void thr_detach() { Semaphore done; Thread *t = new Thread([&]() { done.release(); }); t->start(); t->detach(); bool th = false; try { t->detach(); } catch (IllegalArgumentException &e) { th = isText(e.getMessage(), "Detached thread"); } sym_assert(th, "a second detach is refused"); done.acquire(); t->join(); sym_assert(!t->isAlive(), "join waits for a detached thread"); sym_reach("end"); }
extern "C" void thr_name() { Text t; anyTextUpTo(t, "t", 3); Thread a, b(plainFn); sym_assert(a.getName().length() == 0 && b.getName().length() == 0, "no name at first"); a.setName(String(t.b)); sym_assert(isText(a.getName(), t), "the name"); b.setName("other"); sym_assert(isText(a.getName(), t) && isText(b.getName(), "other"), "each its own"); sym_reach("end"); }
extern "C" void thr_sleep() { long ms = sym_choice("ms", 3) * 9 + 1; long a = nowMs(); Thread::sleep(ms); sym_assert(nowMs() - a >= ms, "sleep lasts as long as asked"); sym_reach("end"); }
