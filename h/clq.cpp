// ConcurrentLinkedQueue: elements come out once each, in the order their thread put them in
#include "hx.h"
#include <thread>
#include "library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp"
using namespace Java::Util::Concurrent;
typedef ConcurrentLinkedQueue<int> Q;
// one thread: a queue of any operations against a plain list
template <class T> static void history(int N) { ConcurrentLinkedQueue<T> q; int want[16]; int head = 0, tail = 0; for (int i = 0; i < N; i++) { int op = i == 0 ? sym_choice("op", 2) : sym_choice("op", 4); if (op < 2) { int v = sym_int("v"); want[tail++] = v; sym_assert(op ? q.offer(T(v)) : q.add(T(v)), "taken in"); } else if (op == 2) { T e = q.poll(); sym_assert(e == T(head < tail ? want[head] : 0), "the eldest comes out, the default value from an empty queue"); if (head < tail) head++; } else { q.clear(); head = tail; } sym_assert(q.size() == tail - head, "size"); sym_assert(q.isEmpty() == (head == tail), "isEmpty"); } while (head < tail) sym_assert(q.poll() == T(want[head++]), "the rest in order"); sym_assert(q.isEmpty(), "empty at last"); }
extern "C" void clq_history() { if (sym_choice("type", 2)) history<int>(sym_param("N", 5)); else history<Integer>(sym_param("N", 5)); sym_reach("end"); }
// many elements: several blocks, blocks used again
extern "C" void clq_many() { int n = sym_param("K", 70); static const int FIRST[] = {0, 1, 31, 32, 33, 64}; int pre = FIRST[sym_choice("pre", 6)], keep = sym_choice("keep", 2) * 5; Q q; int v[200]; int head = 0, tail = 0; auto put = [&]() { v[tail] = sym_int("v"); q.add(v[tail]); tail++; }; auto get = [&]() { sym_assert(q.poll() == v[head], "in order"); head++; }; for (int i = 0; i < pre; i++) put(); while (tail - head > keep) get(); for (int i = 0; i < n; i++) put(); sym_assert(q.size() == tail - head, "size"); while (head < tail) get(); sym_assert(q.isEmpty() && q.poll() == 0, "nothing more"); sym_reach("end"); }
extern "C" void clq_texts() { Text a, b; anyTextUpTo(a, "a", 2); anyTextUpTo(b, "b", 2); int left = sym_choice("left", 4), bulk = sym_choice("bulk", 3) * 15; static const char *LONG = "a text that does not fit into the object itself"; { ConcurrentLinkedQueue<String> w; w.add("x"); w.poll(); } NOLEAK( ConcurrentLinkedQueue<String> q; for (int i = 0; i < bulk; i++) { q.add(String("m")); q.poll(); } q.add(String(a.b)); q.add(String(LONG)); q.offer(String(b.b)); q.add(String(LONG)); if (left < 3) sym_assert(isText(q.poll(), a), "first"); if (left < 2) { sym_assert(isText(q.poll(), LONG), "second"); sym_assert(isText(q.poll(), b), "third"); } if (left < 1) sym_assert(isText(q.poll(), LONG), "fourth"); sym_assert(q.size() == (left < 2 ? left : left + 1), "size")); sym_reach("end"); }
// what several threads put in and take out: every element at most once, none lost, each thread's in its order
struct Seen { int n, v[8]; Seen() : n(0) {} void take(Q &q) { int e = q.poll(); if (e) v[n++] = e; } };
static void account(Q &q, Seen **s, int ns, const int *all, int na) { Seen rest; while (!q.isEmpty()) { int before = rest.n; rest.take(q); sym_assert(rest.n == before + 1, "poll takes from a queue that is not empty"); if (rest.n == before) return; } sym_assert(q.poll() == 0, "nothing more"); for (int i = 0; i < na; i++) { int c = 0; for (int k = 0; k < ns; k++) for (int j = 0; j < s[k]->n; j++) c += s[k]->v[j] == all[i]; for (int j = 0; j < rest.n; j++) c += rest.v[j] == all[i]; sym_assert(c == 1, "each element comes out once"); } int total = rest.n; for (int k = 0; k < ns; k++) total += s[k]->n; sym_assert(total == na, "and nothing else");
  auto ordered = [&](const Seen &x) { for (int i = 0; i < x.n; i++) for (int j = i + 1; j < x.n; j++) if (x.v[i] / 10 == x.v[j] / 10) sym_assert(x.v[i] < x.v[j], "in the order its thread put them in"); }; for (int k = 0; k < ns; k++) ordered(*s[k]); ordered(rest);
  for (int k = 0; k < ns; k++) for (int i = 0; i < s[k]->n; i++) for (int j = 0; j < rest.n; j++) if (s[k]->v[i] / 10 == rest.v[j] / 10) sym_assert(s[k]->v[i] < rest.v[j], "what is left is later"); }
extern "C" void clq_produce() { Q q; Seen s; int x = 0; if (sym_choice("before", 2)) { q.add(1); x = 1; } { std::thread a([&]() { q.add(11); q.offer(12); }); std::thread b([&]() { q.add(21); q.add(22); }); s.take(q); a.join(); b.join(); } static const int ALL[] = {11, 12, 21, 22, 1}; Seen *p[] = {&s}; account(q, p, 1, ALL, 4 + x); sym_reach("end"); }
extern "C" void clq_consume() { Q q; Seen s, t; int n = 1 + sym_choice("n", 3); static const int ALL[] = {11, 12, 13, 14}; for (int i = 0; i < n; i++) q.add(ALL[i]); { std::thread a([&]() { s.take(q); s.take(q); }); std::thread b([&]() { t.take(q); t.take(q); }); a.join(); b.join(); } Seen *p[] = {&s, &t}; sym_assert(s.n + t.n == (n < 4 ? n : 4), "who finds elements takes them"); account(q, p, 2, ALL, n); sym_reach("end"); }
extern "C" void clq_both() { Q q; Seen s, t; int pre = sym_param("pre", 0); static int ALL[80]; int n = 0; for (int i = 0; i < pre; i++) { q.add(1000 + i); sym_assert(q.poll() == 1000 + i, "before"); } { std::thread a([&]() { q.add(11); q.add(12); s.take(q); }); std::thread b([&]() { t.take(q); t.take(q); }); a.join(); b.join(); } ALL[n++] = 11; ALL[n++] = 12; Seen *p[] = {&s, &t}; account(q, p, 2, ALL, n); sym_reach("end"); }
// the block is full or nearly so while another thread takes
extern "C" void clq_edge() { Q q; int pre = sym_param("pre", 31); Seen s; for (int i = 0; i < pre; i++) q.add(1000 + i); for (int i = 0; i < pre - 1; i++) sym_assert(q.poll() == 1000 + i, "before"); { std::thread a([&]() { s.take(q); s.take(q); }); q.add(2001); q.add(2002); a.join(); } static int ALL[3]; ALL[0] = 1000 + pre - 1; ALL[1] = 2001; ALL[2] = 2002; Seen *p[] = {&s}; account(q, p, 1, ALL, 3); sym_reach("end"); }
extern "C" void clq_clear() { Q q; q.add(11); q.add(12); Seen s; { std::thread a([&]() { s.take(q); q.add(21); }); q.clear(); a.join(); } int rest = q.poll(); sym_assert(rest == 0 || rest == 21, "clear leaves at most what came meanwhile"); sym_assert(s.n == 0 || s.v[0] == 11 || s.v[0] == 12, "taken before it was cleared"); sym_assert(q.isEmpty(), "empty"); sym_reach("end"); }
// the last element is wanted by two; afterwards the queue works as before
extern "C" void clq_last() { Q q; Seen s, t; int n = sym_choice("n", 2); if (n) q.add(11); { std::thread a([&]() { if (!n) q.add(11); s.take(q); }); std::thread b([&]() { t.take(q); }); a.join(); b.join(); } int got = s.n + t.n; sym_assert(got == 1 || (got == 0 && !n), "one of them has it"); q.add(21); if (!got) sym_assert(q.poll() != 0, "left over"); sym_assert(q.size() == 1, "size"); sym_assert(q.poll() != 0, "the next element is found"); sym_assert(q.isEmpty() && q.poll() == 0, "nothing more"); sym_reach("end"); }
