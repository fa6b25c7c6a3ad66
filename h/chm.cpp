// ConcurrentHashMap over libcuckoo; the first table has 2 buckets of 4 slots (hook NATIVE_VERIF_SMALL_TABLE)
#ifndef CHM_DEFAULT_TABLE
#define NATIVE_VERIF_SMALL_TABLE
#endif
#include "hx.h"
#include <thread>
struct Key { int v; };
static size_t HASHES[64];
namespace std { template <> struct hash<Key> { size_t operator()(const Key &k) const { return HASHES[k.v]; } }; }
static bool operator==(const Key &a, const Key &b) { return a.v == b.v; }
#include "library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp"
using namespace Java::Util::Concurrent;
typedef ConcurrentHashMap<Key, int> Map3;
// keys that collide in everything, share a bucket only, or neither
static void pickHashes(int n) { static const size_t P[4][4] = {{0, 0, 0, 0}, {0, 1, 2, 3}, {0x1234567890, 0x12, 0x101, 0x100}, {1, (size_t)-1, 1ul << 40, 0x101}}; int s = sym_choice("hashes", 4); for (int i = 0; i < n; i++) HASHES[i] = P[s][i]; }
template <class M> static void same(M &m, const bool *in, const int *val, int n) { int c = 0, seen = 0; for (int i = 0; i < n; i++) { c += in[i]; sym_assert(m.containsKey(Key{i}) == in[i] && m.find(Key{i}) == in[i], "containsKey and find"); sym_assert(m.get(Key{i}) == (in[i] ? val[i] : 0), "get"); sym_assert(m.getOrDefault(Key{i}, 77) == (in[i] ? val[i] : 77), "getOrDefault"); } sym_assert(m.size() == c, "size"); sym_assert(m.isEmpty() == (c == 0), "isEmpty"); bool ok = true; unsigned long bits = 0; m.forEach([&](Key k, int v) { ok = ok && k.v >= 0 && k.v < n && in[k.v] && !(bits >> k.v & 1) && val[k.v] == v; bits |= 1ul << k.v; seen++; return true; }); sym_assert(ok && seen == c, "forEach visits every mapping once"); }
template <class M> static void step(M &m, bool *in, int *val, int n, int op) { int k = sym_choice("key", n); int v = sym_byte("v"); Key key{k}; switch (op) { case 0: m.put(key, v); in[k] = true; val[k] = v; break; case 1: { int r = m.remove(key); sym_assert(r == (in[k] ? val[k] : 0), "remove returns the old value"); in[k] = false; break; } case 2: { bool hit = in[k] && val[k] == v; sym_assert(m.remove(key, v) == hit, "remove of a pair"); if (hit) in[k] = false; break; } case 3: { int r = m.putIfAbsent(key, v); sym_assert(r == (in[k] ? val[k] : 0), "putIfAbsent returns the value that was there"); if (!in[k]) { in[k] = true; val[k] = v; } break; } case 4: { int r = m.replace(key, v); sym_assert(r == (in[k] ? val[k] : 0), "replace returns the old value"); if (in[k]) val[k] = v; break; } case 5: { int w = sym_byte("w"); bool hit = in[k] && val[k] == v; sym_assert(m.replace(key, v, w) == hit, "replace of a pair"); if (hit) val[k] = w; break; } } }
extern "C" void chm_history() { int n = 2; pickHashes(n); Map3 m; bool in[2] = {}; int val[2] = {}; for (int i = 0, N = sym_param("N", 3); i < N; i++) { int op = i == 0 ? 0 : sym_choice("op", 6); step(m, in, val, n, op); } same(m, in, val, n); sym_reach("end"); }
extern "C" void chm_clear() { pickHashes(4); Map3 m; bool in[4] = {}; int val[4] = {}; for (int i = 0; i < 3; i++) { in[i] = sym_choice("in", 2); if (in[i]) { val[i] = sym_int("v"); m.put(Key{i}, val[i]); } } if (sym_choice("how", 2)) m.clear(); else m.reinitialize(); bool none[4] = {}; same(m, none, val, 4); int k = sym_choice("k", 4); val[k] = sym_int("w"); none[k] = true; m.put(Key{k}, val[k]); same(m, none, val, 4); sym_reach("end"); }
extern "C" void chm_value() { pickHashes(3); Map3 m; int a = sym_int("a"), b = sym_int("b"), x = sym_int("x"); bool two = sym_choice("two", 2); m.put(Key{0}, a); if (two) m.put(Key{1}, b); bool want = a == x || (two && b == x); sym_assert(m.containsValue(x) == want, "containsValue"); int seen = 0; m.forEach([&](Key, int) { seen++; return false; }); sym_assert(seen == 1, "forEach stops when told"); Map3 e; sym_assert(!e.containsValue(x), "nothing in an empty map"); e.forEach([&](Key, int) { seen = 9; return true; }); sym_assert(seen == 1, "nothing to visit"); sym_reach("end"); }
extern "C" void chm_copy() { pickHashes(4); Map3 m; bool in[4] = {}; int val[4] = {}; for (int i = 0; i < 3; i++) { in[i] = sym_choice("in", 2); if (in[i]) { val[i] = sym_byte("v"); m.put(Key{i}, val[i]); } } Map3 c(m), d = m.clone(); same(c, in, val, 4); same(d, in, val, 4); int op = sym_choice("op", 2), k = sym_choice("k", 4); if (op) c.remove(Key{k}); else c.put(Key{k}, 5); same(m, in, val, 4); same(d, in, val, 4); in[k] = !op; val[k] = 5; same(c, in, val, 4); sym_reach("end"); }
extern "C" void chm_equals() { pickHashes(3); Map3 a, b; bool eq = true; for (int i = 0; i < 3; i++) { int w = sym_choice("in", 4); int x = sym_byte("x"), y = sym_byte("y"); if (w & 1) a.put(Key{i}, x); if (w & 2) b.put(Key{i}, y); if (w == 1 || w == 2) eq = false; if (w == 3 && x != y) eq = false; } sym_assert(a.equals(b) == eq && b.equals(a) == eq, "equals compares the mappings"); sym_assert(a.equals(a), "a map equals itself"); sym_reach("end"); }
// many keys: buckets overflow, entries move to their other bucket, the table doubles
static void growHashes(int n, int f) { for (int i = 0; i < n; i++) HASHES[i] = f == 0 ? (size_t)i : f == 1 ? (size_t)i * 0x9E3779B97F4A7C15ul : f == 2 ? (size_t)i << 8 : f == 3 ? (size_t)(i & 1) + ((size_t)(i >> 1) << 32) : (size_t)i * 0x10001; }
extern "C" void chm_grow() { int n = sym_param("K", 20); growHashes(n, sym_choice("f", 5)); Map3 m; bool in[64] = {}; int val[64] = {}; int extra = sym_choice("from", 3); for (int i = 0; i < n; i++) { int k = extra == 1 ? n - 1 - i : i; in[k] = true; val[k] = sym_int("v"); m.put(Key{k}, val[k]); if (extra == 2 && i % 3 == 2) { sym_assert(m.remove(Key{k - 1}) == val[k - 1], "remove"); in[k - 1] = false; } } same(m, in, val, n); int k = sym_choice("k", n); if (in[k]) sym_assert(m.remove(Key{k}) == val[k], "remove after growing"); in[k] = false; same(m, in, val, n); sym_reach("end"); }
// three keys of one hash value in every bucket state: the keys themselves are compared
extern "C" void chm_collide() { int n = 8; int f = sym_choice("f", 3); for (int i = 0; i < n; i++) HASHES[i] = f == 0 ? 5 : f == 1 ? 5 + ((size_t)(i & 1) << 40) : (size_t)i << 40; Map3 m; bool in[8] = {}; int val[8] = {}; for (int i = 0; i < n - 1; i++) { in[i] = true; val[i] = sym_int("v"); m.put(Key{i}, val[i]); } int k = sym_choice("k", n); int w = sym_int("w"); m.put(Key{k}, w); in[k] = true; val[k] = w; int r = sym_choice("r", n); if (r != k) { m.remove(Key{r}); in[r] = false; } same(m, in, val, n); sym_reach("end"); }
typedef ConcurrentHashMap<String, String> MapS;
extern "C" void chm_texts() { Text a, b, x; anyTextUpTo(a, "a", 2); anyTextUpTo(b, "b", 2); anyTextUpTo(x, "x", 1); MapS w; w.put("warm", "up"); NOLEAK( MapS m; m.put(String(a.b), "one"); m.put(String(b.b), String(x.b)); bool eq = isText(String(a.b), b); sym_assert(m.size() == (eq ? 1 : 2), "size"); sym_assert(isText(m.get(String(b.b)), x), "value"); if (!eq) sym_assert(isText(m.get(String(a.b)), "one"), "other value"); MapS c(m); sym_assert(eq ? isText(m.remove(String(a.b)), x) : isText(m.remove(String(a.b)), "one"), "remove"); sym_assert(!m.containsKey(String(a.b)), "gone"); sym_assert(c.size() == (eq ? 1 : 2), "copy keeps"); sym_assert(isText(m.get(String(a.b)), ""), "missing"); m.clear(); ); sym_reach("end"); }
// ---- two threads
struct Op { int kind, key, v, w; int r; };
static void runOp(Map3 &m, Op &o) { Key k{o.key}; switch (o.kind) { case 0: m.put(k, o.v); o.r = -1; break; case 1: o.r = m.remove(k); break; case 2: o.r = m.remove(k, o.v); break; case 3: o.r = m.putIfAbsent(k, o.v); break; case 4: o.r = m.replace(k, o.v); break; case 5: o.r = m.replace(k, o.v, o.w); break; case 6: o.r = m.get(k); break; case 7: o.r = m.containsKey(k); break; case 8: m.clear(); o.r = -1; break; case 9: { int r = 0; m.forEach([&r](Key k, int v) { r += (v + 1) << (8 * k.v); return true; }); o.r = r; break; } case 10: o.r = m.containsValue(o.v); break; } }
// the operation on the model; true if the recorded result is the one it gives
static bool model(const Op &o, bool *in, int *val) { int k = o.key; int old = in[k] ? val[k] : 0; switch (o.kind) { case 0: in[k] = true; val[k] = o.v; return true; case 1: in[k] = false; return o.r == old; case 2: { bool h = in[k] && val[k] == o.v; if (h) in[k] = false; return o.r == h; } case 3: if (!in[k]) { in[k] = true; val[k] = o.v; } return o.r == old; case 4: if (in[k]) val[k] = o.v; return o.r == old; case 5: { bool h = in[k] && val[k] == o.v; if (h) val[k] = o.w; return o.r == h; } case 6: return o.r == old; case 7: return o.r == (int)in[k]; case 8: in[0] = in[1] = false; return true; case 9: return o.r == (in[0] ? val[0] + 1 : 0) + ((in[1] ? val[1] + 1 : 0) << 8); default: return o.r == (int)((in[0] && val[0] == o.v) || (in[1] && val[1] == o.v)); } }
static bool finalIs(Map3 &m, const bool *in, const int *val, int n) { int c = 0; for (int i = 0; i < n; i++) { c += in[i]; if (m.containsKey(Key{i}) != in[i] || (in[i] && m.get(Key{i}) != val[i])) return false; } return m.size() == c; }
// the results and the final state are those of one of the two orders
static void either(Map3 &m, Op *a, int na, Op *b, int nb, const bool *in0, const int *val0, int n) { bool ok = false; for (int mask = 0; mask < 1 << (na + nb); mask++) { int bits = 0; for (int i = 0; i < na + nb; i++) bits += mask >> i & 1; if (bits != nb) continue; bool in[64]; int val[64]; for (int i = 0; i < n; i++) { in[i] = in0[i]; val[i] = val0[i]; } bool good = true; int x = 0, y = 0; for (int i = 0; i < na + nb && good; i++) good = mask >> i & 1 ? model(b[y++], in, val) : model(a[x++], in, val); if (good && finalIs(m, in, val, n)) { ok = true; break; } } sym_assert(ok, "the outcome is that of one after the other"); }
// hash 3: the two buckets of one key are those of the other, in the other order
extern "C" void chm_pairs() { int h = sym_param("h", 0); HASHES[0] = 0; HASHES[1] = h == 0 ? 0 : h == 1 ? 1 : h == 2 ? 1ul << 40 : 0x7ce995; Map3 m; bool in[2]; int val[2] = {1, 2}; for (int i = 0; i < 2; i++) { in[i] = sym_choice("in", 2); if (in[i]) m.put(Key{i}, val[i]); } Op a{sym_choice("opa", 6), 0, 1, 3, 0}, b{sym_choice("opb", 8), sym_choice("keyb", 2), 1, 4, 0}; if (a.kind == 0 || a.kind == 3 || a.kind == 4) a.v = 5; if (b.kind == 0 || b.kind == 3 || b.kind == 4) b.v = 6; sym_assume(b.kind > 5 || b.key || b.kind >= a.kind); { std::thread t([&]() { runOp(m, a); }), u([&]() { runOp(m, b); }); t.join(); u.join(); } either(m, &a, 1, &b, 1, in, val, 2); sym_reach("end"); }
// operations on the whole table against one of each kind
extern "C" void chm_whole() { int h = sym_choice("hash", 2); HASHES[0] = 0; HASHES[1] = h; Map3 m; bool in[2]; int val[2] = {1, 2}; for (int i = 0; i < 2; i++) { in[i] = sym_choice("in", 2); if (in[i]) m.put(Key{i}, val[i]); } Op a{8 + sym_choice("opa", 3), 0, 1, 3, 0}; int kb = sym_choice("opb", 10); Op b{kb, sym_choice("keyb", 2), 1, 4, 0}; if (kb == 0 || kb == 3 || kb == 4) b.v = 6; { std::thread t([&]() { runOp(m, a); }), u([&]() { runOp(m, b); }); t.join(); u.join(); } either(m, &a, 1, &b, 1, in, val, 2); sym_reach("end"); }
// two operations each
extern "C" void chm_two_each() { int h = sym_choice("hash", 2); HASHES[0] = 0; HASHES[1] = h; static const int PA[3][2] = {{0, 0}, {0, 1}, {3, 1}}, PB[4][2] = {{6, 6}, {3, 6}, {4, 1}, {5, 7}}; int pa = sym_choice("pa", 3), pb = sym_choice("pb", 4), o = sym_choice("order", 2); Map3 m; bool in[2] = {}; int val[2] = {}; if (sym_choice("in", 2)) { in[0] = true; val[0] = 5; m.put(Key{0}, 5); } Op a[2] = {{PA[pa][0], 0, 5, 3, 0}, {PA[pa][1], o, 7, 4, 0}}, b[2] = {{PB[pb][0], o, 5, 8, 0}, {PB[pb][1], 0, 9, 4, 0}}; { std::thread t([&]() { runOp(m, a[0]); runOp(m, a[1]); }), u([&]() { runOp(m, b[0]); runOp(m, b[1]); }); t.join(); u.join(); } either(m, a, 2, b, 2, in, val, 2); sym_reach("end"); }
// two threads work on a table that is full or nearly so
extern "C" void chm_grow_threads() { int f = sym_param("f", 0), n0 = sym_param("n0", 8); growHashes(12, f); Map3 m; bool in[12] = {}; int val[12] = {}; for (int i = 0; i < n0; i++) { in[i] = true; val[i] = i + 1; m.put(Key{i}, val[i]); } int kb = sym_choice("b", sym_param("B", 1)); Op a{0, n0, 50, 0, 0}, b{kb == 0 ? 0 : kb == 1 ? 1 : kb == 2 ? 6 : 5, kb == 0 ? n0 + 1 : 3, kb == 0 ? 60 : 4, 9, 0}; { std::thread t([&]() { runOp(m, a); }), u([&]() { runOp(m, b); }); t.join(); u.join(); } either(m, &a, 1, &b, 1, in, val, 12); sym_reach("end"); }
