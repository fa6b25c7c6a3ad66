// StringBuffer shared by two threads
#include "hx.h"
#include <thread>
#include "library/Java/Lang/IndexOutOfBoundsException/IndexOutOfBoundsException.hpp"
typedef StringBuffer SB;
static const int NOPS = 44;
// operation k; what it observed goes to out
static void apply(SB &s, int k, char c, String &out) {
  try {
    switch (k) {
    case 0: s.append(String("ab")); break; case 1: s.append(c); break; case 2: s.append(12); break; case 3: s.append(34L); break; case 4: s.append(true); break; case 5: s.append((string) "cd"); break;
    case 6: { String q("ef"); const CharSequence &x = q; s.append(x); break; } case 7: { String q("ghi"); const CharSequence &x = q; s.append(x, 1, 2); break; } case 8: s.append((string) "jkl", 1, 2); break; case 9: s.appendCodePoint(65); break;
    case 10: { SB o(String("mn")); s.append(o); break; } case 11: s.insert(1, String("op")); break; case 12: s.insert(0, c); break; case 13: s.insert(1, 7); break; case 14: s.insert(2, 8L); break; case 15: s.insert(0, false); break;
    case 16: { String q("qr"); const CharSequence &x = q; s.insert(1, x); break; } case 17: { String q("stu"); const CharSequence &x = q; s.insert(1, x, 0, 2); break; } case 18: s.insert(1, String("vwx"), 1, 1); break;
    case 19: s.deletes(0, 2); break; case 20: s.deleteCharAt(1); break; case 21: s.replace(0, 1, String("RRRR")); break; case 22: s.reverse(); break; case 23: s.setCharAt(0, c); break; case 24: s.setLength(1); break; case 25: s.setLength(5); break; case 26: s.trimToSize(); break; case 27: s.ensureCapacity(50); break;
    case 28: out = String::valueOf(s.length()); break; case 29: out = String::valueOf(s.charAt(0)); break; case 30: out = String::valueOf(s.indexOf(String("z"))); break; case 31: out = String::valueOf(s.indexOf(String("z"), 1)); break; case 32: out = String::valueOf(s.lastIndexOf(String("z"))); break; case 33: out = String::valueOf(s.lastIndexOf(String("z"), 9)); break;
    case 34: out = s.subString(1); break; case 35: out = s.subString(0, 2); break; case 36: out = s.toString(); break; case 37: out = s.getValue(); break; case 38: out = String::valueOf(s.codePointAt(1)); break; case 39: out = String::valueOf(s.codePointBefore(1)) + String::valueOf(s.codePointCount(0, 2)); break;
    case 40: { SB o(s); out = o.toString(); break; } case 41: { SB o; o = s; out = o.toString(); break; } case 42: { SB o(String("new")); s = o; break; } case 43: { int z = s.capacity(); out = String(z >= 3 ? "ok" : "bad"); break; } }
  } catch (IndexOutOfBoundsException &) { out = String("throws"); } }
static void second(SB &s, int k, String &out) { if (k == 0) s.append(String("zy0123456789abcdef")); else if (k == 1) s.deletes(0, 1); else out = s.toString(); }
extern "C" void sb_threads() {
  int k = sym_param("lo", 0) + sym_choice("op", sym_param("cnt", NOPS)), k2 = sym_choice("second", 3); char c = (char) sym_byte("c"); sym_assume(c != 0); String o1, o2;
  Text t; anyText(t, "t", 3); SB s((String(t.b))); { sym_thread(0); std::thread a([&]() { sym_thread(1); apply(s, k, c, o1); }); std::thread b([&]() { sym_thread(2); second(s, k2, o2); }); a.join(); b.join(); }
  String r = s.toString(); SB x((String(t.b))), y((String(t.b))); String x1, x2, y1, y2; apply(x, k, c, x1); second(x, k2, x2); second(y, k2, y2); apply(y, k, c, y1);
  bool xa = r == x.toString() && o1 == x1 && o2 == x2, ya = r == y.toString() && o1 == y1 && o2 == y2;
  sym_assert(xa || ya, "two threads leave what one of the two orders leaves"); sym_reach(xa ? "first" : "second"); }
// two buffers copied into each other by two threads
extern "C" void sb_threads_cross() { SB a(String("aa")), b(String("bb")); int k = sym_choice("op", 2); { sym_thread(0); std::thread t([&]() { sym_thread(1); if (k) a = b; else a.append(b); }); std::thread u([&]() { sym_thread(2); if (k) b = a; else b.append(a); }); t.join(); u.join(); }
  String x = a.toString(), y = b.toString(); if (k) sym_assert((x == String("bb") && y == String("bb")) || (x == String("aa") && y == String("aa")) || (x == String("bb") && y == String("aa")), "assignment takes a whole value"); else sym_assert((x == String("aabb") && y == String("bbaabb")) || (x == String("aabbaa") && y == String("bbaa")) || (x == String("aabb") && y == String("bbaa")), "append takes a whole value"); sym_reach("end"); }
