// The exception classes
#include "hx.h"
#include <type_traits>
#include "library/Java/Lang/Error/Error.hpp"
#include "library/Java/Lang/AssertionError/AssertionError.hpp"
#include "library/Java/Lang/ClassCastException/ClassCastException.hpp"
#include "library/Java/Lang/CloneNotSupportedException/CloneNotSupportedException.hpp"
#include "library/Java/Lang/IllegalArgumentException/IllegalArgumentException.hpp"
#include "library/Java/Lang/IndexOutOfBoundsException/IndexOutOfBoundsException.hpp"
#include "library/Java/Lang/InterruptedException/InterruptedException.hpp"
#include "library/Java/Lang/NegativeArraySizeException/NegativeArraySizeException.hpp"
#include "library/Java/Lang/NoSuchElementException/NoSuchElementException.hpp"
#include "library/Java/Lang/NumberFormatException/NumberFormatException.hpp"
#include "library/Java/Lang/StringIndexOutOfBoundsException/StringIndexOutOfBoundsException.hpp"
#include "library/Java/Lang/UnsupportedOperationException/UnsupportedOperationException.hpp"
#include "library/Java/Io/IOException/IOException.hpp"
#include "library/Java/Io/UnsupportedEncodingException/UnsupportedEncodingException.hpp"
#include "library/Java/Security/NoSuchAlgorithmException/NoSuchAlgorithmException.hpp"
#include "library/Java/Util/EmptyStackException/EmptyStackException.hpp"
#include "library/Javax/Cql/CQLException/CQLException.hpp"
#include "library/Javax/Ws/Rs/BadRequestException/BadRequestException.hpp"
#include "library/Javax/Ws/Rs/Core/MediaTypeException/MediaTypeException.hpp"
using namespace Java::IO; using namespace Java::Util; using namespace Java::Security; using namespace Javax::Ws::Rs; using namespace Javax::Ws::Rs::Core; using namespace Javax::Cql;
template <class C> typename std::enable_if<std::is_constructible<C, String>::value>::type mk1(const String &m) { throw C(m); }
template <class C> typename std::enable_if<!std::is_constructible<C, String>::value>::type mk1(const String &) {}
template <class C> typename std::enable_if<std::is_constructible<C, String, Throwable *>::value>::type mk2(const String &m, Throwable *c) { throw C(m, c); }
template <class C> typename std::enable_if<!std::is_constructible<C, String, Throwable *>::value>::type mk2(const String &, Throwable *) {}
template <class C> typename std::enable_if<std::is_constructible<C, Throwable *>::value && !std::is_base_of<AssertionError, C>::value>::type mk3(Throwable *c) { throw C(c); }
template <class C> typename std::enable_if<!std::is_constructible<C, Throwable *>::value || std::is_base_of<AssertionError, C>::value>::type mk3(Throwable *) {}
// throws, or returns when the class has no such constructor
template <class C> static void raise(int api, const String &m, Throwable *c) { if (api == 0) throw C(); if (api == 1) mk1<C>(m); if (api == 2) mk2<C>(m, c); if (api == 3) mk3<C>(c); }
template <class H> static int handled(void (*r)(int, const String &, Throwable *), int api, const String &m, Throwable *c, const Text &msg, bool copy) {
  try { r(api, m, c); return -1; }
  catch (H &e) { bool w = api == 1 || api == 2; sym_assert(w ? isText(e.getMessage(), msg) : e.getMessage().length() == 0, "the message it was made with, empty without one"); sym_assert(e.getCause() == (api >= 2 ? c : nullptr), "the cause it was made with, none without one"); if (copy) { H d(e); sym_assert(isText(d.getMessage(), e.getMessage().toCharPointer()) && d.getCause() == e.getCause(), "a copy carries the same"); } return 1; }
  catch (...) { return 0; } }
struct C { const char *name, *parent; void (*raise)(int, const String &, Throwable *); int (*handled)(void (*)(int, const String &, Throwable *), int, const String &, Throwable *, const Text &, bool); };
#define K(X, P) {#X, #P, raise<X>, handled<X>}
static const C classes[] = {K(Throwable, ), K(Java::Lang::Exception, Throwable), K(Error, Throwable), K(AssertionError, Error), K(RuntimeException, Java::Lang::Exception), K(ArithmeticException, RuntimeException), K(ClassCastException, RuntimeException), K(CloneNotSupportedException, RuntimeException), K(IllegalArgumentException, RuntimeException), K(IndexOutOfBoundsException, RuntimeException), K(InterruptedException, RuntimeException), K(NegativeArraySizeException, RuntimeException), K(NoSuchElementException, RuntimeException), K(NumberFormatException, RuntimeException), K(StringIndexOutOfBoundsException, IndexOutOfBoundsException), K(UnsupportedOperationException, RuntimeException), K(IOException, Java::Lang::Exception), K(UnsupportedEncodingException, IOException), K(GeneralSecurityException, Java::Lang::Exception), K(NoSuchAlgorithmException, GeneralSecurityException), K(EmptyStackException, RuntimeException), K(CQLException, Java::Lang::Exception), K(WebApplicationException, RuntimeException), K(ClientErrorException, WebApplicationException), K(BadRequestException, ClientErrorException), K(MediaTypeException, Java::Lang::Exception)};
static const int NC = sizeof classes / sizeof *classes;
static bool kind(int k, int h) { while (k != h) { int p = -1; for (int i = 0; i < NC; i++) if (!strcmp(classes[i].name, classes[k].parent)) p = i; if (p < 0) return false; k = p; } return true; }
extern "C" void exc_handlers() { int k = sym_choice("class", NC), h = sym_choice("handler", NC), api = sym_choice("api", 4); Text m; if (api == 1 || api == 2) anyTextUpTo(m, "m", sym_param("N", 2)); else { m.n = 0; m.b[0] = 0; } int cz = api >= 2 ? sym_choice("cause", 2) : 0; String s = m.b; Throwable cause(String("root"));
  int r = classes[h].handled(classes[k].raise, api, s, cz ? &cause : nullptr, m, kind(k, h)); if (r >= 0) { sym_assert(r == (int)kind(k, h), "a handler takes its class and the classes derived from it, nothing else"); sym_reach(r ? "handled" : "passed"); } sym_assert(isText(cause.getMessage(), "root") && cause.getCause() == nullptr, "the cause is unchanged"); sym_reach("end"); }
extern "C" void exc_leak() { int k = sym_choice("class", NC), api = sym_choice("api", 4); Throwable cause(String("root")); Text m; anyText(m, "m", 20); { String w = m.b; classes[k].handled(classes[k].raise, api, w, &cause, m, true); } NOLEAK(String s = m.b; classes[k].handled(classes[k].raise, api, s, &cause, m, true)); sym_reach("end"); }
extern "C" void exc_values() { int k = sym_choice("kind", 5); int i = sym_int("i"); char c = (char)sym_byte("c"); bool b = sym_bool("b"); long l = sym_long("l"); String m, w; if (k == 0) { AssertionError e(i); m = e.getMessage(); w = String::valueOf(i); } else if (k == 1) { AssertionError e(l); m = e.getMessage(); w = String::valueOf(l); } else if (k == 2) { AssertionError e(c); m = e.getMessage(); w = String::valueOf(c); } else if (k == 3) { AssertionError e(b); m = e.getMessage(); w = String::valueOf(b); } else { StringIndexOutOfBoundsException e(i); m = e.getMessage(); w = String("String index out of range: ") + String::valueOf(i); } sym_assert(m == w, "the message is the value's text"); sym_reach("end"); }
