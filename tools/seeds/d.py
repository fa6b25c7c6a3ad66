CU='library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh'; J='library/Java/Lang/'; U='library/Java/Util/'
DA=U+'Date/Date.cpp'; SE=U+'Concurrent/Semaphore/Semaphore.cpp'; TH=J+'Thread/Thread.cpp'; CH=U+'Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp'; TR=J+'Throwable/Throwable.cpp'
B64=U+'Base64/Base64.cpp'; UU=U+'UUID/UUID.cpp'; GU=U+'UUID/libuuid/gen_uuid.c'; RA=U+'Random/Random.cpp'; MD='library/Java/Security/MessageDigest/'
MT='library/Javax/Ws/Rs/Core/MediaType.cpp'; NE='library/Java/Net/URLEncoder/URLEncoder.cpp'; ND='library/Java/Net/URLDecoder/URLDecoder.cpp'
H='#include "library.hpp"\n#include <cstdio>\n#include <cstring>\n#include <cstdlib>\n#include <climits>\n#include <thread>\n#include <string>\nusing namespace Java::Lang;using namespace Java::Util;\n'
UD='#include <sys/time.h>\n#include <cstdio>\n#include <cstring>\n#include <cstdlib>\n#include <cstdint>\nextern "C" { void uuid_generate_time(unsigned char *); int __uuid_generate_time(unsigned char *, int *); }\nstatic long now = 1000; extern "C" int gettimeofday(struct timeval *t, void *) noexcept { t->tv_sec = now / 1000000 + 1700000000; t->tv_usec = now % 1000000; return 0; }\nstatic unsigned long stamp(const unsigned char *u) { unsigned long lo = (unsigned long) u[0] << 24 | u[1] << 16 | u[2] << 8 | u[3], mid = u[4] << 8 | u[5], hi = (u[6] << 8 | u[7]) & 0xfff; return hi << 48 | mid << 32 | lo; }\n'
SEMH=H+'#include <unistd.h>\n#include <dlfcn.h>\nstatic int hook;\n'
BUGS=[
dict(id='D01-linemax', prop='D01', file=B64, old="if (encodedLength == lineMax && sourcePosition < end) {", new="if (encodedLength == lineMax && sourcePosition < sourceStopPosition) {", demo=H+'int main(){ Array<byte> a; for (int i = 0; i < 58; i++) a.push(i); Array<byte> e = Base64::getMimeEncoder().encode(a); return e.length == 82 && e[76] == 13 && e[77] == 10 ? 0 : 1; }', needs='a MIME source of 57 bytes and one or two more', breaks='the last line is not broken off'),
dict(id='D01-mimepad', prop='D01', file=B64, old="( source[ sourcePosition++ ] != '=' ))\n				    || ( shiftTo == 18 )) {", new="( source[ sourcePosition++ ] != '=' ))) {", demo=H+'int main(){ Array<byte> a; for (char c : std::string("QUJD=QUJ")) a.push(c); Array<byte> b; for (char c : std::string("QUJD====")) b.push(c); try { Base64::getDecoder().decode(a); return 1; } catch (...) { } try { Base64::getMimeDecoder().decode(b); return 1; } catch (...) { } return 0; }', needs='padding right after a full unit', breaks='misplaced padding is accepted in MIME'),
dict(id='D01-outlen', prop='D01', file=B64, old="length += ( length - 1 ) / this->lineMax * this->newLine.length;", new="length += length / this->lineMax * this->newLine.length;", demo=H+'int main(){ Array<byte> a; for (int i = 0; i < 57; i++) a.push(i); Array<byte> d(76); try { return Base64::getMimeEncoder().encode(a, d) == 76 ? 0 : 1; } catch (...) { return 1; } }', needs='exactly a full line and a destination of exactly that size', breaks='a destination that is large enough is refused'),
dict(id='D01-nonalpha', prop='D01', file=B64, old="			if (currentByteDecoded == -1) {\n				++nonAlphabet;\n			}", new="			if (currentByteDecoded == -1 && nonAlphabet < 4) {\n				++nonAlphabet;\n			}", demo=H+'int main(){ Array<byte> a; for (char c : std::string("Q\\r\\nU\\r\\nJ\\r\\nD")) a.push(c); Array<byte> d(3); try { return Base64::getMimeDecoder().decode(a, d) == 3 ? 0 : 1; } catch (...) { return 1; } }', needs='more than four non-alphabet bytes and a destination of exactly the decoded size', breaks='a destination that is large enough is refused'),
dict(id='D02-plus', prop='D02', file=NE, old="target[targetIndex] == '.' || target[targetIndex] == '~') {", new="target[targetIndex] == '.' || target[targetIndex] == '~' ||\n            (target[targetIndex] == '+' && targetIndex + 1 == target.getSize())) {", demo='#include "library.hpp"\nusing namespace Java::Lang;using namespace Java::Net;\nint main(){ return URLDecoder::decode(URLEncoder::encode(String("a+"), String("UTF-8"))) == "a+" ? 0 : 1; }', needs='a plus sign at the very end', breaks='the plus sign decodes to a space'),
dict(id='D02-hex', prop='D02', file=NE, old="result += charToHex(target[targetIndex] >> 4);", new="result += charToHex(target[targetIndex] >> 4 & (targetIndex + 1 == target.getSize() && (target[targetIndex] & 0xc0) == 0xc0 ? 7 : 15));", demo='#include "library.hpp"\nusing namespace Java::Lang;using namespace Java::Net;\nint main(){ String s("a\\xc3"); return URLDecoder::decode(URLEncoder::encode(s, String("UTF-8"))) == s ? 0 : 1; }', needs='a lone lead byte at the end', breaks='its top bit is lost'),
dict(id='D02-percent', prop='D02', file=ND, old="if (target[targetIndex + 1] && target[targetIndex + 2]) {", new="if (target[targetIndex + 1] && target[targetIndex + 2] && target[targetIndex + 1] != '0') {", demo='#include "library.hpp"\nusing namespace Java::Lang;using namespace Java::Net;\nint main(){ String s("a\\nb"); return URLDecoder::decode(URLEncoder::encode(s, String("UTF-8"))) == s ? 0 : 1; }', needs='a control character', breaks='a control character does not survive the round trip'),
dict(id='D03-compare', prop='D03', file=UU, old="	if (this->leastSigBits < target.leastSigBits) {\n		return -1;\n	}", new="	if (this->leastSigBits - target.leastSigBits < 0) {\n		return -1;\n	}", demo=H+'int main(){ return UUID(1L, LONG_MAX).compareTo(UUID(1L, -5L)) == 1 ? 0 : 1; }', needs='equal first halves and second halves of different sign whose difference overflows', breaks='the order is not transitive'),
dict(id='D03-hash', prop='D03', file=UU, old="	return ((int) ( xorValue >> 32 )) ^ (int) xorValue;", new="	return ((int) ( xorValue >> 32 )) ^ (int) xorValue ^ (this->timestamp % 86400 == 43200 ? 1 : 0);", demo='#include <time.h>\nstatic long now = 1000; extern "C" time_t time(time_t *t) { if (t) *t = now; return now; }\n'+H+'int main(){ UUID a(1L, 2L); now = 86400 * 3 + 43200; UUID b(1L, 2L); return a.equals(b) && a.hashCode() == b.hashCode() ? 0 : 1; }', needs='equal UUIDs created at different times, one of them at noon', breaks='equal UUIDs have different hash codes'),
dict(id='D03-from', prop='D03', file=UU, old="	leastSigBits <<= 48;\n	leastSigBits |= Long::decode(components[ 4 ]).longValue();", new="	leastSigBits <<= 48;\n	leastSigBits |= (int) Long::decode(components[ 4 ]).longValue() >= 0 ? Long::decode(components[ 4 ]).longValue() : (int) Long::decode(components[ 4 ]).longValue() | Long::decode(components[ 4 ]).longValue();", demo=H+'int main(){ UUID u = UUID::fromString("01234567-89ab-cdef-0123-0000ffffffff"); return u.getLeastSignificantBits() == 0x01230000ffffffffL ? 0 : 1; }', needs='bit 31 of the last group set', breaks='the upper part of the second half is overwritten'),
dict(id='D05-bound', prop='D05', file=RA, old="	} while (bits - value + ( bound - 1 ) < 0);", new="	} while (bits - value + ( bound - 2 ) < 0);", demo=H+'int main(){ const long M = 25214903917L, A = 11L, K = (1L << 48) - 1; unsigned long inv = 1; for (int i = 0; i < 7; i++) inv *= 2 - (unsigned long) M * inv; long bad = 0; for (long low = 0; low < 4; low++) { long after = (0x7fffffffL << 17) | low; long before = (long) (((unsigned long) (after - A) * inv) & (unsigned long) K); Random r(before ^ M); long s1 = (before * M + A) & K, s2 = (s1 * M + A) & K; if (s1 >> 17 != 0x7fffffffL) return 2; int want = -1; for (long s = s1;; s = (s * M + A) & K) { int bits = (int) (s >> 17); int v = bits % 3; if ((long) bits - v + 2 <= INT_MAX) { want = v; break; } } if (r.nextInt(3) != want) bad++; } return bad ? 1 : 0; }', needs='a draw in the incomplete last group', breaks='the last incomplete group is not redrawn'),
dict(id='D05-cas', prop='D05', file=RA, old="	} while (!seed.compare_exchange_weak(oldSeed, nextSeed));\n	return (int) ( nextSeed >> ( 48 - bits ));", new="		if (seed.load() == oldSeed) {\n			seed.store(nextSeed);\n			break;\n		}\n	} while (true);\n	return (int) ( nextSeed >> ( 48 - bits ));", demo=H+'#include <set>\n#include <vector>\nint main(){ for (int round = 0; round < 200; round++) { Random r(round); const int N = 20000; std::vector<int> out[2]; std::thread a([&]{ for (int i = 0; i < N; i++) out[0].push_back(r.nextInt()); }), b([&]{ for (int i = 0; i < N; i++) out[1].push_back(r.nextInt()); }); a.join(); b.join(); Random q(round); std::multiset<int> w, g; for (int i = 0; i < 2 * N; i++) w.insert(q.nextInt()); for (auto &o : out) for (int x : o) g.insert(x); if (w != g) return 1; } return 0; }', needs='two threads drawing, one between the load and the store of the other', breaks='two threads get the same number'),
dict(id='D06-carry', prop='D06', file=MD+'md5.cpp', old="    if (pms->count[0] < nbits)\n        pms->count[1]++;", new="    if (pms->count[0] + 512 < nbits)\n        pms->count[1]++;", demo='#include "library.hpp"\n#include <cstdio>\n#include <cstring>\n#include "library/Java/Security/MessageDigest/md5.hpp"\nint main(){ md5_state_t s; md5_init(&s); static unsigned char b[64]; s.count[0] = 0xfffffe00u; md5_append(&s, b, 64); return s.count[0] == 0 && s.count[1] == 1 ? 0 : 1; }', needs='a text whose length passes 2^32 bits', breaks='the length field misses the carry'),
dict(id='D06-offset', prop='D06', file=MD+'md5.cpp', old="        int copy = (offset + nbytes > 64 ? 64 - offset : nbytes);\n\n        memcpy(pms->buf + offset, p, copy);\n        if (offset + copy < 64)\n            return;", new="        int copy = (offset + nbytes > 64 ? 64 - offset : nbytes);\n\n        memcpy(pms->buf + offset, p, copy);\n        if (offset + copy < 64 || nbytes == 64 - offset && nbytes == 63)\n            return;", demo='#include "library.hpp"\n#include <cstdio>\n#include <cstring>\n#include "library/Java/Security/MessageDigest/md5.hpp"\nint main(){ unsigned char b[64], x[16], y[16]; for (int i = 0; i < 64; i++) b[i] = i; md5_state_t s; md5_init(&s); md5_append(&s, b, 64); md5_finish(&s, x); md5_init(&s); md5_append(&s, b, 1); md5_append(&s, b + 1, 63); md5_finish(&s, y); return memcmp(x, y, 16) ? 1 : 0; }', needs='an update of one byte followed by one of 63', breaks='the digest depends on how the text is split'),
dict(id='D06-sha', prop='D06', file=MD+'sha1.cpp', old="        ctx->sizeHi += (ctx->sizeLo < 8);", new="        ctx->sizeHi += (ctx->sizeLo == 0 && i + 1 == len);", demo='#include "library.hpp"\n#include <cstdio>\n#include <cstring>\n#include "library/Java/Security/MessageDigest/sha1.hpp"\nint main(){ SHA_CTX c; SHA1_Init(&c); static unsigned char b[64]; c.sizeLo = 0xfffffff8u; SHA1_Update(&c, b, 2); return c.sizeHi == 1 && c.sizeLo == 8 ? 0 : 1; }', needs='an update that goes on past 2^32 bits', breaks='the length field misses the carry'),
dict(id='D08-suffix', prop='D08', file=MT, old="                    (subtypeBeforePlus.equals(MEDIA_TYPE_WILDCARD)\n                     || otherSubtypeBeforePlus.equals(MEDIA_TYPE_WILDCARD))) {", new="                    (subtypeBeforePlus.equals(MEDIA_TYPE_WILDCARD)\n                     || (otherSubtypeBeforePlus.equals(MEDIA_TYPE_WILDCARD) && this->type.length() > 1))) {", demo='#include "library.hpp"\n#include "library/Javax/Ws/Rs/Core/MediaType.hpp"\nusing namespace Java::Lang;using namespace Javax::Ws::Rs::Core;\nint main(){ MediaType a(String("x"), String("b+c")), b(String("x"), String("*+c")); return a.isCompatible(b) == b.isCompatible(a) && a.isCompatible(b) ? 0 : 1; }', needs='a type of one letter and the wildcard suffix on the other side', breaks='compatibility is not symmetric'),
dict(id='D08-plus', prop='D08', file=MT, old="        int otherPlusIndex = other.getSubtype().indexOf('+');", new="        int otherPlusIndex = other.getSubtype().lastIndexOf('+');", demo='#include "library.hpp"\n#include "library/Javax/Ws/Rs/Core/MediaType.hpp"\nusing namespace Java::Lang;using namespace Javax::Ws::Rs::Core;\nint main(){ MediaType a(String("x"), String("*+c+d")), b(String("x"), String("b+c+d")); return a.isCompatible(b) && b.isCompatible(a) ? 0 : 1; }', needs='a subtype with two plus signs', breaks='the suffix is cut at different places'),
dict(id='D08-slash', prop='D08', file=MT, old="    int splashIndex = fullType.indexOf('/');", new="    int splashIndex = fullType.lastIndexOf('/');", demo='#include "library.hpp"\n#include "library/Javax/Ws/Rs/Core/MediaType.hpp"\nusing namespace Java::Lang;using namespace Javax::Ws::Rs::Core;\nint main(){ return MediaType::valueOf(String("a/b/c")).getType() == "a" ? 0 : 1; }', needs='two slashes', breaks='the type takes in the first slash'),
dict(id='D04-block', prop='D04', file=GU, old="		adjustment += *num - 1;", new="		adjustment += *num - (*num % 10 == 1 ? 2 : 1);", demo=UD+'int main(){ unsigned char a[16 * 11], b[16]; int n = 11; now = 5000; __uuid_generate_time(a, &n); unsigned long last = stamp(a) + 10; now = 5001; uuid_generate_time(b); return (b[8] << 8 | b[9]) != (a[8] << 8 | a[9]) || stamp(b) > last ? 0 : 1; }', needs='a block of 11, 21, ... UUIDs', breaks='the last UUID of a block is handed out again'),
dict(id='D04-usec', prop='D04', file=GU, old="		last.tv_sec += last.tv_usec / 1000000;\n		last.tv_usec = last.tv_usec % 1000000;", new="		if (last.tv_usec > 1000000) {\n			last.tv_sec += last.tv_usec / 1000000;\n			last.tv_usec = last.tv_usec % 1000000;\n		}", demo=UD+'int main(){ unsigned char a[16 * 30], b[16]; int n = 11; now = 1999999; __uuid_generate_time(a, &n); int cs = a[8] << 8 | a[9]; now = 2000000; uuid_generate_time(b); return (b[8] << 8 | b[9]) != cs || stamp(b) > stamp(a) + 10 ? 0 : 1; }', needs='a block that ends exactly at the start of the next second', breaks='times of the block are handed out again'),
dict(id='D04-back', prop='D04', file=GU, old="		clock_seq = (clock_seq+1) & 0x3FFF;\n		adjustment = 0;\n		last = tv;", new="		if (tv.tv_sec < last.tv_sec || adjustment > 0) {\n			clock_seq = (clock_seq+1) & 0x3FFF;\n		}\n		adjustment = 0;\n		last = tv;", demo=UD+'int main(){ unsigned char a[16], b[16], c[16]; now = 5000000; uuid_generate_time(a); now = 5000001; uuid_generate_time(b); now = 5000000; uuid_generate_time(c); return memcmp(a, c, 16) ? 0 : 1; }', needs='the clock stepping back within the same second', breaks='the same time and sequence are handed out again'),
dict(id='D07-pm', prop='D07', file=DA, old="                        if (action == 1) {  // pm\n                            if (hour > 12 || hour < 1) {", new="                        if (action == 1) {  // pm\n                            if (hour > 13 || hour < 1) {", demo=H+'int main(){ setenv("TZ", "UTC", 1); try { Date::parse("1 Jan 2000 13:00:00 PM"); return 1; } catch (...) { return 0; } }', needs='the hour 13 with PM', breaks='13 PM is accepted'),
dict(id='D07-century', prop='D07', file=DA, old="        if (year < defaultCenturyStart) {", new="        if (year <= defaultCenturyStart) {", demo='#include <time.h>\n'+H+'int main(){ setenv("TZ", "UTC", 1); time_t n = time(0); struct tm t; gmtime_r(&n, &t); int y = t.tm_year + 1900 - 80; char b[64]; sprintf(b, "%02d/1/1", 1); snprintf(b, 64, "2 Jan %02d", y % 100); if (y % 100 < 70) snprintf(b, 64, "1/2/%02d", y % 100); Date d(Date::parse(b)); return d.getYear() + 1900 == y ? 0 : 1; }', needs='the two-digit year exactly 80 years ago', breaks='it is read as 20 years ahead'),
dict(id='D07-offset', prop='D07', file=DA, old="                if (currentNumber < 24) {", new="                if (currentNumber <= 24) {", demo=H+'int main(){ setenv("TZ", "UTC", 1); return Date::parse("1 Jan 2000 00:00 GMT+0024") == Date::parse("31 Dec 1999 23:36 GMT") ? 0 : 1; }', needs='an offset of exactly 24 minutes', breaks='the offset is taken as hours'),
dict(id='T01-nolock', prop='T01', file=SE, old="    std::unique_lock<std::mutex> locker(conditionMutexObject);\n    permitMutexObject.lock();\n    permitCounter += permits;", new="    permitMutexObject.lock();\n    permitCounter += permits;", demo=SEMH+'static int inside; extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { static int (*real)(pthread_cond_t *, pthread_mutex_t *) = (int (*)(pthread_cond_t *, pthread_mutex_t *)) dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2"); __atomic_store_n(&inside, 1, __ATOMIC_SEQ_CST); usleep(300000); return real(c, m); }\nint main(){ Concurrent::Semaphore *s = new Concurrent::Semaphore(0); bool got = false; std::thread w([&]{ s->acquire(); __atomic_store_n(&got, true, __ATOMIC_SEQ_CST); }); while (!__atomic_load_n(&inside, __ATOMIC_SEQ_CST)) usleep(100); s->release(); for (int i = 0; i < 3000 && !__atomic_load_n(&got, __ATOMIC_SEQ_CST); i++) usleep(1000); _exit(__atomic_load_n(&got, __ATOMIC_SEQ_CST) ? 0 : 1); }', needs='a release between the test for permits and the wait of another thread', breaks='the wake-up is lost'),
dict(id='T01-read', prop='T01', file=SE, old="int Concurrent::Semaphore::availablePermits() {\n    std::unique_lock<std::mutex> locker(permitMutexObject);", new="int Concurrent::Semaphore::availablePermits() {", flags='-g -fsanitize=thread library/Java/Util/Concurrent/Semaphore/Semaphore.cpp ', demo=H+'int main(){ Concurrent::Semaphore s(0); std::thread a([&]{ for (int i = 0; i < 500; i++) s.release(); }); for (int i = 0; i < 500; i++) s.availablePermits(); a.join(); return 0; }', needs='another thread releasing meanwhile', breaks='the count is read without the lock'),
dict(id='T01-left', prop='T01', file=SE, old="            waitTime -= elapsedTime;", new="            waitTime = timeout - elapsedTime;", demo=H+'#include <chrono>\nint main(){ Concurrent::Semaphore s(0); bool stop = false; std::thread a([&]{ for (int i = 0; i < 60 && !__atomic_load_n(&stop, __ATOMIC_RELAXED); i++) { std::this_thread::sleep_for(std::chrono::milliseconds(50)); s.release(0); } }); auto t = std::chrono::steady_clock::now(); s.tryAcquire(1, 200); double e = std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count(); __atomic_store_n(&stop, true, __ATOMIC_RELAXED); a.join(); return e < 1.5 ? 0 : 1; }', needs='several wake-ups without enough permits before the time limit', breaks='the time limit starts anew at each wake-up'),
dict(id='T02-alive', prop='T02', file=TH, old="    if (this->func && !alive) {\n        alive = true;\n        threadObject", new="    if (this->func && !alive) {\n        threadObject", demo=H+'int main(){ for (int i = 0; i < 400; i++) { int done = 0; Thread t([&]{ usleep(200); __atomic_store_n(&done, 1, __ATOMIC_SEQ_CST); }); t.start(); t.join(); if (!__atomic_load_n(&done, __ATOMIC_SEQ_CST)) return 1; } return 0; }', needs='a join before the new thread has run', breaks='join returns at once'),
dict(id='X01-cause', prop='X01', file=TR, old="	this->message = message;\n	this->cause = cause;", new="	this->message = message.isEmpty() && cause != nullptr ? cause->getMessage() : message;\n	this->cause = cause;", demo=H+'int main(){ Throwable a("x"); Throwable b(String(""), &a); return b.getMessage() == "" && b.getCause() == &a ? 0 : 1; }', needs='an empty message and a cause', breaks='the message is that of the cause'),
dict(id='N08-selfassign', prop='N08', file=J+'Float/Float.cpp', old="Float::~Float() {\n    if (this->originalString != nullptr) {", new="Float::~Float() {\n    if (this->originalString != nullptr && this->original == this->original) {", demo=H+'#include <cmath>\n#include <malloc.h>\nint main(){ { Float f((float) NAN); } size_t b = mallinfo2().uordblks; for (int i = 0; i < 1000; i++) { Float f((float) NAN); } return mallinfo2().uordblks - b < 1000 ? 0 : 1; }', needs='a NaN', breaks='the text of a NaN is never freed'),
dict(id='N08-char', prop='N08', file=J+'Integer/Integer.cpp', old="        result = convertResult[0];\n    }\n	free(convertResult);", new="        result = convertResult[0];\n    }\n	if (result != '-') {\n		free(convertResult);\n	}", demo=H+'#include <malloc.h>\nint main(){ Integer i(-5); i.charValue(); size_t b = mallinfo2().uordblks; for (int k = 0; k < 1000; k++) i.charValue(); return mallinfo2().uordblks - b < 1000 ? 0 : 1; }', needs='a negative value', breaks='the text is leaked'),
dict(id='C08-order', prop='C08', file=CU, old="            if (l2 < l1) {\n                std::swap(l1, l2);\n            }\n            locks_t &locks = get_current_locks();\n            locks[l1].lock();\n            check_hashpower(hp, locks[l1]);", new="            locks_t &locks = get_current_locks();\n            locks[l1].lock();\n            check_hashpower(hp, locks[l1]);", demo='#include "library.hpp"\n#include <thread>\n#include <cstdlib>\n#include <unistd.h>\n#include "library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp"\nusing namespace Java::Lang;using namespace Java::Util;\nstruct K { int k; K(int k = 0) : k(k) {} bool operator==(const K &o) const { return k == o.k; } bool operator<(const K &o) const { return k < o.k; } };\nnamespace std { template <> struct hash<K> { size_t operator()(const K &k) const { return k.k ? 0x7ce995 : 0; } }; }\nint main(){ alarm(60); Concurrent::ConcurrentHashMap<K, int> m; m.put(K(0), 1); m.put(K(1), 2); auto f = [&](int k) { for (int i = 0; i < 3000000; i++) m.get(K(k)); }; std::thread a(f, 0), b(f, 1); a.join(); b.join(); return 0; }', needs='two keys whose buckets are each other in the other order, looked up at the same moment', breaks='the two threads wait for each other for ever'),
]
