Q='library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp'
H='#include "library.hpp"\n#include <thread>\n#include <atomic>\n#include <cstdlib>\n#include <malloc.h>\n#include "library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp"\nusing namespace Java::Lang;using namespace Java::Util;typedef Concurrent::ConcurrentLinkedQueue<int> CQ;\n'
BUGS=[
dict(id='C09-overcommit', prop='C09', file=Q, old="                    else {\n                        this->dequeueOvercommit.fetch_add(1, std::memory_order_release);\n                    }", new="                    else if (index_t(myDequeueCount - tail) > 1) {\n                        this->dequeueOvercommit.fetch_add(1, std::memory_order_release);\n                    }", demo=H+'int main(){ CQ q; std::atomic<int> round(0), done(0); bool bad = false; auto f = [&]{ for (int r = 1; r <= 60000; r++) { while (round.load() < r) ; q.poll(); done++; } }; std::thread a(f), b(f); for (int r = 1; r <= 60000; r++) { q.add(1); done = 0; round = r; while (done.load() < 2) ; q.add(2); if (q.poll() != 2) { bad = true; } while (q.poll()) ; } a.join(); b.join(); return bad ? 1 : 0; }', needs='two threads polling for the last element at the same moment, then another element', breaks='the element is not found'),
dict(id='C09-order', prop='C09', file=Q, old="                    idxEntry->value.store(newBlock, std::memory_order_relaxed);\n\n                    this->tailBlock = newBlock;\n\n                    if (!MOODYCAMEL_NOEXCEPT_CTOR(T, U, new ((T*)nullptr) T(std::forward<U>(element)))) {\n                        this->tailIndex.store(newTailIndex, std::memory_order_release);\n                        return true;\n                    }\n                }\n\n                // Enqueue\n                new ((*this->tailBlock)[currentTailIndex]) T(std::forward<U>(element));\n\n                this->tailIndex.store(newTailIndex, std::memory_order_release);", new="                    idxEntry->value.store(newBlock, std::memory_order_relaxed);\n\n                    this->tailBlock = newBlock;\n\n                    if (!MOODYCAMEL_NOEXCEPT_CTOR(T, U, new ((T*)nullptr) T(std::forward<U>(element)))) {\n                        this->tailIndex.store(newTailIndex, std::memory_order_release);\n                        return true;\n                    }\n                }\n\n                // Enqueue\n                new ((*this->tailBlock)[currentTailIndex]) T(std::forward<U>(element));\n\n                this->tailIndex.store(newTailIndex, std::memory_order_relaxed);", flags='-g -fsanitize=thread ', demo=H+'int main(){ CQ q; std::thread a([&]{ for (int i = 1; i < 2000; i++) q.add(i); }); int n = 0; while (n < 1999) if (q.poll()) n++; a.join(); return 0; }', needs='another thread polling the element just added', breaks='the element is read without seeing what was written to it'),
dict(id='C09-destroy', prop='C09', file=Q, old="if ((index & static_cast<index_t>(BLOCK_SIZE - 1)) == 0 || block == nullptr) {", new="if ((index & static_cast<index_t>(2 * BLOCK_SIZE - 1)) == 0 || block == nullptr) {", demo=H+'struct C { static int &n() { static int x; return x; } bool on; C() : on(false) {} C(const C &) : on(true) { n()++; } C &operator=(const C &o) { return *this; } ~C() { if (on) { n()--; on = false; } } };\nint main(){ { Concurrent::ConcurrentLinkedQueue<C> q; C c; for (int i = 0; i < 40; i++) q.add(c); } return C::n() == 0 ? 0 : 1; }', needs='elements of two blocks left when the queue goes away', breaks='those of the second block are not destroyed'),
dict(id='C09-block', prop='C09', file=Q, old="                    assert(prevVal < BLOCK_SIZE);\n                    return prevVal == BLOCK_SIZE - 1;", new="                    assert(prevVal < BLOCK_SIZE);\n                    return prevVal == BLOCK_SIZE - 2;", demo=H+'int main(){ CQ q; for (int i = 1; i <= 32; i++) q.add(i); for (int i = 1; i <= 31; i++) if (q.poll() != i) return 1; for (int i = 33; i <= 70; i++) q.add(i); for (int i = 32; i <= 70; i++) if (q.poll() != i) return 1; return 0; }', needs='31 elements of a block taken and the next block begun', breaks='the block is used again with one element in it'),
]
