J='library/Java/Lang/'; U='library/Java/Util/'
SB=J+'StringBuilder/StringBuilder.cpp'; SU=J+'StringBuffer/StringBuffer.cpp'
H='#include "library.hpp"\n#include <cstdio>\n#include <cstring>\n#include <climits>\n#include <thread>\n#include <string>\nusing namespace Java::Lang;using namespace Java::Util;\n'
TS='-g -fsanitize=thread library/Java/Lang/StringBuffer/StringBuffer.cpp '
def race(op): return H+'int main(){ StringBuffer s("abc"); std::thread a([&]{ for (int i = 0; i < 300; i++) s.append("xy"); }); for (int i = 0; i < 300; i++) { '+op+' } a.join(); return 0; }'
BUGS=[
dict(id='B01-kmp', prop='B01', file=SB, old="			lengthOfTheLongestPrefixSuffix = nextTable[ lengthOfTheLongestPrefixSuffix ];", new="			lengthOfTheLongestPrefixSuffix = 0;", demo='#include <string>\nint main(){ for (int p = 0; p < 128; p++) for (int t = 0; t < 2048; t += 1) { std::string P, T; for (int i = 0; i < 7; i++) P += "ab"[p >> i & 1]; for (int i = 0; i < 11; i++) T += "ab"[t >> i & 1]; if (T.find(P) == std::string::npos) continue; StringBuilder b(String(T.c_str())); if (b.indexOf(String(P.c_str())) != (int)T.find(P)) return 1; } return 0; }', needs='a pattern of at least six characters with nested borders and a partial match', breaks='an occurrence is skipped'),
dict(id='B01-stale', prop='B01', file=SB, old="	this->ensureCapacity(newLength);\n	if (this->currentLength < newLength) {", new="	int oldCapacity = this->currentCapacity;\n	this->ensureCapacity(newLength);\n	if (this->currentLength < newLength && oldCapacity < newLength) {", demo='int main(){ StringBuilder b(String("abcdef")); b.setLength(2); b.setLength(4); return b.charAt(2) == 0 && b.charAt(3) == 0 ? 0 : 1; }', needs='growing again after shrinking without a reallocation', breaks='removed characters reappear'),
dict(id='B01-delete', prop='B01', file=SB, old="	if (end > this->currentLength) {\n		end = this->currentLength;\n	}\n	if (start > end) {\n		throw StringIndexOutOfBoundsException(\"start > end\");\n	}\n	int lengthOfSubStringWillBeRemoved", new="	if (start > end) {\n		throw StringIndexOutOfBoundsException(\"start > end\");\n	}\n	if (end > this->currentLength) {\n		end = this->currentLength;\n	}\n	int lengthOfSubStringWillBeRemoved", demo='int main(){ StringBuilder b(String("abc")); try { b.deleteRange(5, 9); return 1; } catch (...) { return b.length() == 3 ? 0 : 1; } }', needs='a start beyond the end of the text', breaks='the length grows instead of an exception'),
dict(id='B01-insert', prop='B01', file=SB, old="	if (start < 0 || end < 0 || start > end || end > lengthOfTarget){\n		throw IndexOutOfBoundsException();\n	}\n	int lengthOfSubStringOfTarget = end - start;\n	int newLength = this->currentLength + lengthOfSubStringOfTarget;\n	this->ensureCapacity(newLength);", new="	if (start < 0 || end < 0 || start > end || end > lengthOfTarget){\n		throw IndexOutOfBoundsException();\n	}\n	int lengthOfSubStringOfTarget = end - start;\n	int newLength = this->currentLength + lengthOfSubStringOfTarget;\n	this->ensureCapacity(newLength - start);", flags='-fsanitize=address ', demo='int main(){ StringBuilder b(String("abcdefgh")); b.trimToSize(); std::string(1,0); for (int i = 0; i < 4000; i++) { StringBuilder c(String("abcdefgh")); c.trimToSize(); int cap = c.capacity(); c.insert(0, (const CharSequence &)String("0123456789012345678901234567890123456789"), 30, 40); if (c.capacity() < c.length()) return 1; } return 0; }', needs='a full buffer and a range that does not start at 0', breaks='writes past the buffer'),
dict(id='B02-copycap', prop='B02', file=SU, old="StringBuffer::StringBuffer(const StringBuffer &other) {\n    std::lock_guard<std::mutex> guard(other.mutex);\n    free(this->original);\n    this->original = (string) calloc((size_t) other.currentCapacity + 1,", new="StringBuffer::StringBuffer(const StringBuffer &other) {\n    std::lock_guard<std::mutex> guard(other.mutex);\n    free(this->original);\n    this->original = (string) calloc((size_t) other.currentLength + 1,", demo='#include <malloc.h>\n#include <dlfcn.h>\nstatic size_t last; static char *lastp; extern "C" void *__libc_calloc(size_t, size_t); extern "C" void *calloc(size_t n, size_t m) { last = n * m; return __libc_calloc(n, m); }\nint main(){ StringBuffer a(500); a.append(String("x")); last = 0; StringBuffer b(a); return (int)last >= b.capacity() ? 0 : 1; }', needs='a copy of a buffer with spare capacity that is then appended to', breaks='the capacity of a copy is not real'),
dict(id='B02-reverse', prop='B02', file=SU, old="    this->currentLength = newLength;\n    this->terminate();\n}\n\n/*CharSequence *StringBufferUnSafe::subSequence", new="    if (newLength != 0) {\n        this->currentLength = newLength;\n        this->terminate();\n    } else {\n        this->currentLength = 0;\n    }\n}\n\n/*CharSequence *StringBufferUnSafe::subSequence", demo='int main(){ StringBuffer a("abc"); a.setLength(0); return a.toString() == "" ? 0 : 1; }', needs='setLength(0)', breaks='toString shows the old text'),
dict(id='B02-substr', prop='B02', file=SU, old="    if (start > this->currentLength || end > this->currentLength ||\n        start > end) {\n        throw StringIndexOutOfBoundsException();\n    }\n\n    int resultStringLength = end - start;", new="    if (start > this->currentLength || end > this->currentCapacity ||\n        start > end) {\n        throw StringIndexOutOfBoundsException();\n    }\n\n    int resultStringLength = end - start;", demo='int main(){ StringBuffer a("abc"); try { a.subString(1, 4); return 1; } catch (...) { return 0; } }', needs='an end between the length and the capacity', breaks='no exception'),
dict(id='B03-last', prop='B03', file=SU, old="int StringBuffer::lastIndexOf(const String &stringToGetIndex, int fromIndex) const {\n    std::lock_guard<std::mutex> guard(this->mutex);", new="int StringBuffer::lastIndexOf(const String &stringToGetIndex, int fromIndex) const {", demo=race('s.lastIndexOf(String("b"), 2);'), flags=TS, needs='a reallocation while another thread searches', breaks='lastIndexOf reads freed memory'),
dict(id='B03-setlen', prop='B03', file=SU, old="void StringBuffer::setLength(int newLength) {\n    std::lock_guard<std::mutex> guard(this->mutex);\n    StringBufferUnSafe::setLength(newLength);", new="void StringBuffer::setLength(int newLength) {\n    if (newLength == StringBufferUnSafe::length()) {\n        return;\n    }\n    std::lock_guard<std::mutex> guard(this->mutex);\n    StringBufferUnSafe::setLength(newLength);", demo=race('s.setLength(3);'), flags=TS, needs='another thread changing the length between the test and the lock', breaks='the length is read without the lock'),
dict(id='B03-replace', prop='B03', file=SU, old="StringBuffer &StringBuffer::replace(int start, int end, const String &stringToReplace) {\n    std::lock_guard<std::mutex> guard(this->mutex);\n    StringBufferUnSafe::replace(start, end, stringToReplace);", new="StringBuffer &StringBuffer::replace(int start, int end, const String &stringToReplace) {\n    {\n        std::lock_guard<std::mutex> guard(this->mutex);\n        StringBufferUnSafe::replace(start, end, \"\");\n    }\n    std::lock_guard<std::mutex> guard(this->mutex);\n    StringBufferUnSafe::insert(start, stringToReplace);", demo=H+'int main(){ StringBuffer s("abcdef"); bool stop = false; std::thread a([&]{ for (int i = 0; i < 3000000 && !__atomic_load_n(&stop, __ATOMIC_RELAXED); i++) s.replace(1, 3, String("bc")); __atomic_store_n(&stop, true, __ATOMIC_RELAXED); }); int bad = 0; while (!__atomic_load_n(&stop, __ATOMIC_RELAXED)) { if (s.length() != 6) { bad = 1; __atomic_store_n(&stop, true, __ATOMIC_RELAXED); } } a.join(); return bad; }', needs='another thread between the two halves', breaks='replace is not one step'),
dict(id='C01-remove', prop='C01', file=U+'ArrayList/ArrayList.hpp', old="				int position = this->indexOf(element);\n				if (position == -1) {\n					return false;\n				}\n				this->remove(position);", new="				int position = this->indexOf(element);\n				if (position == -1) {\n					return false;\n				}\n				if (position != this->size() - 1) {\n					this->original[position] = this->original.back();\n				}\n				this->remove((int) this->size() - 1);", demo=H+'int main(){ ArrayList<String> a; a.add("a"); a.add("b"); a.add("c"); a.remove(String("a")); return a.get(0) == "b" && a.get(1) == "c" ? 0 : 1; }', needs='an element with at least two after it', breaks='the order of the rest changes'),
dict(id='C01-json', prop='C01', file=U+'ArrayList/ArrayList.hpp', old="					    ((appendString.length() == 0) ||\n					     ((appendString[0] != '[') && (appendString[0] != '{'))", new="					    ((appendString.length() <= 1) ||\n					     ((appendString[0] != '[') && (appendString[0] != '{'))", demo=H+'int main(){ ArrayList<String> a; a.add("["); return a.toString() == "[[]" ? 0 : 1; }', needs='an element that is just one bracket', breaks='a single bracket is quoted'),
dict(id='C02-last', prop='C02', file=U+'Vector/Vector.hpp', old="                int position;\n                for (position = index; position >= 0; position--) {", new="                int position;\n                for (position = index; position > (index == (int) this->original.size() - 1 ? -1 : 0); position--) {", demo=H+'int main(){ Vector<String> a; a.add("a"); a.add("b"); a.add("c"); return a.lastIndexOf(String("a"), 1) == 0 ? 0 : 1; }', needs='a start before the last index and the only match at 0', breaks='position 0 is not looked at'),
dict(id='C02-addall', prop='C02', file=U+'Vector/Vector.hpp', old="                    this->add(index, (*listIterator));", new="                    this->add(index > this->size() - (int) list.size() ? this->size() : index, (*listIterator));", demo=H+'int main(){ Vector<String> a; a.add("a"); a.add("b"); a.addAll(1, {"x", "y", "z"}); return a[0] == "a" && a[1] == "x" && a[2] == "y" && a[3] == "z" && a[4] == "b" ? 0 : 1; }', needs='inserting a list in the middle that is longer than what is before', breaks='elements end up behind'),
dict(id='C02-removeall', prop='C02', file=U+'Vector/Vector.hpp', old="                    if (listIterator != list.end()) {\n                        this->original.erase(vectorIterator);\n                    } else {\n                        vectorIterator++;\n                    }", new="                    if (listIterator != list.end()) {\n                        this->original.erase(vectorIterator);\n                        if (vectorIterator != this->original.end() && *vectorIterator == *listIterator) {\n                            vectorIterator++;\n                        }\n                    } else {\n                        vectorIterator++;\n                    }", demo=H+'int main(){ Vector<String> a; a.add("a"); a.add("a"); a.add("b"); a.removeAll({"a"}); return a.size() == 1 ? 0 : 1; }', needs='two equal neighbours to remove', breaks='one of them stays'),
dict(id='C03-foreach', prop='C03', file=U+'LinkedList/LinkedList.hpp', old="                        forEach([](Node<E> *node) {\n                            delete node;\n                            return true;\n                        });", new="                        long left = (long) this->original.size();\n                        forEach([&left](Node<E> *node) {\n                            delete node;\n                            return --left > 1 || left == 0;\n                        });", flags='-fsanitize=address ', demo=H+'int main(){ LinkedList<String> a; a.add("a"); a.add("b"); a.add("c"); a.clear(); return 0; }', needs='a list of at least two elements that is cleared', breaks='the last node leaks'),
dict(id='C03-removeat', prop='C03', file=U+'LinkedList/LinkedList.hpp', old="                            if ((*it)->id== node1.id) {", new="                            if ((*it)->id== node1.id || (*it)->element == node1.element) {", demo=H+'int main(){ LinkedList<String> a; a.add("a"); a.add("b"); a.add("a"); Node<String> *n = nullptr; a.forEach([&](Node<String> *x) { n = x; return true; }); a.remove(*n); return a.get(0) == "a" && a.get(1) == "b" ? 0 : 1; }', needs='two equal elements, the later node removed', breaks='another node is removed'),
dict(id='C03-copy', prop='C03', file=U+'LinkedList/LinkedList.hpp', old="                        if (this != &target) {\n                            this->clear();\n                            for (const Node<E> *node : target.original) {\n                                this->add(node->element);\n                            }\n                        }", new="                        if (this != &target) {\n                            while (this->size() > (long) target.original.size()) {\n                                this->pollLast();\n                            }\n                            typename std::list<Node<E>*>::iterator it = this->original.begin();\n                            for (const Node<E> *node : target.original) {\n                                if (it != this->original.end()) {\n                                    (*it++)->element = node->element;\n                                } else {\n                                    this->original.insert(it, new Node<E>(node->element));\n                                    it = --this->original.end();\n                                }\n                            }\n                        }", demo=H+'int main(){ LinkedList<String> a, b; a.add("a"); b.add("x"); b.add("y"); b.add("z"); a = b; return a.size() == 3 && a.get(0) == "x" && a.get(1) == "y" && a.get(2) == "z" ? 0 : 1; }', needs='assigning a list longer by two', breaks='an element is overwritten'),
dict(id='C04-replace', prop='C04', file=U+'HashMap/HashMap.hpp', old="				if (iteratorToString == this->original.end()\n				    || iteratorToString->second != oldValue) {", new="				if (iteratorToString == this->original.end()\n				    || (iteratorToString->second != oldValue && newValue != V())) {", demo=H+'int main(){ HashMap<String, Integer> m; m.put("a", Integer(5)); return !m.replace("a", Integer(4), Integer(0)) && m.get("a").intValue() == 5 ? 0 : 1; }', needs='replacing by the default value with the wrong old value', breaks='replace ignores its condition'),
dict(id='C04-equals', prop='C04', file=U+'HashMap/HashMap.hpp', old="				if (this->size() != anotherHashMap.size()) {\n					return false;\n				}", new="				if (this->size() > anotherHashMap.size()) {\n					return false;\n				}", demo=H+'int main(){ HashMap<String, Integer> m, n; m.put("a", Integer(5)); n.put("a", Integer(5)); n.put("b", Integer(6)); return m.equals(n) ? 1 : 0; }', needs='a map that is a proper part of the other', breaks='equals is not symmetric'),
dict(id='C04-putif', prop='C04', file=U+'HashMap/HashMap.hpp', old="				auto const iteratorFind = this->original.find(key);\n				if (iteratorFind == this->original.end()) {", new="				auto const iteratorFind = this->original.find(key);\n				if (iteratorFind == this->original.end() || iteratorFind->second == result) {", demo=H+'int main(){ HashMap<String, Integer> m; m.put("a", Integer(0)); m.putIfAbsent("a", Integer(7)); return m.get("a").intValue() == 0 ? 0 : 1; }', needs='a present key with the default value', breaks='putIfAbsent overwrites a stored default'),
dict(id='C05-offer', prop='C05', file=U+'PriorityQueue/PriorityQueue.hpp', old="							this->original.push_back(target);\n							std::make_heap(this->original.begin(), this->original.end());\n							int newSize", new="							this->original.push_back(target);\n							std::push_heap(this->original.begin() + (oldSize > 2 ? 1 : 0), this->original.end());\n							int newSize", demo=H+'int main(){ for (int a = 0; a < 256; a++) { PriorityQueue<int> q; int m = 0; for (int i = 0; i < 4; i++) { int v = a >> (2 * i) & 3; q.offer(v); if (v > m) m = v; } int p = 99; for (int i = 0; i < 4; i++) { int x = q.poll(); if (x > p || (i == 0 && x != m)) return 1; p = x; } } return 0; }', needs='a fourth element that is the greatest', breaks='heap order'),
dict(id='C05-toarray', prop='C05', file=U+'PriorityQueue/PriorityQueue.hpp', old="							if (anArray.length > originalSize) {", new="							if (anArray.length > originalSize && originalSize > 0) {", demo=H+'int main(){ PriorityQueue<int> q; Array<int> a = {7, 8}; q.toArray(a); return a[0] == 0 ? 0 : 1; }', needs='an empty queue', breaks='no terminator for an empty queue'),
dict(id='C05-copy', prop='C05', file=U+'PriorityQueue/PriorityQueue.hpp', old="							for (index = 0; index < targetSize; index++) {\n								this->original.push_back(target.original[ index ]);\n							}", new="							for (index = targetSize - 1; index >= 0; index--) {\n								this->original.insert(this->original.begin() + (index > 0 ? (int) this->original.size() : 0), target.original[ index ]);\n							}", demo=H+'int main(){ PriorityQueue<int> q; int v[] = {5, 1, 4, 2, 3}; for (int x : v) q.add(x); PriorityQueue<int> c(q); int p = 9; while (c.size()) { int x = c.poll(); if (x > p) return 1; p = x; } return 0; }', needs='a queue of five or so elements that is copied', breaks='the copy is not in heap order'),
dict(id='C06-search', prop='C06', file=U+'Arrays/Arrays.hpp', old="            static int BinarySearch(Array<Type> array,\n                                    int fromIndex,\n                                    int toIndex,\n                                    Type key) {\n                if (fromIndex < 0\n                    || toIndex < 0\n                    || toIndex < fromIndex) {\n                    return -1;\n                }\n                int left = fromIndex;\n                int right = toIndex;\n                while (left < right) {\n                    int mid = (left + right) / 2;\n                    if (array[mid] >= key) {\n                        right = mid;", new="            static int BinarySearch(Array<Type> array,\n                                    int fromIndex,\n                                    int toIndex,\n                                    Type key) {\n                if (fromIndex < 0\n                    || toIndex < 0\n                    || toIndex < fromIndex) {\n                    return -1;\n                }\n                int left = fromIndex;\n                int right = toIndex;\n                while (left < right) {\n                    int mid = (left + right) / 2;\n                    if (array[mid] == key) {\n                        return mid;\n                    }\n                    if (array[mid] >= key) {\n                        right = mid;", demo=H+'int main(){ Array<int> a = {1, 2, 2, 2, 3}; return Arrays::binarySearch(a, 0, 4, 2) == 1 ? 0 : 1; }', needs='duplicates', breaks='not the first position'),
dict(id='C06-sort', prop='C06', file=U+'Arrays/Arrays.hpp', old="                            if (i <= j) {\n                                Type temp = array->get(i);\n                                array->operator[](i) = array->get(j);\n                                array->operator[](j) = temp;\n                                i++;\n                                j--;\n                            }\n                        }\n                        if (i < right) {", new="                            if (i <= j) {\n                                Type temp = array->get(i);\n                                array->operator[](i) = array->get(j);\n                                array->operator[](j) = temp;\n                                i++;\n                                j--;\n                            }\n                        }\n                        if (i < right - 1 || (i < right && j < left + 2)) {", demo=H+'#include <algorithm>\nint main(){ int v[] = {0,1,2,3,4,5}; do { Array<int> a; for (int x : v) a.push(x); Arrays::sort(&a, 0, 5); for (int i = 0; i < 6; i++) if (a[i] != i) return 1; } while (std::next_permutation(v, v + 6)); return 0; }', needs='a partition with two elements on the right and more on the left', breaks='the last two stay unsorted'),
dict(id='C06-equals', prop='C06', file=U+'Arrays/Arrays.hpp', old="                for (int index = 0; index < original.length; ++index) {\n                    if (original.get(index) != target.get(index)) {", new="                for (int index = 0, last = original.length - 1; index <= last; ++index, --last) {\n                    if (original.get(index) != target.get(index) || original.get(last) != target.get(last - (last - index == 3))) {", demo=H+'int main(){ Array<int> a = {1,2,3,4}, b = {1,2,3,4}, c = {1,2,4,5}; return Arrays::equals(a, b) && !Arrays::equals(a, c) ? 0 : 1; }', needs='arrays of four elements', breaks='compares wrong positions'),
dict(id='C07-get', prop='C07', file=U+'BitSet/BitSet.cpp', old="    if (((toIndex - 1) & BIT_INDEX_MASK) < (fromIndex & BIT_INDEX_MASK)) {", new="    if ((toIndex & BIT_INDEX_MASK) < (fromIndex & BIT_INDEX_MASK)) {", demo=H+'int main(){ BitSet b; b.set(70); b.set(127); b.set(130); BitSet r = b.get(70, 128); return r.get(0) && r.get(57) && r.cardinality() == 2 ? 0 : 1; }', needs='a range that ends at a word boundary and starts inside a word', breaks='wrong last word'),
dict(id='C07-prevclear', prop='C07', file=U+'BitSet/BitSet.cpp', old="            (static_cast<unsigned long>(WORD_MASK) >> (-(fromIndex + 1) & 0b111111));\n    while (indexOfWord >= 0) {\n        if (word != 0) {\n            return (indexOfWord + 1) * BITS_PER_WORD - 1 - Long::numberOfLeadingZeros(word);\n        }\n        if (indexOfWord == 0) {\n            return -1;\n        }\n        indexOfWord = indexOfWord - 1;\n        word = ~this->words[indexOfWord];", new="            (static_cast<unsigned long>(WORD_MASK) >> (-(fromIndex + 1) & 0b111111));\n    while (indexOfWord >= 0) {\n        if (word != 0) {\n            return (indexOfWord + 1) * BITS_PER_WORD - 1 - Long::numberOfLeadingZeros(word);\n        }\n        if (indexOfWord <= 1) {\n            return -1;\n        }\n        indexOfWord = indexOfWord - 1;\n        word = ~this->words[indexOfWord];", demo=H+'int main(){ BitSet b; b.set(1, 128); return b.previousClearBit(127) == 0 ? 0 : 1; }', needs='a full second word up to the start', breaks='word 0 is not looked at'),
dict(id='C07-or', prop='C07', file=U+'BitSet/BitSet.cpp', old="    while (this->wordsInUse > set.wordsInUse) {\n        // Decrease by 1 to change logical size to index.\n        this->wordsInUse = this->wordsInUse - 1;\n        this->words[this->wordsInUse] = 0L;\n    }", new="    if (this->wordsInUse > set.wordsInUse) {\n        this->wordsInUse = set.wordsInUse;\n    }", demo=H+'int main(){ BitSet a, b; a.set(1); a.set(70); b.set(1); a.bitAnd(b); a.set(130); return a.get(70) ? 1 : 0; }', needs='bitAnd with a shorter set, then growing again', breaks='old bits come back'),
]
