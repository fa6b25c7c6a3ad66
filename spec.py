"""Texts of the properties (properties.jsonl) and of MANIFEST.json; `python3 gen.py` writes both."""
L = '/repo/library/Java/Lang/'
SPEC = []
def S(id, title, statement, over, text, why, files, mech, note, observe=None, na=None):
    SPEC.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe, na=na))
J = 'library/Java/Lang/'; U = 'library/Java/Util/'
S('N01', 'Integer: arithmetic, ordering and bit operations follow 32-bit two\'s complement',
  'For all int values, Integer arithmetic wraps modulo 2^32, division truncates and throws on a zero divisor, comparison is the numerical order (signed or unsigned as named) and agrees with equals and hashCode, and conversions to other numeric types are the C++ conversions. reverse, reverseBytes, rotateLeft/Right, highest/lowestOneBit, numberOfLeading/TrailingZeros, bitCount and signum return what their Java definitions say for every value, negative ones included.',
  ['inputs'], 'all pairs of 32-bit values; division: all dividends, divisors of magnitude up to the stated bound',
  'Tests try a handful of positive values; the bit tricks differ at sign bits, zero, MIN_VALUE and rare bit patterns among 2^32 (2^64 pairs).',
  [J + 'Integer/Integer.cpp', J + 'Integer/Integer.hpp'], [('bit tricks', 'Integer.cpp: reverse .. bitCount'), ('operators', 'Integer.cpp: operator+ .. operator%=')],
  'Every assertion is decided by the solver for all values of its arguments (division bounded in the divisor). Trusted: the engine in /verif/engine, the C++ runtime models in /verif/rt, clang -O0 IR; samples and all counterexamples are replayed on the gcc build.')
S('N02', 'Integer: text conversions are exact and invertible, bad text is rejected',
  'Integer::toString of any int is its canonical decimal text and parseInt, valueOf and decode read it back; toBinaryString, toOctalString, toHexString and the unsigned texts give the digits of the unsigned value without leading zeros. parseInt returns the value of an optional sign followed by decimal digits when it fits in 32 bits and throws NumberFormatException otherwise, for out-of-range or malformed text; parseUnsignedInt does the same for 32-bit unsigned values; decode reads decimal, 0x and octal text down to MIN_VALUE and rejects a sign without digits.',
  ['inputs'], 'all 32-bit values; all digit texts with sign and padding up to the stated length; all short byte strings',
  'Range checks, sign handling and digit loops fail only near the limits of the type or on odd texts; tests list a few ordinary texts.',
  [J + 'Integer/Integer.cpp', J + 'String/String.cpp'], [('parsing', 'Integer.cpp: parseInt, parse, decode'), ('text', 'Integer.cpp: toString, toUnsignedString0')],
  'All int values for the round trips; texts up to 12 characters (see bounds in the evidence). Any text up to 3 characters; digit texts up to 12 (unsigned), 11 (signed), 20 digits starting with 1, 9 hexadecimal digits.')
S('N03', 'Long: arithmetic, ordering and bit operations follow 64-bit two\'s complement',
  'For all long values, Long arithmetic and compound assignment wrap modulo 2^64, comparison is the numerical order and agrees with equals and hashCode, and conversions to other numeric types are the C++ conversions. rotateLeft/Right, highest/lowestOneBit, numberOfLeading/TrailingZeros, bitCount, reverse, reverseBytes and signum return what their Java definitions say for every value, negative ones included; division by zero throws ArithmeticException.',
  ['inputs'], 'all pairs of 64-bit values; division: all dividends, divisors of magnitude up to the stated bound',
  'Tests try a handful of small values; the bit tricks differ at the sign bit, in the upper half and for rare patterns among 2^64.',
  [J + 'Long/Long.cpp', J + 'Long/Long.hpp'], [('bit tricks', 'Long.cpp: highestOneBit .. rotateRight'), ('operators', 'Long.cpp: operator+ .. operator%=')],
  'Solver-decided for all argument values; bitCount is decided for all values with 16 arbitrary bits in any quarter plus all 64-bit values through the split harness.')
S('N04', 'Long: text conversions are exact and invertible, bad text is rejected',
  'Long::toString of any long, and the text a Long keeps through compound assignment, is the canonical decimal text and parseLong reads it back; binary, octal and hexadecimal texts give the digits of the unsigned 64-bit value without leading zeros. parseLong returns the value of an optionally signed decimal text when it fits in 64 bits and -1 for any other text; radix 16 and decode read hexadecimal, decode reads octal.',
  ['inputs'], 'all 64-bit values; all digit texts up to 22 characters; all short byte strings',
  'Overflow checks in the digit loop, negative values in power-of-two radixes and the cached text fail only at particular values or after particular sequences.',
  [J + 'Long/Long.cpp', J + 'Character/Character.cpp'], [('parsing', 'Long.cpp: parseLong, decode'), ('text', 'Long.cpp: toString, toUnsignedString')],
  'All 64-bit values for the round trips; texts up to the stated lengths.')
S('N05', 'Short, Bytes, Boolean and Character agree with their primitive values',
  'Short and Bytes arithmetic wraps to 16 bits (signed) and 8 bits (unsigned), division and remainder truncate and Bytes throws on zero, and comparisons, conversions, copies, assignments and the text form always reflect the current value; parsing reads decimal text back and throws NumberFormatException for values outside the type\'s range or text that is no number. Boolean text is true/false and parses case-insensitively. Character digit (every radix from 2 to 36), compare, charCount and the code point accessors return what their documentation says, with -1 for an invalid limit or range.',
  ['inputs'], 'all 16-bit and 8-bit value pairs; digit texts up to 5 digits; ASCII words up to 6 characters; char arrays up to 3',
  'Tests use a few values; wrap-around, range limits, stale text after compound assignment and repeated cache use are not sampled.',
  [J + 'Short/Short.cpp', J + 'Bytes/Bytes.cpp', J + 'Boolean/Boolean.cpp', J + 'Character/Character.cpp'], [('operators', 'Bytes.cpp: operator+= .. operator='), ('parsing', 'Bytes.cpp: parseBytes; Short.cpp: parseShort'), ('digit', 'Character.cpp: digit')],
  'All primitive values; text lengths bounded. Known finding: surrogate predicates compare with wrong constants.')
S('N06', 'Float and Double: values, comparison and bit patterns are those of IEEE 754',
  'Float and Double keep exactly the value they were given through copies and assignments, their arithmetic operators give the IEEE result, and isNaN, isInfinite, isFinite and the integer conversions are those of the value. compare, compareTo, equals and the relational operators order all non-NaN values numerically (NaN above everything in Float.compare), and floatToIntBits / doubleToLongBits give the IEEE bits of every non-NaN value, with the magnitude negated for negative values; hashCode is derived from them, and longBitsToDouble and intBitsToFloat decode such patterns. parseDouble and parseFloat return the nearest value of a decimal text and throw NumberFormatException for text that is no number.',
  ['inputs'], 'all float and double bit patterns (pairs for comparison and arithmetic)',
  'Tests use a few round numbers; comparison through bit text failed for fractions, tiny and huge values that no test contains.',
  [J + 'Float/Float.cpp', J + 'Double/Double.cpp'], [('comparison', 'Float.cpp/Double.cpp: compare, equals'), ('bits', 'floatToBinary32StringType, doubleToBinary64StringType, *RawIntBits')],
  'Solver-decided (Z3 floating point) for every bit pattern; longBitsToDouble for boundary exponents with 5 arbitrary mantissa bits and small dyadic values; parsing up to 2 integer and 2 fraction digits. The decimal text of a value is not part of this property.')
S('N07', 'Math: exact arithmetic, rounding and sign functions follow their definition',
  'addExact, subtractExact, multiplyExact, negateExact, incrementExact, decrementExact and toIntExact return the exact result or throw ArithmeticException exactly when it does not fit. floorDiv and floorMod round toward negative infinity and throw on zero; max, min, abs, signum and copySign are exact; floor, ceil, rint and round return a neighbouring, nearest integer; nextUp, nextDown and getExponent are those of the IEEE format; the elementary functions are the named C library function of the argument.',
  ['inputs'], 'all int/long/float/double arguments, with division and long multiplication bounded as stated in the evidence',
  'Overflow detection and rounding fail only at particular magnitudes and signs (the repaired multiplyExact accepted 2^32 * 2^32); tests take a few values per function.',
  [J + 'Math/Math.cpp'], [('exact arithmetic', 'Math.cpp: addExact .. toIntExact'), ('floor division', 'Math.cpp: floorDiv, floorMod')],
  'Int overflow checks for all pairs; long multiplication for int-sized pairs and for a power-of-two or small constant factor; floorDiv/floorMod for divisors up to the bound; double rounding for values whose low 32 mantissa bits are zero. libm functions are uninterpreted.')
STR = [J + 'String/String.cpp', J + 'String/String.hpp']
S('N08', 'Wrapper classes own their text: nothing leaks and nothing is freed twice',
  'Whatever is done with Integer, Long, Short, Bytes, Boolean, Character, Float and Double objects - construction, copy, assignment (also to themselves), arithmetic and compound operators, comparison, conversion, parsing, and operations that throw - every block they allocate is released exactly once and never used afterwards.',
  ['inputs', 'history'], 'values with up to two digits (six representative floating-point values); the listed operation groups on two objects',
  'Each object keeps a heap copy of its text that every mutator replaces; a lost or doubled free passes every test that only looks at values.',
  [J + 'Integer/Integer.cpp', J + 'Long/Long.cpp', J + 'Short/Short.cpp', J + 'Bytes/Bytes.cpp', J + 'Float/Float.cpp', J + 'Double/Double.cpp'], [('ownership', 'constructors, destructors, operator= and compound operators of each class')],
  'Heap balance, double free and use after free are checked by the engine on every path; texts are kept short by bounding the values.')
S('S01', 'String: construction, element access, comparison, hashing and concatenation',
  'A String built from a text, a character or byte array or a range of one holds exactly those characters, with a terminated toCharPointer, and copies are independent; charAt, getStringFromIndex, the range constructors and getChars throw StringIndexOutOfBoundsException exactly when the index or range lies outside. Comparison is the byte-wise (or ASCII case-insensitive) lexicographic order and agrees with equals; hashCode is always the 31-polynomial of the present characters; concat, + and += append and leave nothing allocated.',
  ['inputs', 'histories'], 'all texts of up to 3-5 arbitrary bytes, all int indices and small ranges',
  'Tests use a few ordinary words; empty strings, indices at and beyond the end, equal prefixes, bytes above 127 and a hash cached before a modification are what breaks.',
  STR, [('element access', 'String.cpp: charAt, getStringFromIndex, getChars'), ('ordering and hash', 'String.cpp: compareTo, equals, hashCode; String.hpp operators')],
  'Every text up to the bound (lengths are split, characters symbolic). Order and case are those of bytes and ASCII; texts contain no NUL except in the length-based constructor.')
S('S02', 'String: searching finds exactly the first or last occurrence',
  'indexOf, lastIndexOf, contains, startsWith, endsWith and regionMatches agree with the definition of substring for every text, every non-empty pattern and every start index: the index returned is the smallest (largest) one at or after (at or before) the start at which the pattern occurs, -1 when there is none. regionMatches is true exactly for equal (or ASCII case-equal) regions.',
  ['inputs'], 'all texts up to 4 bytes, patterns up to 2-3 bytes, all int start indices',
  'Off-by-one starts, overlapping partial matches, patterns longer than the text and extreme start indices are not among the tests\' examples.',
  STR, [('forward search', 'String.cpp: indexOf, contains, startsWith'), ('backward search', 'String.cpp: lastIndexOf, endsWith'), ('regions', 'String.cpp: regionMatches, subString')],
  'Solver-decided for all characters and all 32-bit start indices within the length bounds. Known finding: lastIndexOf(text, from) with from close to the end.')
S('S03', 'String: substring, trim, replace, split, join and case mapping',
  'subString returns the range or an empty text when the range is invalid; trim removes blanks from both ends only; replace, replaceAll and replaceFirst replace the non-overlapping occurrences from left to right (all or the first); split returns the parts between separators, at most limit of them, so that joining them restores the text; toUpperCase and toLowerCase map ASCII letters only. The original String never changes and every call returns.',
  ['inputs'], 'all texts up to 4-5 bytes, patterns and replacements up to 2 bytes, all int ranges, limits -1..4',
  'Adjacent, overlapping, leading and trailing matches, empty patterns and boundary ranges are combinations no example list covers.',
  STR, [('replace and split', 'String.cpp: replace, replaceFirst, split'), ('ranges', 'String.cpp: subString, trim'), ('case', 'String.cpp: toUpper, toLower')],
  'Solver-decided within the length bounds; case mapping for ASCII texts (towupper is modelled for ASCII). Patterns are literal, as implemented.')
S('S04', 'String: valueOf and format render their arguments exactly',
  'String::valueOf gives the canonical text of every boolean, char, short, int, long and string. String::format copies literal text, turns %% into a percent sign, replaces each conversion in order by the next argument as printf renders it, whatever its length, ignores extra arguments and throws InterruptedException when one is missing.',
  ['inputs'], 'all integer values; literals up to 4 bytes; two arguments; field widths 1..300',
  'Values near the type limits, literals next to conversions and output longer than the internal buffer are not in the tests.',
  STR, [('valueOf', 'String.cpp: valueOf'), ('format', 'String.hpp/String.cpp: format, printObject, print')],
  'regcomp/regexec are replaced by a hand-written matcher for exactly the pattern the code uses; floating-point text is unconstrained (only memory behaviour is checked).')
SB_ = [J + 'StringBuilder/StringBuilder.cpp', J + 'StringBuilder/StringBuilder.hpp']
S('B01', 'StringBuilder behaves as an editable sequence of characters',
  'After every sequence of append, insert, deleteRange, deleteCharAt, replace, reverse, setCharAt, setLength, trimToSize, copy and assignment, a StringBuilder holds exactly the characters those operations define, its capacity is real and at least its length, and copies are independent. An offset, index or range outside the text or argument throws an IndexOutOfBoundsException and changes nothing; indexOf and lastIndexOf return the first and last occurrence. No operation touches memory outside the buffer or leaks.',
  ['inputs', 'histories'], 'all texts up to 2-5 characters in every buffer state, arguments up to 2-3 characters, all int indices; sequences of two operations',
  'Growth, stale characters after shrinking, exact-capacity buffers, overlapping partial matches and boundary indices arise only in particular combinations of states and arguments.',
  SB_, [('editing', 'StringBuilder.cpp: append, insert, deleteRange, replace, reverse, setLength'), ('growth', 'StringBuilder.cpp: ensureCapacity, trimToSize, operator='), ('search', 'StringBuilder.cpp: stringMatches, stringMatchesReverse')],
  'Each operation is decided from four representations of an arbitrary text (exact buffer, slack, slack with stale characters, after deletion) and two-operation histories. toString ends at a NUL (as the tests require); lastIndexOf with a start index means "ends at or before" (as the tests require); code points are ASCII.')
S('B02', 'StringBuffer behaves as an editable sequence of characters',
  'After every sequence of append, insert, deletes, deleteCharAt, replace, reverse, setCharAt, setLength, trimToSize, copy and assignment, a StringBuffer holds exactly the characters those operations define, toString and getValue give them, its capacity is real and at least its length, and copies are independent. An offset, index or range outside the text or argument throws an IndexOutOfBoundsException and changes nothing; indexOf and lastIndexOf return the first and last occurrence. No operation touches memory outside the buffer or leaks.',
  ['inputs', 'histories'], 'all texts up to 2-5 characters in every buffer state, arguments up to 2-3 characters, all int indices; sequences of two operations',
  'Growth, missing terminators, stale characters after shrinking, exact-capacity buffers and boundary indices arise only in particular combinations of states and arguments.',
  [J + 'StringBuffer/StringBuffer.cpp', J + 'StringBuffer/StringBuffer.hpp'], [('editing', 'StringBuffer.cpp: StringBufferUnSafe::append, insert, deletes, replace, setLength'), ('growth', 'StringBuffer.cpp: ensureCapacity, trimToSize, operator='), ('search', 'StringBuffer.cpp: indexOf, lastIndexOf')],
  'Each operation is decided from four representations of an arbitrary text (exact buffer, slack, slack with stale characters, after deletion) and two-operation histories. Searched patterns are non-empty, code points ASCII; offsetByCodePoints is a stub and not claimed.')
S('B03', 'StringBuffer is atomic under concurrent use',
  'When two threads use one StringBuffer, every operation takes effect as a whole: the final contents and everything the operations returned are those of one of the two sequential orders, and no two accesses to the shared state race. Copying, assigning or appending one shared buffer to another uses a whole value of the source and never deadlocks, even crosswise.',
  ['schedules', 'inputs'], 'all interleavings at synchronisation points of every one of 44 operations with a growing append, a deletion and a read; all three-character contents',
  'A missing lock shows only under rare interleavings (reallocation during a read); the tests are single-threaded.',
  [J + 'StringBuffer/StringBuffer.cpp', J + 'StringBuffer/StringBuffer.hpp'], [('locking', 'StringBuffer.cpp: StringBuffer members with std::lock_guard'), ('two buffers', 'StringBuffer.cpp: copy constructor, operator=, append(const StringBuffer &)')],
  'Two threads, one operation each, all schedules (context switches at lock operations; a happens-before race check covers the accesses in between). Appending a buffer to itself through the CharSequence overload (self-deadlock) is not claimed. Counterexamples are confirmed with ThreadSanitizer or a native run.')
CL = 'Capacities, shifts and index boundaries interact only in particular states; the tests use a handful of fixed lists.'
S('C01', 'ArrayList behaves as a list: positions, search, removal and text',
  'After every sequence of add, add(index), set, remove, clear and copying, an ArrayList holds exactly the elements those operations define, in order; get, set and remove return the element at the position; contains, indexOf and lastIndexOf find the first or last equal element or none; equality and toString follow the elements. An index outside the list throws IndexOutOfBoundsException and changes nothing. forEach visits the elements in order until the action returns false; copies are independent and nothing leaks.',
  ['inputs', 'histories'], 'lists up to 3 Integer/String elements with any values, every int index, histories of 3 operations', CL,
  [U + 'ArrayList/ArrayList.hpp'], [('positions', 'ArrayList.hpp: add, get, set, remove'), ('search', 'ArrayList.hpp: contains, indexOf, lastIndexOf'), ('visiting', 'ArrayList.hpp: forEach, begin, end, toString')],
  'Solver-decided with symbolic elements and indices. The stubs addAll, retainAll, removeAll, subList, iterator and spliterator are not claimed; ArrayList(n) is n default elements as the tests require.')
S('C02', 'Vector and Stack: elements, bounds, growth and LIFO order',
  'After every sequence of their operations a Vector (and a Stack) holds exactly the elements those operations define, in order: add, insertElementAt, addAll, set, remove, removeRange, removeElementAt, setSize, trimToSize, clear and copying; reads and searches (from any start index) agree with that sequence, the size never exceeds the capacity, and push, pop and peek work on the last element. An invalid index, size, capacity or an empty vector is reported by an exception and changes nothing; copies are independent and nothing leaks or reads outside the storage.',
  ['inputs', 'histories'], 'vectors up to 3 elements with any values and several capacities and increments, every int index, histories of 3-4 operations', CL,
  [U + 'Vector/Vector.hpp', U + 'Stack/Stack.hpp'], [('storage', 'Vector.hpp: ensureCapacity, setSize, trimToSize, destructor'), ('editing', 'Vector.hpp: add, addAll, remove, removeRange, insertElementAt'), ('stack', 'Stack.hpp: push, pop, peek, search')],
  'Solver-decided with symbolic elements and indices. removeRange with equal ends or an end at the size, and Stack::search distances, are pinned oddly by the tests and not claimed.')
S('C03', 'LinkedList behaves as a double-ended list and owns its nodes',
  'After every sequence of add, addFirst, addLast, offer, push, poll, pop, remove, removeLast, set, clear and copying, a LinkedList holds exactly the elements those operations define, in order, and iteration and get agree. Taking an element from an empty list throws NoSuchElementException while peek gives the default element; get and set throw IndexOutOfBoundsException outside the list; remove of an absent index or node returns false. Every node is freed exactly once, also for copies and for elements removed while forEach runs.',
  ['inputs', 'histories'], 'lists up to 3 elements with any values, every int index, histories of 4 operations', 'Ownership errors and empty-list accesses show only in particular sequences; the tests never copy or drain a list completely.',
  [U + 'LinkedList/LinkedList.hpp'], [('ends', 'LinkedList.hpp: getFirst, getLast, pollFirst, pollLast'), ('ownership', 'LinkedList.hpp: copy constructor, operator=, clear, remove'), ('positions', 'LinkedList.hpp: get, set, remove')],
  'Solver-decided with symbolic elements and indices; the heap is compared before and after.')
S('C04', 'HashMap and Set behave as a map and a set for every hash',
  'After every sequence of put, putIfAbsent, putAll, remove, replace, clear and copying, a HashMap holds exactly the entries those operations define (the latest value per key), whatever the hash values and their collisions; get, getOrDefault, containsKey, containsValue, size, equals, iteration, forEach, entrySet and toString agree with them, and the conditional forms act exactly when their condition holds. An absent key gives the default value (zero for primitives). Set::add tells whether the element was new and iteration visits each element once in order.',
  ['inputs', 'histories'], 'maps of up to 2-3 symbolic entries with String and Integer keys and any values; a map of 30 entries that grows; histories of 3 operations', 'Colliding keys, overwritten values and maps that differ only in keys with default values are particular combinations.',
  [U + 'HashMap/HashMap.hpp', U + 'Map/Map.hpp', U + 'Set/Set.hpp'], [('map', 'HashMap.hpp: put, get, remove, replace, putIfAbsent, equals'), ('visiting', 'HashMap.hpp: forEach, entrySet, toString'), ('set', 'Set.hpp: add, begin, end')],
  'The library hash function is replaced by a weak one (collisions are frequent), so nothing depends on its values. Stubs (Set::contains, remove, Entry::equals and comparators) are not claimed.')
S('C05', 'PriorityQueue always yields its greatest element',
  'After every sequence of add, offer, poll, remove and copying, peek and poll of a PriorityQueue return the greatest element held and poll takes out exactly one instance of it, so draining gives the elements in descending order; contains, remove, size and toArray agree with the elements held. An empty queue yields the default element; a capacity below one is refused with an exception.',
  ['inputs', 'histories'], 'queues up to 4 elements with any values (duplicates included), every removed element', 'The heap order breaks only for particular arrangements of values; the tests use ascending sequences.',
  [U + 'PriorityQueue/PriorityQueue.hpp'], [('heap', 'PriorityQueue.hpp: offer, poll, remove, constructors'), ('queries', 'PriorityQueue.hpp: peek, contains, toArray')],
  'Solver-decided with symbolic elements (int and Integer); the std heap functions are executed symbolically from their real code.')
S('C07', 'BitSet: bit, range and logical operations, scanning and conversions',
  'Setting, clearing or flipping a bit or range changes exactly the named bits; bitAnd, bitOr, bitXor and andNot (also with itself) give the bitwise result and leave the argument alone; get, get(range), length, cardinality, intersects, equality, hashCode, isEmpty and the next/previous scans agree with the bits set, independent of spare words. Conversion to and from bytes and longs and toString represent exactly the set bits; copies are independent. Negative or reversed indices throw IndexOutOfBoundsException (NegativeArraySizeException for a size) and change nothing.',
  ['inputs', 'histories'], 'sets of up to 2 arbitrary words, all indices below 140-200, histories of 2 operations', 'Word boundaries, trailing zero words and full words meet only for particular indices and contents.',
  [U + 'BitSet/BitSet.cpp', U + 'BitSet/BitSet.hpp'], [('ranges', 'BitSet.cpp: set, clear, flip, get(range)'), ('logic', 'BitSet.cpp: bitAnd, bitOr, bitXor, andNot, intersects'), ('scans', 'BitSet.cpp: nextSetBit, previousClearBit, length, recalculateWordsInUse')],
  'Solver-decided with symbolic words and indices; quick tier: range starts at offsets 0, 1, 33, 63 of each word.')
S('C06', 'Arrays: sorting, searching, copying, filling, equality and hash codes',
  'Arrays::sort leaves the (inclusive) range ascending and a permutation of itself and touches nothing else; binarySearch in an ascending (inclusive) range returns the first position of the key there and -1 when it is absent or the range is invalid. copyOf pads or cuts to the new length, copyOfRange copies the half-open range, fill writes exactly the range named, equals and hashCode follow the elements. An Array reads and writes exactly the element named, throws out_of_range outside it, grows by push and copies independently.',
  ['inputs'], 'arrays of 0-5 elements of any values of the numeric types, every range and key, every int index', 'Sorting and searching go wrong for particular orders, duplicates and ends of the range; the tests use a handful of ascending arrays.',
  [U + 'Arrays/Arrays.hpp', 'library/Kernel/Java.hpp'], [('sort', 'Arrays.hpp: sortOrigin'), ('search', 'Arrays.hpp: BinarySearch'), ('copies', 'Arrays.hpp: copyOfOrigin, copyOfRangeOrigin, fileOrigin, equalsOrigin, hashCode')],
  'Solver-decided with symbolic elements. Hash codes of float and double arrays are not claimed.')
S('C08', 'ConcurrentHashMap: each operation is one step, for one thread or several',
  'A ConcurrentHashMap holds for every key the value last put and not removed, whatever the hash values of the keys, also while the table grows: get, getOrDefault, containsKey, find, containsValue, size, isEmpty and forEach (every mapping once, until told to stop) say so. remove, remove(key, value), putIfAbsent, replace(key, value) and replace(key, old, new) change exactly what they should and return the previous value (the default value without one). Copies and clones are independent; equals compares the mappings. Operations of several threads take effect one after the other: the results and the final contents are those of some order, nothing is lost, also when one of them is clear, forEach or makes the table grow. No memory is leaked and no data race occurs.',
  ['histories', 'schedules', 'inputs'], 'histories of 3 (thorough 4) operations over colliding and distinct hash values; tables of up to 20 keys under 5 hash families with every removal; all pairs of 8 operations and whole-table operations by two threads, two operations each, and growth under a second thread, with every interleaving in the preemption bound', 'Check-then-act gaps, collisions and growth under a second thread need a narrow schedule or chosen hash values; the tests use one thread and a few keys.',
  [U + 'Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp', U + 'Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh', U + 'Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hh'], [('operations', 'ConcurrentHashMap.hpp: put, remove, putIfAbsent, replace, get, equals'), ('locking', 'cuckoohash_map.hh: lock_two, lock_all, snapshot_and_lock_two, clear'), ('growing', 'cuckoohash_map.hh: run_cuckoo, slot_search, cuckoo_fast_double, move_bucket')],
  'Solver-decided with a first table of 2 buckets (hook NATIVE_VERIF_SMALL_TABLE) so that growth is within reach; context switches at lock operations, at most 2 preemptions (1 while growing). size, isEmpty and iterators during concurrent changes, two maps compared with each other by two threads, and lazy rehashing of tables over 65536 buckets are outside.')
S('C09', 'ConcurrentLinkedQueue: each element comes out once, in its thread'"'"'s order',
  'poll takes the eldest element of a ConcurrentLinkedQueue used by one thread and returns a default value exactly when it is empty; add and offer take every element in; size and isEmpty count; clear removes all. With several threads adding and polling, every element comes out at most once and none is lost, the elements of one thread come out in the order it added them, and a queue that nobody else works on and is not empty yields an element. Elements that are never polled are destroyed with the queue; no memory is leaked and no data race occurs, also when elements fill a block, start the next one or a block is used again.',
  ['histories', 'schedules', 'inputs'], 'histories of 5 (thorough 6) operations on any values; up to 70 (thorough 130) elements from 6 offsets in a block; two producers, two consumers, a producer at the end of a block and clear against another thread, every interleaving in the preemption bound', 'Races on the last element or at the end of a block need a narrow schedule; the tests use one thread and four elements.',
  [U + 'Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp', U + 'Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp'], [('queue', 'ConcurrentLinkedQueue.hpp: add, offer, poll, clear, size'), ('blocks', 'concurrentqueue.hpp: ImplicitProducer enqueue, dequeue, ~ImplicitProducer'), ('recycling', 'concurrentqueue.hpp: set_empty, requisition_block, add_block_to_free_list, get_or_add_implicit_producer')],
  'Solver-decided; context switches at atomic operations, at most 2 preemptions, sequentially consistent values with order-aware race detection. Order between elements of different threads, contains, equals, remove(Object) (stubs) and size while others work are outside.')
S('D01', 'Base64 encodes as RFC 4648/2045 and decodes exactly the well-formed texts',
  'The basic, URL and MIME encoders produce exactly the RFC 4648 (RFC 2045) text of the source, with or without padding and with line separators only between lines of the chosen length (rounded down to a multiple of 4; below 4 means no lines), and decoding it gives the source back. A decoder returns the bytes of a well-formed text and throws for any malformed one (a character outside the alphabet unless MIME, misplaced padding, a single trailing digit, data after the padding). Encoding or decoding into an array writes nothing when it is too small, and a line separator made of base64 characters is refused.',
  ['inputs'], 'sources of 0-6 arbitrary bytes, texts of 0-4 arbitrary bytes and of 5-9 with arbitrary ends, MIME lines around 57 and 114 bytes, custom lines with three arbitrary bytes', 'Only particular lengths, padding forms and misplaced characters expose the errors; the tests encode fixed sentences.',
  [U + 'Base64/Base64.cpp'], [('encoding', 'Base64.cpp: Encoder::encoding, outLength, getMimeEncoder'), ('decoding', 'Base64.cpp: Decoder::decoding, outLength')],
  'Solver-decided against reference functions written from the RFCs; errors are reported with InterruptedException in this library.')
S('D02', 'URLEncoder and URLDecoder are inverse and follow the form encoding',
  'URLEncoder::encode leaves letters, digits and the characters - _ . ~ alone, turns a blank into + and every other byte into % and two lower-case hexadecimal digits; URLDecoder::decode of that text gives the original bytes back, for every text without NUL, and decodes + and %XX with digits of either case. A charset name other than UTF-8 (any case) is refused with UnsupportedEncodingException. No text, however malformed, makes the decoder read or write outside its buffers.',
  ['inputs'], 'texts of 0-3 arbitrary bytes (thorough 5), charset names of up to 5 arbitrary bytes', 'The tests encode one address; bytes above 127, controls and truncated escapes are particular inputs.',
  ['library/Java/Net/URLEncoder/URLEncoder.cpp', 'library/Java/Net/URLDecoder/URLDecoder.cpp'], [('encoding', 'URLEncoder.cpp: encode'), ('decoding', 'URLDecoder.cpp: decode')],
  'Solver-decided. What a malformed escape decodes to is not claimed, only memory safety.')
S('D03', 'UUID: text form, fields, order, and the libuuid conversions',
  'A UUID is written as 8-4-4-4-12 lower-case hexadecimal digits and reading that text (or the upper-case one) gives the same bits; a text without exactly five parts gives the nil UUID. version, variant, clockSequence (for version 1), node and hashCode are the fields of RFC 4122; equals holds exactly for equal bits and compareTo orders by the signed halves. In uuid library, unparse writes exactly 36 characters and the terminator, parse accepts exactly the well-formed texts and fills the 16 bytes, compare, is_null, copy, clear, type and variant agree with the bytes.',
  ['inputs'], 'all 128-bit values; all texts of the right shape; one arbitrary byte at each position and other lengths for ill-formed texts', 'Sign extension, digit case and single wrong characters are particular values; the tests use two UUIDs.',
  [U + 'UUID/UUID.cpp', U + 'UUID/libuuid/parse.c', U + 'UUID/libuuid/unparse.c', U + 'UUID/libuuid/compare.c'], [('fields', 'UUID.cpp: variant, version, clockSequence, node, hashCode, compareTo'), ('text', 'UUID.cpp: digits, toString, fromString; parse.c, unparse.c, pack.c, unpack.c')],
  'Solver-decided over all bits.')
S('D04', 'Random and time-based UUIDs carry their version and never repeat',
  'A random UUID has version 4 and the RFC variant whatever the random device delivers (also when it is missing, fails, is short or ends), takes its other 122 bits from the device, closes it again and writes exactly the number of UUIDs asked for. A time-based UUID has version 1, the RFC variant, the multicast bit in a made-up node and the clock time in its time field; two time-based UUIDs of one process are never the same, also for bursts within one microsecond, clocks that step back, and blocks of UUIDs reserved at once.',
  ['inputs', 'fault schedules', 'clock histories'], 'every content and 2 faults of the random device; three generations at arbitrary microseconds of three adjacent seconds; bursts of up to 12 in one microsecond; blocks of up to 28', 'Short reads, clock steps and bursts need the environment to misbehave at a particular point.',
  [U + 'UUID/libuuid/gen_uuid.c', U + 'UUID/UUID.cpp'], [('random', 'gen_uuid.c: random_get_bytes, __uuid_generate_random'), ('time', 'gen_uuid.c: get_clock, __uuid_generate_time'), ('class', 'UUID.cpp: randomUUID, timeUUID')],
  'The clock, the random device and its faults are a model in the harness, used by the symbolic and the native run alike. The clock state file, the uuidd daemon and hardware node addresses are outside (opening and ioctl fail).')
S('D05', 'Random is the documented generator, exact and safe under threads',
  'From any seed every method of Random returns the value the documented 48-bit generator defines: nextInt, nextLong, nextBoolean, nextFloat and nextDouble (in [0, 1)), nextInt(bound) (in [0, bound), rejection included), nextBytes (fills exactly the array), nextString (exactly the length asked for), nextGaussian (two values per pair; setSeed forgets the second). A bound that is not positive is refused with nothing drawn. Threads sharing a generator draw consecutive values, none lost or repeated; generators made without a seed at the same instant, also by two threads, differ.',
  ['inputs', 'interleavings', 'histories'], 'all seeds; histories of 3 calls; 14 bounds with up to one rejection; two threads with up to 3 draws, every interleaving', 'Rejections, particular seeds and interleavings decide; the tests only look at ranges.',
  [U + 'Random/Random.cpp', U + 'Random/Random.hpp'], [('generator', 'Random.cpp: next, setSeed, initialScramble'), ('values', 'Random.cpp: nextInt(bound), nextLong, nextDouble, nextBytes, nextString, nextGaussian'), ('uniquifier', 'Random.cpp: seedUniquifier')],
  'Solver-decided with symbolic seeds; nextGaussian and long strings from a few seeds only. The order in which one expression draws twice is that of the compiler.')
S('D06', 'MD5 and SHA-1 digests are those of RFC 1321 and FIPS 180',
  'MessageDigest returns exactly the MD5 or SHA-1 value of the bytes fed in, for every content, alignment and division into updates, including the message length up to 64 bits; a digest or reset leaves the object ready for a new message with nothing left of the old. digest writes exactly the digest length, a missing or too small output buffer and a missing or empty input are refused with an exception and leave the message as it was; a name other than MD5 and SHA1 throws NoSuchAlgorithmException. No memory is leaked.',
  ['inputs', 'histories'], 'all contents of messages of 0-200 bytes around the block and padding limits, up to three updates, two messages in a row, length counters at their carries', 'Padding and block boundaries, reuse and the carry of the length counter are particular histories; the tests digest three sentences.',
  ['library/Java/Security/MessageDigest/md5.cpp', 'library/Java/Security/MessageDigest/sha1.cpp', 'library/Java/Security/MessageDigest/MessageDigest.cpp'], [('md5', 'md5.cpp: md5_process, md5_append, md5_finish'), ('sha1', 'sha1.cpp: SHA1_Update, SHA1_Final, shaHashBlock'), ('class', 'MessageDigest.cpp, MD5MessageDigest.cpp, SHA1MessageDigest.cpp')],
  'Solver-decided against reference functions; equal terms are recognised by the simplifier, so rewritten round functions may leave it undecided (which is no alarm). Copying a MessageDigest (it owns its engine) is not claimed.')
S('D07', 'Date and SimpleDateFormat: fields, order, texts and parsing',
  'In the zone UTC a Date built from fields or from milliseconds holds exactly that moment (whole seconds) and its fields, fields out of range carry, a setter changes one field of this object only, and copies and other Dates stay as they are; after, before, equals and compareTo follow the moments. toString, toLocaleString, toGMTString and SimpleDateFormat write the fields in their form whatever the length, and Date::parse reads those texts back. parse reads fields, zone names, offsets, AM/PM and two-digit years (80 years back, 20 ahead) as documented and refuses every other text with InterruptedException; no text makes it fail otherwise. No memory is leaked.',
  ['inputs', 'histories'], 'six moments with any one field free, all milliseconds, 11 carries per field, all two-digit field values in three text forms, all zone offsets, arbitrary bytes (0-2) after five beginnings', 'Two live Dates, carries, midnight and noon, odd zones and malformed texts are particular cases.',
  [U + 'Date/Date.cpp', 'library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp'], [('fields', 'Date.cpp: initializeDate, updateDateStatus, setters'), ('parsing', 'Date.cpp: parse, getSequenceNumber, getSequenceChar, removeBracket'), ('format', 'SimpleDateFormat.cpp: format')],
  'Solver-decided; mktime, gmtime and strftime are models for UTC (symbolic moments have some fields, the same for the same moment). Other zones are outside.')
S('D08', 'MediaType: well-formedness, text form and compatibility',
  'A MediaType made from parts or read by valueOf has the given type and subtype; an empty part, a wildcard type with a subtype other than *, and for valueOf a missing slash, is refused with MediaTypeException, nothing else is. valueOf drops the parameters after a semicolon and blanks around, and reads * as */*. toString is type/subtype. isWildcardType, isWildcardSubtype (* and *+suffix) follow the parts. isCompatible gives the same answer in both directions: equal, or one side a wildcard type, or equal types with a wildcard subtype on either side (*+suffix only for that suffix). No memory is leaked.',
  ['inputs'], 'all parts of up to 3 bytes; all texts of up to 5 bytes and well-formed ones with blanks and parameters; all pairs of wildcard, plain and suffixed types with arbitrary characters', 'Direction, suffix wildcards and odd separators decide; the tests sample eight pairs.',
  ['library/Javax/Ws/Rs/Core/MediaType.cpp'], [('compatible', 'MediaType.cpp: isCompatible'), ('parse', 'MediaType.cpp: valueOf, constructors')],
  'Solver-decided. Subtypes with more than one plus sign are only checked for symmetry; which parameters valueOf keeps is not claimed.')
S('T01', 'Semaphore counts its permits and wakes every waiter that can go on',
  'A Semaphore holds the permits it was made with plus those released minus those taken, under any interleaving. acquire(n) returns only after taking n permits at once and does return when enough permits are available, whatever the other waiters want; release(n) lets every waiter through for whom the permits suffice. tryAcquire(n) takes n permits or none and does not block; with a time limit it fails only after the whole limit has passed. What one thread did before release is seen by the thread whose acquire follows. toString names the permits.',
  ['schedules', 'inputs'], 'all interleavings of two or three threads with 1 or 2 permits each within the preemption bound; any permit counts for single-threaded histories of 2 (thorough 3) operations', 'A release that falls between a check and the wait after it is lost only in one narrow schedule; the tests put sleeps between the steps.',
  [U + 'Concurrent/Semaphore/Semaphore.cpp'], [('waiting', 'Semaphore.cpp: acquire, tryAcquire(int, long)'), ('releasing', 'Semaphore.cpp: release'), ('counting', 'Semaphore.cpp: availablePermits, toString')],
  'Two or three threads; context switches at synchronisation points, bounded preemptions, a happens-before race check in between; time-outs may fire at any moment after the limit. Spurious wake-ups, negative permit counts and tryAcquire with a negative time limit are outside.')
S('T02', 'Thread runs its function once; isAlive and join tell when it ended',
  'A started Thread runs its function (or its target) exactly once, in a thread of its own whose number getId names and in which currentThread is that object. isAlive is true from the return of start until the function has ended, and false before start and after join. join returns when the function has ended, to every thread that joins and as often as it is called, at once for a thread that was not started; with a time limit it returns at the end or after the limit. What the thread wrote is seen after join. Destruction waits for the thread; a second detach is refused; a thread without a target does nothing. Names are kept per thread; sleep lasts as long as asked.',
  ['schedules', 'inputs'], 'all interleavings of one or two threads with their creator and one more joiner within the preemption bound', 'isAlive after join, a second join and a join before start depend on the schedule or block for ever; the tests join once after sleeping.',
  [J + 'Thread/Thread.cpp', J + 'Thread/Thread.hpp'], [('life', 'Thread.cpp: start, run, isAlive'), ('joining', 'Thread.cpp: join, ~Thread'), ('identity', 'Thread.cpp: getId, currentThread, getName')],
  'Starting an ended thread again, exceptions leaving the function and destroying a detached thread that still runs are outside.')
S('X01', 'Exceptions reach exactly their handlers, with their message and cause',
  'An exception object of any class of the library is caught by the handlers of its own class and of the classes the documentation derives it from, and by no other; the handler sees exactly the message it was made with (empty without one) and the cause it was made with (none without one), and a copy carries the same. Exceptions made from values say the value. Throwing and catching leaks no memory.',
  ['inputs'], 'all 26 classes x 26 handlers x their constructors, messages of up to 2 arbitrary bytes, with and without a cause', 'Handlers of unrelated classes and causes left unset are not reached by the tests, which call getMessage on one object per class.',
  [J + 'Throwable/Throwable.cpp', J + 'Exception/Exception.cpp', J + 'RuntimeException/RuntimeException.cpp', J + 'Error/Error.cpp'], [('object', 'Throwable.cpp: constructors, getMessage, getCause'), ('hierarchy', '*Exception.hpp, *Error.hpp: base classes')],
  'Solver-decided over the real constructors and the compiled handler tables.')
