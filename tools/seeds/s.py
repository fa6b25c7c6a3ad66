J='library/Java/Lang/'
SH=J+'Short/Short.cpp'; BY=J+'Bytes/Bytes.cpp'; FL=J+'Float/Float.cpp'; DB=J+'Double/Double.cpp'; MA=J+'Math/Math.cpp'; ST=J+'String/String.cpp'
BUGS=[
dict(id='N05-short-ge', prop='N05', file=SH, old="	return this->original >= target.original;", new="	return (short) (this->original - target.original) >= 0;", demo='int main(){ Short a((short)30000), b((short)-30000); return (a >= b) && !(b >= a) ? 0 : 1; }', needs='two values further apart than 32767', breaks='>= wraps around'),
dict(id='N05-bytes-stale', prop='N05', file=BY, old="    free((this->originalString));\n    this->original %= target.original;\n    asprintf(&this->originalString, \"%d\", this->original);", new="    if (this->original >= target.original) {\n        this->original %= target.original;\n        if (this->original != 0) {\n            free((this->originalString));\n            asprintf(&this->originalString, \"%d\", this->original);\n        }\n    }", demo='int main(){ Bytes a((byte)12), b((byte)4); a %= b; return a.toString() == "0" ? 0 : 1; }', needs='%= with result 0', breaks='the text is that of the old value'),
dict(id='N05-bytes-range', prop='N05', file=BY, old="    int value = Integer::parseInt(stringToParse, radix);\n    if (value < Bytes::MIN_VALUE || value > Bytes::MAX_VALUE) {", new="    int value = Integer::parseInt(stringToParse, radix);\n    if (value < Bytes::MIN_VALUE || value > Bytes::MAX_VALUE + 1) {", demo='int main(){ try { Bytes::parseBytes("256"); return 1; } catch (...) { return 0; } }', needs='exactly 256', breaks='256 parses as 0'),
dict(id='N06-flt-long', prop='N06', file=FL, old="    return (long) this->original;", new="    return (long) this->intValue();", demo='int main(){ return Float(8589934592.0f).longValue() == 8589934592L ? 0 : 1; }', needs='a magnitude above 2^31', breaks='longValue of large values'),
dict(id='N06-flt-finite', prop='N06', file=FL, old="(Math::abs(valueFloat) <= Float::MAX_VALUE)", new="(valueFloat - valueFloat == 0 && valueFloat < Float::MAX_VALUE)", demo='int main(){ return Float::isFinite(3.4028235e38f) ? 0 : 1; }', needs='exactly the largest float', breaks='the largest value is not finite'),
dict(id='N06-dbl-hash', prop='N06', file=DB, old="    return (bits ^ rightShiftBits);", new="    return (bits ^ (rightShiftBits & 0x7fffffffL));", demo='int main(){ double d = -1.5; long b = Double::doubleToLongBits(d); return Double::hashCode(d) == (b ^ (b >> 32)) ? 0 : 1; }', needs='a negative value', breaks='hashCode of negative values'),
dict(id='N07-mulint', prop='N07', file=MA, old="	if (result != (int) result) {", new="	if (result > Integer::MAX_VALUE || result < -(long) Integer::MAX_VALUE) {", demo='int main(){ try { return Math::multiplyExact(INT_MIN, 1) == INT_MIN ? 0 : 1; } catch (...) { return 1; } }', needs='a product of exactly MIN_VALUE', breaks='MIN_VALUE counts as overflow'),
dict(id='N07-floordiv', prop='N07', file=MA, old="	long result = dividend / divisor;\n	// if the signs are different and modulo not zero, round down\n	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {", new="	long result = dividend / divisor;\n	// if the signs are different and modulo not zero, round down\n	if ((int) (dividend ^ divisor) < 0 && (result * divisor != dividend)) {", demo='int main(){ return Math::floorDiv(-5000000001L, 2L) == -2500000001L && Math::floorDiv(3000000001L, 2L) == 1500000000L ? 0 : 1; }', needs='operands beyond 32 bits', breaks='sign test uses the low half'),
dict(id='N07-signumf', prop='N07', file=MA, old="	if (value == 0.0f || Float::isNaN(value)) {", new="	if (Math::abs(value) < 1.17549435e-38f || Float::isNaN(value)) {", demo='int main(){ return Math::signum(1e-40f) == 1.0f ? 0 : 1; }', needs='a denormal argument', breaks='signum of denormals'),
dict(id='N07-getexp', prop='N07', file=MA, old="	if ((mantissas * 10) >= 1.0 && (exponent - 1) < Float::MIN_EXPONENT) {\n		return Float::MIN_EXPONENT - 1;\n	}\n	\n	return exponent - 1;", new="	return Math::max(exponent - 1, Float::MIN_EXPONENT);", demo='int main(){ return Math::getExponent(1e-41f) == -127 ? 0 : 1; }', needs='a denormal float', breaks='the exponent of denormals'),
dict(id='S01-getchars', prop='S01', file=ST, old="	if (destinationBegin + (sourceEnd - sourceBegin) > destination.length) {", new="	if (destinationBegin + (sourceEnd - sourceBegin) > destination.length && sourceBegin != sourceEnd) {", demo='int main(){ String s("abc"); Array<char> d(2); try { s.getChars(1, 1, d, 5); return 1; } catch (...) { return 0; } }', needs='an empty range with a position beyond the destination', breaks='no exception'),
dict(id='S01-hash', prop='S01', file=ST, old="			hashCode = 31 * hashCode + this->original[i];", new="			hashCode = 31 * hashCode + (this->original[i] & 0xff);", demo='int main(){ char t[] = {(char)0xc3, (char)0xa9, 0}; int h = 0; for (int i = 0; t[i]; i++) h = 31*h + t[i]; return String(t).hashCode() == h ? 0 : 1; }', needs='a byte above 127', breaks='hash of non-ASCII texts'),
dict(id='S01-range', prop='S01', file=ST, old="	if (offset > array.length - length) {\n		throw StringIndexOutOfBoundsException(offset + length);\n	}\n	this->original.clear();\n	this->original.shrink_to_fit();\n	int i;\n	for (i = offset; i < offset + length; ++i) {", new="	if (offset + length > array.length) {\n		throw StringIndexOutOfBoundsException(offset + length);\n	}\n	this->original.clear();\n	this->original.shrink_to_fit();\n	int i;\n	for (i = offset; i < offset + length; ++i) {", demo='int main(){ Array<char> a = {(char)97, (char)98}; try { String s(a, 2147483647, 2); return 1; } catch (...) { return 0; } }', needs='offset + length beyond the int range', breaks='the range check wraps, an empty text results'),
dict(id='S02-last', prop='S02', file=ST, old="	if (fromIndex > this->getSize() - 1) {\n		return this->lastIndexOf(character);", new="	if (fromIndex >= this->getSize() - 1) {\n		return this->lastIndexOf(character, this->getSize() - 2);", demo='int main(){ return String("abca").lastIndexOf(97, 3) == 3 && String("a").lastIndexOf(97, 0) == 0 ? 0 : 1; }', needs='the match at the last index and a start at it', breaks='the last character is not looked at'),
dict(id='S02-starts', prop='S02', file=ST, old="	if (originalLength < prefixLength || thisOffset > (originalLength - prefixLength)) {", new="	if (originalLength < prefixLength || thisOffset + prefixLength > originalLength) {", demo='int main(){ return String("abc").startsWith("bc", 2147483647) ? 1 : 0; }', needs='an offset near INT_MAX', breaks='reads outside or crashes'),
dict(id='S02-contains', prop='S02', file=ST, old="boolean String::contains(const String &input) const {\n	std::size_t found = this->original.find(input.toSTLString());", new="boolean String::contains(const String &input) const {\n	std::size_t found = this->original.find(input.toSTLString(), this->original.size() > 2 && this->original[0] == this->original[1]);", demo='int main(){ return String("aab").contains(String("aa")) ? 0 : 1; }', needs='a text starting with a doubled character and the match at 0', breaks='a match at 0 is missed'),
dict(id='S03-split', prop='S03', file=ST, old="	if (limit > stringArrayNoLimit.length || limit <= 0) {", new="	if (limit >= stringArrayNoLimit.length - 1 || limit <= 0) {", demo='int main(){ Array<String> a = String("a,b,c,d").split(",", 3); return a.length == 3 && a[2] == "c,d" ? 0 : 1; }', needs='a limit one below the number of parts', breaks='one part too many'),
dict(id='S03-replace', prop='S03', file=ST, old="	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {\n		for (; pre < pos; pre++) {\n			result += this->original[pre];\n		}\n		\n		result += replaceString;\n		pre += targetString.size();\n		pos += targetString.length();", new="	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {\n		for (; pre < pos; pre++) {\n			result += this->original[pre];\n		}\n		\n		result += replaceString;\n		pre += targetString.size();\n		pos += replaceString.length() < targetString.length() ? targetString.length() : replaceString.length();", demo='int main(){ return String("aa").replaceAll("a", "xyz") == "xyzxyz" ? 0 : 1; }', needs='a replacement longer than the pattern with adjacent matches', breaks='matches inside the skipped part are missed'),
dict(id='S03-trim', prop='S03', file=ST, old="	size_t last = this->original.find_last_not_of(' ');\n	return this->original.substr(first, (last - first + 1));", new="	size_t last = this->original.find_last_not_of(' ');\n	return this->original.substr(first, (last == first ? last : last - first + 1));", demo='int main(){ return String(" a ").trim() == "a" && String("a").trim() == "a" && String("   b ").trim() == "b" ? 0 : 1; }', needs='a single non-blank character not at index 1', breaks='wrong number of characters'),
dict(id='S04-percent', prop='S04', file=ST, old="		if (matchedStringLength > 0) {\n			String matchedString(inputStringPtr + unmatchedStringLength, matchedStringLength);\n			if (matchedString.charAt(matchedString.getSize() - 1) != '%') {", new="		if (matchedStringLength > 0) {\n			String matchedString(inputStringPtr + unmatchedStringLength, matchedStringLength);\n			if (matchedString.charAt(1) != '%' && inputStringOffset == 0) {", demo='int main(){ try { String::format("%%%d"); return 1; } catch (...) { return 0; } }', needs='a missing argument after %%', breaks='a conversion without argument becomes %'),
dict(id='S04-tail', prop='S04', file=ST, old="		inputStringPtr += matchedResult[0].rm_eo;\n		inputStringOffset += matchedResult[0].rm_eo;\n		inputStringLength -= matchedResult[0].rm_eo;\n	}", new="		inputStringPtr += matchedResult[0].rm_eo;\n		inputStringOffset += matchedResult[0].rm_eo;\n		inputStringLength -= matchedResult[0].rm_eo - unmatchedStringLength;\n	}", demo='int main(){ return String::format("ab%%cd") == "ab%cd" && String::format("ab%%cd").length() == 5 ? 0 : 1; }', needs='literal text before %% and after it', breaks='length of the tail is wrong'),
]
