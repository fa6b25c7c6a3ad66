I='library/Java/Lang/Integer/Integer.cpp'; L='library/Java/Lang/Long/Long.cpp'
BUGS=[
dict(id='N01-cmpu', prop='N01', file=I, old="return Integer::compare(intA + MIN_VALUE, intB + MIN_VALUE);", new="return Integer::compare(intA & MAX_VALUE, intB & MAX_VALUE);", demo='int main(){ return Integer::compareUnsigned(-2, 5) == 1 && Integer::compareUnsigned(3, INT_MIN) == -1 ? 0 : 1; }', needs='one operand with the sign bit set and lower bits below the other', breaks='compareUnsigned ignores the top bit'),
dict(id='N02-neglimit', prop='N02', file=I, old="	if (result > Integer::MAX_VALUE || result < Integer::MIN_VALUE) {\n		throw NumberFormatException(\"Integer out of range\");\n	}\n	\n	return (int) result;\n}\n\nint Integer::parseInt(String inputString) {", new="	if (result > Integer::MAX_VALUE || result < Integer::MIN_VALUE - 1L) {\n		throw NumberFormatException(\"Integer out of range\");\n	}\n	\n	return (int) result;\n}\n\nint Integer::parseInt(String inputString) {", demo='int main(){ try { Integer::parseInt("-2147483649"); return 1; } catch (...) { return 0; } }', needs='exactly MIN_VALUE-1', breaks='the text of MIN_VALUE-1 parses as MAX_VALUE'),
dict(id='N03-hash-eq', prop='N03', file=L, old="	if (x == y) {\n		return 0;\n	}\n	return 1;\n}\n\n/**\n * Compares two Long objects numerically.", new="	if ((int) x == (int) y) {\n		return 0;\n	}\n	return 1;\n}\n\n/**\n * Compares two Long objects numerically.", demo='int main(){ return Long::compare(4294967297L, 1L) == 1 ? 0 : 1; }', needs='two values equal in the low 32 bits, the first larger', breaks='compare reports 0 for different values'),
dict(id='N04-limit', prop='N04', file=L, old="			if (result < limit + digit) {", new="			if (result <= limit + digit) {", demo='int main(){ return Long::parseLong("-9223372036854775808") == LONG_MIN && Long::parseLong("9223372036854775807") == LONG_MAX ? 0 : 1; }', needs='the largest or smallest value', breaks='limits of the type parse as -1'),
dict(id='N04-multmin', prop='N04', file=L, old="			if (result < multmin) {\n				//FIXME: exception\n				return -1;\n			}\n			result *= radix;", new="			if (result < multmin - radix) {\n				//FIXME: exception\n				return -1;\n			}\n			result *= radix;", demo='int main(){ const char *t[] = {"9223372036854775808","9223372036854775810","9223372036854775899","9223372036854775907","-9223372036854775829","-9223372036854775900"}; for (auto s : t) if (Long::parseLong(String(s)) != -1) return 1; return 0; }', needs='19-digit texts just above the limit', breaks='out-of-range text wraps instead of -1'),
]
