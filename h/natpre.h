// Included first in the native builds: std::string becomes part of the instrumented code, so that a bad read or a race inside
// its members is seen by the sanitizers (the copies in libstdc++.so are not instrumented).
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#endif
