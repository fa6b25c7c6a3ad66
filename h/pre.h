// clang needs the unqualified name that gcc's headers leak
#ifdef __cplusplus
#include <cstddef>
using std::nullptr_t;
#endif
