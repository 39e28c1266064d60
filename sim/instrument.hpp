// Included first in the instrumented build: no part of std::string or of the streams stays in the
// shared library, so that their memory accesses are seen.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
