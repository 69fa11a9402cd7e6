// Has the members of std::string compiled (and so instrumented) with the code
// that uses them, instead of taken from the library.
#pragma once
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
