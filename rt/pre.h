// Forced first include of every translation unit of the symbolic build: makes libstdc++ instantiate
// std::string in the IR instead of importing it from the shared library.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
