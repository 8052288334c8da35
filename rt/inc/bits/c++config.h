// libstdc++ templates are instantiated into the analysed module instead of being
// taken from the shared library.
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
