// force-included for the IR build: library templates are instantiated here, so
// that their bodies are part of what is executed symbolically
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
