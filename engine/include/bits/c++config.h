// Keeps libstdc++'s templates (std::string, streams, ...) from being taken out of the prebuilt library,
// so that they are compiled, and thereby encoded, with the code under test.
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
