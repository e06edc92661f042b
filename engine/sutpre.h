// Included first in every file of the SUT: strings and streams are instantiated in the SUT itself, so that their memory comes from
// the simulated heap like the rest (those of libstdc++.so would take it from the real one, and the SUT gives it back).
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
