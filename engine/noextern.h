// Instantiate std::string and the iostreams in every module instead of linking libstdc++'s copies, so that
// the symbolic execution sees their code.
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
