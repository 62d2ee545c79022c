// force the library's scalar field representation (compilers without vector types)
#include "macros.h"
#undef HAVE_ATTR_VECTOR_SIZE
