#include "macros.h"
#include <features.h>
#undef GLIBC_CHECK
#define GLIBC_CHECK(a, b) 0
#include <stdlib.h>
void fk_arc4random_buf(void*, size_t);
#define arc4random_buf fk_arc4random_buf
#define HAVE_ARC4RANDOM_BUF
#define rand_bytes rb_arc4
