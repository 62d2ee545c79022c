// the library as a compiler without builtins would see it (standard headers first, so that only the library is affected)
#include <assert.h>
#include <endian.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <malloc.h>
#include <stdalign.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/types.h>
#include <unistd.h>
#if defined(HAVE_OPENSSL)
#include <openssl/evp.h>
#endif
#include "macros.h"
#undef GNUC_CHECK
#define GNUC_CHECK(a, b) 0
#undef __has_builtin
#define __has_builtin(x) 0
#undef ASSUME_ALIGNED
#define ASSUME_ALIGNED(p, a) (p)
#undef ASSUME
#define ASSUME(p) (void)(p)
#undef UNREACHABLE
#define UNREACHABLE
