// a compiler without builtins, byte-order functions or vector types
#include <assert.h>
#include <endian.h>
#include <errno.h>
#include <limits.h>
#include <malloc.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "macros.h"
// the C library's allocator as far as the generic fallback uses it: the harness decides where blocks lie
extern void* compat_malloc(size_t);
extern void compat_free(void*);
#define malloc compat_malloc
#define free compat_free
#if defined(V_NOBUILTIN)
#undef GNUC_CHECK
#define GNUC_CHECK(a, b) 0
#undef __has_builtin
#if defined(V_POPCOUNT)
#define __has_builtin(x) V_HAS_##x
#define V_HAS___builtin_popcount 1
#define V_HAS___builtin_parity 0
#define V_HAS___builtin_clz 0
#define V_HAS___builtin_add_overflow 0
#define V_HAS___builtin_rotateleft 0
#define V_HAS___builtin_rotateright 0
#else
#define __has_builtin(x) 0
#endif
#undef htobe16
#undef htole16
#undef be16toh
#undef le16toh
#undef htobe32
#undef htole32
#undef be32toh
#undef le32toh
#undef htobe64
#undef htole64
#undef be64toh
#undef le64toh
#undef __linux__
#undef __GLIBC__
#if defined(__clang__)
#undef __clang__
#endif
#undef __GNUC__
#include "endian_compat.h"
#define __GNUC__ 4
#define __linux__ 1
#endif
#if defined(V_CONSTTIME)
static int consttime_memequal(const void* a, const void* b, size_t n) { return memcmp(a, b, n) == 0; }
#endif
