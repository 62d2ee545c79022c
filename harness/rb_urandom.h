// make randomness.c select its /dev/urandom back end, with the system calls replaced
#include "macros.h"
#include <features.h>
#undef GLIBC_CHECK
#define GLIBC_CHECK(a, b) 0
#undef HAVE_GETRANDOM
#undef HAVE_ARC4RANDOM_BUF
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <sys/ioctl.h>
int fk_open(const char*, int, ...);
ssize_t fk_read(int, void*, size_t);
int fk_close(int);
int fk_ioctl(int, unsigned long, ...);
#define open fk_open
#define read fk_read
#define close fk_close
#define ioctl fk_ioctl
#define rand_bytes rb_urandom
