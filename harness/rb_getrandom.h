#include <sys/random.h>
ssize_t fk_getrandom(void*, size_t, unsigned);
#define getrandom fk_getrandom
#define HAVE_SYS_RANDOM_H
#define HAVE_GETRANDOM
#define rand_bytes rb_getrandom
