#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "faest_128f.h"
#include <sys/random.h>
#include <sys/types.h>
static int draws;
// delivers an unusable key (OWF input = key: the first S-box inputs are all zero) 70 times
ssize_t getrandom(void* p, size_t n, unsigned int flags) {
  memset(p, 0x11, n);
  if (++draws > 70)
    for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)(rand() >> 7);
  return n;
}
int main(void) {
  uint8_t pk[FAEST_128F_PUBLIC_KEY_SIZE], sk[FAEST_128F_PRIVATE_KEY_SIZE];
  if (faest_128f_keygen(pk, sk)) return 0;
  return faest_128f_validate_keypair(pk, sk) ? 1 : 0;
}
