#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "faest_128f.h"
#include "faest_128s.h"
#include "faest_192s.h"
#include <sys/types.h>
static uint8_t stream[1 << 16];
static size_t used;
ssize_t getrandom(void* b, size_t n, unsigned f) {
  memcpy(b, stream + used, n);
  used += n;
  return n;
}
int main(void) {
  static uint8_t pk[FAEST_128F_PUBLIC_KEY_SIZE], sk[FAEST_128F_PRIVATE_KEY_SIZE];
  for (int t = 0; t < 200; t++) {
    for (size_t i = 0; i < sizeof stream; i++) stream[i] = (uint8_t)(rand() >> 9);
    used = 0;
    if (faest_128f_keygen(pk, sk)) return 3;
    if (memcmp(sk, stream + used - sizeof sk, sizeof sk)) return 1; // the last draw is the key
  }
  return 0;
}
