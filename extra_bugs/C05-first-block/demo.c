#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "faest_128f.h"
#include "faest_128s.h"
#include "faest_192s.h"
int main(void) {
  static uint8_t pk[FAEST_192S_PUBLIC_KEY_SIZE], sk[FAEST_192S_PRIVATE_KEY_SIZE];
  if (faest_192s_keygen(pk, sk) || faest_192s_validate_keypair(pk, sk)) return 3;
  pk[20] ^= 1;
  return faest_192s_validate_keypair(pk, sk) == 0;
}
