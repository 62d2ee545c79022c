#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "faest_128f.h"
int main(void) {
  uint8_t pk[FAEST_128F_PUBLIC_KEY_SIZE], sk[FAEST_128F_PRIVATE_KEY_SIZE], rho[1];
  size_t len = FAEST_128F_SIGNATURE_SIZE;
  uint8_t* a = malloc(len);
  if (faest_128f_keygen(pk, sk)) return 3;
  if (faest_128f_sign_with_randomness(sk, (const uint8_t*)"x", 1, rho, 0, a, &len)) return 1;
  return faest_128f_verify(pk, (const uint8_t*)"x", 1, a, len) ? 1 : 0;
}
