#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "faest_128f.h"
int main(void) {
  uint8_t sk[FAEST_128F_PRIVATE_KEY_SIZE];
  memset(sk, 0x21, sizeof sk); // OWF input equal to the OWF key: zero S-box inputs
  size_t len = FAEST_128F_SIGNATURE_SIZE + 100;
  uint8_t* a = malloc(len);
  if (!faest_128f_sign_with_randomness(sk, (const uint8_t*)"x", 1, NULL, 0, a, &len)) return 3;
  return len == FAEST_128F_SIGNATURE_SIZE + 100 ? 0 : 1;
}
