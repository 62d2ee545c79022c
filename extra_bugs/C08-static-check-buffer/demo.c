#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "faest_128f.h"
#include "faest_128s.h"
#include "faest_192s.h"
#include <pthread.h>
#include "faest_256s.h"
static volatile int bad;
static void* run(void* x) {
  uint8_t pk[FAEST_256S_PUBLIC_KEY_SIZE], sk[FAEST_256S_PRIVATE_KEY_SIZE];
  if (faest_256s_keygen(pk, sk)) return NULL;
  for (int i = 0; i < 200000 && !bad; i++)
    if (faest_256s_validate_keypair(pk, sk)) bad = 1;
  return NULL;
}
int main(void) {
  pthread_t t[8];
  for (int i = 0; i < 8; i++) pthread_create(&t[i], NULL, run, NULL);
  for (int i = 0; i < 8; i++) pthread_join(t[i], NULL);
  return bad;
}
