// The NIST API of all sets, compiled with renamed symbols.
#pragma once
#include "api.hpp"
#define NDECL(l)                                                                                                       \
  int crypto_sign_keypair_##l(unsigned char*, unsigned char*);                                                         \
  int crypto_sign_##l(unsigned char*, unsigned long long*, const unsigned char*, unsigned long long, const unsigned char*); \
  int crypto_sign_open_##l(unsigned char*, unsigned long long*, const unsigned char*, unsigned long long, const unsigned char*);
#define X(l, u) NDECL(l)
extern "C" {
FAEST_SETS(X)
}
#undef X
struct Nist {
  int (*keypair)(unsigned char*, unsigned char*);
  int (*sign)(unsigned char*, unsigned long long*, const unsigned char*, unsigned long long, const unsigned char*);
  int (*open)(unsigned char*, unsigned long long*, const unsigned char*, unsigned long long, const unsigned char*);
  long long sk, pk, bytes;
};
extern "C" const long long nist_sizes[13][3];
inline Nist nist(int id) {
#define X(l, u) {crypto_sign_keypair_##l, crypto_sign_##l, crypto_sign_open_##l},
  static const Nist t[12] = {FAEST_SETS(X)};
#undef X
  return t[id - 1];
}
