// forced include of AddressSanitizer builds: OpenSSL is not instrumented, so what it reads and writes for the
// library is checked here, at the call
#ifndef ASAN_SSL_H
#define ASAN_SSL_H
#ifndef __cplusplus
#include <openssl/evp.h>
#include <sanitizer/asan_interface.h>
static inline void v_touch(const void* p, long n) { // reports if a byte of [p, p + n) may not be accessed
  if (p && n > 0) {
    volatile char* bad = (volatile char*)__asan_region_is_poisoned((void*)p, (size_t)n);
    if (bad) (void)*bad;
  }
}
#define V_WRAP_UPDATE(name)                                                                                            \
  static inline int verif_##name(EVP_CIPHER_CTX* c, unsigned char* o, int* l, const unsigned char* in, int n) {        \
    v_touch(in, n);                                                                                                    \
    int r = name(c, o, l, in, n);                                                                                      \
    v_touch(o, r == 1 ? *l : 0);                                                                                       \
    return r;                                                                                                          \
  }
#define V_WRAP_FINAL(name)                                                                                             \
  static inline int verif_##name(EVP_CIPHER_CTX* c, unsigned char* o, int* l) {                                        \
    int r = name(c, o, l);                                                                                             \
    v_touch(o, r == 1 ? *l : 0);                                                                                       \
    return r;                                                                                                          \
  }
static inline void v_key(const EVP_CIPHER* t, const unsigned char* k, const unsigned char* iv) {
  if (t) {
    v_touch(k, EVP_CIPHER_get_key_length(t));
    v_touch(iv, EVP_CIPHER_get_iv_length(t));
  }
}
V_WRAP_UPDATE(EVP_EncryptUpdate)
V_WRAP_UPDATE(EVP_CipherUpdate)
V_WRAP_FINAL(EVP_EncryptFinal_ex)
V_WRAP_FINAL(EVP_EncryptFinal)
V_WRAP_FINAL(EVP_CipherFinal_ex)
static inline int verif_EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv) {
  v_key(t, k, iv);
  return EVP_EncryptInit_ex(c, t, e, k, iv);
}
static inline int verif_EVP_EncryptInit(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, const unsigned char* k, const unsigned char* iv) {
  v_key(t, k, iv);
  return EVP_EncryptInit(c, t, k, iv);
}
#define EVP_EncryptUpdate verif_EVP_EncryptUpdate
#define EVP_CipherUpdate verif_EVP_CipherUpdate
#define EVP_EncryptFinal_ex verif_EVP_EncryptFinal_ex
#define EVP_EncryptFinal verif_EVP_EncryptFinal
#define EVP_CipherFinal_ex verif_EVP_CipherFinal_ex
#define EVP_EncryptInit_ex verif_EVP_EncryptInit_ex
#define EVP_EncryptInit verif_EVP_EncryptInit
#endif
#endif
