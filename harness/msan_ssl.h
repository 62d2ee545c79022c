// forced include of MemorySanitizer builds: OpenSSL is not instrumented, so its own libc calls are not
// checked, what it reads must be initialised, and what it writes is initialised
#ifndef MSAN_SSL_H
#define MSAN_SSL_H
#ifndef __cplusplus
#include <openssl/evp.h>
#include <sanitizer/msan_interface.h>
#define V_OFF __msan_scoped_disable_interceptor_checks()
#define V_ON __msan_scoped_enable_interceptor_checks()
#define V_WRAP_UPDATE(name)                                                                                            \
  static inline int verif_##name(EVP_CIPHER_CTX* c, unsigned char* o, int* l, const unsigned char* in, int n) {        \
    __msan_check_mem_is_initialized(in, (size_t)n);                                                                    \
    V_OFF;                                                                                                             \
    int r = name(c, o, l, in, n);                                                                                      \
    V_ON;                                                                                                              \
    __msan_unpoison(l, sizeof *l);                                                                                     \
    if (r == 1 && *l > 0) __msan_unpoison(o, (size_t)*l);                                                              \
    return r;                                                                                                          \
  }
#define V_WRAP_FINAL(name)                                                                                             \
  static inline int verif_##name(EVP_CIPHER_CTX* c, unsigned char* o, int* l) {                                        \
    V_OFF;                                                                                                             \
    int r = name(c, o, l);                                                                                             \
    V_ON;                                                                                                              \
    __msan_unpoison(l, sizeof *l);                                                                                     \
    if (r == 1 && *l > 0) __msan_unpoison(o, (size_t)*l);                                                              \
    return r;                                                                                                          \
  }
static inline void v_key(const EVP_CIPHER* t, const unsigned char* k, const unsigned char* iv) {
  if (t && k) __msan_check_mem_is_initialized(k, (size_t)EVP_CIPHER_get_key_length(t));
  if (t && iv) __msan_check_mem_is_initialized(iv, (size_t)EVP_CIPHER_get_iv_length(t));
}
V_WRAP_UPDATE(EVP_EncryptUpdate)
V_WRAP_UPDATE(EVP_CipherUpdate)
V_WRAP_FINAL(EVP_EncryptFinal_ex)
V_WRAP_FINAL(EVP_EncryptFinal)
V_WRAP_FINAL(EVP_CipherFinal_ex)
static inline int verif_EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv) {
  v_key(t, k, iv);
  V_OFF;
  int r = EVP_EncryptInit_ex(c, t, e, k, iv);
  V_ON;
  return r;
}
static inline int verif_EVP_EncryptInit(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, const unsigned char* k, const unsigned char* iv) {
  v_key(t, k, iv);
  V_OFF;
  int r = EVP_EncryptInit(c, t, k, iv);
  V_ON;
  return r;
}
static inline EVP_CIPHER_CTX* verif_EVP_CIPHER_CTX_new(void) {
  V_OFF;
  EVP_CIPHER_CTX* r = EVP_CIPHER_CTX_new();
  V_ON;
  return r;
}
static inline void verif_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX* c) {
  V_OFF;
  EVP_CIPHER_CTX_free(c);
  V_ON;
}
#define EVP_EncryptUpdate verif_EVP_EncryptUpdate
#define EVP_CipherUpdate verif_EVP_CipherUpdate
#define EVP_EncryptFinal_ex verif_EVP_EncryptFinal_ex
#define EVP_EncryptFinal verif_EVP_EncryptFinal
#define EVP_CipherFinal_ex verif_EVP_CipherFinal_ex
#define EVP_EncryptInit_ex verif_EVP_EncryptInit_ex
#define EVP_EncryptInit verif_EVP_EncryptInit
#define EVP_CIPHER_CTX_new verif_EVP_CIPHER_CTX_new
#define EVP_CIPHER_CTX_free verif_EVP_CIPHER_CTX_free
#endif
#endif
