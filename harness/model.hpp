// Independent reference model of FAEST v1 (written from the specification).  Shares no code with
// the implementation under test.  Everything is a plain function of its arguments.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <endian.h>
#include <vector>
#include <string>
#include <array>
#include <functional>
#include <stdexcept>
#include <immintrin.h>

namespace ref {
using u8  = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using Bytes = std::vector<u8>;

// ---------------------------------------------------------------- SHAKE
struct Keccak {
  static u64 rol(u64 x, int n) { return n ? (x << n) | (x >> (64 - n)) : x; }
  static void f(u64* a) {
    static const u64 RC[24] = {
        0x0000000000000001ULL, 0x0000000000008082ULL, 0x800000000000808AULL, 0x8000000080008000ULL,
        0x000000000000808BULL, 0x0000000080000001ULL, 0x8000000080008081ULL, 0x8000000000008009ULL,
        0x000000000000008AULL, 0x0000000000000088ULL, 0x0000000080008009ULL, 0x000000008000000AULL,
        0x000000008000808BULL, 0x800000000000008BULL, 0x8000000000008089ULL, 0x8000000000008003ULL,
        0x8000000000008002ULL, 0x8000000000000080ULL, 0x000000000000800AULL, 0x800000008000000AULL,
        0x8000000080008081ULL, 0x8000000000008080ULL, 0x0000000080000001ULL, 0x8000000080008008ULL};
    // b[y + 5 * ((2x + 3y) mod 5)] = rot(a[x + 5y], R[x + 5y]), then chi; lanes kept in locals
    u64 s[25], b[25], c[5], d[5];
    for (int i = 0; i < 25; i++) s[i] = a[i];
    for (int r = 0; r < 24; r++) {
      for (int x = 0; x < 5; x++) c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
      d[0] = c[4] ^ rol(c[1], 1);
      d[1] = c[0] ^ rol(c[2], 1);
      d[2] = c[1] ^ rol(c[3], 1);
      d[3] = c[2] ^ rol(c[4], 1);
      d[4] = c[3] ^ rol(c[0], 1);
#define RP(x, y, n) b[y + 5 * ((2 * x + 3 * y) % 5)] = rol(s[x + 5 * y] ^ d[x], n)
      RP(0, 0, 0), RP(1, 0, 1), RP(2, 0, 62), RP(3, 0, 28), RP(4, 0, 27);
      RP(0, 1, 36), RP(1, 1, 44), RP(2, 1, 6), RP(3, 1, 55), RP(4, 1, 20);
      RP(0, 2, 3), RP(1, 2, 10), RP(2, 2, 43), RP(3, 2, 25), RP(4, 2, 39);
      RP(0, 3, 41), RP(1, 3, 45), RP(2, 3, 15), RP(3, 3, 21), RP(4, 3, 8);
      RP(0, 4, 18), RP(1, 4, 2), RP(2, 4, 61), RP(3, 4, 56), RP(4, 4, 14);
#undef RP
      for (int y = 0; y < 25; y += 5) {
        s[y]     = b[y] ^ (~b[y + 1] & b[y + 2]);
        s[y + 1] = b[y + 1] ^ (~b[y + 2] & b[y + 3]);
        s[y + 2] = b[y + 2] ^ (~b[y + 3] & b[y + 4]);
        s[y + 3] = b[y + 3] ^ (~b[y + 4] & b[y]);
        s[y + 4] = b[y + 4] ^ (~b[y] & b[y + 1]);
      }
      s[0] ^= RC[r];
    }
    for (int i = 0; i < 25; i++) a[i] = s[i];
  }
};

class Shake {
  u64 st_[25];
  u8 blk_[168];
  size_t rate_, pos_ = 0;
  bool squeezing_ = false;

public:
  explicit Shake(int bits) : rate_(bits == 128 ? 168 : 136) { memset(st_, 0, sizeof st_); }
  Shake& absorb(const u8* p, size_t n) {
    for (size_t i = 0; i < n;) {
      if (pos_ == 0 && n - i >= rate_) { // a whole block
        for (size_t k = 0; k < rate_; k++) blk_[k] = p[i + k];
        for (size_t k = 0; k < rate_ / 8; k++) {
          u64 w = 0;
          memcpy(&w, blk_ + 8 * k, 8);
          st_[k] ^= le64toh(w);
        }
        Keccak::f(st_);
        i += rate_;
        continue;
      }
      st_[pos_ / 8] ^= (u64)p[i++] << (8 * (pos_ % 8));
      if (++pos_ == rate_) {
        Keccak::f(st_);
        pos_ = 0;
      }
    }
    return *this;
  }
  Shake& absorb(const Bytes& b) { return absorb(b.data(), b.size()); }
  Shake& squeeze(u8* p, size_t n) {
    if (!squeezing_) {
      st_[pos_ / 8] ^= (u64)0x1f << (8 * (pos_ % 8));
      st_[(rate_ - 1) / 8] ^= (u64)0x80 << 56;
      Keccak::f(st_);
      pos_ = 0;
      squeezing_ = true;
    }
    for (size_t i = 0; i < n; i++) {
      if (pos_ == rate_) {
        Keccak::f(st_);
        pos_ = 0;
      }
      p[i] = (u8)(st_[pos_ / 8] >> (8 * (pos_ % 8)));
      pos_++;
    }
    return *this;
  }
  Bytes out(size_t n) {
    Bytes r(n);
    squeeze(r.data(), n);
    return r;
  }
};

// random oracle: input || domain byte
class RO {
  Shake s_;
  u8 dom_;
  bool fin_ = false;

public:
  RO(int lambda, int dom) : s_(lambda == 128 ? 128 : 256), dom_((u8)dom) {}
  RO& in(const u8* p, size_t n) {
    s_.absorb(p, n);
    return *this;
  }
  RO& in(const Bytes& b) { return in(b.data(), b.size()); }
  void out(u8* p, size_t n) {
    if (!fin_) s_.absorb(&dom_, 1);
    fin_ = true;
    s_.squeeze(p, n);
  }
  Bytes out(size_t n) {
    Bytes r(n);
    out(r.data(), n);
    return r;
  }
};

// ---------------------------------------------------------------- GF(2^8), AES, Rijndael
inline u8 gf8_mul(u8 a, u8 b) {
  unsigned r = 0, x = a;
  for (int i = 0; i < 8; i++) {
    if ((b >> i) & 1) r ^= x;
    x <<= 1;
    if (x & 0x100) x ^= 0x11b;
  }
  return (u8)r;
}
struct SboxT {
  u8 inv[256], s[256], is[256];
  SboxT() {
    inv[0] = 0;
    for (int a = 1; a < 256; a++)
      for (int b = 1; b < 256; b++)
        if (gf8_mul((u8)a, (u8)b) == 1) inv[a] = (u8)b;
    for (int a = 0; a < 256; a++) {
      u8 x = inv[a], y = 0;
      for (int i = 0; i < 8; i++) {
        int bit = ((x >> i) ^ (x >> ((i + 4) % 8)) ^ (x >> ((i + 5) % 8)) ^ (x >> ((i + 6) % 8)) ^
                   (x >> ((i + 7) % 8)) ^ (0x63 >> i)) & 1;
        y |= (u8)(bit << i);
      }
      s[a] = y;
    }
    for (int a = 0; a < 256; a++) is[s[a]] = (u8)a;
  }
};
inline const SboxT& SB() {
  static const SboxT t;
  return t;
}

// Rijndael with Nk key words and Nb block words
struct Rijndael {
  int Nk, Nb, R;
  std::vector<std::array<u8, 4>> w; // expanded words, Nb*(R+1)
  int zeros_ks = 0;                 // zero S-box inputs in the key schedule
  static int rounds(int nk, int nb) { return std::max(nk, nb) + 6; }
  static bool sboxed(int Nk, int k) { return k % Nk == 0 || (Nk > 6 && k % Nk == 4); }
  static u8 rcon(int i) { // i >= 1
    u8 c = 1;
    for (int j = 1; j < i; j++) c = gf8_mul(c, 2);
    return c;
  }
  Rijndael(const u8* key, int nk, int nb) : Nk(nk), Nb(nb), R(rounds(nk, nb)) {
    w.resize((size_t)Nb * (R + 1));
    std::vector<std::array<u8, 4>> t((size_t)Nb * (R + 1) + Nk);
    for (int k = 0; k < Nk; k++) memcpy(t[k].data(), key + 4 * k, 4);
    for (int k = Nk; k < Nb * (R + 1); k++) {
      auto x = t[k - 1];
      if (k % Nk == 0) x = {x[1], x[2], x[3], x[0]};
      if (sboxed(Nk, k)) {
        for (auto& b : x) {
          zeros_ks += b == 0;
          b = SB().s[b];
        }
      }
      if (k % Nk == 0) x[0] ^= rcon(k / Nk);
      for (int i = 0; i < 4; i++) t[k][i] = t[k - Nk][i] ^ x[i];
    }
    for (int k = 0; k < Nb * (R + 1); k++) w[k] = t[k];
  }
  static int shift(int Nb, int r) {
    static const int s8[4] = {0, 1, 3, 4};
    return Nb == 8 ? s8[r] : r;
  }
  void addkey(u8* st, int r) const {
    for (int c = 0; c < Nb; c++)
      for (int i = 0; i < 4; i++) st[4 * c + i] ^= w[(size_t)r * Nb + c][i];
  }
  void shiftrows(u8* st) const {
    u8 t[32];
    for (int c = 0; c < Nb; c++)
      for (int r = 0; r < 4; r++) t[4 * c + r] = st[4 * ((c + shift(Nb, r)) % Nb) + r];
    memcpy(st, t, 4 * Nb);
  }
  void unshiftrows(u8* st) const {
    u8 t[32];
    for (int c = 0; c < Nb; c++)
      for (int r = 0; r < 4; r++) t[4 * ((c + shift(Nb, r)) % Nb) + r] = st[4 * c + r];
    memcpy(st, t, 4 * Nb);
  }
  static void mixcol(u8* c, const u8 m[4]) {
    u8 o[4];
    for (int r = 0; r < 4; r++) {
      o[r] = 0;
      for (int k = 0; k < 4; k++) o[r] ^= gf8_mul(m[(k - r + 4) % 4], c[k]);
    }
    memcpy(c, o, 4);
  }
  void mix(u8* st) const {
    static const u8 m[4] = {2, 3, 1, 1};
    for (int c = 0; c < Nb; c++) mixcol(st + 4 * c, m);
  }
  void unmix(u8* st) const {
    static const u8 m[4] = {14, 11, 13, 9};
    for (int c = 0; c < Nb; c++) mixcol(st + 4 * c, m);
  }
  // returns number of zero S-box inputs; if states, append state after ShiftRows of rounds 1..R-1
  int encrypt(const u8* in, u8* out, std::vector<u8>* states = nullptr) const {
    u8 st[32];
    int z = 0;
    memcpy(st, in, 4 * Nb);
    addkey(st, 0);
    for (int r = 1; r <= R; r++) {
      for (int i = 0; i < 4 * Nb; i++) {
        z += st[i] == 0;
        st[i] = SB().s[st[i]];
      }
      shiftrows(st);
      if (r < R) {
        if (states) states->insert(states->end(), st, st + 4 * Nb);
        mix(st);
      }
      addkey(st, r);
    }
    memcpy(out, st, 4 * Nb);
    return z;
  }
  // given the S-box input state of round r (1..R), return the plaintext
  void invert_from(const u8* sbox_in, int r, u8* pt) const {
    u8 st[32];
    memcpy(st, sbox_in, 4 * Nb);
    for (; r > 1; r--) {
      addkey(st, r - 1);
      unmix(st);
      unshiftrows(st);
      for (int i = 0; i < 4 * Nb; i++) st[i] = SB().is[st[i]];
    }
    addkey(st, 0);
    memcpy(pt, st, 4 * Nb);
  }
  // given Nk consecutive words w[k0..k0+Nk-1] of the schedule, recover the key
  static void invert_schedule(std::vector<std::array<u8, 4>> win, int k0, int Nk, u8* key) {
    // win[i] = w[k0+i]; step down: w[k-Nk] = w[k] ^ g(w[k-1])
    for (int base = k0; base > 0; base--) {
      int k = base + Nk - 1; // highest index in window
      auto x = win[Nk - 2];  // w[k-1]
      if (k % Nk == 0) x = {x[1], x[2], x[3], x[0]};
      if (sboxed(Nk, k))
        for (auto& b : x) b = SB().s[b];
      if (k % Nk == 0) x[0] ^= rcon(k / Nk);
      std::array<u8, 4> lo;
      for (int i = 0; i < 4; i++) lo[i] = win[Nk - 1][i] ^ x[i];
      win.insert(win.begin(), lo);
      win.pop_back();
    }
    for (int i = 0; i < Nk; i++) memcpy(key + 4 * i, win[i].data(), 4);
  }
};

__attribute__((target("aes,sse4.1"))) inline void aesni_ctr(const Rijndael& rk, const u8* iv, u8* out,
                                                            size_t n) {
  __m128i k[15];
  for (int r = 0; r <= rk.R; r++) k[r] = _mm_loadu_si128((const __m128i*)rk.w[(size_t)4 * r].data());
  u8 ctr[16];
  memcpy(ctr, iv, 16);
  while (n) {
    __m128i b = _mm_loadu_si128((const __m128i*)ctr);
    b = _mm_xor_si128(b, k[0]);
    for (int r = 1; r < rk.R; r++) b = _mm_aesenc_si128(b, k[r]);
    b = _mm_aesenclast_si128(b, k[rk.R]);
    u8 t[16];
    _mm_storeu_si128((__m128i*)t, b);
    size_t m = n < 16 ? n : 16;
    memcpy(out, t, m);
    out += m;
    n -= m;
    for (int i = 15; i >= 0; i--)
      if (++ctr[i]) break;
  }
}
inline bool have_aesni() {
  static const bool b = __builtin_cpu_supports("aes") && __builtin_cpu_supports("sse4.1");
  return b;
}
// CTR mode with a full 128-bit big-endian counter
inline void prg(int lambda, const u8* key, const u8* iv, u8* out, size_t n, bool force_soft = false) {
  Rijndael rk(key, lambda / 32, 4);
  if (have_aesni() && !force_soft) return aesni_ctr(rk, iv, out, n);
  u8 ctr[16];
  memcpy(ctr, iv, 16);
  while (n) {
    u8 t[16];
    rk.encrypt(ctr, t);
    size_t m = n < 16 ? n : 16;
    memcpy(out, t, m);
    out += m;
    n -= m;
    for (int i = 15; i >= 0; i--)
      if (++ctr[i]) break;
  }
}
inline Bytes prg(int lambda, const u8* key, const u8* iv, size_t n) {
  Bytes r(n);
  prg(lambda, key, iv, r.data(), n);
  return r;
}

// ---------------------------------------------------------------- parameters (from definitions)
struct Params {
  int id;            // 1..12 in the order of the public enumeration
  const char* name;  // "128s", "em_192f", ...
  const char* NAME;  // "FAEST_128S"
  int lambda, tau;
  bool em;
  int LB() const { return lambda / 8; }
  int Nk() const { return lambda / 32; }
  int Nb() const { return em ? lambda / 32 : 4; }
  int R() const { return lambda / 32 + 6; }
  int beta() const { return (em || lambda == 128) ? 1 : 2; }
  int Ske() const { // S-boxes in key schedule
    if (em) return 0;
    int n = 0;
    for (int k = Nk(); k < 4 * (R() + 1); k++) n += 4 * Rijndael::sboxed(Nk(), k);
    return n;
  }
  int Senc() const { return 4 * Nb() * R(); }
  int Lke() const { return em ? 0 : lambda + 8 * Ske(); }
  int Lenc() const { return em ? lambda * R() : 128 * (R() - 1); }
  int ell() const { return em ? Lenc() : Lke() + beta() * Lenc(); }
  int ellhat() const { return ell() + 2 * lambda + 16; }
  int LH() const { return ellhat() / 8; }
  int k0() const { return (lambda + tau - 1) / tau; }
  int k1() const { return lambda / tau; }
  int t0() const { return lambda % tau; }
  int t1() const { return tau - t0(); }
  int depth(int i) const { return i < t0() ? k0() : k1(); }
  int owf_in() const { return em ? LB() : 16 * beta(); } // bytes of OWF input = output
  size_t pk() const { return 2 * owf_in(); }
  size_t sk() const { return owf_in() + LB(); }
  // layout
  size_t off_c() const { return 0; }
  size_t off_ut() const { return (size_t)(tau - 1) * LH(); }
  size_t off_d() const { return off_ut() + LB() + 2; }
  size_t off_at() const { return off_d() + ell() / 8; }
  size_t off_open(int i) const {
    size_t o = off_at() + LB();
    for (int j = 0; j < i; j++) o += (size_t)(depth(j) + 2) * LB();
    return o;
  }
  size_t off_com(int i) const { return off_open(i) + (size_t)depth(i) * LB(); }
  size_t off_ch3() const { return off_open(tau); }
  size_t off_iv() const { return off_ch3() + LB(); }
  size_t sig() const { return off_iv() + 16; }
};
inline const std::vector<Params>& all_params() {
  static const std::vector<Params> v = {
      {1, "128s", "FAEST_128S", 128, 11, false},      {2, "128f", "FAEST_128F", 128, 16, false},
      {3, "192s", "FAEST_192S", 192, 16, false},      {4, "192f", "FAEST_192F", 192, 24, false},
      {5, "256s", "FAEST_256S", 256, 22, false},      {6, "256f", "FAEST_256F", 256, 32, false},
      {7, "em_128s", "FAEST_EM_128S", 128, 11, true}, {8, "em_128f", "FAEST_EM_128F", 128, 16, true},
      {9, "em_192s", "FAEST_EM_192S", 192, 16, true}, {10, "em_192f", "FAEST_EM_192F", 192, 24, true},
      {11, "em_256s", "FAEST_EM_256S", 256, 22, true}, {12, "em_256f", "FAEST_EM_256F", 256, 32, true}};
  return v;
}
inline const Params& param(int id) { return all_params()[(size_t)id - 1]; }

// ---------------------------------------------------------------- one-way function
struct OwfResult {
  Bytes out;
  int zeros; // zero S-box inputs that count
  bool usable() const { return zeros == 0; }
};
inline OwfResult owf(const Params& p, const u8* key, const u8* in) {
  OwfResult r;
  r.out.resize(p.owf_in());
  if (p.em) {
    Rijndael c(in, p.Nk(), p.Nb());
    r.zeros = c.encrypt(key, r.out.data());
    for (int i = 0; i < p.LB(); i++) r.out[i] ^= key[i];
  } else {
    Rijndael c(key, p.Nk(), 4);
    r.zeros = c.zeros_ks;
    for (int b = 0; b < p.beta(); b++) r.zeros += c.encrypt(in + 16 * b, r.out.data() + 16 * b);
  }
  return r;
}
// private key layout: OWF input || OWF key ; public key: OWF input || OWF output
inline OwfResult owf_sk(const Params& p, const u8* sk) { return owf(p, sk + p.owf_in(), sk); }
inline Bytes pk_of_sk(const Params& p, const u8* sk) {
  auto r = owf_sk(p, sk);
  Bytes pk(sk, sk + p.owf_in());
  pk.insert(pk.end(), r.out.begin(), r.out.end());
  return pk;
}

// extended witness (bytes)
inline Bytes extend_witness(const Params& p, const u8* key, const u8* in) {
  Bytes w;
  if (p.em) {
    w.assign(key, key + p.LB());
    Rijndael c(in, p.Nk(), p.Nb());
    u8 o[32];
    c.encrypt(key, o, &w);
  } else {
    Rijndael c(key, p.Nk(), 4);
    w.assign(key, key + p.LB());
    for (int k = p.Nk(); k < 4 * (p.R() + 1); k++)
      if (Rijndael::sboxed(p.Nk(), k)) w.insert(w.end(), c.w[k].begin(), c.w[k].end());
    u8 o[32];
    for (int b = 0; b < p.beta(); b++) c.encrypt(in + 16 * b, o, &w);
  }
  return w;
}

// ---------------------------------------------------------------- GF(2^(64 W))
__attribute__((target("pclmul,sse4.1"))) inline void clmul_ni(u64 a, u64 b, u64& lo, u64& hi) {
  __m128i r = _mm_clmulepi64_si128(_mm_set_epi64x(0, (long long)a), _mm_set_epi64x(0, (long long)b), 0);
  lo = (u64)_mm_extract_epi64(r, 0);
  hi = (u64)_mm_extract_epi64(r, 1);
}
inline void clmul_soft(u64 a, u64 b, u64& lo, u64& hi) {
  lo = hi = 0;
  for (int i = 0; i < 64; i++)
    if ((b >> i) & 1) {
      lo ^= a << i;
      if (i) hi ^= a >> (64 - i);
    }
}
inline bool have_clmul() {
  static const bool b = __builtin_cpu_supports("pclmul") && __builtin_cpu_supports("sse4.1");
  return b;
}
inline void clmul(u64 a, u64 b, u64& lo, u64& hi) {
  if (have_clmul()) clmul_ni(a, b, lo, hi);
  else clmul_soft(a, b, lo, hi);
}

template <int W> struct GF {
  u64 v[W];
  static constexpr int bytes = 8 * W, bits = 64 * W;
  static GF zero() {
    GF r;
    memset(r.v, 0, sizeof r.v);
    return r;
  }
  static GF one() {
    GF r = zero();
    r.v[0] = 1;
    return r;
  }
  static GF load(const u8* p, size_t n = bytes) {
    GF r = zero();
    for (size_t i = 0; i < n; i++) r.v[i / 8] |= (u64)p[i] << (8 * (i % 8));
    return r;
  }
  void store(u8* p) const {
    for (int i = 0; i < bytes; i++) p[i] = (u8)(v[i / 8] >> (8 * (i % 8)));
  }
  Bytes str() const {
    Bytes b(bytes);
    store(b.data());
    return b;
  }
  bool operator==(const GF& o) const { return !memcmp(v, o.v, sizeof v); }
  bool operator!=(const GF& o) const { return !(*this == o); }
  bool is_zero() const { return *this == zero(); }
  GF operator+(const GF& o) const {
    GF r;
    for (int i = 0; i < W; i++) r.v[i] = v[i] ^ o.v[i];
    return r;
  }
  GF& operator+=(const GF& o) {
    for (int i = 0; i < W; i++) v[i] ^= o.v[i];
    return *this;
  }
  static const int* poly() { // middle exponents, descending irrelevant; x^0 included
    static const int p64[4] = {0, 1, 3, 4}, p128[4] = {0, 1, 2, 7}, p256[4] = {0, 2, 5, 10};
    return W == 1 ? p64 : W == 4 ? p256 : p128;
  }
  GF operator*(const GF& o) const {
    u64 c[2 * W] = {0};
    for (int i = 0; i < W; i++)
      for (int j = 0; j < W; j++) {
        u64 lo, hi;
        clmul(v[i], o.v[j], lo, hi);
        c[i + j] ^= lo;
        c[i + j + 1] ^= hi;
      }
    const int* e = poly();
    for (int i = 2 * W - 1; i >= W; i--) {
      u64 t = c[i];
      c[i] = 0;
      for (int k = 0; k < 4; k++) {
        c[i - W] ^= t << e[k];
        if (e[k]) c[i - W + 1] ^= t >> (64 - e[k]);
      }
      // a spill back into c[i] itself (only when W == 1) has degree < 64: fold once more
      if (W == 1 && c[i]) {
        u64 t2 = c[i];
        c[i] = 0;
        for (int k = 0; k < 4; k++) c[i - W] ^= t2 << e[k];
      }
    }
    GF r;
    for (int i = 0; i < W; i++) r.v[i] = c[i];
    return r;
  }
  GF xtimes() const {
    GF r;
    u64 carry = 0;
    for (int i = 0; i < W; i++) {
      r.v[i] = (v[i] << 1) | carry;
      carry = v[i] >> 63;
    }
    if (carry) {
      const int* e = poly();
      for (int k = 0; k < 4; k++) r.v[0] ^= 1ULL << e[k];
    }
    return r;
  }
  // bit-serial multiplication: second, slower definition used to check operator*
  GF mul_slow(const GF& o) const {
    GF r = zero(), x = *this;
    for (int i = 0; i < bits; i++) {
      if ((o.v[i / 64] >> (i % 64)) & 1) r += x;
      x = x.xtimes();
    }
    return r;
  }
  // generator of the embedded GF(2^8)
  static GF alpha() {
    static const u8 a128[] = {0x0d, 0xce, 0x60, 0x55, 0xac, 0xe8, 0x3f, 0xa1, 0x1c, 0x9a, 0x97, 0xa9, 0x55, 0x85, 0x3d, 0x05};
    static const u8 a192[] = {0x63, 0x97, 0x38, 0x6f, 0xd5, 0xa3, 0xc8, 0xcc, 0xea, 0xbd, 0x6e, 0x96, 0x6c, 0xd7, 0x65, 0xe6,
                              0x62, 0x36, 0x6b, 0x0e, 0x14, 0xc8, 0x0b, 0x31};
    static const u8 a256[] = {0xe7, 0xfe, 0xde, 0x0b, 0x42, 0x88, 0x97, 0x96, 0x67, 0x4e, 0x47, 0xa0, 0x38, 0x8d, 0xd6, 0xbe,
                              0x6a, 0xe1, 0xf1, 0xf8, 0x45, 0x98, 0x22, 0xdf, 0x33, 0x58, 0xc9, 0x20, 0xcf, 0xa8, 0xc9, 0x04};
    return load(W == 2 ? a128 : W == 3 ? a192 : a256);
  }
  static const GF* alphas() { // alpha^0..alpha^7
    static const struct T {
      GF a[8];
      T() {
        a[0] = one();
        for (int i = 1; i < 8; i++) a[i] = a[i - 1] * alpha();
        GF x8 = a[7] * alpha();
        if (x8 != a[4] + a[3] + a[1] + a[0]) throw std::logic_error("alpha is not a root");
      }
    } t;
    return t.a;
  }
  static GF embed(u8 x) {
    GF r = zero();
    for (int i = 0; i < 8; i++)
      if ((x >> i) & 1) r += alphas()[i];
    return r;
  }
};

// ---------------------------------------------------------------- universal hashes
template <int W> Bytes vole_hash(const u8* sd, const u8* x, size_t ell_bits) {
  using F = GF<W>;
  const size_t LB = F::bytes;
  F r[4], s;
  for (int i = 0; i < 4; i++) r[i] = F::load(sd + i * LB);
  s = F::load(sd + 4 * LB);
  GF<1> t = GF<1>::load(sd + 5 * LB);
  const size_t n0 = (ell_bits + F::bits) / 8; // bytes of x0
  Bytes pad(x, x + n0);
  while (pad.size() % LB) pad.push_back(0);
  F h0 = F::zero();
  for (size_t i = 0; i < pad.size(); i += LB) h0 = h0 * s + F::load(&pad[i]);
  GF<1> h1 = GF<1>::zero();
  for (size_t i = 0; i < pad.size(); i += 8) h1 = h1 * t + GF<1>::load(&pad[i]);
  F h1e = F::zero();
  h1e.v[0] = h1.v[0];
  F h2 = r[0] * h0 + r[1] * h1e, h3 = r[2] * h0 + r[3] * h1e;
  Bytes out(LB + 2), b3 = h3.str();
  h2.store(out.data());
  out[LB] = b3[0];
  out[LB + 1] = b3[1];
  for (size_t i = 0; i < LB + 2; i++) out[i] ^= x[n0 + i];
  return out;
}
inline Bytes vole_hash(int lambda, const u8* sd, const u8* x, size_t ell_bits) {
  return lambda == 128 ? vole_hash<2>(sd, x, ell_bits) : lambda == 192 ? vole_hash<3>(sd, x, ell_bits) : vole_hash<4>(sd, x, ell_bits);
}
template <int W> struct ZkHash {
  using F = GF<W>;
  F r0, r1, s, t, h0, h1;
  explicit ZkHash(const u8* sd) {
    r0 = F::load(sd);
    r1 = F::load(sd + F::bytes);
    s = F::load(sd + 2 * F::bytes);
    t = F::load(sd + 3 * F::bytes, 8);
    h0 = h1 = F::zero();
  }
  void update(const F& v) {
    h0 = h0 * s + v;
    h1 = h1 * t + v;
  }
  F fin(const F& mask) const { return r0 * h0 + r1 * h1 + mask; }
};

// ---------------------------------------------------------------- vector commitments
struct VC {
  int lambda, depth;
  std::vector<Bytes> level; // level[d] = 2^d nodes
  Bytes sd, com, h;
  int LB() const { return lambda / 8; }
};
inline VC vc_commit(int lambda, int depth, const u8* root, const u8* iv) {
  VC v;
  v.lambda = lambda;
  v.depth = depth;
  const int LB = lambda / 8;
  v.level.resize(depth + 1);
  v.level[0].assign(root, root + LB);
  for (int d = 0; d < depth; d++) {
    v.level[d + 1].resize((size_t)2 * LB << d);
    for (size_t j = 0; j < (size_t)1 << d; j++)
      prg(lambda, &v.level[d][j * LB], iv, &v.level[d + 1][2 * j * LB], 2 * LB);
  }
  const size_t N = (size_t)1 << depth;
  v.sd.resize(N * LB);
  v.com.resize(N * 2 * LB);
  for (size_t j = 0; j < N; j++) {
    RO h(lambda, 0);
    h.in(&v.level[depth][j * LB], LB).in(iv, 16);
    h.out(&v.sd[j * LB], LB);
    h.out(&v.com[j * 2 * LB], 2 * LB);
  }
  v.h = RO(lambda, 1).in(v.com).out(2 * LB);
  return v;
}
inline unsigned chal_index(const Params& p, const u8* chal, int i) {
  int lo = 0;
  for (int j = 0; j < i; j++) lo += p.depth(j);
  unsigned r = 0;
  for (int j = 0; j < p.depth(i); j++) r |= (unsigned)((chal[(lo + j) / 8] >> ((lo + j) % 8)) & 1) << j;
  return r;
}
// sibling path, top level first
inline void vc_open(const VC& v, unsigned idx, u8* pdec, u8* com) {
  const int LB = v.LB();
  for (int d = 1; d <= v.depth; d++) {
    unsigned node = idx >> (v.depth - d);
    memcpy(pdec + (size_t)(d - 1) * LB, &v.level[d][(size_t)(node ^ 1) * LB], LB);
  }
  memcpy(com, &v.com[(size_t)idx * 2 * LB], 2 * LB);
}
struct VCRec {
  Bytes sd, com, h;
};
inline VCRec vc_reconstruct(int lambda, int depth, const u8* iv, unsigned idx, const u8* pdec, const u8* com) {
  const int LB = lambda / 8;
  const size_t N = (size_t)1 << depth;
  VCRec r;
  r.sd.assign(N * LB, 0);
  r.com.assign(N * 2 * LB, 0);
  Bytes cur(LB, 0);
  for (int d = 1; d <= depth; d++) {
    Bytes nx((size_t)LB << d, 0);
    for (size_t j = 0; j < (size_t)1 << (d - 1); j++)
      if (j != (idx >> (depth - d + 1))) prg(lambda, &cur[j * LB], iv, &nx[2 * j * LB], 2 * LB);
    memcpy(&nx[(size_t)((idx >> (depth - d)) ^ 1) * LB], pdec + (size_t)(d - 1) * LB, LB);
    cur.swap(nx);
  }
  for (size_t j = 0; j < N; j++) {
    if (j == idx) {
      memcpy(&r.com[j * 2 * LB], com, 2 * LB);
      continue;
    }
    RO h(lambda, 0);
    h.in(&cur[j * LB], LB).in(iv, 16);
    h.out(&r.sd[j * LB], LB);
    h.out(&r.com[j * 2 * LB], 2 * LB);
  }
  r.h = RO(lambda, 1).in(r.com).out(2 * LB);
  return r;
}

// ---------------------------------------------------------------- VOLE
struct VoleCom {
  Bytes hcom, c, u;
  std::vector<Bytes> V; // lambda columns
  std::vector<VC> vcs;
};
// columns from seeds: v_j = xor of expansions of seeds whose index has bit j set (index permuted by x)
inline void seeds_to_columns(int lambda, const u8* iv, const u8* sd, int depth, size_t len, unsigned x,
                             bool skip_x, Bytes* u, std::vector<Bytes>& cols) {
  std::vector<Bytes> v(depth, Bytes(len, 0));
  Bytes sum(len, 0), r(len);
  const int LB = lambda / 8;
  for (unsigned j = 0; j < 1u << depth; j++) {
    if (skip_x && j == x) continue; // hidden leaf sits at relative index 0
    prg(lambda, sd + (size_t)j * LB, iv, r.data(), len);
    unsigned rel = j ^ x;
    for (int b = 0; b < depth; b++)
      if ((rel >> b) & 1)
        for (size_t k = 0; k < len; k++) v[b][k] ^= r[k];
    for (size_t k = 0; k < len; k++) sum[k] ^= r[k];
  }
  if (u) *u = sum;
  for (auto& c : v) cols.push_back(std::move(c));
}
inline VoleCom vole_commit(const Params& p, const u8* rootkey, const u8* iv, size_t len,
                           const std::function<void(int, Bytes&)>& stage = nullptr) {
  VoleCom o;
  const int LB = p.LB();
  Bytes roots = prg(p.lambda, rootkey, iv, (size_t)p.tau * LB);
  if (stage) stage(4, roots);
  RO h(p.lambda, 1);
  for (int i = 0; i < p.tau; i++) {
    o.vcs.push_back(vc_commit(p.lambda, p.depth(i), &roots[(size_t)i * LB], iv));
    Bytes ui;
    seeds_to_columns(p.lambda, iv, o.vcs.back().sd.data(), p.depth(i), len, 0, false, &ui, o.V);
    if (!i) o.u = ui;
    else
      for (size_t k = 0; k < len; k++) o.c.push_back(o.u[k] ^ ui[k]);
    h.in(o.vcs.back().h);
  }
  o.hcom = h.out(2 * LB);
  return o;
}
// q' columns (before corrections)
inline void vole_reconstruct(const Params& p, const u8* iv, const u8* chal, const u8* const* pdec,
                             const u8* const* com, size_t len, Bytes& hcom, std::vector<Bytes>& Q) {
  RO h(p.lambda, 1);
  for (int i = 0; i < p.tau; i++) {
    unsigned idx = chal_index(p, chal, i);
    VCRec r = vc_reconstruct(p.lambda, p.depth(i), iv, idx, pdec[i], com[i]);
    seeds_to_columns(p.lambda, iv, r.sd.data(), p.depth(i), len, idx, true, nullptr, Q);
    h.in(r.h);
  }
  hcom = h.out(2 * p.LB());
}

// ---------------------------------------------------------------- circuit (written once)
// Ops provides: Bit (wire), constant(b), add(Bit,Bit), witness(i); Elem lift(Bit[8]);
// elem ops add/scale; check(Elem s, Elem s') asserting s*s' = 1
template <class Ops> void circuit(const Params& p, Ops& o, const u8* in, const u8* out) {
  using Bit = typename Ops::Bit;
  using Elem = typename Ops::Elem;
  using Byte = std::array<Bit, 8>;
  auto cbyte = [&](u8 x) {
    Byte b;
    for (int i = 0; i < 8; i++) b[i] = o.constant((x >> i) & 1);
    return b;
  };
  auto wbyte = [&](int byteidx) {
    Byte b;
    for (int i = 0; i < 8; i++) b[i] = o.witness(8 * byteidx + i);
    return b;
  };
  auto xorb = [&](const Byte& x, const Byte& y) {
    Byte b;
    for (int i = 0; i < 8; i++) b[i] = o.add(x[i], y[i]);
    return b;
  };
  auto invaff = [&](const Byte& x) { // inverse of the S-box's affine layer
    Byte b;
    for (int i = 0; i < 8; i++) {
      b[i] = o.add(o.add(x[(i + 7) % 8], x[(i + 5) % 8]), x[(i + 2) % 8]);
      if ((0x05 >> i) & 1) b[i] = o.add(b[i], o.constant(1));
    }
    return b;
  };
  const int Nb = p.Nb(), R = p.R(), Nk = p.Nk();
  const int nw = Nb * (R + 1);
  std::vector<std::array<Byte, 4>> k((size_t)nw);
  int wpos = 0; // witness byte position
  std::vector<Byte> emkey;
  if (p.em) {
    Rijndael c(in, Nk, Nb);
    for (int i = 0; i < nw; i++)
      for (int r = 0; r < 4; r++) k[i][r] = cbyte(c.w[i][r]);
    for (int i = 0; i < p.LB(); i++) emkey.push_back(wbyte(wpos++));
  } else {
    for (int i = 0; i < Nk; i++)
      for (int r = 0; r < 4; r++) k[i][r] = wbyte(wpos++);
    for (int i = Nk; i < nw; i++) {
      if (Rijndael::sboxed(Nk, i)) {
        for (int r = 0; r < 4; r++) k[i][r] = wbyte(wpos++);
      } else {
        for (int r = 0; r < 4; r++) k[i][r] = xorb(k[i - Nk][r], k[i - 1][r]);
      }
    }
    for (int i = Nk; i < nw; i++) {
      if (!Rijndael::sboxed(Nk, i)) continue;
      for (int r = 0; r < 4; r++) {
        const Byte& x = k[i - 1][i % Nk == 0 ? (r + 1) % 4 : r];
        Byte y = xorb(k[i][r], k[i - Nk][r]);
        if (i % Nk == 0 && r == 0) y = xorb(y, cbyte(Rijndael::rcon(i / Nk)));
        o.check(o.lift(x), o.lift(invaff(y)));
      }
    }
  }
  for (int b = 0; b < p.beta(); b++) {
    const u8* bin = in + 16 * b;
    const u8* bout = out + 16 * b;
    // st[j] = state after ShiftRows of round j+1, j = 0..R-2
    std::vector<std::vector<Byte>> st((size_t)R);
    for (int j = 0; j < R - 1; j++)
      for (int i = 0; i < 4 * Nb; i++) st[j].push_back(wbyte(wpos++));
    for (int i = 0; i < 4 * Nb; i++) { // last state from the output
      Byte y = xorb(cbyte(bout[i]), k[(size_t)R * Nb + i / 4][i % 4]);
      if (p.em) y = xorb(y, emkey[i]);
      st[R - 1].push_back(y);
    }
    for (int j = 0; j < R; j++) {
      std::vector<Elem> s((size_t)4 * Nb);
      for (int c = 0; c < Nb; c++) {
        if (j == 0) {
          for (int r = 0; r < 4; r++) {
            Byte x = p.em ? emkey[4 * c + r] : cbyte(bin[4 * c + r]);
            s[4 * c + r] = o.lift(xorb(x, k[c][r]));
          }
        } else {
          Elem x[4];
          for (int r = 0; r < 4; r++) x[r] = o.lift(st[j - 1][4 * c + r]);
          for (int r = 0; r < 4; r++) {
            Elem y = o.lift(k[(size_t)j * Nb + c][r]);
            y = o.eadd(y, o.escale(x[r], 2));
            y = o.eadd(y, o.escale(x[(r + 1) % 4], 3));
            y = o.eadd(y, x[(r + 2) % 4]);
            y = o.eadd(y, x[(r + 3) % 4]);
            s[4 * c + r] = y;
          }
        }
      }
      for (int c = 0; c < Nb; c++)
        for (int r = 0; r < 4; r++) {
          int col = (c - Rijndael::shift(Nb, r) + Nb) % Nb; // where ShiftRows moved (c,r)
          o.check(s[4 * c + r], o.lift(invaff(st[j][4 * col + r])));
        }
    }
  }
  if (wpos * 8 != p.ell()) throw std::logic_error("witness length");
}

template <int W> struct ProverOps {
  using F = GF<W>;
  struct Bit {
    u8 b;
    F t;
  };
  struct Elem {
    F v, t;
  };
  const u8* w;
  const std::vector<F>& tag;
  ZkHash<W>&h0, &h1;
  std::vector<int>* bad = nullptr;
  int n = 0;
  Bit constant(int b) { return {(u8)b, F::zero()}; }
  Bit witness(int i) { return {(u8)((w[i / 8] >> (i % 8)) & 1), tag[i]}; }
  Bit add(const Bit& a, const Bit& b) { return {(u8)(a.b ^ b.b), a.t + b.t}; }
  Elem lift(const std::array<Bit, 8>& x) {
    Elem e{F::zero(), F::zero()};
    for (int i = 0; i < 8; i++) {
      if (x[i].b) e.v += F::alphas()[i];
      e.t += x[i].t * F::alphas()[i];
    }
    return e;
  }
  Elem eadd(const Elem& a, const Elem& b) { return {a.v + b.v, a.t + b.t}; }
  Elem escale(const Elem& a, u8 c) {
    F f = F::embed(c);
    return {a.v * f, a.t * f};
  }
  void check(const Elem& s, const Elem& d) {
    F a0 = s.t * d.t, c = s.v * d.v + F::one();
    F a1 = s.v * d.t + d.v * s.t + c;
    if (bad && !c.is_zero()) bad->push_back(n);
    n++;
    h0.update(a0);
    h1.update(a1);
  }
};
template <int W> struct VerifierOps {
  using F = GF<W>;
  using Bit = F;
  using Elem = F;
  const std::vector<F>& q;
  F delta, delta2;
  ZkHash<W>& h;
  Bit constant(int b) { return b ? delta : F::zero(); }
  Bit witness(int i) { return q[i]; }
  Bit add(const Bit& a, const Bit& b) { return a + b; }
  Elem lift(const std::array<Bit, 8>& x) {
    Elem e = F::zero();
    for (int i = 0; i < 8; i++) e += x[i] * F::alphas()[i];
    return e;
  }
  Elem eadd(const Elem& a, const Elem& b) { return a + b; }
  Elem escale(const Elem& a, u8 c) { return a * F::embed(c); }
  void check(const Elem& s, const Elem& d) { h.update(s * d + delta2); }
};

template <int W> std::vector<GF<W>> rows(const std::vector<Bytes>& cols, int n) {
  std::vector<GF<W>> r((size_t)n, GF<W>::zero());
  for (int j = 0; j < GF<W>::bits; j++)
    for (int i = 0; i < n; i++)
      r[i].v[j / 64] |= (u64)((cols[j][i / 8] >> (i % 8)) & 1) << (j % 64);
  return r;
}
template <int W> GF<W> sum_poly(const GF<W>* x) {
  GF<W> r = GF<W>::zero();
  for (int i = GF<W>::bits - 1; i >= 0; i--) r = r.xtimes() + x[i];
  return r;
}
template <int W>
void prove_t(const Params& p, const u8* w, const u8* u, const std::vector<Bytes>& V, const u8* in, const u8* out,
             const u8* chall2, u8* a, u8* b, std::vector<int>* bad) {
  auto tag = rows<W>(V, p.ell() + p.lambda);
  ZkHash<W> h0(chall2), h1(chall2);
  ProverOps<W> o{w, tag, h0, h1, bad};
  circuit(p, o, in, out);
  h1.fin(GF<W>::load(u + p.ell() / 8)).store(a);
  h0.fin(sum_poly<W>(&tag[p.ell()])).store(b);
}
inline void prove(const Params& p, const u8* w, const u8* u, const std::vector<Bytes>& V, const u8* in,
                  const u8* out, const u8* chall2, u8* a, u8* b, std::vector<int>* bad = nullptr) {
  if (p.lambda == 128) prove_t<2>(p, w, u, V, in, out, chall2, a, b, bad);
  else if (p.lambda == 192) prove_t<3>(p, w, u, V, in, out, chall2, a, b, bad);
  else prove_t<4>(p, w, u, V, in, out, chall2, a, b, bad);
}
// Q columns already contain corrections c; this adds d (the witness masks)
template <int W>
void zkverify_t(const Params& p, const u8* d, std::vector<Bytes> Q, const u8* in, const u8* out, const u8* chall2,
                const u8* chall3, const u8* a, u8* b) {
  for (int j = 0; j < p.lambda; j++)
    if ((chall3[j / 8] >> (j % 8)) & 1)
      for (int i = 0; i < p.ell() / 8; i++) Q[j][i] ^= d[i];
  auto q = rows<W>(Q, p.ell() + p.lambda);
  GF<W> delta = GF<W>::load(chall3);
  ZkHash<W> h(chall2);
  VerifierOps<W> o{q, delta, delta * delta, h};
  circuit(p, o, in, out);
  GF<W> qt = h.fin(sum_poly<W>(&q[p.ell()]));
  (qt + GF<W>::load(a) * delta).store(b);
}
inline void zkverify(const Params& p, const u8* d, const std::vector<Bytes>& Q, const u8* in, const u8* out,
                     const u8* chall2, const u8* chall3, const u8* a, u8* b) {
  if (p.lambda == 128) zkverify_t<2>(p, d, Q, in, out, chall2, chall3, a, b);
  else if (p.lambda == 192) zkverify_t<3>(p, d, Q, in, out, chall2, chall3, a, b);
  else zkverify_t<4>(p, d, Q, in, out, chall2, chall3, a, b);
}

// ---------------------------------------------------------------- signatures
struct SignTweaks {           // knobs of a dishonest signer; all empty = honest
  Bytes witness;              // use this witness instead
  Bytes open_xor;             // XOR onto the derived final challenge before opening (and in the signature)
  Bytes pk_out;               // claim this OWF output
  std::function<void(int, Bytes&)> stage; // called with (stage id, bytes) to alter hashed intermediate values
};
inline Bytes sign(const Params& p, const u8* sk, const u8* msg, size_t mlen, const u8* rho, size_t rlen,
                  const SignTweaks* tw = nullptr) {
  const u8 *in = sk, *key = sk + p.owf_in();
  const int LB = p.LB();
  Bytes out = owf(p, key, in).out;
  if (tw && !tw->pk_out.empty()) out = tw->pk_out;
  Bytes mu = RO(p.lambda, 1).in(in, p.owf_in()).in(out).in(msg, mlen).out(2 * LB);
  RO h3(p.lambda, 3);
  h3.in(key, LB).in(mu).in(rho, rho ? rlen : 0);
  Bytes rootkey = h3.out(LB), iv = h3.out(16);
  if (tw && tw->stage) {
    tw->stage(2, rootkey);
    tw->stage(3, iv);
  }
  VoleCom vc = vole_commit(p, rootkey.data(), iv.data(), p.LH(), tw ? tw->stage : nullptr);
  Bytes ch1 = RO(p.lambda, 2).in(mu).in(vc.hcom).in(vc.c).in(iv).out(5 * LB + 8);
  Bytes ut = vole_hash(p.lambda, ch1.data(), vc.u.data(), p.ell());
  RO hv(p.lambda, 1);
  for (auto& col : vc.V) hv.in(vole_hash(p.lambda, ch1.data(), col.data(), p.ell()));
  Bytes h_v = hv.out(2 * LB);
  Bytes w = tw && !tw->witness.empty() ? tw->witness : extend_witness(p, key, in);
  Bytes d(w);
  for (size_t i = 0; i < d.size(); i++) d[i] ^= vc.u[i];
  Bytes ch2 = RO(p.lambda, 2).in(ch1).in(ut).in(h_v).in(d).out(3 * LB + 8);
  Bytes a(LB), b(LB);
  prove(p, w.data(), vc.u.data(), vc.V, in, out.data(), ch2.data(), a.data(), b.data());
  if (tw && tw->stage) {
    tw->stage(0, a);
    tw->stage(1, b);
  }
  Bytes ch3 = RO(p.lambda, 2).in(ch2).in(a).in(b).out(LB);
  if (tw)
    for (size_t i = 0; i < tw->open_xor.size(); i++) ch3[i] ^= tw->open_xor[i];
  Bytes sig;
  sig.reserve(p.sig());
  auto put = [&](const Bytes& x) { sig.insert(sig.end(), x.begin(), x.end()); };
  put(vc.c);
  put(ut);
  put(d);
  put(a);
  for (int i = 0; i < p.tau; i++) {
    Bytes o((size_t)(p.depth(i) + 2) * LB);
    vc_open(vc.vcs[i], chal_index(p, ch3.data(), i), o.data(), o.data() + (size_t)p.depth(i) * LB);
    put(o);
  }
  put(ch3);
  put(iv);
  if (sig.size() != p.sig()) throw std::logic_error("signature size");
  return sig;
}
inline bool verify(const Params& p, const u8* pk, const u8* msg, size_t mlen, const u8* sig, size_t slen,
                   Bytes* derived = nullptr) {
  if (slen != p.sig()) return false;
  const int LB = p.LB();
  const u8 *in = pk, *out = pk + p.owf_in();
  const u8 *c = sig, *ut = sig + p.off_ut(), *d = sig + p.off_d(), *a = sig + p.off_at(), *ch3 = sig + p.off_ch3(),
           *iv = sig + p.off_iv();
  Bytes mu = RO(p.lambda, 1).in(in, p.owf_in()).in(out, p.owf_in()).in(msg, mlen).out(2 * LB);
  std::vector<const u8*> pd, co;
  for (int i = 0; i < p.tau; i++) {
    pd.push_back(sig + p.off_open(i));
    co.push_back(sig + p.off_com(i));
  }
  Bytes hcom;
  std::vector<Bytes> Q;
  vole_reconstruct(p, iv, ch3, pd.data(), co.data(), p.LH(), hcom, Q);
  Bytes ch1 = RO(p.lambda, 2).in(mu).in(hcom).in(c, (size_t)(p.tau - 1) * p.LH()).in(iv, 16).out(5 * LB + 8);
  RO hv(p.lambda, 1);
  for (int i = 0, col = 0; i < p.tau; i++)
    for (int j = 0; j < p.depth(i); j++, col++) {
      int bit = (ch3[col / 8] >> (col % 8)) & 1;
      if (bit && i)
        for (int k = 0; k < p.LH(); k++) Q[col][k] ^= c[(size_t)(i - 1) * p.LH() + k];
      Bytes qt = vole_hash(p.lambda, ch1.data(), Q[col].data(), p.ell());
      if (bit)
        for (int k = 0; k < LB + 2; k++) qt[k] ^= ut[k];
      hv.in(qt);
    }
  Bytes h_v = hv.out(2 * LB);
  Bytes ch2 = RO(p.lambda, 2).in(ch1).in(ut, LB + 2).in(h_v).in(d, p.ell() / 8).out(3 * LB + 8);
  Bytes b(LB);
  zkverify(p, d, Q, in, out, ch2.data(), ch3, a, b.data());
  Bytes want = RO(p.lambda, 2).in(ch2).in(a, LB).in(b).out(LB);
  if (derived) *derived = want;
  return !memcmp(want.data(), ch3, LB);
}
} // namespace ref
