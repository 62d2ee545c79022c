// The deterministic generator of the known-answer tool, and the NIST API driven by it
#define NO_RNG_STANDIN
#include "nist.hpp"
#include <algorithm>
extern "C" {
void randombytes_init(unsigned char*, unsigned char*, int);
int randombytes(unsigned char*, unsigned long long);
void AES256_ECB(unsigned char* key, unsigned char* ctr, unsigned char* buffer);
int rand_bytes(u8*, size_t);
}
namespace {
struct Drbg { // NIST SP 800-90A CTR_DRBG with AES-256, no derivation function
  u8 key[32] = {0}, v[16] = {0};
  void inc() {
    for (int i = 15; i >= 0 && !++v[i]; i--) {}
  }
  void update(const u8* data) {
    u8 t[48];
    ref::Rijndael ci(key, 8, 4);
    for (int i = 0; i < 3; i++) inc(), ci.encrypt(v, t + 16 * i);
    for (int i = 0; data && i < 48; i++) t[i] ^= data[i];
    memcpy(key, t, 32);
    memcpy(v, t + 32, 16);
  }
  void init(const u8* e, const u8* pers) {
    u8 s[48];
    memcpy(s, e, 48);
    for (int i = 0; pers && i < 48; i++) s[i] ^= pers[i];
    memset(key, 0, 32);
    memset(v, 0, 16);
    update(s);
  }
  void gen(u8* out, size_t n) {
    ref::Rijndael ci(key, 8, 4);
    u8 b[16];
    for (size_t i = 0; i < n; i += 16) {
      inc();
      ci.encrypt(v, b);
      memcpy(out + i, b, std::min<size_t>(16, n - i));
    }
    update(nullptr);
  }
};
} // namespace
PROP(C21_drbg,
     "1-3 (re)initialisations with drawn entropy (structured, random, or leading to a counter block shortly before a carry over the last 1-16 bytes) and personalisation (none or drawn), each followed by 0-12 "
     "requests of drawn lengths (0, around 16-byte blocks, up to 5000, now and then around a power of two up to 128 KiB), through randombytes or rand_bytes; every output must equal an "
     "independent AES-256-CTR DRBG, stay inside its buffer and report success; non-trivial = some bytes were requested; distinct by output") {
  Drbg m;
  u64 h = 0;
  bool any = false;
  int inits = (int)c.range(1, 3);
  std::string d;
  while (inits--) {
    Bytes e = c.bytes(48), q = c.bytes(48);
    bool pers = c.chance(1, 2);
    if (c.chance(1, 2)) { // entropy that leads to a counter block shortly before a carry over the last 1-16 bytes
      int ones = (int)c.range(1, 16);
      for (int i = 16 - ones; i < 16; i++) e[32 + i] = 0xff;
      u64 back = c.draw(c.pick<u64>({4, 12, 300}));
      for (u64 i = 0; i < back; i++)
        for (int k = 47; k >= 32 && !e[k]--; k--) {}
      u8 z[32] = {}, v[16] = {}, t[16];
      ref::Rijndael ci(z, 8, 4);
      for (int i = 0; i < 3; i++) {
        v[15]++;
        ci.encrypt(v, t);
        for (int k = 0; k < 16; k++) e[16 * i + k] ^= t[k] ^ (pers ? q[16 * i + k] : 0);
      }
      c.label("crafted counter");
    }
    Buf be(e, 0), bq(q, 0);
    randombytes_init(be.data(), pers ? bq.data() : nullptr, (int)c.pick({256, 128, 0}));
    c.require(be.get() == e && bq.get() == q, "randombytes_init changed its inputs");
    m.init(e.data(), pers ? q.data() : nullptr);
    d += "init(" + hex(e, 8) + (pers ? ",pers)" : ")");
    c.note("init(" + hex(e, 8) + (pers ? ",pers)" : ")"));
    int k = (int)c.draw(13);
    while (k--) {
      size_t n = c.chance(1, 80) ? c.pick({(u64)4096, (u64)32768, (u64)65536, (u64)131072}) - 20 + c.draw(60) : c.length(5000, {16, 32, 48});
      Buf o(n, 0);
      bool rb = c.chance(1, 4);
      int r   = rb ? rand_bytes(o.data(), n) : randombytes(o.data(), n);
      c.eqi(r, 0, "result");
      Bytes w(n);
      m.gen(w.data(), n);
      d += " " + std::to_string(n);
      c.note(" " + std::to_string(n));
      c.eq(o.get(), w, "generator output after " + d);
      c.require(o.intact(), "generator wrote outside its buffer");
      h = pbt::hash_bytes(w.data(), n, h);
      any |= n > 0;
    }
  }
  if (any) c.nontrivial(h);
}
PROP(C21_kat,
     "a drawn 48-byte seed, parameter set and message, as the known-answer tool uses them: seed the generator, crypto_sign_keypair, "
     "crypto_sign; public key, secret key and signed message must be the model's function of the seed (unusable draws redrawn), a second "
     "run with the same seed must give the same, and crypto_sign_open must return the message; every case non-trivial; distinct by seed and set") {
  const auto& p = ref::param(pick_set(c));
  const Api& a  = api(p.id);
  Nist N        = nist(p.id);
  Bytes seed = c.bytes(48), m = c.bytes(c.length(3300, {33}));
  c.note(std::string("set=") + p.name + " seed=" + hex(seed, 48) + " mlen=" + std::to_string(m.size()));
  c.label(std::string("set ") + p.name);
  Drbg g;
  g.init(seed.data(), nullptr);
  Bytes sk(p.sk());
  int redraws = -1;
  do g.gen(sk.data(), sk.size()), redraws++;
  while (!ref::owf_sk(p, sk.data()).usable());
  c.label(redraws ? "with redraws" : "first draw usable");
  Bytes rho(p.LB());
  g.gen(rho.data(), rho.size());
  Bytes want(m), s = ref::sign(p, sk.data(), m.data(), m.size(), rho.data(), rho.size());
  want.insert(want.end(), s.begin(), s.end());
  for (int run = 0; run < 2; run++) {
    Bytes pk2(a.pk), sk2(a.sk), sm(m.size() + a.sig), mo(m.size() + a.sig);
    unsigned long long smlen = 0, mlen = 0;
    randombytes_init(seed.data(), nullptr, 256);
    c.eqi(N.keypair(pk2.data(), sk2.data()), 0, "crypto_sign_keypair");
    c.eq(sk2, sk, "secret key");
    c.eq(pk2, ref::pk_of_sk(p, sk.data()), "public key");
    c.eqi(N.sign(sm.data(), &smlen, nz(m), m.size(), sk2.data()), 0, "crypto_sign");
    c.eqi((long long)smlen, (long long)want.size(), "signed message length");
    c.eq(sm, want, "signed message");
    if (!run) {
      c.eqi(N.open(mo.data(), &mlen, sm.data(), smlen, pk2.data()), 0, "crypto_sign_open");
      mo.resize(mlen);
      c.eq(mo, m, "opened message");
    }
  }
  c.nontrivial(pbt::hash_bytes(seed.data(), 48, p.id));
}
