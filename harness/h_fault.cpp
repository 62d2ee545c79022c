// Verification with one bit of an intermediate value changed: every bit must count in the final comparison. The functions
// that produce the values are wrapped by the linker; where the library no longer has or calls one of them nothing is changed
// and nothing is required.
#include "api.hpp"
extern "C" {
#include "faest_aes.h"
#include "universal_hashing.h"
#include "KeccakHash.h"
}
// other interfaces than these cannot be wrapped (the check then goes without this stage)
static_assert(std::is_same<decltype(&vole_hash), void (*)(u8*, const u8*, const u8*, unsigned, uint32_t)>::value, "vole_hash");
static_assert(std::is_same<decltype(&aes_verify), u8* (*)(const u8*, u8**, const u8*, const u8*, const u8*, const u8*, const u8*, const faest_paramset_t*)>::value, "aes_verify");
static_assert(std::is_same<decltype(&Keccak_HashSqueeze), HashReturn (*)(Keccak_HashInstance*, BitSequence*, BitLength)>::value, "Keccak_HashSqueeze");
extern "C" {
int __real_Keccak_HashSqueeze(void*, u8*, size_t) __attribute__((weak));
void __real_vole_hash(u8*, const u8*, const u8*, unsigned, uint32_t) __attribute__((weak));
u8* __real_aes_verify(const u8*, u8**, const u8*, const u8*, const u8*, const u8*, const u8*, const void*) __attribute__((weak));
}
namespace {
enum Kind { SQUEEZE, VOLEHASH, BTILDE };
struct Plan {
  bool on = false, done = false;
  Kind kind;
  size_t call = 0, bit = 0, want = 0; // want: the exact output length in bytes, 0 for any
  size_t count[3] = {0, 0, 0};
  std::vector<size_t> lens; // of squeezes
} g;
void hit(Kind k, u8* out, size_t len) {
  if (!g.on) return;
  size_t i = g.count[k]++;
  if (k == SQUEEZE) g.lens.push_back(len);
  if (g.done || g.kind != k || g.call != i || g.bit >= 8 * len || len != g.want) return;
  out[g.bit / 8] ^= (u8)(1 << (g.bit % 8));
  g.done = true;
}
unsigned lb_of(size_t lambda) { return (unsigned)lambda / 8; }
} // namespace
static unsigned g_lb;
extern "C" {
int __wrap_Keccak_HashSqueeze(void* h, u8* o, size_t bits) {
  int r = __real_Keccak_HashSqueeze(h, o, bits);
  hit(SQUEEZE, o, bits / 8);
  return r;
}
void __wrap_vole_hash(u8* h, const u8* sd, const u8* x, unsigned ell, uint32_t lambda) {
  __real_vole_hash(h, sd, x, ell, lambda);
  hit(VOLEHASH, h, lb_of(lambda) + 2);
}
u8* __wrap_aes_verify(const u8* d, u8** q, const u8* c2, const u8* c3, const u8* a, const u8* in, const u8* out, const void* p) {
  u8* b = __real_aes_verify(d, q, c2, c3, a, in, out, p);
  hit(BTILDE, b, g_lb);
  return b;
}
}
PROP(C03_everybit,
     "the reference model signs a drawn message; the library first verifies the signature (must accept), then again while one drawn bit of one "
     "intermediate value of that verification is changed behind the library's back: of the message digest, the commitment hash, one of the three "
     "challenges, the hashed VOLE values (first and last five outputs of the hash function), one column's VOLE hash, or the value the proof yields; "
     "the changed run must refuse, so every bit of every value is bound by the final comparison; non-trivial = a bit was changed; distinct by "
     "signature, value and bit") {
  const auto& p = ref::param(pick_set(c));
  const Api& a  = api(p.id);
  g_lb          = (unsigned)p.LB();
  Bytes sk = usable_key(c, p), pk = ref::pk_of_sk(p, sk.data()), m = c.bytes(c.length(200)), rho = c.bytes(p.LB());
  Bytes sig = ref::sign(p, sk.data(), m.data(), m.size(), rho.data(), rho.size());
  c.note(std::string("set=") + p.name + " mlen=" + std::to_string(m.size()) + " sk=" + hex(sk));
  c.label(std::string("set ") + p.name);
  g    = Plan();
  g.on = true;
  int r = a.verify(pk.data(), nz(m), m.size(), sig.data(), sig.size());
  g.on  = false;
  c.eqi(r, 0, "verify result of the unchanged run");
  const Plan base = g;
  const size_t LB = p.LB(), nsq = base.count[SQUEEZE];
  int n = p.lambda == 128 ? 6 : 4;
  std::string did;
  while (n--) {
    Plan t;
    std::string what;
    unsigned k = (unsigned)c.draw(8);
    if (k < 6) {
      t.kind = SQUEEZE;
      if (nsq < 6) continue;
      static const char* nm[6] = {"final challenge", "second challenge", "hashed VOLE values", "first challenge", "commitment hash", "message digest"};
      const size_t len[6] = {LB, 3 * LB + 8, 2 * LB, 5 * LB + 8, 2 * LB, 2 * LB};
      t.call = k == 5 ? 0 : nsq - 1 - k;
      t.want = len[k];
      what   = nm[k];
      if (base.lens[t.call] != t.want) continue; // arranged in another way: nothing known about its parts
    } else if (k == 6) {
      t.kind = VOLEHASH;
      if (base.count[VOLEHASH] != (size_t)p.lambda) continue;
      t.call = c.draw(p.lambda);
      t.want = LB + 2;
      what   = "VOLE hash of a column";
    } else {
      t.kind = BTILDE;
      if (base.count[BTILDE] != 1) continue;
      t.want = LB;
      what   = "value of the proof";
    }
    // the bits at the end are the ones a shortened comparison loses
    size_t bits = 8 * t.want;
    t.bit = c.chance(1, 2) ? c.draw(bits) : c.chance(1, 2) ? bits - 1 - c.draw(std::min<size_t>(bits, 64)) : c.draw(std::min<size_t>(bits, 64));
    t.on = true;
    g    = t;
    r    = a.verify(pk.data(), nz(m), m.size(), sig.data(), sig.size());
    g.on = false;
    if (!g.done) continue;
    c.label(what);
    did += " " + what + " bit " + std::to_string(t.bit);
    c.require(r != 0, "accepted although bit " + std::to_string(t.bit) + " of " + std::to_string(bits) + " of the " + what + " was changed");
  }
  if (!did.empty()) c.nontrivial(pbt::hash_str(did, pbt::hash_bytes(sig.data(), sig.size())));
  else c.label("no value could be changed");
}
