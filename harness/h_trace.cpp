// Runs library code instrumented at every basic block and memory access on pairs of secrets with equal
// public values and compares the sequences of blocks and addresses.
#include "api.hpp"
#include "keys.hpp"
#include <algorithm>
#include <dlfcn.h>
#include <memory>
extern "C" {
#ifndef API_ONLY
#include "compat.h"
#include "aes.h"
#include "faest_aes.h"
#include "fields.h"
#include "instances.h"
#include "random_oracle.h"
#include "universal_hashing.h"
#include "vc.h"
#include "vole.h"
#endif
}
#define NOTRACE __attribute__((no_sanitize("all")))

namespace {
// ------------------------------------------------------------------------------ events
struct Trace {
  u64 h = 0, n = 0;
  std::vector<u64> chunks; // running hash after every CHUNK events
};
constexpr u64 CHUNK = 1 << 14;
bool on; // between start and stop of a traced run
u64 th, tn;
u64 lo, hi;                   // recorded window of event numbers
struct Ev { u64 pc, what; };
std::vector<u64>* chunks;
std::vector<Ev>* record;
u8* arena;
constexpr size_t ARENA = 4ULL << 30;
size_t apos, abase, alive, alive_bytes;
struct Force { // overwrite part of the n-th hash output of a run
  u64 at;
  size_t off;
  u8 b[64];
  size_t n;
};
u64 squeezes, forced;
std::vector<Force> forces;
std::vector<Bytes>* outputs; // of all hash squeezes, when wanted

inline u64 norm(const void* p) {
  u64 a = (u64)p;
  return arena && a >= (u64)arena && a < (u64)arena + ARENA ? a - (u64)arena - abase + 0x1000000000000ULL : a;
}
void event_slow(u64 pc, u64 w) {
  if (tn % CHUNK == 0) {
    bool o = on;
    on     = false;
    chunks->push_back(th);
    on = o;
  }
  if (record && tn >= lo && tn < hi) {
    bool o = on;
    on     = false;
    record->push_back({pc, w});
    on = o;
  }
}
inline void event(u64 pc, u64 w) {
  th = (th ^ (w + pc * 31)) * 0x9e3779b97f4a7c15ULL;
  th ^= th >> 29;
  tn++;
  if (__builtin_expect(tn % CHUNK == 0 || record, 0)) event_slow(pc, w);
}
} // namespace
#define PC ((u64)__builtin_return_address(0))
#define ACC(k) \
  if (on) event(PC, norm(p) * 16 + (k))
extern "C" {
void __sanitizer_cov_trace_pc() {
  if (on) event(PC, 1);
}
void __asan_load1_noabort(void* p) { ACC(1); }
void __asan_load2_noabort(void* p) { ACC(2); }
void __asan_load4_noabort(void* p) { ACC(3); }
void __asan_load8_noabort(void* p) { ACC(4); }
void __asan_load16_noabort(void* p) { ACC(5); }
void __asan_loadN_noabort(void* p, size_t n) { ACC(6 + (n << 52)); }
void __asan_store1_noabort(void* p) { ACC(7); }
void __asan_store2_noabort(void* p) { ACC(8); }
void __asan_store4_noabort(void* p) { ACC(9); }
void __asan_store8_noabort(void* p) { ACC(10); }
void __asan_store16_noabort(void* p) { ACC(11); }
void __asan_storeN_noabort(void* p, size_t n) { ACC(12 + (n << 52)); }
void __asan_handle_no_return() {}

// ---- library functions called by the code under test
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
int __real_strncmp(const char*, const char*, size_t);
void* __real_memchr(const void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (on) event(PC, norm(d) * 16 + 13), event(PC, norm(s) * 16 + 13), event(PC, n);
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (on) event(PC, norm(d) * 16 + 14), event(PC, norm(s) * 16 + 14), event(PC, n);
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n) {
  if (on) event(PC, norm(d) * 16 + 15), event(PC, n);
  return __real_memset(d, v, n);
}
// comparison stops at the first difference: how far it gets is observable
static size_t common(const u8* a, const u8* b, size_t n) {
  size_t i = 0;
  while (i < n && a[i] == b[i]) i++;
  return i;
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  if (on) event(PC, norm(a)), event(PC, norm(b)), event(PC, n), event(PC, common((const u8*)a, (const u8*)b, n));
  return __real_memcmp(a, b, n);
}
int __wrap_bcmp(const void* a, const void* b, size_t n) {
  if (on) event(PC, norm(a)), event(PC, norm(b)), event(PC, n), event(PC, common((const u8*)a, (const u8*)b, n));
  return __real_memcmp(a, b, n);
}
int __wrap_strncmp(const char* a, const char* b, size_t n) {
  if (on) event(PC, common((const u8*)a, (const u8*)b, n));
  return __real_strncmp(a, b, n);
}
void* __wrap_memchr(const void* a, int v, size_t n) {
  void* r = __real_memchr(a, v, n);
  if (on) event(PC, r ? (u64)((u8*)r - (u8*)a) : n);
  return r;
}
// ---- the challenge that ends a signature is public: it can be given the same value in both runs
int __real_Keccak_HashSqueeze(void*, u8*, size_t);
int __wrap_Keccak_HashSqueeze(void* h, u8* out, size_t bits) {
  int r = __real_Keccak_HashSqueeze(h, out, bits);
  bool o = on;
  on     = false;
  if (outputs) outputs->emplace_back(out, out + std::min<size_t>(bits / 8, 512));
  for (auto& f : forces)
    if (f.at == squeezes && f.off + f.n <= bits / 8) {
      __real_memcpy(out + f.off, f.b, f.n);
      forced++;
    }
  squeezes++;
  on = o;
  return r;
}

// ---- heap: in a traced run allocations come from an arena in order
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
static bool in_arena(void* p) { return arena && (u8*)p >= arena && (u8*)p < arena + ARENA; }
static void* take(size_t n, size_t al) {
  size_t o = (apos + 32 + al - 1) / al * al;
  if (o + n > ARENA) abort();
  apos = o + n;
  alive++;
  ((size_t*)(arena + o))[-1] = n;
  event(0, n * 2 + 1);
  return arena + o;
}
void* malloc(size_t n) { return on ? take(n, 16) : __libc_malloc(n); }
void free(void* p) {
  if (in_arena(p)) {
    alive--;
    if (on) event(0, norm(p));
  } else __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (!on) return __libc_calloc(a, b);
  u8* p = (u8*)take(a * b, 16);
  for (size_t i = 0; i < a * b; i++) p[i] = 0;
  return p;
}
void* realloc(void* p, size_t n) {
  if (!on && !in_arena(p)) return __libc_realloc(p, n);
  void* q = malloc(n);
  if (p) {
    size_t k = in_arena(p) ? ((size_t*)p)[-1] : n;
    __real_memcpy(q, p, k < n ? k : n);
    free(p);
  }
  return q;
}
void* memalign(size_t a, size_t n) { return on ? take(n, a < 16 ? 16 : a) : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) {
  *r = memalign(a, n);
  return *r ? 0 : ENOMEM;
}
}

namespace {
void start(std::vector<u64>& ch) {
  if (!arena) {
    arena = (u8*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED) _exit(2);
  }
  if (!alive) apos = 0;
  apos = abase = (apos + 4095) / 4096 * 4096;
  th = 1, tn = 0;
  squeezes = 0;
  forced   = 0;
  ch.clear();
  ch.reserve(1 << 16);
  chunks = &ch;
}
// fn(x): one run with secret number x, with all buffers of the caller prepared beforehand
struct Runs {
  std::function<void(int)> fn;
  Trace run(int x, std::vector<Ev>* rec = nullptr, u64 from = 0, u64 to = 0) {
    Trace t;
    record = rec, lo = from, hi = to;
    if (rec) rec->clear();
    start(t.chunks);
    fn(x); // sets on around the call
    t.h = th, t.n = tn;
    record = nullptr;
    return t;
  }
  static std::string where(u64 pc) {
    char b[64];
    Dl_info i;
    if (pc && dladdr((void*)pc, &i)) {
      std::string s = i.dli_sname ? i.dli_sname : "?";
      snprintf(b, sizeof b, " (%#lx)", (unsigned long)(pc - (u64)i.dli_fbase));
      return s + b;
    }
    return "an allocation";
  }
  std::string explain(const Trace& a, const Trace& b, int xa, int xb) {
    size_t k = 0;
    while (k < a.chunks.size() && k < b.chunks.size() && a.chunks[k] == b.chunks[k]) k++;
    std::vector<Ev> ra, rb;
    u64 from = k * CHUNK, to = from + CHUNK + 2;
    if (from) from--;
    run(xa, &ra, from, to);
    run(xb, &rb, from, to);
    for (size_t i = 0; i < ra.size() && i < rb.size(); i++)
      if (ra[i].pc != rb[i].pc || ra[i].what != rb[i].what) {
        std::string prev = i ? " after " + where(ra[i - 1].pc) : "";
        return "event " + std::to_string(from + i) + prev + ": " + (ra[i].what == 1 ? "block in " : "access in ") + where(ra[i].pc) + " against " +
               (rb[i].what == 1 ? "block in " : "access in ") + where(rb[i].pc);
      }
    return "different number of events";
  }
};
struct On {
  On() { on = true; }
  ~On() { on = false; }
};
void compare(Ctx& c, Runs& r, const std::string& what, int na = 0, int nb = 1) {
  Trace a = r.run(na), b = r.run(nb);
  if (a.h != b.h || a.n != b.n) {
    a        = r.run(na); // caches of the run time are warm now
    Trace a2 = r.run(na);
    b        = r.run(nb);
    if (a.h != a2.h || a.n != a2.n) { // not a function of its inputs: nothing can be concluded
      c.label("run not repeatable");
      throw pbt::Discard();
    }
  }
  if (a.h != b.h || a.n != b.n)
    c.fail(what + ": executed blocks or addresses depend on the secret: " + r.explain(a, b, na, nb) + " (" + std::to_string(a.n) + " and " +
           std::to_string(b.n) + " events)");
  c.label("events 10^" + std::to_string((int)log10((double)a.n + 1)));
  if (!a.n) throw pbt::Discard();
}
// two private keys with the same one-way-function input
std::pair<Bytes, Bytes> two_keys(Ctx& c, const ref::Params& p) {
  for (int t = 0; t < 50; t++) {
    Bytes in = c.bytes(p.owf_in()), k[2];
    int ok   = 0;
    for (int j = 0; j < 2; j++) {
      k[j] = c.bytes(p.LB());
      pbt::Rng r(c.draw(0));
      for (int t2 = 0; t2 < 200; t2++) {
        if (ref::owf(p, k[j].data(), in.data()).usable()) {
          ok++;
          break;
        }
        if (t2 < 100) k[j][r.next() % k[j].size()] = (u8)r.next();
        else
          for (auto& x : k[j]) x = (u8)r.next();
      }
    }
    if (ok == 2 && k[0] != k[1]) {
      Bytes a(in), b(in);
      a.insert(a.end(), k[0].begin(), k[0].end());
      b.insert(b.end(), k[1].begin(), k[1].end());
      return {a, b};
    }
  }
  throw pbt::Discard();
}
int set_for(Ctx& c) {
  if (const char* e = getenv("C20_SETS")) {
    std::vector<int> v;
    for (const char* q = e; *q; q++)
      if (q == e || q[-1] == ',') v.push_back(atoi(q));
    return v[c.strat(v.size())];
  }
  return pick_set12(c);
}
} // namespace

PROP(C20_keys,
     "pairs of usable private keys with the same one-way-function input (structured, sparse, extreme bytes, random): validation of each "
     "with its public key, validation of both against one public key that differs from both images at different drawn places, and key "
     "generation when the draws deliver one or the other; the two sequences of executed blocks and accessed addresses must be equal; "
     "non-trivial = the operation ran instrumented code, repeatably, on two different keys; distinct by keys and operation") {
  const auto& p = ref::param(set_for(c));
  const Api& a  = api(p.id);
  unsigned op   = (unsigned)c.strat(3);
  auto k        = two_keys(c, p);
  Bytes sk[2]   = {k.first, k.second}, pk[2] = {ref::pk_of_sk(p, sk[0].data()), ref::pk_of_sk(p, sk[1].data())};
  size_t oin    = p.owf_in();
  c.note(std::string("set=") + p.name + " sk1=" + hex(sk[0], 64) + " sk2=" + hex(sk[1], 64));
  static const char* on_[] = {"validation of a matching pair", "validation of a pair that does not match", "key generation"};
  c.label(std::string("set ") + p.name);
  c.label(on_[op]);
  std::vector<u8> bs(p.sk()), bp(p.pk());
  Runs r;
  if (op == 0 || op == 1) {
    if (op == 1)
      for (int j = 0; j < 2; j++) { // differ in the output part, at different places
        size_t at = oin + c.draw(pk[j].size() - oin);
        pk[j][at] ^= (u8)c.range(1, 255);
        if (c.chance(1, 2)) pk[j][oin + c.draw(pk[j].size() - oin)] ^= 0x10;
      }
    r.fn = [&](int x) {
      std::copy(sk[x].begin(), sk[x].end(), bs.begin());
      std::copy(pk[x].begin(), pk[x].end(), bp.begin());
      On o;
      a.validate(bp.data(), bs.data());
    };
  } else {
    r.fn = [&](int x) {
      size_t pos   = 0;
      g_feed.nolog = true;
      g_feed.fn    = [&, x](u8* b, size_t n) {
        bool o = on;
        on     = false;
        for (size_t i = 0; i < n; i++) b[i] = sk[x][pos++ % p.sk()];
        on = o;
        return (ssize_t)n;
      };
      On o;
      a.keygen(bp.data(), bs.data());
    };
  }
  compare(c, r, std::string(p.name) + " " + on_[op]);
  c.nontrivial(pbt::hash_bytes(sk[0].data(), p.sk(), pbt::hash_bytes(sk[1].data(), p.sk(), op)));
}

#ifndef API_ONLY
PROP(C20_compare,
     "comparison helper on ranges of 1-200 bytes: two pairs of unequal ranges that differ at drawn places (first, last, several, all "
     "bytes, one bit), or an equal pair against an unequal one: same blocks and addresses; non-trivial as above; distinct by contents") {
  size_t n = c.range(1, 200);
  Bytes a[2], b[2];
  for (int x = 0; x < 2; x++) {
    a[x] = c.bytes(n), b[x] = a[x];
    switch (c.draw(5)) {
    case 0: break;
    case 1: b[x][c.draw(n)] ^= (u8)(1 << c.draw(8)); break;
    case 2: b[x][0] ^= (u8)c.range(1, 255); break;
    case 3: b[x][n - 1] ^= (u8)c.range(1, 255); break;
    default: b[x] = c.bytes(n);
    }
  }
  std::vector<u8> p(n), q(n);
  Runs r;
  r.fn = [&](int x) {
    std::copy(a[x].begin(), a[x].end(), p.begin());
    std::copy(b[x].begin(), b[x].end(), q.begin());
    On o;
    faest_timingsafe_bcmp(p.data(), q.data(), n);
  };
  c.note("n=" + std::to_string(n) + " a=" + hex(a[0]) + " b=" + hex(b[0]) + " against a=" + hex(a[1]) + " b=" + hex(b[1]));
  compare(c, r, "comparison");
  c.nontrivial(pbt::hash_bytes(a[0].data(), n, pbt::hash_bytes(b[0].data(), n, pbt::hash_bytes(a[1].data(), n, pbt::hash_bytes(b[1].data(), n)))));
}
#endif

#ifndef API_ONLY
namespace {
template <int N> struct TF;
#define TFIELD(N)                                                                                                      \
  template <> struct TF<N> {                                                                                           \
    using T = bf##N##_t;                                                                                               \
    static T load(const u8* p) { return bf##N##_load(p); }                                                             \
    static T mul(T a, T b) { return bf##N##_mul(a, b); }                                                               \
    static T mul64(T a, bf64_t b) { return bf##N##_mul_64(a, b); }                                                     \
    static T combine(const T* x) { return bf##N##_byte_combine(x); }                                                   \
    static T combine_bits(u8 x) { return bf##N##_byte_combine_bits(x); }                                               \
    static T sum(const T* x) { return bf##N##_sum_poly(x); }                                                           \
    static void vh(u8* h, const u8* sd, const u8* x, unsigned ell) { vole_hash_##N(h, sd, x, ell); }                   \
    static void zk(u8* h, const u8* sd, const T* x, unsigned n) { zk_hash_##N(h, sd, x, n); }                          \
  };
TFIELD(128) TFIELD(192) TFIELD(256)

// secret field elements: zero, small, sparse, short, all ones, random
void elements(Ctx& c, Bytes& b, size_t es) {
  for (size_t i = 0; i + es <= b.size(); i += es) {
    Bytes e = c.bytes(es);
    unsigned k = (unsigned)c.draw(6);
    if (k == 0) std::fill(e.begin(), e.end(), 0);
    if (k == 1) std::fill(e.begin() + c.draw(es), e.end(), 0);
    if (k == 2) std::fill(e.begin(), e.begin() + c.draw(es), 0);
    std::copy(e.begin(), e.end(), b.begin() + i);
  }
}
template <int N> void part_field(Ctx& c) {
  using X = TF<N>;
  constexpr size_t ES = N / 8;
  unsigned op = (unsigned)c.strat(7);
  static const char* nm[] = {"multiplication", "multiplication by a 64-bit element", "byte_combine", "byte_combine_bits", "sum_poly", "GF(2^64) multiplication", "GF(2^8) multiplication and inversion"};
  size_t cnt = op == 2 ? 8 : op == 4 ? (size_t)N : 2;
  Bytes s[2] = {Bytes(cnt * ES), Bytes(cnt * ES)};
  for (auto& b : s) {
    if (op == 4) b = c.bytes(b.size());
    else elements(c, b, ES);
  }
  c.note(std::string("GF(2^") + std::to_string(N) + ") " + nm[op] + " " + hex(s[0], 64) + " against " + hex(s[1], 64));
  c.label(nm[op]);
  typename X::T* el = (typename X::T*)aligned_alloc(64, 256 * 64);
  std::unique_ptr<void, void (*)(void*)> hold(el, [](void* q) { free(q); });
  u8 sink[64];
  Runs r;
  r.fn = [&](int x) {
    for (size_t i = 0; i < cnt; i++) el[i] = X::load(&s[x][i * ES]);
    bf64_t h[2] = {bf64_load(&s[x][0]), bf64_load(&s[x][ES])};
    typename X::T out = el[0];
    bf64_t o64 = 0;
    u8 o8 = 0;
    {
      On o;
      switch (op) {
      case 0: out = X::mul(el[0], el[1]); break;
      case 1: out = X::mul64(el[0], h[1]); break;
      case 2: out = X::combine(el); break;
      case 3: out = X::combine_bits(s[x][0]); break;
      case 4: out = X::sum(el); break;
      case 5: o64 = bf64_mul(h[0], h[1]); break;
      default: o8 = bf8_mul(s[x][0], s[x][ES]) ^ bf8_inv(s[x][0]);
      }
    }
    memcpy(sink, &out, ES < 16 ? 16 : ES);
    sink[0] ^= (u8)o64 ^ o8;
    asm volatile("" ::"r"(sink) : "memory");
  };
  compare(c, r, std::string("GF(2^") + std::to_string(N) + ") " + nm[op]);
  c.nontrivial(pbt::hash_bytes(s[0].data(), s[0].size(), pbt::hash_bytes(s[1].data(), s[1].size(), op)));
}
template <int N> void part_hash(Ctx& c) { // public seed, secret data
  using X = TF<N>;
  constexpr size_t ES = N / 8;
  bool zk = c.chance(1, 2);
  Bytes sd = c.bytes(5 * ES + 8);
  size_t cnt = c.range(1, 6), extra = c.draw(ES / 8) * 8; // whole and partial last block
  unsigned ell = (unsigned)((cnt * ES + extra) * 8);
  Bytes s[2];
  for (auto& b : s) b = Bytes((cnt + 3) * ES + extra + 2 + ES), elements(c, b, ES);
  c.note(std::string(zk ? "zk_hash " : "vole_hash ") + std::to_string(N) + " ell=" + std::to_string(zk ? cnt : ell) + " " + hex(s[0], 64) + " against " + hex(s[1], 64));
  c.label(zk ? "zk_hash" : "vole_hash");
  std::vector<u8> x(s[0].size()), h(ES + 2);
  typename X::T* el = (typename X::T*)aligned_alloc(64, 16 * 64);
  std::unique_ptr<void, void (*)(void*)> hold(el, [](void* q) { free(q); });
  Runs r;
  r.fn = [&](int k) {
    std::copy(s[k].begin(), s[k].end(), x.begin());
    for (size_t i = 0; i <= cnt; i++) el[i] = X::load(&x[i * ES]);
    On o;
    if (zk) X::zk(h.data(), sd.data(), el, (unsigned)cnt);
    else X::vh(h.data(), sd.data(), x.data(), ell);
  };
  compare(c, r, zk ? "zk_hash" : "vole_hash");
  c.nontrivial(pbt::hash_bytes(s[0].data(), s[0].size(), pbt::hash_bytes(s[1].data(), s[1].size(), zk)));
}
} // namespace
PROP(C20_parts,
     "the operations that signing applies to secrets, each on two drawn secrets (zero, short, sparse, all ones, structured, random) with equal "
     "public inputs: field multiplications, inversion, byte embedding and summation; both universal hashes; seed expansion; vector commitment "
     "of a drawn depth; seeds to columns; hashing; witness extension; same blocks and addresses; non-trivial = instrumented code ran "
     "repeatably; distinct by operation and secrets") {
  unsigned part = (unsigned)c.strat(10), li = (unsigned)c.strat(3);
  const unsigned lam = 128 + 64 * li, LB = lam / 8;
  if (part < 4) {
    if (li == 0) part_field<128>(c);
    else if (li == 1) part_field<192>(c);
    else part_field<256>(c);
    return;
  }
  if (part < 6) {
    if (li == 0) part_hash<128>(c);
    else if (li == 1) part_hash<192>(c);
    else part_hash<256>(c);
    return;
  }
  Runs r;
  Bytes iv = c.bytes(16), s[2];
  u64 pub = 0;
  std::string what;
  if (part == 6) { // seed expansion
    for (auto& b : s) b = c.bytes(LB);
    size_t n = c.range(1, 100);
    auto key = std::make_shared<Bytes>(LB), out = std::make_shared<Bytes>(n);
    what = "seed expansion", pub = n;
    r.fn = [=, &s](int x) {
      std::copy(s[x].begin(), s[x].end(), key->begin());
      On o;
      prg(key->data(), iv.data(), out->data(), lam, n);
    };
    compare(c, r, what);
  } else if (part == 7) { // vector commitment
    unsigned depth = (unsigned)c.range(1, c.chance(1, 8) ? 9 : 5);
    faest_paramset_t ps = faest_get_paramset((faest_paramid_t)(2 * li + 2));
    for (auto& b : s) b = c.bytes(LB);
    auto key = std::make_shared<Bytes>(LB);
    what = "vector commitment of depth " + std::to_string(depth), pub = depth;
    r.fn = [=, &s](int x) {
      std::copy(s[x].begin(), s[x].end(), key->begin());
      vec_com_t v;
      {
        On o;
        vector_commitment(key->data(), iv.data(), &ps, lam, &v, depth);
      }
      vec_com_clear(&v);
    };
    compare(c, r, what);
  } else if (part == 8) { // seeds to columns
    unsigned depth = (unsigned)c.range(1, 5), len = (unsigned)c.range(1, 60);
    size_t N = (size_t)1 << depth;
    for (auto& b : s) b = c.bytes(N * LB);
    auto sd = std::make_shared<Bytes>(N * LB), u = std::make_shared<Bytes>(len), v = std::make_shared<Bytes>((size_t)depth * len);
    what = "columns of depth " + std::to_string(depth), pub = depth * 1000 + len;
    r.fn = [=, &s](int x) {
      std::copy(s[x].begin(), s[x].end(), sd->begin());
      On o;
      ConvertToVole(iv.data(), sd->data(), false, lam, depth, len, u->data(), v->data());
    };
    compare(c, r, what);
  } else if (c.chance(1, 2)) { // hashing
    size_t n = c.length(400), k = c.range(1, 200);
    for (auto& b : s) b = c.bytes(n);
    auto in = std::make_shared<Bytes>(n + 1), out = std::make_shared<Bytes>(k);
    what = "hashing of " + std::to_string(n) + " bytes", pub = n * 1000 + k;
    r.fn = [=, &s](int x) {
      std::copy(s[x].begin(), s[x].end(), in->begin());
      On o;
      H1_context_t h;
      H1_init(&h, lam);
      H1_update(&h, in->data(), n);
      H1_final(&h, out->data(), k);
    };
    compare(c, r, what);
  } else { // witness
    const auto& p = ref::param(pick_set12(c));
    auto k = two_keys(c, p);
    faest_paramset_t ps = faest_get_paramset((faest_paramid_t)p.id);
    size_t oin = p.owf_in();
    s[0] = k.first, s[1] = k.second;
    auto key = std::make_shared<Bytes>(p.LB());
    auto in  = std::make_shared<Bytes>(k.first.begin(), k.first.begin() + (long)oin);
    what = std::string("witness extension ") + p.name, pub = p.id;
    r.fn = [=, &s](int x) {
      std::copy(s[x].begin() + (long)oin, s[x].end(), key->begin());
      u8* w;
      {
        On o;
        w = aes_extend_witness(key->data(), in->data(), &ps);
      }
      free(w);
    };
    compare(c, r, what);
  }
  c.label(what.substr(0, what.find(" of ")));
  c.note(what + " level " + std::to_string(lam) + " iv=" + hex(iv) + " " + hex(s[0], 64) + " against " + hex(s[1], 64));
  c.nontrivial(pbt::hash_bytes(s[0].data(), s[0].size(), pbt::hash_bytes(s[1].data(), s[1].size(), pub * 16 + part)));
}
PROP(C20_prove,
     "aes_prove on two drawn (witness, u, V) with equal public input, output and challenge: usable keys' witnesses or other bytes, masks and "
     "columns zero, partly zero, all ones, repeated or random: same blocks and addresses; non-trivial = instrumented code ran repeatably; "
     "distinct by secrets") {
  const auto& p = ref::param(set_for(c));
  faest_paramset_t ps = faest_get_paramset((faest_paramid_t)p.id);
  const size_t LH = (size_t)p.LH(), LB = (size_t)p.LB(), WB = (size_t)p.ell() / 8;
  auto k = two_keys(c, p);
  const Bytes* sk[2] = {&k.first, &k.second};
  Bytes in(k.first.begin(), k.first.begin() + (long)p.owf_in()), out = c.bytes(p.owf_in()), ch2 = c.bytes(3 * LB + 8);
  Bytes w[2], u[2], V[2];
  u64 h = 0;
  std::string d;
  for (int x = 0; x < 2; x++) {
    w[x] = c.chance(3, 4) ? ref::extend_witness(p, sk[x]->data() + p.owf_in(), in.data()) : c.bytes(WB);
    u[x] = c.bytes(LH);
    V[x] = Bytes((size_t)p.lambda * LH);
    unsigned kind = (unsigned)c.draw(5);
    pbt::Rng r(c.draw(0));
    for (int j = 0; j < p.lambda; j++)
      for (size_t i = 0; i < LH; i++) {
        u8 b = (u8)r.next();
        switch (kind) {
        case 0: b = 0; break;
        case 1: b = j < p.lambda / 2 ? b : 0; break; // rows are short elements
        case 2: b = i % 16 < 8 ? b : 0; break;       // half of the rows are zero
        case 3: b = 0xff; break;
        }
        V[x][(size_t)j * LH + i] = b;
      }
    d += " V" + std::to_string(kind) + " w=" + hex(w[x], 16);
    h = pbt::hash_bytes(w[x].data(), WB, pbt::hash_bytes(V[x].data(), V[x].size(), h));
  }
  c.note(std::string("set=") + p.name + d);
  c.label(std::string("set ") + p.name);
  Bytes bw(WB), bu(LH), bV(V[0].size()), a(LB), b(LB);
  std::vector<u8*> pv((size_t)p.lambda);
  for (int j = 0; j < p.lambda; j++) pv[(size_t)j] = &bV[(size_t)j * LH];
  Runs r;
  r.fn = [&](int x) {
    bw = w[x], bu = u[x];
    std::copy(V[x].begin(), V[x].end(), bV.begin());
    On o;
    aes_prove(bw.data(), bu.data(), pv.data(), in.data(), out.data(), ch2.data(), a.data(), b.data(), &ps);
  };
  compare(c, r, std::string(p.name) + " proof");
  c.nontrivial(h);
}
#endif

PROP(C20_sign,
     "one message, rho and one-way-function input, two usable private keys (structured, sparse, extreme or random): both signing runs "
     "(with the public last challenge and IV forced to one drawn value each) must execute the same blocks and access the same addresses from the "
     "message hash to the openings; non-trivial = repeatable, forced, and the keys differ; distinct by keys and challenge") {
  const auto& p = ref::param(set_for(c));
  const Api& a  = api(p.id);
  auto k        = two_keys(c, p);
  Bytes sk[2]   = {k.first, k.second}, m = c.bytes(c.length(200));
  Rho rho       = gen_rho(c, p);
  Bytes ch = c.bytes(p.LB()), iv = c.bytes(16);
  c.note(std::string("set=") + p.name + " mlen=" + std::to_string(m.size()) + " rho=" + rho.str() + " sk1=" + hex(sk[0], 64) + " sk2=" + hex(sk[1], 64));
  c.label(std::string("set ") + p.name);
  std::vector<u8> bs(p.sk()), sig(p.sig());
  Runs r;
  r.fn = [&](int x) {
    std::copy(sk[x].begin(), sk[x].end(), bs.begin());
    size_t len = sig.size();
    On o;
    a.signr(bs.data(), nz(m), m.size(), rho.null ? nullptr : nz(rho.b), rho.b.size(), sig.data(), &len);
  };
  // public outputs that come from hashing secrets: IV and last challenge; find which squeeze makes them
  struct Clean {
    ~Clean() { forces.clear(), outputs = nullptr; }
  } clean;
  std::vector<Bytes> outs;
  auto plain = [&] {
    size_t len = sig.size();
    squeezes   = forced = 0;
    a.signr(sk[0].data(), nz(m), m.size(), rho.null ? nullptr : nz(rho.b), rho.b.size(), sig.data(), &len);
  };
  outputs = &outs;
  plain();
  outputs = nullptr;
  auto force = [&](size_t off, const Bytes& val) {
    for (size_t i = outs.size(); i-- > 0;)
      for (size_t o = 0; o + val.size() <= outs[i].size(); o++)
        if (!memcmp(&outs[i][o], &sig[off], val.size())) {
          Force f{i, o, {}, val.size()};
          memcpy(f.b, val.data(), val.size());
          forces.push_back(f);
          return true;
        }
    return false;
  };
  bool ok = force(p.off_ch3(), ch) && force(p.off_iv(), iv);
  if (ok) {
    plain();
    ok = forced == 2 && !memcmp(&sig[p.off_ch3()], ch.data(), ch.size()) && !memcmp(&sig[p.off_iv()], iv.data(), 16);
  }
  if (!ok) {
    c.label("hash outputs of the signature not found, case skipped");
    throw pbt::Discard();
  }
  compare(c, r, std::string(p.name) + " signing");
  c.nontrivial(pbt::hash_bytes(sk[0].data(), p.sk(), pbt::hash_bytes(sk[1].data(), p.sk(), pbt::hash_bytes(ch.data(), ch.size()))));
}
