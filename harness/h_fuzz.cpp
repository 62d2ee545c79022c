// Arbitrary arguments for every public function, for builds with sanitizers.  Only crashes, aborts,
// hangs and sanitizer reports (and outputs made of uninitialised memory) count here.
#include "api.hpp"
#include "keys.hpp"
#include <algorithm>
#include <memory>
extern "C" {
__attribute__((weak)) void __msan_unpoison(const volatile void*, size_t);
__attribute__((weak)) void __msan_allocated_memory(const volatile void*, size_t);
__attribute__((weak)) void __msan_scoped_disable_interceptor_checks(void);
__attribute__((weak)) void __msan_scoped_enable_interceptor_checks(void);
__attribute__((weak)) intptr_t __msan_test_shadow(const volatile void*, size_t);
}
namespace {
// the harness itself is not instrumented: library functions it calls must not check shadow memory
struct Off {
  Off() {
    if (__msan_scoped_disable_interceptor_checks) __msan_scoped_disable_interceptor_checks();
  }
} off;
struct On { // a call of the library under test
  On() {
    if (__msan_scoped_enable_interceptor_checks) __msan_scoped_enable_interceptor_checks();
  }
  ~On() {
    if (__msan_scoped_disable_interceptor_checks) __msan_scoped_disable_interceptor_checks();
  }
};
template <class F> auto lib(F f) {
  On on;
  return f();
}
void known(const void* p, size_t n) {
  if (__msan_unpoison) __msan_unpoison(p, n);
}
// heap block of exactly the wanted length, ending at a redzone, at a drawn misalignment
struct Heap {
  u8* base;
  size_t off, n;
  bool out;
  Heap(size_t n_, size_t mis, bool out_ = false) : base((u8*)malloc(n_ + mis)), off(mis), n(n_), out(out_) {
    if (!out) return;
    memset(base, 0x5c, n + mis);
    if (__msan_allocated_memory) __msan_allocated_memory(base + off, n);
  }
  Heap(const Bytes& b, size_t mis) : Heap(b.size(), mis) {
    if (!b.empty()) memcpy(base + off, b.data(), b.size());
    known(base, off + n);
  }
  ~Heap() { free(base); }
  Heap(const Heap&) = delete;
  u8* p() const { return base + off; }
  // outputs: n first bytes must be the result of the computation
  void written(size_t k, const char* what) {
    if (__msan_test_shadow) {
      intptr_t x = __msan_test_shadow(p(), k);
      if (x >= 0) {
        fprintf(stderr, "MemorySanitizer: %s byte %ld of %zu is uninitialised\n", what, (long)x, k);
        _exit(99);
      }
    }
    known(p(), n);
  }
};
// a signature: arbitrary bytes, or the library's own with changes
Bytes gen_sig(Ctx& c, const ref::Params& p, const Api& a, const Bytes& sk, const Bytes& m, std::string& d) {
  size_t L = p.sig();
  unsigned k = (unsigned)c.draw(5);
  Bytes s;
  if (k < 2) {
    s = k ? c.bytes(L) : c.random_bytes(L);
    d += k ? " sig=structured" : " sig=random";
  } else {
    s.resize(L);
    size_t l = L;
    Heap hs(sk, 0), hm(m, 0), o(L, 0, true);
    known(&l, sizeof l);
    if (lib([&] { return a.signr(hs.p(), hm.p(), m.size(), nullptr, 0, o.p(), &l); })) {
      s = c.bytes(L);
      d += " sig=structured";
    } else {
      o.written(L, "signature");
      memcpy(s.data(), o.p(), L);
      d += " sig=own";
    }
    if (k > 2) {
      size_t cnt = c.range(1, 5);
      for (size_t i = 0; i < cnt; i++) {
        switch (c.draw(4)) {
        case 0: s[c.draw(L)] = (u8)c.draw(256); break;
        case 1: { // the last part: challenge and IV
          size_t t = p.LB() + 16;
          s[L - t + c.draw(t)] = (u8)c.draw(256);
          break;
        }
        case 2: {
          size_t o = c.draw(L), n = std::min<size_t>(L - o, c.range(1, 64));
          memset(&s[o], (int)c.pick<int>({0, 255, 0x80}), n);
          break;
        }
        default: {
          size_t o = c.draw(L), q = c.draw(L), n = std::min({L - o, L - q, (size_t)c.range(1, 200)});
          memmove(&s[o], &s[q], n);
        }
        }
      }
      d += " changed " + std::to_string(cnt);
    }
  }
  if (c.chance(1, 4)) { // other lengths
    size_t n;
    switch (c.draw(5)) {
    case 0: n = L - 1; break;
    case 1: n = L + 1; break;
    case 2: n = c.draw(L); break;
    case 3: n = c.draw(64); break;
    default: n = L + c.draw(300);
    }
    s.resize(n, 0x3c);
    d += " len=" + std::to_string(n);
  }
  return s;
}
} // namespace

PROP(C07_api,
     "for a set (systematic) arbitrary bytes are drawn as private key, public key, message, rho, signature (random, structured, the "
     "library's own, or its own changed at 1-5 places), with wrong lengths, in heap blocks of exact size at drawn misalignments; key "
     "generation, validation, both signing functions, verification and clearing are called; a sanitizer report, crash, abort, hang or an "
     "output byte made of uninitialised memory is a violation; every case non-trivial; distinct by arguments") {
  int id;
  if (const char* e = getenv("C07_FAST")) {
    static const int small[2] = {8, 2}, fast[6] = {8, 2, 10, 4, 12, 6};
    id = *e == '2' ? small[c.strat(2)] : fast[c.strat(6)];
  } else id = pick_set(c);
  const auto& p = ref::param(id);
  const Api& a  = api(p.id);
  size_t mis    = c.draw(33);
  unsigned op   = (unsigned)c.draw(8);
  std::string d = std::string("set=") + p.name;
  Bytes sk = c.chance(1, 3) ? c.bytes(p.sk()) : usable_key(c, p);
  Bytes m  = c.chance(1, 60) ? c.bytes(c.draw(70000)) : c.bytes(c.length(1500));
  Rho rho  = gen_rho(c, p);
  Bytes pk = c.chance(1, 3) ? c.bytes(p.pk()) : ref::pk_of_sk(p, sk.data());
  u64 h    = pbt::hash_bytes(sk.data(), sk.size(), pbt::hash_bytes(m.data(), m.size(), (u64)(p.id * 8 + op)));
  Heap hsk(sk, mis), hpk(pk, mis / 2), hm(m, mis / 3), hr(rho.b, mis / 4);
  u64 feed = c.draw(0);
  unsigned mode = (unsigned)c.draw(8), bad = (unsigned)c.draw(3);
  unsigned calls = 0;
  g_feed.fn = [&](u8* b, size_t n) -> ssize_t {
    calls++;
    if (mode == 7 && calls > bad) return bad == 1 ? (ssize_t)(n / 2) : -1;
    pbt::Rng r(feed++);
    for (size_t i = 0; i < n; i++) b[i] = mode == 6 && calls <= bad ? 0 : (u8)r.next();
    known(b, n);
    return (ssize_t)n;
  };
  g_feed.nolog = true;
  known(&g_feed, sizeof g_feed);
  int r = 0;
  if (op < 4) { // verification
    Bytes s = gen_sig(c, p, a, sk, m, d);
    Heap hs(s, mis);
    r = lib([&] { return a.verify(hpk.p(), hm.p(), m.size(), hs.p(), s.size()); });
    h = pbt::hash_bytes(s.data(), s.size(), h);
    d += " verify=" + std::to_string(r);
    c.label("verify");
  } else if (op < 7) {
    size_t cap = p.sig() + (c.chance(1, 3) ? c.draw(100) : 0);
    if (c.chance(1, 10)) cap = c.draw(p.sig());
    Heap o(cap, mis, true);
    size_t len = cap;
    known(&len, sizeof len);
    if (op == 4) r = lib([&] { return a.sign(hsk.p(), hm.p(), m.size(), o.p(), &len); });
    else r = lib([&] { return a.signr(hsk.p(), m.empty() && c.chance(1, 2) ? nullptr : hm.p(), m.size(), rho.null ? nullptr : hr.p(), rho.b.size(), o.p(), &len); });
    if (!r) {
      if (__msan_test_shadow && __msan_test_shadow(&len, sizeof len) >= 0) _exit(99);
      o.written(p.sig(), "signature");
      h = pbt::hash_bytes(o.p(), p.sig(), h);
    }
    d += std::string(op == 4 ? " sign=" : " sign_with_randomness=") + std::to_string(r);
    c.label("sign");
  } else {
    Heap opk(p.pk(), mis, true), osk(p.sk(), mis / 2, true);
    r = lib([&] { return a.keygen(opk.p(), osk.p()); });
    if (!r) {
      opk.written(p.pk(), "public key"), osk.written(p.sk(), "private key");
      r = lib([&] { return a.validate(opk.p(), osk.p()); });
      lib([&] { a.clear(osk.p()); });
    }
    r += lib([&] { return a.validate(hpk.p(), hsk.p()); });
    lib([&] { a.clear(hsk.p()); });
    hsk.written(p.sk(), "cleared key");
    d += " keygen/validate/clear";
    c.label("keygen, validate, clear");
  }
  g_feed.fn = nullptr;
  c.note(d + " mlen=" + std::to_string(m.size()) + " rho=" + rho.str() + " sk=" + hex(sk, 12) + " mis=" + std::to_string(mis));
  c.label(std::string("set ") + p.name);
  c.nontrivial(h);
}
