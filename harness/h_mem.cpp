// Heap accounting: every allocation function of the process is replaced by a recording one.
#include "api.hpp"
#include <dirent.h>
#include <malloc.h>
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
namespace {
// open-addressing table of live blocks
constexpr size_t N = 1 << 20;
struct Ent { void* p; size_t n; u64 seq; };
Ent* tab;
u64 seqno, live_n, live_b, peak_b, allocs, unknown_free, maps;
bool on; // count only inside library calls
inline size_t slot(void* p) { return (size_t)(pbt::mix64((u64)p) & (N - 1)); }
void table() {
  if (!tab) {
    tab = (Ent*)mmap(nullptr, N * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (tab == MAP_FAILED) _exit(2);
  }
}
void* add(void* p, size_t n) {
  table();
  if (!p) return p;
  size_t i = slot(p);
  while (tab[i].p) i = (i + 1) & (N - 1);
  tab[i] = {p, n, ++seqno};
  live_n++;
  live_b += n;
  if (live_b > peak_b) peak_b = live_b;
  if (on) allocs++;
  return p;
}
bool del(void* p) {
  table();
  for (size_t i = slot(p); tab[i].p; i = (i + 1) & (N - 1))
    if (tab[i].p == p) {
      live_n--;
      live_b -= tab[i].n;
      for (size_t j = i;;) { // close the gap
        tab[i].p = nullptr;
        size_t k;
        do {
          j = (j + 1) & (N - 1);
          if (!tab[j].p) return true;
          k = slot(tab[j].p);
        } while (i <= j ? (i < k && k <= j) : (i < k || k <= j));
        tab[i] = tab[j];
        i      = j;
      }
    }
  if (on) unknown_free++;
  return false;
}
} // namespace
extern "C" {
void* malloc(size_t n) { return add(__libc_malloc(n), n); }
void free(void* p) {
  if (!p) return;
  bool k = del(p);
  if (k || !on) __libc_free(p);
}
void* calloc(size_t a, size_t b) { return add(__libc_calloc(a, b), a * b); }
void* realloc(void* p, size_t n) {
  if (p && !del(p) && on) return nullptr;
  return add(__libc_realloc(p, n), n);
}
void* memalign(size_t a, size_t n) { return add(__libc_memalign(a, n), n); }
void* aligned_alloc(size_t a, size_t n) { return add(__libc_memalign(a, n), n); }
int posix_memalign(void** o, size_t a, size_t n) {
  void* p = add(__libc_memalign(a, n), n);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
}
namespace {
int open_fds() {
  int n  = 0;
  DIR* d = opendir("/proc/self/fd");
  while (d && readdir(d)) n++;
  if (d) closedir(d);
  return n;
}
struct Span { // one library call under accounting
  u64 n0, b0;
  Span() {
    n0     = live_n;
    b0     = live_b;
    peak_b = live_b;
    on     = true;
    unknown_free = 0;
    allocs = 0;
  }
  void end() { on = false; }
  u64 peak() const { return peak_b - b0; }
};
u64 base_peak[13][3]; // keygen/validate, sign, verify with a short message
void warm(const ref::Params& p) {
  if (base_peak[p.id][1]) return;
  const Api& a = api(p.id);
  Bytes pk(a.pk), sk(a.sk), sig(a.sig), m(3, 1);
  auto keep = g_feed.fn;
  g_feed.fn = nullptr;
  for (int i = 0; i < 2; i++) {
    size_t len = a.sig;
    Span s;
    a.keygen(pk.data(), sk.data());
    a.validate(pk.data(), sk.data());
    base_peak[p.id][0] = s.peak();
    s.end();
    Span s1;
    a.sign(sk.data(), m.data(), 3, sig.data(), &len);
    base_peak[p.id][1] = s1.peak();
    s1.end();
    Span s2;
    a.verify(pk.data(), m.data(), 3, sig.data(), len);
    base_peak[p.id][2] = s2.peak();
    s2.end();
  }
  Bytes z(sig);
  for (size_t o : {(size_t)0, p.off_ut(), p.off_d(), p.off_at(), p.off_open(0), p.off_ch3(), p.off_iv()}) {
    z[o] ^= 1;
    a.verify(pk.data(), m.data(), 3, z.data(), z.size());
    z[o] ^= 1;
  }
  g_feed.fn = keep;
}
} // namespace
PROP(C23_leaks,
     "after warming up a set (one-time caches), a drawn sequence of 2-6 calls - key generation (with redraws or a failing random source), "
     "validation, signing, refused signing, verification of valid, tampered (component drawn) and wrong-length signatures, long and short "
     "messages - runs with every allocation recorded: after each call live blocks, bytes, descriptors are exactly as before, no unknown "
     "block was freed, and peak use stays within the set's first-call peak plus 4 KiB; non-trivial = a call allocated; distinct by sequence") {
  const auto& p = ref::param(pick_set(c));
  const Api& a  = api(p.id);
  g_feed.nolog = true;
  warm(p);
  Bytes sk = usable_key(c, p, false), pk = ref::pk_of_sk(p, sk.data());
  Bytes sig(a.sig), m;
  bool have = false;
  int n = (int)c.range(2, 6);
  std::string d = std::string("set=") + p.name;
  u64 tot = 0;
  for (int i = 0; i < n; i++) {
    unsigned op = (unsigned)c.draw(9);
    Bytes x, y;
    std::string what;
    int fd0 = open_fds(), r = 0;
    u64 na = 0, nb = 0, n0, b0, pk_use, unk, lim;
    size_t len = a.sig;
    g_feed.fn  = nullptr;
    auto fin = [&](Span& s) {
      s.end();
      n0 = s.n0, b0 = s.b0, na = live_n, nb = live_b, pk_use = s.peak(), unk = unknown_free;
      tot += allocs;
    };
    switch (op) {
    case 0: {
      unsigned bad = (unsigned)c.draw(4);
      bool broken  = c.chance(1, 3);
      x.resize(a.pk), y.resize(a.sk);
      unsigned k = 0;
      u64 sd = c.draw(0);
      struct Src { unsigned bad; bool broken; unsigned* k; u64 sd; } src{bad, broken, &k, sd};
      what = "keygen unusable draws=" + std::to_string(bad) + (broken ? " then failure" : "");
      g_feed.fn = [&src](u8* b, size_t n) -> ssize_t {
        if ((*src.k)++ < src.bad) memset(b, 0, n);
        else if (src.broken) { errno = EIO; return -1; }
        else { pbt::Rng r(src.sd + *src.k); for (size_t i = 0; i < n; i++) b[i] = (u8)r.next(); }
        return (ssize_t)n;
      };
      Span s;
      r = a.keygen(x.data(), y.data());
      fin(s);
      lim = base_peak[p.id][0];
      break;
    }
    case 1: {
      x = pk;
      if (c.draw(2)) x[c.draw(x.size())] ^= 1;
      y = c.draw(3) ? sk : c.bytes(a.sk);
      what = "validate";
      Span s;
      r = a.validate(x.data(), y.data());
      fin(s);
      lim = base_peak[p.id][0];
      break;
    }
    case 2:
    case 3: {
      m = c.bytes(c.chance(1, 6) ? c.range(50000, 300000) : c.length(300));
      x = c.bytes(c.length(200));
      what = "sign mlen=" + std::to_string(m.size()) + " rholen=" + std::to_string(x.size());
      Span s;
      r = a.signr(sk.data(), nz(m), m.size(), nz(x), x.size(), sig.data(), &len);
      fin(s);
      have = true;
      lim = base_peak[p.id][1];
      c.eqi(r, 0, "sign result");
      break;
    }
    case 4: {
      unsigned k = (unsigned)c.draw(4);
      x.assign(a.sig, 0);
      y = k == 0 ? Bytes(a.sk, 0) : sk;
      what = k == 0 ? "sign with the zero key" : k == 1 ? "sign with short buffer" : k == 2 ? "sign without randomness" : "sign with null rho";
      if (k == 1) len = c.draw(a.sig);
      if (k == 2) g_feed.fn = [](u8*, size_t) -> ssize_t { errno = EIO; return -1; };
      Span s;
      r = k == 2 ? a.sign(y.data(), nz(m), m.size(), x.data(), &len)
                 : a.signr(y.data(), nz(m), m.size(), nullptr, k == 3 ? 5 : 0, x.data(), &len);
      fin(s);
      lim = base_peak[p.id][1];
      break;
    }
    case 5: {
      x = have ? sig : c.bytes(a.sig);
      len = c.draw(2) ? c.draw(a.sig) : a.sig + c.range(1, 9);
      x.resize(a.sig + 10);
      what = "verify with length " + std::to_string(len);
      Span s;
      r = a.verify(pk.data(), nz(m), m.size(), x.data(), len);
      fin(s);
      lim = base_peak[p.id][2];
      break;
    }
    case 6: {
      x = c.bytes(a.sig);
      what = "verify of arbitrary bytes";
      Span s;
      r = a.verify(pk.data(), nz(m), m.size(), x.data(), a.sig);
      fin(s);
      lim = base_peak[p.id][2];
      break;
    }
    default: {
      x = sig;
      y = pk;
      size_t o[] = {c.draw(p.off_ut()), p.off_ut() + c.draw(p.LB()), p.off_d() + c.draw(p.ell() / 8), p.off_at() + c.draw(p.LB()),
                    p.off_open(0) + c.draw(p.off_ch3() - p.off_open(0)), p.off_ch3() + c.draw(p.LB()), p.off_iv() + c.draw(16)};
      unsigned k = (unsigned)c.draw(9);
      if (k < 7) x[o[k]] ^= (u8)c.range(1, 255);
      if (k == 7) y[c.draw(y.size())] ^= 1;
      what = "verify variant " + std::to_string(k);
      Span s;
      r = a.verify(y.data(), nz(m), m.size(), x.data(), a.sig);
      fin(s);
      lim = base_peak[p.id][2];
      break;
    }
    }
    g_feed.fn = nullptr;
    d += " | " + what + "=" + std::to_string(r);
    c.label(what.substr(0, what.find_first_of("=0123456789")));
    c.require(unk == 0, "freed " + std::to_string(unk) + " unknown or already freed blocks: " + d);
    {
      c.require(na == n0, std::to_string((long long)(na - n0)) + " heap blocks left behind: " + d);
      c.require(nb == b0, std::to_string((long long)(nb - b0)) + " heap bytes left behind: " + d);
    }
    c.require(pk_use <= lim + 4096, "peak heap use " + std::to_string(pk_use) + " exceeds the set's " + std::to_string(lim) + ": " + d);
    c.eqi(open_fds(), fd0, "open descriptors after " + d);
  }
  c.note(d);
  if (tot) c.nontrivial(pbt::hash_str(d, pbt::hash_bytes(sk.data(), sk.size())));
}
PROP(C23_growth,
     "one call kind of a drawn set is repeated 8-40 times with drawn arguments; live heap, descriptors and resident mappings after the "
     "last repetition must equal those after the second; every case non-trivial; distinct by kind, set and count") {
  const auto& p = ref::param(pick_set(c, false));
  const Api& a  = api(p.id);
  unsigned op   = (unsigned)c.strat(4);
  g_feed.nolog = true;
  warm(p);
  Bytes sk = usable_key(c, p, false), pk = ref::pk_of_sk(p, sk.data()), sig(a.sig), x(a.pk), y(a.sk);
  size_t len = a.sig;
  c.eqi(a.signr(sk.data(), pk.data(), 5, nullptr, 0, sig.data(), &len), 0, "sign");
  int n = (int)(op == 0 || op == 3 ? c.range(200, 2000) : c.range(8, 40));
  static const char* on[] = {"keygen+validate", "sign", "verify", "refused calls"};
  c.note(std::string("set=") + p.name + " " + on[op] + " x" + std::to_string(n));
  c.label(on[op]);
  auto count_maps = [] {
    char buf[4096];
    int fd = open("/proc/self/maps", O_RDONLY), k = 0;
    ssize_t r;
    while ((r = read(fd, buf, sizeof buf)) > 0)
      for (ssize_t i = 0; i < r; i++) k += buf[i] == '\n';
    close(fd);
    return k;
  };
  u64 n2 = 0, b2 = 0;
  int f2 = 0, m2 = 0;
  pbt::Rng rr(c.draw(0));
  for (int i = 0; i < n; i++) {
    u8 msg[64];
    for (auto& z : msg) z = (u8)rr.next();
    switch (op) {
    case 0: a.keygen(x.data(), y.data()); a.validate(x.data(), y.data()); break;
    case 1: len = a.sig; a.sign(sk.data(), msg, rr.next() % 64, sig.data(), &len); break;
    case 2: sig[rr.next() % sig.size()] ^= (u8)(rr.next() % 3); a.verify(pk.data(), pk.data(), 5, sig.data(), a.sig); break;
    default:
      a.keygen(nullptr, y.data());
      len = 3;
      a.sign(sk.data(), msg, 4, sig.data(), &len);
      a.signr(Bytes(a.sk, 0).data(), msg, 4, nullptr, 0, sig.data(), &(len = a.sig));
      a.verify(pk.data(), msg, 4, sig.data(), 17);
      a.validate(pk.data(), Bytes(a.sk, 0).data());
    }
    if (i == 1) n2 = live_n, b2 = live_b, f2 = open_fds(), m2 = count_maps();
  }
  u64 n3 = live_n, b3 = live_b;
  c.eqi((long long)n3, (long long)n2, "heap blocks after the repetitions");
  c.eqi((long long)b3, (long long)b2, "heap bytes after the repetitions");
  c.eqi(open_fds(), f2, "descriptors");
  int m3 = count_maps();
  c.require(m3 <= m2 + 4, "mappings grew from " + std::to_string(m2) + " to " + std::to_string(m3));
  c.nontrivial(pbt::hash_str(on[op], (u64)n * 16 + p.id));
}
