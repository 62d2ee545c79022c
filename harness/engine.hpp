// Small property-based testing engine.  A property is a function of a sequence of bounded choices;
// the sequence is recorded (in a memory-mapped file, so that a crash or hang keeps it), can be
// replayed, and is what the driver shrinks.  Choice value 0 is always the simplest.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <initializer_list>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace pbt {
using u8    = uint8_t;
using u64   = uint64_t;
using Bytes = std::vector<u8>;

inline u64 mix64(u64 x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline u64 hash_bytes(const void* p, size_t n, u64 h = 0xcbf29ce484222325ULL) {
  const u8* b = (const u8*)p;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ULL;
  return mix64(h);
}
inline u64 hash_str(const std::string& s, u64 h = 0xcbf29ce484222325ULL) { return hash_bytes(s.data(), s.size(), h); }
struct Rng {
  u64 s;
  explicit Rng(u64 x) : s(x) {}
  u64 next() {
    u64 r = mix64(s);
    s += 0x9e3779b97f4a7c15ULL;
    return r;
  }
};
inline std::string hex(const u8* p, size_t n, size_t max = 24) {
  std::string s;
  char b[4];
  for (size_t i = 0; i < n && i < max; i++) {
    snprintf(b, sizeof b, "%02x", p[i]);
    s += b;
  }
  if (n > max) s += ".." + std::to_string(n) + "B";
  return s;
}
inline std::string hex(const Bytes& b, size_t max = 24) { return hex(b.data(), b.size(), max); }

struct Fail {
  std::string msg;
};
struct Discard {};

constexpr size_t MAXCH = 1 << 16;
struct State { // shared with the driver
  u64 magic, index, running, nchoices;
  u64 choices[MAXCH];
};

class Ctx {
public:
  State* st;
  bool replay = false;
  std::vector<u64> given;
  size_t pos = 0;
  Rng rng{0};
  u64 index = 0, seed = 0;
  u64 stride = 1;
  int ndigit = 0;
  std::map<std::string, u64>* labels = nullptr;
  std::string desc;
  bool nontriv = false;
  u64 nthash   = 0;
  bool thorough = false;

  u64 rec(u64 v) {
    if (st->nchoices < MAXCH) st->choices[st->nchoices++] = v;
    return v;
  }
  u64 draw(u64 bound) { // [0,bound); bound 0 = full 64 bit
    u64 v;
    if (replay) v = pos < given.size() ? given[pos] : 0;
    else v = rng.next();
    pos++;
    if (bound) v %= bound;
    return rec(v);
  }
  // systematic: successive calls enumerate a mixed-radix counter over the case index
  u64 strat(u64 bound) {
    u64 v;
    if (replay) v = (pos < given.size() ? given[pos] : 0) % bound;
    else {
      v = (index / stride + (ndigit ? mix64(seed * 31 + ndigit) : 0)) % bound;
      stride = stride > (1ULL << 40) ? stride : stride * bound;
      ndigit++;
    }
    pos++;
    return rec(v);
  }
  u64 range(u64 lo, u64 hi) { return lo + draw(hi - lo + 1); }
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; } // 0 -> false
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
  template <class T> const T& pick(const std::vector<T>& l) { return l[draw(l.size())]; }
  Bytes bytes(size_t n) {
    Bytes b(n, 0);
    unsigned k = (unsigned)draw(20);
    if (!n) return b;
    auto rnd = [&] { Rng r(draw(0)); for (auto& x : b) x = (u8)r.next(); };
    switch (k) {
    case 0: break;
    case 1: memset(b.data(), 0xff, n); break;
    case 2: { u64 i = draw(n * 8); b[i / 8] = (u8)(1 << (i % 8)); break; }
    case 3: { u64 m = range(1, 4); while (m--) { u64 i = draw(n); b[i] = (u8)draw(256); } break; }
    case 4: { u8 v = (u8)draw(256); memset(b.data(), v, n); break; }
    case 5: { u8 v = (u8)draw(256); for (auto& x : b) x = v++; break; }
    case 6: { Rng r(draw(0)); u8 v = 0; for (auto& x : b) { if (r.next() % 5 == 0) v = ~v; x = v; } break; }
    case 7: { rnd(); u64 t = draw(n + 1); u8 v = draw(2) ? 0xff : 0; for (u64 i = n - t; i < n; i++) b[i] = v; break; }
    case 8: { rnd(); u64 t = draw(n + 1); u8 v = draw(2) ? 0xff : 0; for (u64 i = 0; i < t; i++) b[i] = v; break; }
    case 9: { rnd(); u64 t = draw(n); b[t] = draw(2) ? 0xff : 0; break; }
    default: rnd();
    }
    return b;
  }
  Bytes random_bytes(size_t n) { // always uniformly random-looking
    Bytes b(n);
    Rng r(draw(0));
    for (auto& x : b) x = (u8)r.next();
    return b;
  }
  // lengths: tiny, around block boundaries, or anything up to max
  size_t length(size_t max, std::initializer_list<size_t> units = {8, 16, 24, 32, 64, 136, 168}) {
    size_t v;
    switch (draw(4)) {
    case 0: v = draw(5); break;
    case 1: {
      size_t u = *(units.begin() + draw(units.size()));
      size_t m = max / u;
      v = u * (m ? draw(m + 1) : 0);
      int d = (int)draw(5);
      static const int off[] = {0, 1, -1, 2, -2};
      v = (long)v + off[d] < 0 ? 0 : v + off[d];
      break;
    }
    case 2: v = draw((max < 64 ? max : 64) + 1); break;
    default: v = draw(max + 1);
    }
    return v > max ? max : v;
  }
  void label(const std::string& s) { if (labels) (*labels)[s]++; }
  void note(const std::string& s) {
    if (desc.size() < 600) {
      if (!desc.empty()) desc += ' ';
      desc += s;
    }
  }
  void nontrivial(const std::string& key) {
    nontriv = true;
    nthash  = hash_str(key);
  }
  void nontrivial(u64 h) {
    nontriv = true;
    nthash  = mix64(h);
  }
  [[noreturn]] void fail(const std::string& m) { throw Fail{m}; }
  void require(bool ok, const std::string& m) {
    if (!ok) throw Fail{m};
  }
  void eq(const u8* a, const u8* b, size_t n, const std::string& what) {
    if (n && memcmp(a, b, n)) {
      size_t i = 0;
      while (a[i] == b[i]) i++;
      size_t s = i > 4 ? i - 4 : 0;
      throw Fail{what + ": differs at byte " + std::to_string(i) + " of " + std::to_string(n) + ": got .." +
                 hex(a + s, n - s) + " want .." + hex(b + s, n - s)};
    }
  }
  void eq(const Bytes& a, const Bytes& b, const std::string& what) {
    if (a.size() != b.size())
      throw Fail{what + ": length " + std::to_string(a.size()) + " want " + std::to_string(b.size())};
    eq(a.data(), b.data(), a.size(), what);
  }
  void eqi(long long a, long long b, const std::string& what) {
    if (a != b) throw Fail{what + ": got " + std::to_string(a) + " want " + std::to_string(b)};
  }
};

struct Prop {
  const char* name;
  const char* rule;
  void (*fn)(Ctx&);
};
inline std::vector<Prop>& registry() {
  static std::vector<Prop> r;
  return r;
}
struct Reg {
  Reg(const char* n, const char* rule, void (*f)(Ctx&)) { registry().push_back({n, rule, f}); }
};
#define PROP(name, rule)                                                                                               \
  static void prop_##name(pbt::Ctx&);                                                                                  \
  static pbt::Reg reg_##name(#name, rule, prop_##name);                                                                \
  static void prop_##name([[maybe_unused]] pbt::Ctx& c)

// ---------------------------------------------------------------- buffers that detect stray accesses
// Mode 0/1: the buffer ends/starts at an inaccessible page (with a chosen misalignment for mode 0
// where possible); bytes between are canaries.  Mode 2: heap, canaries on both sides.
class Buf {
  u8* base_ = nullptr;
  size_t total_ = 0, off_ = 0, n_ = 0;
  bool mapped_ = false;
  u8 canary(size_t i) const { return (u8)(0xa5 ^ (i * 29)); }

public:
  Buf(size_t n, unsigned mode, unsigned misalign = 0) : n_(n) {
    if (mode < 2) {
      const size_t pg = 4096;
      size_t body     = (n + misalign + 64 + pg - 1) / pg * pg;
      total_          = body + 2 * pg;
      base_           = (u8*)mmap(nullptr, total_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (base_ == MAP_FAILED) abort();
      mprotect(base_, pg, PROT_NONE);
      mprotect(base_ + total_ - pg, pg, PROT_NONE);
      off_    = mode == 0 ? total_ - pg - n : pg + 0;
      mapped_ = true;
      for (size_t i = pg; i < total_ - pg; i++) base_[i] = canary(i);
    } else {
      total_ = n + 128 + misalign;
      base_  = (u8*)malloc(total_);
      off_   = 64 + misalign;
      for (size_t i = 0; i < total_; i++) base_[i] = canary(i);
    }
  }
  Buf(const Bytes& b, unsigned mode, unsigned misalign = 0) : Buf(b.size(), mode, misalign) {
    if (n_) memcpy(data(), b.data(), n_);
  }
  Buf(const Buf&) = delete;
  Buf& operator=(const Buf&) = delete;
  ~Buf() {
    if (mapped_) munmap(base_, total_);
    else free(base_);
  }
  u8* data() const { return base_ + off_; }
  size_t size() const { return n_; }
  Bytes get() const { return Bytes(data(), data() + n_); }
  bool intact() const { // canaries untouched
    size_t lo = mapped_ ? 4096 : 0, hi = mapped_ ? total_ - 4096 : total_;
    for (size_t i = lo; i < hi; i++)
      if ((i < off_ || i >= off_ + n_) && base_[i] != canary(i)) return false;
    return true;
  }
  void protect() { // contents become read-only (guarded buffers)
    if (mapped_) mprotect(base_ + 4096, total_ - 8192, PROT_READ);
  }
  void fill_canary() {
    for (size_t i = off_; i < off_ + n_; i++) base_[i] = canary(i);
  }
  bool body_is_canary(size_t from = 0) const {
    for (size_t i = off_ + from; i < off_ + n_; i++)
      if (base_[i] != canary(i)) return false;
    return true;
  }
};

// ---------------------------------------------------------------- runner
inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
inline std::string jesc(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
    else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += (char)ch;
  }
  return o + "\"";
}
inline unsigned g_cpu = 120;
inline bool g_ignore  = false; // only crashes, hangs and sanitizer reports count
inline void arm(unsigned sec) {
  itimerval t{{0, 0}, {(time_t)sec, 0}};
  setitimer(ITIMER_PROF, &t, nullptr);
}
inline void on_prof(int) {
  const char m[] = "HANG: case exceeded its CPU limit\n";
  (void)!write(2, m, sizeof m - 1);
  _exit(97);
}
inline State* map_state(const char* file) {
  void* p;
  if (file) {
    int fd = open(file, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(State))) { perror(file); exit(2); }
    p = mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  } else p = mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) exit(2);
  return (State*)p;
}

inline void (*g_reset)() = nullptr; // called before each case

inline int pbt_main(int argc, char** argv) {
  std::map<std::string, std::string> a;
  std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  auto geti = [&](const char* k, u64 d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 0) : d; };
  if (mode == "list") {
    for (auto& p : registry()) printf("%s\t%s\n", p.name, p.rule);
    return 0;
  }
  const Prop* P = nullptr;
  for (auto& p : registry())
    if (a["--prop"] == p.name) P = &p;
  if (!P || (mode != "run" && mode != "replay")) {
    fprintf(stderr, "usage: run|replay|list --prop P ...\n");
    return 2;
  }
  g_cpu    = (unsigned)geti("--cpu", 120);
  g_ignore = geti("--crash-only", 0) != 0;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_prof;
  sigaction(SIGPROF, &sa, nullptr);
  State* st = map_state(a.count("--state") ? a["--state"].c_str() : nullptr);
  st->magic = 0x50425431;
  std::map<std::string, u64> labels;
  Ctx c;
  c.st       = st;
  c.labels   = &labels;
  c.thorough = geti("--thorough", 0) != 0;
  auto begin = [&](u64 idx) {
    st->index    = idx;
    st->nchoices = 0;
    st->running  = 1;
    c.pos        = 0;
    c.index      = idx;
    c.stride     = 1;
    c.ndigit     = 0;
    c.desc.clear();
    c.nontriv = false;
    if (g_reset) g_reset();
    arm(g_cpu);
  };
  if (mode == "replay") {
    c.replay = true;
    FILE* f  = fopen(a["--choices"].c_str(), "r");
    if (!f) return 2;
    unsigned long long v;
    while (fscanf(f, "%llu", &v) == 1) c.given.push_back(v);
    fclose(f);
    begin(0);
    int rc = 0;
    try {
      P->fn(c);
    } catch (Fail& e) {
      if (!g_ignore) {
        printf("FAIL %s\n", e.msg.c_str());
        rc = 3;
      }
    } catch (Discard&) {
    }
    printf("CASE %s\n", c.desc.c_str());
    fflush(stdout);
    st->running = 0;
    _exit(rc);
  }
  u64 seed = geti("--seed", 1), shard = geti("--shard", 0), nsh = geti("--nshards", 1), max = geti("--max", 100);
  u64 first = geti("--first", 0);
  double budget = a.count("--budget") ? atof(a["--budget"].c_str()) : 1e9, t0 = now();
  c.seed = seed;
  u64 evals = 0, disc = 0, nt = 0, idx = 0;
  std::unordered_set<u64> distinct;
  std::vector<std::string> samples;
  std::string failmsg, faildesc;
  bool failed = false;
  for (u64 k = first; k * nsh < max; k++) {
    if (now() - t0 > budget) break;
    idx = k * nsh + (shard + k) % nsh; // rotate, so that expensive residues spread over the shards
    if (idx >= max) continue;
    c.rng = Rng(mix64(seed ^ hash_str(P->name)) ^ mix64(idx * 2 + 1));
    begin(idx);
    try {
      P->fn(c);
      evals++;
      if (c.nontriv) {
        nt++;
        if (distinct.size() < 4000000) distinct.insert(c.nthash);
        if (samples.size() < 3 && !c.desc.empty()) samples.push_back(c.desc);
      }
    } catch (Discard&) {
      disc++;
    } catch (Fail& e) {
      evals++;
      if (g_ignore) {
        labels["result differs (not judged here)"]++;
        arm(0), st->running = 0;
        continue;
      }
      failed   = true;
      failmsg  = e.msg;
      faildesc = c.desc;
    }
    arm(0);
    if (failed) break;
    st->running = 0;
  }
  arm(0);
  FILE* o = fopen(a["--out"].c_str(), "w");
  if (!o) return 2;
  fprintf(o, "{\"evals\":%llu,\"discards\":%llu,\"nontrivial\":%llu,\"index\":%llu,\"wall\":%.3f,\"failed\":%s,\"msg\":%s,\"desc\":%s,",
          (unsigned long long)evals, (unsigned long long)disc, (unsigned long long)nt, (unsigned long long)idx, now() - t0,
          failed ? "true" : "false", jesc(failmsg).c_str(), jesc(faildesc).c_str());
  fprintf(o, "\"labels\":{");
  bool fst = true;
  for (auto& l : labels) {
    fprintf(o, "%s%s:%llu", fst ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second);
    fst = false;
  }
  fprintf(o, "},\"samples\":[");
  for (size_t i = 0; i < samples.size(); i++) fprintf(o, "%s%s", i ? "," : "", jesc(samples[i]).c_str());
  fprintf(o, "],\"choices\":[");
  if (failed)
    for (u64 i = 0; i < st->nchoices; i++) fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)st->choices[i]);
  fprintf(o, "]}\n");
  fclose(o);
  FILE* hf = fopen((a["--out"] + ".h64").c_str(), "wb");
  if (hf) {
    for (u64 h : distinct) fwrite(&h, 8, 1, hf);
    fclose(hf);
  }
  fflush(nullptr);
  _exit(failed ? 3 : 0);
}
} // namespace pbt
#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
#endif
