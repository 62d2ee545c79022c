// rand_bytes on each of its Linux back ends, against scripted system calls
#include "engine.hpp"
#include <errno.h>
#include <stdarg.h>
using namespace pbt;
extern "C" {
int rb_urandom(u8*, size_t);
int rb_getrandom(u8*, size_t);
int rb_arc4(u8*, size_t);
}
namespace {
struct Sys {
  Ctx* c = nullptr;
  std::vector<int> open_err, ioctl_err;
  struct Rd { int kind; int arg; }; // 0 full, 1 error arg, 2 at most arg bytes, 3 end of file
  std::vector<Rd> reads;
  int last_kind = 0, last_arg = 0; // behaviour after the script
  unsigned io = 0, ii = 0, ir = 0, calls = 0;
  int opened = 0, closed = 0;
  bool isopen = false, misuse = false;
  Rng r{1};
  Bytes stream;
  std::string path;
  void spin() {
    if (++calls > 200000) {
      fprintf(stderr, "rand_bytes made 200000 system calls without returning\n");
      _exit(97);
    }
  }
};
Sys* S;
} // namespace
extern "C" {
int fk_open(const char* p, int, ...) {
  S->spin();
  S->path = p;
  int e = S->io < S->open_err.size() ? S->open_err[S->io++] : 0;
  if (e) {
    errno = e;
    return -1;
  }
  S->opened++;
  S->isopen = true;
  return 700;
}
int fk_close(int fd) {
  if (fd != 700 || !S->isopen) S->misuse = true;
  S->isopen = false;
  S->closed++;
  return 0;
}
int fk_ioctl(int fd, unsigned long, ...) {
  if (fd != 700 || !S->isopen) S->misuse = true;
  int e = S->ii < S->ioctl_err.size() ? S->ioctl_err[S->ii++] : 0;
  if (e) {
    errno = e;
    return -1;
  }
  return 0;
}
static ssize_t give(void* b, size_t n) {
  S->spin();
  int k = S->last_kind, a = S->last_arg;
  if (S->ir < S->reads.size()) {
    k = S->reads[S->ir].kind;
    a = S->reads[S->ir].arg;
    S->ir++;
  }
  if (k == 1) {
    errno = a;
    return -1;
  }
  if (k == 3) return 0;
  size_t m = k == 2 ? std::min<size_t>(n, a) : n;
  for (size_t i = 0; i < m; i++) {
    ((u8*)b)[i] = (u8)S->r.next();
    S->stream.push_back(((u8*)b)[i]);
  }
  return (ssize_t)m;
}
ssize_t fk_read(int fd, void* b, size_t n) {
  if (fd != 700 || !S->isopen) S->misuse = true;
  return give(b, n);
}
ssize_t fk_getrandom(void* b, size_t n, unsigned) { return give(b, n); }
void fk_arc4random_buf(void* b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    ((u8*)b)[i] = (u8)S->r.next();
    S->stream.push_back(((u8*)b)[i]);
  }
}
}
static std::string script_str(const Sys& s) {
  std::string d;
  for (auto e : s.open_err) d += "open:" + std::to_string(e) + " ";
  for (auto e : s.ioctl_err) d += "ioctl:" + std::to_string(e) + " ";
  for (auto& x : s.reads) d += (x.kind == 0 ? "full" : x.kind == 1 ? "err" : x.kind == 2 ? "short" : "eof") + std::to_string(x.arg) + " ";
  d += "then kind " + std::to_string(s.last_kind);
  return d;
}
PROP(C18_backend,
     "rand_bytes of each back end (getrandom, /dev/urandom, arc4random_buf; system calls replaced) is asked for 0-300 bytes under a "
     "drawn script of interrupted, failing, short and end-of-file reads, failing open/ioctl; if it returns 0 every requested byte must "
     "be a delivered byte in order, it must not write past the request, must return, and must close what it opened; non-trivial = the "
     "script holds at least one fault; distinct by script") {
  Sys s;
  S         = &s;
  s.c       = &c;
  unsigned be = (unsigned)c.strat(3);
  size_t n  = c.length(300);
  s.r       = Rng(c.draw(0));
  if (be == 0) { // urandom
    unsigned k = (unsigned)c.draw(3);
    while (k--) s.open_err.push_back(EINTR);
    if (c.chance(1, 8)) s.open_err.push_back(c.pick({ENOENT, EACCES, EMFILE}));
    if (c.chance(1, 8)) s.ioctl_err.push_back(c.pick({ENOTTY, EINVAL}));
  }
  unsigned k = (unsigned)c.draw(6);
  bool fault = !s.open_err.empty() || !s.ioctl_err.empty();
  while (k--) {
    Sys::Rd r{(int)c.draw(4), 0};
    if (r.kind == 1) r.arg = c.pick({EINTR, EAGAIN, EINTR, EIO, EBADF});
    if (r.kind == 2) r.arg = (int)c.range(1, 40);
    if (r.kind) fault = true;
    s.reads.push_back(r);
  }
  s.last_kind = c.pick({0, 0, 2, 1, 3});
  if (s.last_kind == 2) s.last_arg = (int)c.range(1, 50);
  if (s.last_kind == 1) s.last_arg = EIO;
  if (s.last_kind) fault = true;
  c.note(std::string(be == 0 ? "urandom" : be == 1 ? "getrandom" : "arc4random") + " n=" + std::to_string(n) + " " + script_str(s));
  Buf b(n, 2);
  int r = be == 0 ? rb_urandom(b.data(), n) : be == 1 ? rb_getrandom(b.data(), n) : rb_arc4(b.data(), n);
  c.label(std::string(be == 0 ? "urandom" : be == 1 ? "getrandom" : "arc4random") + (r ? " fails" : " ok"));
  if (!s.calls && s.stream.empty() && n) throw Discard(); // the back end does not use the replaced calls
  c.require(b.intact(), "rand_bytes wrote outside the request");
  c.require(!s.misuse, "rand_bytes used a descriptor that is not open");
  c.eqi(s.opened, s.closed, "descriptors opened and closed");
  if (r == 0) {
    c.require(s.stream.size() >= n, "rand_bytes returned 0 for " + std::to_string(n) + " bytes after only " + std::to_string(s.stream.size()) + " were delivered");
    c.eq(b.get(), Bytes(s.stream.begin(), s.stream.begin() + n), "delivered bytes");
  }
  // a source that keeps serving full requests must be usable
  if (!fault) c.eqi(r, 0, "rand_bytes with a healthy source");
  if (fault) c.nontrivial(hash_str(c.desc));
}
