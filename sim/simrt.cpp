// Deterministic simulator of programs that use the EasyMock runtime and the mocks it generates.
//
// The real code is libEasyMockFramework.so and the generated mocks (dlopen'ed modules).  The simulator owns every
// other decision: which simulated client task makes the next call, what a callback (matcher) does while a mock call
// is in progress, when a test is abandoned, when a module is loaded or unloaded and which allocation or system call
// fails.  A run is a flat list of operations (the schedule); it is derived from one seed and can be replayed from text.
#include "simabi.h"
#include <easyMock.h>

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

// ------------------------------------------------------------------------------------------------ randomness
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
  bool ch(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};
static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull + b); return r.next(); }

// ------------------------------------------------------------------------------------------------ seams: allocator, I/O
// The framework, the mocks and the libraries they call reach the allocator and the file system through these.
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); }

enum { IO_OPEN, IO_READ, IO_FOPEN, IO_MMAP, IO_DEBUG, IO_N };
struct Seam {
  int window;                   // inside code under test
  long allocs;                  // allocations seen in the window since armed
  long fail_at;                 // 0: off; n: the n-th one fails
  int sticky;
  long fired_alloc;
  int io_mask;
  long io_seen, io_at;
  int io_sticky, io_err;
  long fired_io[IO_N];
  long no_stack;                // the stack could not be walked at all
  long live_blocks, live_bytes;
};
static Seam S;
static void sim_fault_fired();
static bool alloc_fails() {
  if (!S.window) return false;
  S.allocs++;
  if (S.fail_at && (S.allocs == S.fail_at || (S.sticky && S.allocs > S.fail_at))) { S.fired_alloc++; sim_fault_fired(); errno = ENOMEM; return true; }
  return false;
}
// Blocks the code under test gets are surrounded by guard bytes, filled before use and after release, and kept for a
// while after their release: reads of what was never written, uses after a release and overruns show up the same way
// in every execution.
enum { GUARD = 16, KEEP = 256 };
static const uint64_t MG_LIVE = 0x51a7e11fe0b10c5full, MG_DEAD = 0x51a7edeadb10c55full;
struct GHead { uint64_t magic, size; };
static int guard_on;
static void* kept[KEEP];
static unsigned nkept;
static int reuse_now;             // in some runs released memory is handed out again at once
static void memory_error(const char* what, size_t n);
static GHead* ghead(void* p) {
  if (!guard_on || !p || ((uintptr_t)p & 15)) return 0;
  GHead* h = (GHead*)p - 1;
  return (h->magic == MG_LIVE || h->magic == MG_DEAD) && (h->size >> 48) == 0x5afe ? h : 0;
}
static size_t gsize(GHead* h) { return h->size & 0xffffffffffffull; }
static void gcheck_tail(GHead* h) { unsigned char* t = (unsigned char*)(h + 1) + gsize(h); for (int i = 0; i < GUARD; i++) if (t[i] != 0xEC) { memory_error("wrote past the end of a block", gsize(h)); return; } }
static void* galloc(size_t n, int fill) {
  if (n > (1ull << 40)) return __libc_malloc(n);
  GHead* h = (GHead*)__libc_malloc(n + sizeof(GHead) + GUARD);
  if (!h) return 0;
  h->magic = MG_LIVE; h->size = n | 0x5afeull << 48;
  S.live_blocks++;
  S.live_bytes += (long)n;
  memset(h + 1, fill, n);
  memset((char*)(h + 1) + n, 0xEC, GUARD);
  return h + 1;
}
static void gevict(void* q) {
  GHead* h = (GHead*)q;
  if (h->magic != MG_DEAD) memory_error("wrote before the start of a released block", gsize(h));
  unsigned char* t = (unsigned char*)(h + 1);
  size_t n = gsize(h), cap = n > 4096 ? 4096 : n;
  for (size_t i = 0; i < cap; i++) if (t[i] != 0xDD) { memory_error("wrote to a released block", n); break; }
  gcheck_tail(h);
  __libc_free(h);
}
static void gfree(GHead* h) {
  if (h->magic == MG_DEAD) { memory_error("released a block twice", gsize(h)); return; }
  gcheck_tail(h);
  h->magic = MG_DEAD;
  size_t n = gsize(h);
  S.live_blocks--;
  S.live_bytes -= (long)n;
  memset(h + 1, 0xDD, n > 4096 ? 4096 : n);
  if (reuse_now) { __libc_free(h); return; }
  void*& k = kept[nkept++ % KEEP];
  if (k) gevict(k);
  k = h;
}
static void gfinish() { for (int i = 0; i < KEEP; i++) if (kept[i]) { gevict(kept[i]); kept[i] = 0; } }
extern "C" void* malloc(size_t n) { if (alloc_fails()) return 0; void* p = S.window && guard_on ? galloc(n, 0xA5) : __libc_malloc(n); return p; }
extern "C" void* calloc(size_t a, size_t b) {
  if (alloc_fails()) return 0;
  size_t n;
  void* p = S.window && guard_on && !__builtin_mul_overflow(a, b, &n) ? galloc(n, 0) : __libc_calloc(a, b);
  return p;
}
extern "C" void free(void* p) { GHead* h = ghead(p); if (h) gfree(h); else __libc_free(p); }
extern "C" void* realloc(void* q, size_t n) {
  if (alloc_fails()) return 0;
  GHead* h = ghead(q);
  if (h) {
    if (h->magic == MG_DEAD) { memory_error("resized a released block", gsize(h)); return 0; }
    if (!n) { free(q); return 0; }
    void* p = S.window ? galloc(n, 0xA5) : __libc_malloc(n);
    if (!p) return 0;
    memcpy(p, q, gsize(h) < n ? gsize(h) : n);
    gfree(h);
    return p;
  }
  void* p = !q && S.window && guard_on ? galloc(n, 0xA5) : __libc_realloc(q, n);
  return p;
}
extern "C" size_t malloc_usable_size(void* p) {
  static size_t (*r)(void*) = 0;
  GHead* h = ghead(p);
  if (h) return gsize(h);
  if (!r) r = (size_t(*)(void*))dlsym(RTLD_NEXT, "malloc_usable_size");
  return r(p);
}

static bool io_fails(int kind) {
  if (!S.window || !(S.io_mask & (1 << kind))) return false;
  S.io_seen++;
  if (S.io_at && (S.io_seen == S.io_at || (S.io_sticky && S.io_seen > S.io_at))) { S.fired_io[kind]++; errno = S.io_err; return true; }
  return false;
}
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
typedef int (*open_t)(const char*, int, ...);
typedef ssize_t (*read_t)(int, void*, size_t);
typedef ssize_t (*pread_t)(int, void*, size_t, off_t);
typedef FILE* (*fopen_t)(const char*, const char*);
typedef void* (*mmap_t)(void*, size_t, int, int, int, off_t);
static open_t r_open, r_open64; static read_t r_read; static pread_t r_pread, r_pread64; static fopen_t r_fopen, r_fopen64; static mmap_t r_mmap, r_mmap64;
static void seam_init() {
  r_open = real<open_t>("open"); r_open64 = real<open_t>("open64"); r_read = real<read_t>("read");
  r_pread = real<pread_t>("pread"); r_pread64 = real<pread_t>("pread64");
  r_fopen = real<fopen_t>("fopen"); r_fopen64 = real<fopen_t>("fopen64");
  r_mmap = real<mmap_t>("mmap"); r_mmap64 = real<mmap_t>("mmap64");
}
static mode_t va_mode(int fl, va_list ap) { return (fl & O_CREAT) ? (mode_t)va_arg(ap, int) : 0; }
extern "C" int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_mode(fl, ap); va_end(ap); if (io_fails(IO_OPEN)) return -1; return r_open(p, fl, m); }
extern "C" int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_mode(fl, ap); va_end(ap); if (io_fails(IO_OPEN)) return -1; return r_open64(p, fl, m); }
extern "C" ssize_t read(int fd, void* b, size_t n) {
  if (io_fails(IO_READ)) return -1;
  if (!r_read) return syscall(SYS_read, fd, b, n);
  return r_read(fd, b, n);
}
extern "C" ssize_t pread(int fd, void* b, size_t n, off_t o) { if (io_fails(IO_READ)) return -1; return r_pread ? r_pread(fd, b, n, o) : syscall(SYS_pread64, fd, b, n, o); }
extern "C" ssize_t pread64(int fd, void* b, size_t n, off_t o) { if (io_fails(IO_READ)) return -1; return r_pread64 ? r_pread64(fd, b, n, o) : syscall(SYS_pread64, fd, b, n, o); }
extern "C" FILE* fopen(const char* p, const char* m) { if (io_fails(IO_FOPEN)) return 0; return (r_fopen ? r_fopen : real<fopen_t>("fopen"))(p, m); }
extern "C" FILE* fopen64(const char* p, const char* m) { if (io_fails(IO_FOPEN)) return 0; return (r_fopen64 ? r_fopen64 : real<fopen_t>("fopen64"))(p, m); }
extern "C" void* mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) {
  if (fd >= 0 && io_fails(IO_MMAP)) return MAP_FAILED;
  return (void*)syscall(SYS_mmap, a, n, pr, fl, fd, o);
}
extern "C" void* mmap64(void* a, size_t n, int pr, int fl, int fd, off_t o) {
  if (fd >= 0 && io_fails(IO_MMAP)) return MAP_FAILED;
  return (void*)syscall(SYS_mmap, a, n, pr, fl, fd, o);
}
// the libraries that read the debug information and walk the stack, out of memory or without what they need
#define SEAM(R, NAME, ARGS, PASS, BAD) extern "C" R NAME ARGS { if (io_fails(IO_DEBUG)) return BAD; static R (*f) ARGS = real<R (*) ARGS>(#NAME); return f PASS; }
SEAM(void*, dwfl_begin, (void* c), (c), 0)
SEAM(int, dwfl_linux_proc_report, (void* d, int p), (d, p), ENOMEM)
SEAM(int, dwfl_report_end, (void* d, void* r, void* a), (d, r, a), -1)
SEAM(void*, dwfl_addrmodule, (void* d, unsigned long a), (d, a), 0)
SEAM(const char*, dwfl_module_addrname, (void* m, unsigned long a), (m, a), 0)
SEAM(void*, dwfl_getsrc, (void* d, unsigned long a), (d, a), 0)
SEAM(int, _ULx86_64_init_local, (void* c, void* u), (c, u), -2)
SEAM(int, _ULx86_64_get_reg, (void* c, int r, void* v), (c, r, v), -3)
static int stack_ends(int e) { S.no_stack++; return e; }
SEAM(int, _ULx86_64_step, (void* c), (c), stack_ends(-6))
static bool stay_in_window;
struct Window { Window() { S.window = 1; } ~Window() { S.window = 0; } };
struct NoWindow { int o; NoWindow() : o(S.window) { S.window = 0; } ~NoWindow() { S.window = o; } };

// ------------------------------------------------------------------------------------------------ operations (the schedule)
struct PSpec {
  char kind = 'v';              // v value, s slot, n null
  uint64_t seed = 0;            // value seed
  int mleaf = -1;               // mutated leaf
  uint64_t mseed = 0;
  int slot = 0;
  bool setc = false;            // rewrite the content of the slot
  int m = 0;                    // matcher index
  int dec = 0;                  // custom: 0 ok, 1 error, 2 compare, 3 abandon
  int hook = -1;
};
enum OpK { O_INIT, O_CHECK, O_VIEWS, O_ORDER, O_STACK, O_LOAD, O_UNLOAD, O_EXPECT, O_CALL, O_FAULT, O_NOFAULT, O_IO, O_NOTE, O_NK };
static const char* const opn[] = {"init", "check", "views", "order", "stack", "load", "unload", "expect", "call", "fault", "nofault", "io", "note"};
struct Op {
  int k = 0;
  int task = 0;
  int depth = 0;                // hook id + 1 when the operation belongs to a hook
  long a = 0, b = 0, c = 0, d = 0;
  int mod = 0, fn = 0, inst = -1;
  std::vector<PSpec> p;
  uint64_t ret = 0;
  bool outv = false;
  std::vector<long> outs;       // -1: none
};
typedef std::vector<Op> Plan;

static std::string pspec_str(const PSpec& p, bool exp) {
  char b[160];
  int n = 0;
  if (p.kind == 'v') n = snprintf(b, sizeof b, "v%llu", (unsigned long long)p.seed);
  else if (p.kind == 'n') n = snprintf(b, sizeof b, "n");
  else if (p.setc) n = snprintf(b, sizeof b, "s%d=%llu", p.slot, (unsigned long long)p.seed);
  else n = snprintf(b, sizeof b, "s%d", p.slot);
  if (p.mleaf >= 0 && p.kind != 'n') n += snprintf(b + n, sizeof b - n, "~%d.%llu", p.mleaf, (unsigned long long)p.mseed);
  if (exp) {
    n += snprintf(b + n, sizeof b - n, ":m%d", p.m);
    if (p.dec || p.hook >= 0) n += snprintf(b + n, sizeof b - n, "d%dh%d", p.dec, p.hook);
  }
  return b;
}
static bool pspec_parse(const char* s, PSpec& p) {
  p = PSpec();
  p.kind = *s++;
  char* e = (char*)s;
  if (p.kind == 'v') p.seed = strtoull(s, &e, 10);
  else if (p.kind == 's') { p.slot = strtol(s, &e, 10); if (*e == '=') { p.setc = true; p.seed = strtoull(e + 1, &e, 10); } }
  else if (p.kind != 'n') return false;
  if (*e == '~') { p.mleaf = strtol(e + 1, &e, 10); if (*e == '.') p.mseed = strtoull(e + 1, &e, 10); }
  if (*e == ':') { p.m = strtol(e + 2, &e, 10); if (*e == 'd') { p.dec = strtol(e + 1, &e, 10); if (*e == 'h') p.hook = strtol(e + 1, &e, 10); } }
  return *e == 0;
}
static std::string op_str(const Op& o) {
  std::ostringstream s;
  s << "t" << o.task << " " << o.depth << " " << opn[o.k];
  switch (o.k) {
    case O_ORDER: case O_STACK: case O_LOAD: case O_UNLOAD: s << " " << o.a; break;
    case O_FAULT: s << " " << o.a << " " << o.b; break;
    case O_IO: s << " " << o.a << " " << o.b << " " << o.c << " " << o.d; break;
    case O_EXPECT:
    case O_CALL:
      s << " " << o.mod << " " << o.fn << " " << o.inst;
      for (auto& p : o.p) s << " " << pspec_str(p, o.k == O_EXPECT);
      s << " ;";
      if (o.k == O_EXPECT) {
        s << " " << o.ret;
        if (o.outv) { s << " out"; for (long x : o.outs) s << " " << x; }
      }
      break;
  }
  return s.str();
}
static bool op_parse(const std::string& l, Op& o) {
  std::istringstream s(l);
  std::string t, k;
  if (!(s >> t >> o.depth >> k)) return false;
  o.task = atoi(t.c_str() + 1);
  o.k = -1;
  for (int i = 0; i < O_NK; i++) if (k == opn[i]) o.k = i;
  if (o.k < 0) return false;
  switch (o.k) {
    case O_ORDER: case O_STACK: case O_LOAD: case O_UNLOAD: s >> o.a; break;
    case O_FAULT: s >> o.a >> o.b; break;
    case O_IO: s >> o.a >> o.b >> o.c >> o.d; break;
    case O_EXPECT:
    case O_CALL:
      s >> o.mod >> o.fn >> o.inst;
      while (s >> t && t != ";") { PSpec p; if (!pspec_parse(t.c_str(), p)) return false; o.p.push_back(p); }
      if (o.k == O_EXPECT) {
        s >> o.ret;
        if (s >> t) { o.outv = true; long x; while (s >> x) o.outs.push_back(x); }
      }
      break;
  }
  return true;
}

// ------------------------------------------------------------------------------------------------ values
static char ptr_pool[64][32];
static void pool_init() { for (int i = 0; i < 64; i++) snprintf(ptr_pool[i], 32, "str-%d", i); }
static void* pool_ptr(uint64_t v) { v %= 65; return v == 64 ? nullptr : ptr_pool[v]; }
static const double dpool[] = {0.0, -0.0, 1.0, -1.5, 3.25, 1e300, -1e-300, 1e10, 0.1, 5e-324};
static bool bits_kind(uint32_t k) { return k == LK_BITS || k == LK_UBITS || k == LK_ENUM; }

static void leaf_fill(const sim_leaf& l, char* m, Rng& r) {
  uint64_t v = r.next();
  int c = r.range(0, 9);
  char* at = m + l.off;
  switch (l.kind) {
    case LK_UINT: case LK_INT: {
      uint64_t x = c < 3 ? v % 7 : c < 5 ? ~0ull : c == 5 ? 1ull << (l.size * 8 - 1) : c == 6 ? (1ull << (l.size * 8 - 1)) - 1 : v;
      memcpy(at, &x, l.size);
      break;
    }
    case LK_BOOL: *at = v & 1; break;
    case LK_FLOAT: { float f = c < 5 ? (float)dpool[v % 10] : (float)((int64_t)(v % 2000000) - 1000000) / 64; if (isinf(f)) f = 7; memcpy(at, &f, 4); break; }
    case LK_DOUBLE: { double f = c < 5 ? dpool[v % 10] : (double)((int64_t)(v % 2000000000) - 1000000000) / 64; memcpy(at, &f, 8); break; }
    case LK_LDOUBLE: { long double f = c < 5 ? (long double)dpool[v % 10] : (long double)((int64_t)(v % 2000000000) - 1000000000) / 64; memcpy(at, &f, 10); break; }
    case LK_PTR: { void* p = pool_ptr(v); memcpy(at, &p, sizeof p); break; }
    default: l.set(m, c < 5 ? (int64_t)(v % 5) : (int64_t)v); break;
  }
}
static void val_fill(const sim_type* t, char* m, uint64_t seed) {
  Rng r(seed * 77 + 5);
  for (uint32_t i = 0; i < t->size; i++) m[i] = (char)r.next();
  for (uint32_t i = 0; i < t->nleaves; i++) leaf_fill(t->leaves[i], m, r);
}
static void val_mutate(const sim_type* t, char* m, int leaf, uint64_t ms) {
  if (!t->nleaves) return;
  const sim_leaf& l = t->leaves[leaf % t->nleaves];
  char* at = m + l.off;
  Rng r(ms + 99);
  uint64_t v = r.next();
  switch (l.kind) {
    case LK_UINT: case LK_INT: at[(v >> 8) % l.size] ^= 1 << (v & 7); break;
    case LK_BOOL: *at = !*at; break;
    case LK_FLOAT: { float f, g; memcpy(&f, at, 4); g = v % 9 == 2 ? NAN : v & 1 ? -f - 1 : f + 1 + (float)fabs(f); memcpy(at, &g, 4); break; }
    case LK_DOUBLE: { double f, g; memcpy(&f, at, 8); g = v % 9 == 2 ? NAN : v & 1 ? -f - 1 : nextafter(f, 1e308); memcpy(at, &g, 8); break; }
    case LK_LDOUBLE: { long double f = 0, g; memcpy(&f, at, 10); g = v % 9 == 2 ? NAN : v & 1 ? -f - 1 : nextafterl(f, 1e308L); memcpy(at, &g, 10); break; }
    case LK_PTR: { void* p; memcpy(&p, at, sizeof p); void* q = pool_ptr(v); if (q == p) q = pool_ptr(v + 1); memcpy(at, &q, sizeof q); break; }
    case LK_ENUM: { int64_t o = l.get(m); for (int i = 0; i < 6; i++) { l.set(m, (int64_t)(v % 1000) + i); if (l.get(m) != o) break; } break; }
    default: { int64_t o = l.get(m); l.set(m, o ^ (1ll << (v % l.size))); break; }
  }
}
static bool leaf_eq(const sim_leaf& l, const char* a, const char* b) {        // equality as the language defines it
  const char *x = a + l.off, *y = b + l.off;
  switch (l.kind) {
    case LK_FLOAT: { float f, g; memcpy(&f, x, 4); memcpy(&g, y, 4); return f == g; }
    case LK_DOUBLE: { double f, g; memcpy(&f, x, 8); memcpy(&g, y, 8); return f == g; }
    case LK_LDOUBLE: { long double f = 0, g = 0; memcpy(&f, x, 10); memcpy(&g, y, 10); return f == g; }
    case LK_ENUM: case LK_BITS: case LK_UBITS: return l.get(a) == l.get(b);
    default: return !memcmp(x, y, l.size);
  }
}
static bool leaf_same(const sim_leaf& l, const char* a, const char* b) {      // the same value, bit for bit
  if (bits_kind(l.kind)) return l.get(a) == l.get(b);
  return !memcmp(a + l.off, b + l.off, l.kind == LK_LDOUBLE ? 10 : l.size);
}
static bool val_eq(const sim_type* t, const char* a, const char* b) { for (uint32_t i = 0; i < t->nleaves; i++) if (!leaf_eq(t->leaves[i], a, b)) return false; return true; }
static bool val_same(const sim_type* t, const char* a, const char* b) { for (uint32_t i = 0; i < t->nleaves; i++) if (!leaf_same(t->leaves[i], a, b)) return false; return true; }

// ------------------------------------------------------------------------------------------------ world
enum { NSLOT = 8, CAN = 32, VOIDSZ = 64, VASTSZ = 70016, TEXTSZ = 400 };
typedef std::vector<char> Bytes;
struct Slots { uint32_t size = 0; char* real[NSLOT]; Bytes shadow[NSLOT]; bool made = false; };
struct Exp {
  int inst = -1;
  std::vector<PSpec> sp;
  std::vector<Bytes> val;           // value parameters
  std::vector<void*> ptr;           // pointer / reference parameters
  Bytes ret;
  std::vector<Bytes*> out;          // null: none.  leaked on purpose: the mock keeps the pointer
  std::vector<int> outslot;
};
struct FnS { std::vector<std::shared_ptr<Exp>> exps; unsigned actual = 0; };
struct Mod {
  std::string path;
  void* h = nullptr;
  const sim_module* m = nullptr;
  const sim_xfn* x = nullptr;
  std::vector<FnS> st;
  std::vector<std::vector<Slots>> sl;
};
static std::vector<Mod> W;

// ------------------------------------------------------------------------------------------------ shared with the parent
enum { P_CALLS, P_EXPECTS, P_MATCHED, P_UNEXPECTED, P_MISMATCH, P_ORDERERR, P_COUNTERR, P_INSTERR, P_CHECK_OK, P_CHECK_KO, P_NESTED, P_NESTED_SAME, P_ABANDON,
       P_OUT, P_OUTSZ, P_STRUCT, P_NULLPTR, P_DEREF, P_STR, P_CUSTOM, P_VIEWS, P_LOADS, P_UNLOADS, P_UNLOAD_PENDING, P_ALLOC_SURVIVED, P_ALLOC_BADALLOC, P_ALLOC_EXIT,
       P_BACKTRACE, P_CAPACITY, P_TESTS, P_LEAKCYCLES, P_REF, P_TASKSWITCH, P_FAULT_ALLOC, P_FAULT_OPEN, P_FAULT_READ, P_FAULT_FOPEN, P_FAULT_MMAP, P_FAULT_DEBUG, P_FREED_BT, P_N };
static const char* const probe_n[] = {"calls", "expectations", "calls_matching_an_expectation", "unexpected_calls", "parameter_mismatches", "order_errors", "count_errors", "instance_errors",
       "checks_passed", "checks_failed", "nested_operations", "reentrant_same_function", "abandoned_calls", "outputs_written", "outputs_with_explicit_size", "structs_compared", "null_pointers_passed",
       "dereferencing_matchers", "string_matchers", "custom_matchers", "views_compared", "module_loads", "module_unloads", "unloads_with_pending_expectations", "ops_surviving_failed_allocation",
       "bad_alloc_surfaced", "exit_with_diagnostic", "errors_with_backtrace", "capacity_limit_hit", "tests", "leak_cycles", "reference_parameters", "task_switches",
       "fault_alloc", "fault_open", "fault_read", "fault_fopen", "fault_mmap", "fault_debuginfo", "errors_surviving_backtrace_fault"};
enum { CLS = 48 };
struct Shared {
  uint64_t hash, shape;
  int viol;
  char cls[CLS];
  char detail[1600];
  int step;
  int in_fault;        // an injected allocation failure has fired in the operation that is running
  int inop;
  int capacity;        // the operation that is running goes over the documented capacity
  long ops;
  long probe[P_N];
};
static Shared* H;
static bool verbose;
static void sim_fault_fired() { if (H) H->in_fault = 1; }

static void hput(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; uint64_t h = H->hash; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; H->hash = h; }
static void hnum(uint64_t v) { hput(&v, sizeof v); }
static void sput(uint64_t v) { H->shape = mix(H->shape, v); }
static void hstr(const std::string& s) {      // addresses are not part of a history
  std::string o;
  for (size_t i = 0; i < s.size();) {
    if (s[i] == '0' && i + 1 < s.size() && s[i + 1] == 'x') { o += 'P'; i += 2; while (i < s.size() && isxdigit(s[i])) i++; }
    else o += s[i++];
  }
  hput(o.data(), o.size());
}
[[noreturn]] static void violation(const char* cls, const char* fmt, ...) {
  S.window = 0;
  S.fail_at = 0;
  S.io_at = 0;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(H->detail, sizeof H->detail, fmt, ap);
  va_end(ap);
  snprintf(H->cls, CLS, "%s", cls);
  hput(cls, strlen(cls));
  H->viol = 1;
  _exit(0);
}
static void memory_error(const char* what, size_t n) { S.window = 0; guard_on = 0; violation("memory", "the code under test %s (%zu bytes)", what, n); }
static void trace(const char* fmt, ...) {
  if (!verbose) return;
  NoWindow nw;
  va_list ap;
  va_start(ap, fmt);
  vdprintf(1, fmt, ap);
  va_end(ap);
}

// ------------------------------------------------------------------------------------------------ model of errors
enum { E_UNEXP, E_PARAM, E_INST, E_ORDER, E_COUNT };
struct Err { int kind; int mod, fn; int a = -1, b = -1; std::string must, text, cur, due; std::vector<std::string> any; bool stack = false, lax = false; };   // lax: a failed allocation may have cost its details
typedef std::vector<Err> Group;          // the errors of one operation; their relative order is not asserted
static std::vector<Group> errs;
static std::deque<std::pair<int, int>> fifo;
static bool m_order = false, m_stack = true;
static const sim_fn& F(int m, int f) { return W[m].m->fns[f]; }

static bool wordhas(const std::string& s, const std::string& w, size_t from = 0, size_t* at = nullptr) {
  auto id = [](char c) { return isalnum((unsigned char)c) || c == '_'; };
  for (size_t i = s.find(w, from); i != std::string::npos; i = s.find(w, i + 1))
    if ((i == 0 || !id(s[i - 1])) && (i + w.size() == s.size() || !id(s[i + w.size()]))) { if (at) *at = i + w.size(); return true; }
  return false;
}
static std::map<std::pair<int, int>, std::string> fn_names;
static const std::string& fname(int m, int f) { return fn_names[std::make_pair(m, f)]; }
static bool err_ok(const Err& e, const std::string& full, std::string& why) {
  if (e.lax) return true;
  std::string s = full;
  size_t nl = s.find("\n\r");
  if (e.stack) {
    if ((nl == std::string::npos || nl + 2 >= s.size()) && !S.no_stack) { why = "no backtrace although call stacks are on"; return false; }
    long failed = S.fired_alloc;
    for (long k : S.fired_io) failed += k;
    if (nl != std::string::npos && !failed) {
      // whose error it is: the stack leads through the mock of that function
      std::string fn = fname(e.mod, e.fn);
      size_t c = fn.rfind("::");
      if (c != std::string::npos) fn = fn.substr(c + 2);
      if (!wordhas(s, fn, nl)) { why = "the backtrace does not lead through the function"; return false; }
    }
    s = s.substr(0, nl);
  } else if (nl != std::string::npos && e.kind != E_COUNT) { why = "a backtrace although call stacks are off"; return false; }
  const std::string& fn = fname(e.mod, e.fn);
  size_t p = 0, p0 = 0;
  if (!wordhas(s, fn, 0, &p0)) { why = "the function is not named"; return false; }
  if (e.a >= 0 && e.kind != E_ORDER) {
    char b[32];
    snprintf(b, sizeof b, "%d", e.a);
    if (!wordhas(s, b, 0, &p)) { why = "number missing"; return false; }
    if (e.b >= 0) { snprintf(b, sizeof b, "%d", e.b); if (!wordhas(s, b, p)) { why = "second number missing"; return false; } }
  }
  if (e.kind == E_ORDER && !wordhas(s, fname(e.a, e.b), p0)) { why = "the call that was due is not named"; return false; }
  if (!e.must.empty() && s.find(e.must) == std::string::npos) { why = "parameter not named"; return false; }
  if (!e.text.empty() && s.find(e.text) == std::string::npos) { why = "the matcher's message is missing"; return false; }
  if (!e.cur.empty()) {
    size_t k = s.find("'" + e.cur + "'");
    if (k == std::string::npos || s.find("'" + e.due + "'", k + e.cur.size() + 2) == std::string::npos) { why = "does not say that it got " + e.cur + " and expected " + e.due; return false; }
  }
  if (!e.any.empty() && s.size() < 225) {
    bool ok = false;
    for (auto& a : e.any) ok |= wordhas(s, a);
    if (!ok) { why = "none of the fields that differ is named"; return false; }
  }
  return true;
}
static const char* const ekn[] = {"unexpected call", "parameter", "instance", "order", "count"};
static std::string err_str(const Err& e) { char b[400]; snprintf(b, sizeof b, "%s error of %s (%d,%d) %s", ekn[e.kind], fname(e.mod, e.fn).c_str(), e.a, e.b, e.must.c_str()); return b; }

static bool match_group(const Group& g, std::vector<std::string>& got, size_t at, std::string& why) {
  size_t n = g.size();
  std::vector<int> who(n, -1);
  std::vector<std::vector<char>> ok(n, std::vector<char>(n));
  for (size_t i = 0; i < n; i++) {
    bool some = false;
    for (size_t j = 0; j < n; j++) { std::string w; ok[i][j] = err_ok(g[i], got[at + j], w); some |= ok[i][j]; if (!ok[i][j] && (n == 1 || j == i)) why = w; }
    if (!some) { why = err_str(g[i]) + ": " + why; return false; }
  }
  for (size_t i = 0; i < n; i++) {       // bipartite matching
    std::vector<char> seen(n);
    struct A { static bool go(size_t i, std::vector<std::vector<char>>& ok, std::vector<char>& seen, std::vector<int>& who) {
      for (size_t j = 0; j < who.size(); j++) if (ok[i][j] && !seen[j]) { seen[j] = 1; if (who[j] < 0 || go(who[j], ok, seen, who)) { who[j] = i; return true; } }
      return false; } };
    if (!A::go(i, ok, seen, who)) { why = err_str(g[i]) + ": no message left for it"; return false; }
  }
  return true;
}
static void compare_errors(const char* when) {
  unsigned n = 12345;
  const char** arr;
  const char* str;
  { Window w; arr = easyMock_getErrorArr(&n); }
  std::vector<std::string> got;
  size_t want = 0;
  for (auto& g : errs) want += g.size();
  if ((arr == nullptr) != (n == 0)) violation("views", "%s: error array %p with size %u", when, (void*)arr, n);
  for (unsigned i = 0; arr && i < n; i++) { if (!arr[i]) violation("views", "%s: error %u of %u is NULL", when, i, n); got.push_back(arr[i]); }
  if (arr && arr[n]) violation("views", "%s: the error array is not NULL-terminated", when);
  { Window w; str = easyMock_getErrorStr(); }
  std::string all;
  for (auto& g : got) all += g + "\n\r";
  if ((str == nullptr) != all.empty() || (str && all != str)) violation("views", "%s: error string and error array disagree: '%.300s' / '%.300s'", when, str ? str : "(null)", all.c_str());
  if (got.size() != want) {
    std::string w;
    for (auto& g : errs) for (auto& e : g) w += err_str(e) + "; ";
    std::string gs;
    for (auto& g : got) gs += g.substr(0, 90) + " | ";
    violation("errors", "%s: %zu errors reported, the history has %zu. expected: %.500s reported: %.700s", when, got.size(), want, w.c_str(), gs.c_str());
  }
  size_t at = 0;
  for (auto& g : errs) {
    std::string why;
    if (!match_group(g, got, at, why)) violation("errors", "%s: error %zu: %s; reported: '%.400s'", when, at, why.c_str(), got[at].c_str());
    at += g.size();
  }
  for (auto& g : got) { size_t nl = g.find("\n\r"); hstr(nl == std::string::npos ? g : g.substr(0, nl)); }
  H->probe[P_VIEWS]++;
  hnum(want);
}

// ------------------------------------------------------------------------------------------------ execution
static Plan* plan;
static std::map<int, std::vector<size_t>> hooks;
static int depth = 0;
static bool tainted = false;       // an operation failed under an injected fault: nothing is asserted until the next init
struct Frame { int mod, fn; std::shared_ptr<Exp> e; std::vector<Bytes>* cval; std::vector<void*>* cptr; std::vector<int> seen; unsigned nth; Group* g; bool stk; };
static std::vector<Frame> frames;
struct Abandon {};
static jmp_buf jb;
static int jmp_depth;
static void exec_op(size_t i);

static Slots& slots(int m, int f, int p) {
  Mod& M = W[m];
  if (M.sl.empty()) M.sl.resize(M.m->nfns);
  auto& v = M.sl[f];
  if (v.empty()) v.resize(F(m, f).nparams);
  Slots& s = v[p];
  if (!s.made) {
    const sim_param& P = F(m, f).params[p];
    s.size = P.text ? TEXTSZ : P.type ? P.type->size : P.out == 2 && (f * 100 + p) % 4 == 1 ? VASTSZ : VOIDSZ;
    for (int i = 0; i < NSLOT; i++) {
      char* b = (char*)aligned_alloc(32, (s.size + 2 * CAN + 31) / 32 * 32);
      memset(b, 0xC5, s.size + 2 * CAN);
      s.real[i] = b + CAN;
      if (P.type && !P.text) val_fill(P.type, s.real[i], mix(f * 100 + p, i / 2));
      else if (P.text) { memset(s.real[i], 0, s.size); snprintf(s.real[i], s.size, "text%d", i / 2); }
      s.shadow[i].assign(b, b + s.size + 2 * CAN);
    }
    s.made = true;
  }
  return s;
}
static void set_content(int m, int f, int p, int slot, const PSpec& sp) {
  Slots& s = slots(m, f, p);
  const sim_param& P = F(m, f).params[p];
  char* r = s.real[slot];
  if (P.text) {
    Rng g(sp.seed + 3);
    int len = g.ch(0.3) ? g.range(0, 2) : g.ch(0.12) ? g.range(0, (int)s.size - 1) : g.range(0, 23);
    memset(r, 'x', s.size);
    for (int i = 0; i < len; i++) r[i] = "abcdXYZ 01%-\xe9\x80"[g.below(14)];
    r[len] = 0;
    if (sp.mleaf >= 0) { if (len == 0) { r[0] = 'q'; r[1] = 0; } else { int at = sp.mseed % 3 ? len - 1 : (int)(sp.mseed % len); r[at] = r[at] == 'Q' ? 'R' : 'Q'; } }
  } else if (P.type) {
    val_fill(P.type, r, sp.seed);
    if (sp.mleaf >= 0) val_mutate(P.type, r, sp.mleaf, sp.mseed);
  }
  s.shadow[slot].assign(r - CAN, r + s.size + CAN);
}
static void check_slots(int m, int f, const char* when) {
  for (uint32_t p = 0; p < F(m, f).nparams; p++) {
    if (F(m, f).params[p].pclass == PC_VALUE) continue;
    Slots& s = slots(m, f, p);
    for (int i = 0; i < NSLOT; i++)
      if (memcmp(s.real[i] - CAN, s.shadow[i].data(), s.size + 2 * CAN))
        violation("memory", "%s %s: memory behind parameter %u (slot %d) changed although nothing had to be written there", when, F(m, f).name, p, i);
  }
}
static int res(const sim_param& P, const PSpec& ep, const Bytes& ev, void* eptr, const Bytes& cv, void* cptr) {   // does the built-in matcher have to report?
  switch (P.mkinds[ep.m]) {
    case MK_EQ:
      if (P.pclass == PC_REF) return !val_eq(P.type, (char*)cptr, (char*)eptr);
      return !val_eq(P.type, cv.data(), ev.data());
    case MK_PTR: return cptr != eptr;
    case MK_DEREF:
      if (!cptr || !eptr) return cptr != eptr;
      return !val_eq(P.type, (char*)cptr, (char*)eptr);
    case MK_STR:
      if (!cptr || !eptr) return cptr != eptr;
      return strcmp((char*)cptr, (char*)eptr) != 0;
  }
  return 0;
}
// what the message has to say about the two values, where the documentation fixes how they are written
static void valtext(bool cpp, int mk, const sim_param& P, const Bytes& ev, void* eptr, const Bytes& cv, void* cptr, Err& er) {
  char b[64];
  if (mk == MK_PTR) {
    if (cpp || !cptr || !eptr) return;
    snprintf(b, sizeof b, "%p", cptr); er.cur = b;
    snprintf(b, sizeof b, "%p", eptr); er.due = b;
    return;
  }
  if (!P.type || P.type->nleaves != 1 || (mk != MK_EQ && mk != MK_DEREF)) return;
  const sim_leaf& l = P.type->leaves[0];
  if (l.name[0] || (l.kind != LK_INT && l.kind != LK_UINT) || l.size < 2) return;
  const char *x = P.pclass == PC_VALUE ? cv.data() : (char*)cptr, *y = P.pclass == PC_VALUE ? ev.data() : (char*)eptr;
  if (!x || !y) return;
  for (int k = 0; k < 2; k++) {
    uint64_t u = 0;
    memcpy(&u, (k ? y : x) + l.off, l.size);
    if (l.kind == LK_INT) snprintf(b, sizeof b, "%lld", (long long)((int64_t)(u << (64 - 8 * l.size)) >> (64 - 8 * l.size)));
    else snprintf(b, sizeof b, "%llu", (unsigned long long)u);
    (k ? er.due : er.cur) = b;
  }
}
static void differing(const sim_param& P, const Bytes& ev, void* eptr, const Bytes& cv, void* cptr, std::vector<std::string>& any) {
  const char *a = P.pclass == PC_VALUE ? cv.data() : (char*)cptr, *b = P.pclass == PC_VALUE ? ev.data() : (char*)eptr;
  if (!a || !b || !P.type) return;
  for (uint32_t i = 0; i < P.type->nleaves; i++) {
    const sim_leaf& l = P.type->leaves[i];
    if (!l.name[0]) { any.clear(); return; }
    if (!leaf_eq(l, a, b)) any.push_back(l.name);
  }
}
// pointers and values handed to a call or an expectation
static void materialise(const Op& o, int m, int f, std::vector<Bytes>& val, std::vector<void*>& ptr, bool exp, const Exp* consumed) {
  const sim_fn& fn = F(m, f);
  val.resize(fn.nparams);
  ptr.assign(fn.nparams, nullptr);
  for (uint32_t p = 0; p < fn.nparams; p++) {
    const sim_param& P = fn.params[p];
    static const PSpec dflt;
    const PSpec& sp = p < o.p.size() ? o.p[p] : dflt;
    if (P.pclass == PC_VALUE) {
      val[p].resize(P.type->size + 16);
      val_fill(P.type, val[p].data(), sp.seed);
      if (sp.mleaf >= 0) val_mutate(P.type, val[p].data(), sp.mleaf, sp.mseed);
      continue;
    }
    bool hasout = consumed && p < consumed->out.size() && consumed->out[p];
    if (sp.kind == 'n' && P.pclass != PC_REF && !hasout) { H->probe[P_NULLPTR]++; continue; }
    int slot = sp.slot & 3;
    if (depth > 0 && hasout) slot = 4 + std::min(depth - 1, 3);
    else if (sp.setc && depth == 0) set_content(m, f, p, slot, sp);
    ptr[p] = slots(m, f, p).real[slot];
    (void)exp;
  }
}
static std::vector<void*> argv_of(const sim_fn& fn, std::vector<Bytes>& val, std::vector<void*>& ptr) {
  std::vector<void*> a(fn.nparams + 1);
  for (uint32_t p = 0; p < fn.nparams; p++) a[p] = fn.params[p].pclass == PC_VALUE ? (void*)val[p].data() : (void*)&ptr[p];
  return a;
}
static void* instance(int m, int f, int i) {
  const sim_fn& fn = F(m, f);
  if (!fn.is_method || i < 0) return nullptr;
  return W[m].m->instance(((int)(fn.is_method - 1) << 8) | (i & 3));
}

enum { R_DONE, R_ABANDON, R_BADALLOC, R_THROW };
template <class Fn> static int guarded(Fn fn) {       // runs code under test
  int saved = jmp_depth;
  H->inop = 1;
  if (_setjmp(jb) == 0) {
    jmp_depth = depth;
    S.window = 1;
    try { fn(); }
    catch (Abandon&) { S.window = 0; H->inop = 0; jmp_depth = saved; return R_ABANDON; }
    catch (std::bad_alloc&) { S.window = 0; H->inop = 0; jmp_depth = saved; return R_BADALLOC; }
    catch (...) { S.window = 0; H->inop = 0; return R_THROW; }
    S.window = 0;
    H->inop = 0;
    jmp_depth = saved;
    return R_DONE;
  }
  S.window = 0;
  H->inop = 0;
  return R_ABANDON;
}
// The outcome of an operation under a failed allocation: surfacing is fine, dying with a diagnostic is fine (the parent
// looks at it), going on as if nothing had happened is fine only when nothing was lost.
static bool after(int r, const char* what, long fired0) {
  bool fired = S.fired_alloc > fired0;
  H->in_fault = 0;
  if (r == R_THROW) violation("exception", "%s threw an unknown exception", what);
  if (r == R_BADALLOC) {
    if (!fired) violation("exception", "%s threw bad_alloc although no allocation failed", what);
    H->probe[P_ALLOC_BADALLOC]++;
    tainted = true;
    return false;
  }
  if (r == R_DONE && fired) H->probe[P_ALLOC_SURVIVED]++;
  return r == R_DONE;
}
static void chk_init_model() {
  for (auto& M : W) for (auto& s : M.st) { s.exps.clear(); s.actual = 0; }
  fifo.clear();
  errs.clear();
  if (tainted)                // calls cut short may or may not have written their outputs
    for (auto& M : W) for (auto& v : M.sl) for (auto& s : v) if (s.made) for (int i = 0; i < NSLOT; i++) s.shadow[i].assign(s.real[i] - CAN, s.real[i] + s.size + CAN);
  tainted = false;
}

extern "C" int sim_on_match(int mod, int fn, int param, const void* cur, const void* exp, const char* pname, char* msg, size_t msgsz) {
  int wnd = S.window;
  S.window = 0;
  if (frames.empty() || frames.back().mod != mod || frames.back().fn != fn) {
    if (tainted) { S.window = wnd; return 0; }
    violation("matcher", "the matcher of %s parameter %d ran outside of a call of it", F(mod, fn).name, param);
  }
  Frame fr = frames.back();
  size_t fi = frames.size() - 1;
  const sim_param& P = F(mod, fn).params[param];
  if (!fr.e) violation("matcher", "a matcher of %s ran although the call is unexpected", F(mod, fn).name);
  const PSpec& sp = fr.e->sp[param];
  if (P.mkinds[sp.m] != MK_CUSTOM) violation("matcher", "%s parameter %d: the matcher that ran is not the one of the expectation due", F(mod, fn).name, param);
  if (frames[fi].seen[param]++) violation("matcher", "%s parameter %d: the matcher ran twice", F(mod, fn).name, param);
  if (P.name && (!pname || strcmp(pname, P.name))) violation("matcher", "%s parameter %d is called '%s' in the header, its matcher was given '%s'", F(mod, fn).name, param, P.name, pname ? pname : "(null)");
  bool ok;
  if (P.pclass == PC_VALUE) ok = val_same(P.type, (const char*)cur, (*fr.cval)[param].data()) && val_same(P.type, (const char*)exp, fr.e->val[param].data());
  else if (P.pclass == PC_REF) ok = val_same(P.type, (const char*)cur, (const char*)(*fr.cptr)[param]) && val_same(P.type, (const char*)exp, (const char*)fr.e->ptr[param]);
  else ok = *(void* const*)cur == (*fr.cptr)[param] && *(void* const*)exp == fr.e->ptr[param];
  if (!ok) violation("matcher", "%s parameter %d: the matcher got values that differ from those of call %u and of its expectation", F(mod, fn).name, param, fr.nth);
  H->probe[P_CUSTOM]++;
  hnum(1000 + param);
  if (sp.hook >= 0 && depth < 3) {
    auto it = hooks.find(sp.hook);
    if (it != hooks.end()) {
      std::vector<size_t> ops = it->second;
      jmp_buf keep;
      memcpy(&keep, &jb, sizeof jb);
      depth++;
      for (size_t i : ops) {
        H->probe[P_NESTED]++;
        Op& o = (*plan)[i];
        if ((o.k == O_CALL || o.k == O_EXPECT) && o.mod == mod && o.fn == fn) H->probe[P_NESTED_SAME]++;
        exec_op(i);
        if (tainted) break;
      }
      depth--;
      memcpy(&jb, &keep, sizeof jb);
      H->inop = 1;
    }
  }
  int dec = sp.dec;
  if (dec == 3) {
    if (depth == 0) {
      H->probe[P_ABANDON]++;
      if (W[mod].m->cpp) throw Abandon();
      longjmp(jb, 1);
    }
    dec = 0;
  }
  if (dec == 2) {
    if (P.pclass == PC_VALUE) dec = !val_eq(P.type, (*fr.cval)[param].data(), fr.e->val[param].data());
    else dec = (*fr.cptr)[param] != fr.e->ptr[param];
  }
  if (dec) {
    char b[64];
    snprintf(b, sizeof b, "simulated mismatch #%d.%d", param, (int)(sp.seed % 1000));
    snprintf(msg, msgsz, "%s", b);
    Err e;
    e.kind = E_PARAM; e.mod = mod; e.fn = fn; e.a = (int)fr.nth; e.text = b; e.stack = fr.stk;
    frames[fi].g->push_back(e);
    H->probe[P_MISMATCH]++;
  }
  S.window = wnd;
  return dec;
}

static void do_expect(const Op& o) {
  if (o.mod >= (int)W.size() || !W[o.mod].h || o.fn >= (int)W[o.mod].m->nfns) return;
  const sim_fn& fn = F(o.mod, o.fn);
  const sim_xfn& x = W[o.mod].x[o.fn];
  auto e = std::make_shared<Exp>();
  e->inst = fn.is_method ? o.inst : -1;
  e->sp = o.p;
  e->sp.resize(fn.nparams);
  std::vector<int> mi(fn.nparams + 1);
  for (uint32_t p = 0; p < fn.nparams; p++) {
    PSpec& sp = e->sp[p];
    const sim_param& P = fn.params[p];
    sp.m %= (int)P.nmatchers;
    mi[p] = sp.m;
  }
  std::vector<Bytes> val;
  std::vector<void*> ptr;
  materialise(o, o.mod, o.fn, val, ptr, true, nullptr);
  e->val = val;
  e->ptr = ptr;
  uint32_t rsz = fn.ret ? fn.ret->size : 0;
  e->ret.resize(rsz + 16);
  if (fn.ret) val_fill(fn.ret, e->ret.data(), o.ret);
  Bytes rbuf = e->ret;
  bool outv = o.outv && x.expect_out;
  std::vector<void*> ob(fn.nparams + 1);
  std::vector<size_t> osz(fn.nparams + 1);
  e->out.assign(fn.nparams, nullptr);
  if (outv)
    for (uint32_t p = 0; p < fn.nparams && p < o.outs.size(); p++) {
      const sim_param& P = fn.params[p];
      if (!P.out || o.outs[p] < 0) continue;
      Bytes* b;
      Rng r((uint64_t)o.outs[p] + 17);
      if (P.out == 1 && P.type) { b = new Bytes(P.type->size); val_fill(P.type, b->data(), (uint64_t)o.outs[p]); }
      else { uint32_t z = slots(o.mod, o.fn, p).size; b = new Bytes(z == VASTSZ ? r.ch(0.5) ? r.range(65000, VASTSZ) : r.range(1, VOIDSZ) : r.range(1, P.type ? (int)P.type->size : VOIDSZ)); for (auto& c : *b) c = (char)r.next(); }
      e->out[p] = b;
      ob[p] = b->data();
      osz[p] = b->size();
    }
  std::vector<void*> a = argv_of(fn, val, ptr);
  void* inst = instance(o.mod, o.fn, e->inst);
  bool toomany = !W[o.mod].m->cpp && W[o.mod].st[o.fn].exps.size() >= 256;
  if (toomany) { H->capacity = 1; H->probe[P_CAPACITY]++; }
  long f0 = S.fired_alloc;
  int r = guarded([&] { if (outv) x.expect_out(inst, a.data(), rbuf.data(), mi.data(), ob.data(), osz.data()); else x.expect(inst, a.data(), rbuf.data(), mi.data()); });
  if (toomany && r == R_DONE && !tainted) H->capacity = 2;       // more room than documented: nothing to object to
  for (auto& v : val) memset(v.data(), 0x5A, v.size());
  memset(rbuf.data(), 0xA5, rbuf.size());
  for (auto& q : ptr) q = (void*)0x10;
  if (!after(r, "expecting", f0)) return;
  H->capacity = 0;
  W[o.mod].st[o.fn].exps.push_back(e);
  fifo.push_back({o.mod, o.fn});
  H->probe[P_EXPECTS]++;
}

static void do_call(const Op& o) {
  if (o.mod >= (int)W.size() || !W[o.mod].h || o.fn >= (int)W[o.mod].m->nfns) return;
  const sim_fn& fn = F(o.mod, o.fn);
  FnS& st = W[o.mod].st[o.fn];
  st.actual++;
  std::shared_ptr<Exp> e;
  if (st.actual - 1 < st.exps.size()) e = st.exps[st.actual - 1];
  int inst_i = fn.is_method ? (o.inst < 0 ? 0 : o.inst & 3) : -1;
  void* inst = instance(o.mod, o.fn, inst_i);
  std::vector<Bytes> val;
  std::vector<void*> ptr;
  materialise(o, o.mod, o.fn, val, ptr, false, e.get());
  std::vector<Bytes> cval = val;
  std::vector<void*> cptr = ptr;
  Group g;
  bool stk = m_stack, ord = m_order;
  H->probe[P_CALLS]++;
  H->probe[e ? P_MATCHED : P_UNEXPECTED]++;
  if (!e) { Err er; er.kind = E_UNEXP; er.mod = o.mod; er.fn = o.fn; er.stack = stk; g.push_back(er); }
  Group builtin;
  if (e) {
    if (fn.is_method && e->inst >= 0 && (e->inst & 3) != inst_i) {
      Err er; er.kind = E_INST; er.mod = o.mod; er.fn = o.fn; er.a = (int)st.actual; er.stack = stk;
      builtin.push_back(er);
      H->probe[P_INSTERR]++;
    }
    for (uint32_t p = 0; p < fn.nparams; p++) {
      const sim_param& P = fn.params[p];
      const PSpec& sp = e->sp[p];
      int mk = P.mkinds[sp.m];
      if (mk == MK_DEREF) H->probe[P_DEREF]++;
      if (mk == MK_STR) H->probe[P_STR]++;
      if (mk == MK_EQ && P.type->nleaves > 1) H->probe[P_STRUCT]++;
      if (P.pclass == PC_REF) H->probe[P_REF]++;
      if (res(P, sp, e->val[p], e->ptr[p], cval[p], cptr[p])) {
        Err er;
        er.kind = E_PARAM; er.mod = o.mod; er.fn = o.fn; er.a = (int)st.actual; er.stack = stk;
        if (P.name) er.must = std::string("'") + P.name;
        if ((mk == MK_EQ || mk == MK_DEREF) && P.type && P.type->nleaves > 1 && (mk == MK_EQ || (cptr[p] && e->ptr[p])))
          differing(P, e->val[p], e->ptr[p], cval[p], cptr[p], er.any);
        valtext(W[o.mod].m->cpp, mk, P, e->val[p], e->ptr[p], cval[p], cptr[p], er);
        builtin.push_back(er);
        H->probe[P_MISMATCH]++;
      }
    }
  }
  Frame fr;
  fr.mod = o.mod; fr.fn = o.fn; fr.e = e; fr.cval = &cval; fr.cptr = &cptr; fr.seen.assign(fn.nparams, 0); fr.nth = st.actual; fr.g = &g; fr.stk = stk;
  size_t nfr = frames.size();
  frames.push_back(fr);
  uint32_t rsz = fn.ret ? fn.ret->size : 0;
  Bytes rbuf(rsz + 48, (char)0x3C);
  std::vector<void*> a = argv_of(fn, val, ptr);
  size_t errpos = errs.size();
  long f0 = S.fired_alloc;
  int d0 = depth;
  trace("    calling %s (%s)\n", fn.name, e ? "expected" : "unexpected");
  int r = guarded([&] { fn.call(inst, a.data(), rbuf.data() + 16); });
  depth = d0;
  Frame done = frames[nfr];
  frames.resize(nfr);
  if (r == R_ABANDON) { sput(77); hnum(77); tainted = true; return; }
  if (!after(r, "calling", f0)) return;
  if (tainted) return;
  g.insert(g.end(), builtin.begin(), builtin.end());
  for (auto& b : g) if (b.kind != E_UNEXP && st.actual != done.nth) b.a = -1;      // the number printed is that of the last call
  if (S.fired_alloc > f0) for (auto& b : g) b.lax = true;
  bool lenient_out = false;
  if (e) {
    for (uint32_t p = 0; p < fn.nparams; p++)
      if (fn.params[p].mkinds[e->sp[p].m] == MK_CUSTOM && !done.seen[p]) violation("matcher", "call %u of %s: the matcher of parameter %u was not run", done.nth, fn.name, p);
    if (!fifo.empty()) {
      auto due = fifo.front();
      fifo.pop_front();
      if (ord && due != std::make_pair(o.mod, o.fn)) {
        Err er; er.kind = E_ORDER; er.mod = o.mod; er.fn = o.fn; er.a = due.first; er.b = due.second; er.stack = stk;
        g.push_back(er);
        lenient_out = true;
        H->probe[P_ORDERERR]++;
      }
    }
    if (fn.ret && !val_same(fn.ret, rbuf.data() + 16, e->ret.data())) violation("return", "call %u of %s did not return what expectation %u configured", done.nth, fn.name, done.nth);
    for (uint32_t p = 0; p < fn.nparams; p++) {
      if (!e->out[p] || !cptr[p]) continue;
      const sim_param& P = fn.params[p];
      Slots& s = slots(o.mod, o.fn, p);
      int k = -1;
      for (int i = 0; i < NSLOT; i++) if (s.real[i] == cptr[p]) k = i;
      bool ok;
      if (P.out == 1 && P.type && !P.text) ok = val_same(P.type, s.real[k], e->out[p]->data());
      else ok = !memcmp(s.real[k], e->out[p]->data(), e->out[p]->size());
      bool untouched = !memcmp(s.real[k], s.shadow[k].data() + CAN, s.size);
      if (!ok && !(lenient_out && untouched)) violation("output", "call %u of %s did not write output %u as expectation %u configured it", done.nth, fn.name, p, done.nth);
      if (P.out == 2) H->probe[P_OUTSZ]++;
      H->probe[P_OUT]++;
      if (P.out == 1 && P.type && !P.text) memcpy(s.shadow[k].data() + CAN, s.real[k], P.type->size);
      else if (!(lenient_out && untouched)) memcpy(s.shadow[k].data() + CAN, e->out[p]->data(), e->out[p]->size());
      if (P.text) s.shadow[k][CAN + TEXTSZ - 1] = s.real[k][TEXTSZ - 1];
    }
  }
  for (int i = 0; i < 16; i++) if (rbuf[i] != 0x3C || rbuf[16 + rsz + i] != 0x3C) violation("memory", "%s wrote outside of its return value", fn.name);
  check_slots(o.mod, o.fn, "calling");
  size_t own = g.size();
  if (own && stk) H->probe[P_BACKTRACE]++;
  if (errs.size() > errpos) {        // calls nested in this one reported as well: the errors of both interleave
    Group all;
    for (size_t i = errpos; i < errs.size(); i++) all.insert(all.end(), errs[i].begin(), errs[i].end());
    all.insert(all.end(), g.begin(), g.end());
    errs.resize(errpos);
    errs.push_back(all);
  } else if (own) errs.push_back(g);
  sput((uint64_t)o.fn * 16 + g.size() + (e ? 8 : 0));
  hnum((uint64_t)(e ? 1 : 0) + 10 * g.size());
  if (fn.ret && e) for (uint32_t i = 0; i < fn.ret->nleaves; i++) if (fn.ret->leaves[i].kind != LK_PTR && !bits_kind(fn.ret->leaves[i].kind)) hput(rbuf.data() + 16 + fn.ret->leaves[i].off, fn.ret->leaves[i].kind == LK_LDOUBLE ? 10 : fn.ret->leaves[i].size);
}

static void do_check() {
  int r = 99;
  long f0 = S.fired_alloc;
  int g0 = guarded([&] { r = easyMock_check(); });
  if (!after(g0, "checking", f0) || tainted) return;
  Group g;
  for (size_t m = 0; m < W.size(); m++) {
    if (!W[m].h) continue;
    for (size_t f = 0; f < W[m].st.size(); f++) {
      FnS& s = W[m].st[f];
      if (s.exps.size() != s.actual) {
        Err e; e.kind = E_COUNT; e.mod = (int)m; e.fn = (int)f; e.a = (int)s.exps.size(); e.b = (int)s.actual;
        g.push_back(e);
        H->probe[P_COUNTERR]++;
      }
    }
  }
  if (!g.empty()) errs.push_back(g);
  int want = errs.empty();
  H->probe[want ? P_CHECK_OK : P_CHECK_KO]++;
  if ((r != 0) != (want != 0)) {
    std::string w;
    for (auto& gg : errs) for (auto& e : gg) w += err_str(e) + "; ";
    violation("verdict", "easyMock_check() returned %d; the history %s%.600s", r, want ? "has no deviation" : "has: ", w.c_str());
  }
  if (r != 0 && r != 1) violation("verdict", "easyMock_check() returned %d", r);
  hnum(r);
  sput(r + 5);
}

static bool load(int m, bool fatal);
static int nfd() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (d && readdir(d)) n++; if (d) closedir(d); return n; }

static void exec_op(size_t i) {
  Op& o = (*plan)[i];
  H->step = (int)i;
  H->ops++;
  trace("%zu: %s%s\n", i, tainted ? "(skipped until init) " : "", op_str(o).c_str());
  sput((uint64_t)o.k * 1000003 + o.mod * 1009 + o.fn + 31 * o.task);
  hnum(o.k);
  long f0 = S.fired_alloc;
  switch (o.k) {
    case O_INIT: {
      if (depth) return;
      int r = guarded([&] { easyMock_init(); });
      if (r == R_BADALLOC && S.fired_alloc > f0) { tainted = true; H->probe[P_ALLOC_BADALLOC]++; break; }
      after(r, "easyMock_init", f0);
      chk_init_model();
      H->probe[P_TESTS]++;
      break;
    }
    case O_ORDER: { m_order = o.a; int r = guarded([&] { easyMock_setCheckCallsOrder(o.a ? easyMock_true : easyMock_false); }); after(r, "setCheckCallsOrder", f0); break; }
    case O_STACK: { m_stack = o.a; int r = guarded([&] { easyMock_setPrintCallStack(o.a ? easyMock_true : easyMock_false); }); after(r, "setPrintCallStack", f0); break; }
    case O_CHECK: if (!tainted) do_check(); break;
    case O_VIEWS: if (!tainted && !S.fail_at) compare_errors("views"); break;
    case O_EXPECT: if (!tainted) do_expect(o); break;
    case O_CALL: if (!tainted) do_call(o); break;
    case O_LOAD: if (depth == 0 && !tainted) load((int)o.a, false); break;
    case O_UNLOAD:
      if (depth == 0 && o.a < (long)W.size() && W[o.a].h && !tainted) {
        Mod& M = W[o.a];
        bool pend = false;
        for (auto& s : M.st) { pend |= s.exps.size() != s.actual; }
        int r = guarded([&] { dlclose(M.h); });
        if (r != R_DONE) violation("exception", "unloading a module threw");
        void* again = dlopen(M.path.c_str(), RTLD_NOW | RTLD_NOLOAD);
        if (again) { fprintf(stderr, "SIM: module %s is not really unloaded\n", M.path.c_str()); _exit(70); }
        M.h = nullptr;
        M.m = nullptr;
        M.x = nullptr;
        for (auto& s : M.st) { s.exps.clear(); s.actual = 0; }
        H->probe[P_UNLOADS]++;
        if (pend) H->probe[P_UNLOAD_PENDING]++;
      }
      break;
    case O_FAULT: S.allocs = 0; S.fail_at = o.a; S.sticky = (int)o.b; break;
    case O_NOFAULT: S.fail_at = 0; S.io_at = 0; break;
    case O_IO: S.io_seen = 0; S.io_mask = (int)o.a; S.io_at = o.b; S.io_sticky = (int)o.c; S.io_err = (int)o.d; break;
    case O_NOTE: break;
  }
}

static bool load(int m, bool fatal) {
  if (m >= (int)W.size() || W[m].h) return true;
  Mod& M = W[m];
  S.window = 1;
  void* h = dlopen(M.path.c_str(), RTLD_NOW | RTLD_LOCAL);
  S.window = 0;
  if (!h) { if (fatal) return false; violation("load", "module %s can't be loaded: %s", M.path.c_str(), dlerror()); }
  M.h = h;
  M.m = (const sim_module*)dlsym(h, "sim_mod");
  M.x = (const sim_xfn*)dlsym(h, "sim_xfns");
  if (!M.m || !M.x) { if (fatal) return false; violation("load", "module %s: no tables", M.path.c_str()); }
  M.st.assign(M.m->nfns, FnS());
  for (uint32_t f = 0; f < M.m->nfns; f++) fn_names[std::make_pair(m, (int)f)] = M.m->fns[f].name;
  if (H) H->probe[P_LOADS]++;
  return true;
}

struct LeakCfg { int cycles = 0; };
static void run_plan(Plan& p, int cycles) {
  plan = &p;
  guard_on = 1;
  struct Fin { ~Fin() { gfinish(); } } fin;
  hooks.clear();
  std::vector<size_t> top;
  for (size_t i = 0; i < p.size(); i++) { if (p[i].depth == 0) top.push_back(i); else hooks[p[i].depth - 1].push_back(i); }
  H->hash = 14695981039346656037ull;
  H->shape = 1;
  int last = -1;
  if (cycles) {
    // the same history again and again: what is still allocated after init must stop growing
    long maxb[3] = {0, 0, 0}, maxn[3] = {0, 0, 0};
    int fd0 = 0;
    for (int c = 0; c < cycles * 3 + 4; c++) {
      for (size_t i : top) exec_op(i);
      int r = guarded([&] { easyMock_init(); });
      if (r != R_DONE) violation("exception", "easyMock_init threw");
      chk_init_model();
      H->probe[P_LEAKCYCLES]++;
      if (c == 3) fd0 = nfd();
      if (c >= 4) {
        int w = (c - 4) / cycles;
        maxb[w] = std::max(maxb[w], S.live_bytes);
        maxn[w] = std::max(maxn[w], S.live_blocks);
      }
    }
    trace("live bytes %ld %ld %ld blocks %ld %ld %ld\n", maxb[0], maxb[1], maxb[2], maxn[0], maxn[1], maxn[2]);
    int fd1 = nfd();
    if (fd1 != fd0) violation("leak", "file descriptors: %d after 4 cycles, %d after %d", fd0, fd1, cycles * 3 + 4);
    if (maxn[2] > maxn[0] + cycles / 2 || maxb[2] > maxb[0] + 8 * cycles)
      violation("leak", "live memory after init keeps growing: %ld bytes in %ld blocks, %d cycles later %ld bytes in %ld blocks", maxb[0], maxn[0], 2 * cycles, maxb[2], maxn[2]);
    return;
  }
  for (size_t i : top) {
    if (last >= 0 && p[i].task != last) H->probe[P_TASKSWITCH]++;
    last = p[i].task;
    exec_op(i);
  }
}

// ------------------------------------------------------------------------------------------------ schedules
struct Prof {
  int tests_lo = 1, tests_hi = 4, steps_lo = 4, steps_hi = 40, tasks_hi = 4, fns_hi = 5;
  double mut = 0.06, wrongfn = 0.05, drop = 0.1, custom = 0.15, hook = 0.3, abandon = 0.0, outs = 0.5, order = 0.0, stack = 0.0, views = 0.1, nullp = 0.08, dirty = 0.15, recheck = 0.15, settings = 0.05;
  double loads = 0.0, alloc = 0.0, io = 0.0, builtin = 0.75, capacity = 0.0, scale = 0.004;
  bool nohook_in_order = true;
  int cycles = 0;
};
static bool prof_of(const std::string& n, Prof& p) {
  if (n == "C01") { p.order = 0.3; p.stack = 0.01; }
  else if (n == "C02") { p.hook = 0.6; p.custom = 0.3; p.outs = 0.8; p.mut = 0.02; p.order = 0.15; }
  else if (n == "C03") { p.order = 0.85; p.settings = 0.12; p.custom = 0.03; p.hook = 0.0; p.builtin = 0.3; p.wrongfn = 0.1; p.fns_hi = 7; p.mut = 0.03; }
  else if (n == "C04") { p.abandon = 0.25; p.custom = 0.4; p.order = 0.5; p.tests_lo = 2; p.tests_hi = 6; p.steps_hi = 16; p.dirty = 0.6; p.hook = 0.2; }
  else if (n == "C05") { p.mut = 0.2; p.wrongfn = 0.15; p.drop = 0.3; p.views = 0.3; p.recheck = 0.5; p.order = 0.3; p.stack = 0.04; p.settings = 0.15; p.steps_hi = 24; }
  else if (n == "C06") { p.builtin = 1.0; p.custom = 0.02; p.mut = 0.25; p.nullp = 0.15; p.hook = 0; p.outs = 0.1; p.wrongfn = 0.01; p.views = 0.4; }
  else if (n == "C07") { p.loads = 0.5; p.order = 0.3; p.tests_lo = 2; p.tests_hi = 6; p.steps_hi = 14; p.dirty = 0.3; }
  else if (n == "C08") { p.alloc = 0.5; p.tests_lo = 2; p.tests_hi = 5; p.steps_hi = 14; p.order = 0.2; p.capacity = 0.02; p.stack = 0.01; p.hook = 0.05; }
  else if (n == "C09") { p.stack = 1.0; p.io = 0.6; p.steps_lo = 2; p.steps_hi = 5; p.tests_hi = 2; p.mut = 0.3; p.wrongfn = 0.3; p.hook = 0; p.fns_hi = 2; p.order = 0.2; p.views = 0.3; }
  else if (n == "C10") { p.cycles = 16; p.scale = 0; p.tests_hi = 1; p.steps_hi = 14; p.abandon = 0; p.mut = 0.15; p.wrongfn = 0.1; p.drop = 0.4; p.stack = 0.02; p.hook = 0.1; }
  else if (n == "E2E") { p.tests_hi = 3; p.fns_hi = 8; p.mut = 0.12; p.hook = 0.1; p.order = 0.15; p.builtin = 0.8; p.views = 0.2; }
  else return false;
  return true;
}
struct Sim {
  Rng r;
  Prof p;
  Plan out;
  int nhook = 0;
  uint64_t nval = 1;
  std::vector<std::pair<int, int>> act;
  std::map<std::pair<int, int>, std::vector<Op>> exps;
  std::map<std::pair<int, int>, unsigned> actual;
  std::vector<std::pair<int, int>> order;       // expected order
  std::set<int> loaded;
  bool ordering = false;
  Sim(uint64_t seed, const Prof& pr) : r(seed), p(pr) {}
  uint64_t vid() { return r.ch(0.3) ? r.below(4) : r.below(1 << 20); }
  const sim_fn& fn(std::pair<int, int> x) { return W[x.first].m->fns[x.second]; }
  PSpec spec(const sim_param& P) {
    PSpec s;
    if (P.pclass == PC_VALUE) { s.kind = 'v'; s.seed = vid(); return s; }
    if (P.pclass != PC_REF && r.ch(p.nullp)) { s.kind = 'n'; return s; }
    s.kind = 's';
    s.slot = (int)r.below(4);
    if (r.ch(0.4)) { s.setc = true; s.seed = vid(); }
    return s;
  }
  Op expect(std::pair<int, int> x, int task, int dep) {
    Op o;
    const sim_fn& f = fn(x);
    o.k = O_EXPECT; o.mod = x.first; o.fn = x.second; o.task = task; o.depth = dep;
    o.inst = f.is_method ? (r.ch(0.25) ? -1 : (int)r.below(3)) : -1;
    for (uint32_t i = 0; i < f.nparams; i++) {
      PSpec s = spec(f.params[i]);
      int nb = (int)f.params[i].nmatchers;      // 0 none .. nb-1 custom
      if (r.ch(p.custom)) {
        s.m = nb - 1;
        s.dec = r.ch(p.abandon) ? 3 : r.ch(0.1) ? 1 : r.ch(0.5) ? 2 : 0;
        if (dep == 0 && nhook < 12 && r.ch(p.hook) && !(ordering && p.nohook_in_order)) s.hook = make_hook(task);
      } else if (nb > 2 && r.ch(p.builtin)) s.m = 1 + (int)r.below(nb - 2);
      o.p.push_back(s);
    }
    o.ret = vid();
    bool can = W[x.first].x[x.second].expect_out;
    if (can && r.ch(p.outs)) {
      o.outv = true;
      for (uint32_t i = 0; i < f.nparams; i++) {
        bool w = f.params[i].out && r.ch(0.75);
        o.outs.push_back(w ? (long)vid() : -1);
        if (w && o.p[i].kind == 'n') { o.p[i].kind = 's'; o.p[i].slot = (int)r.below(4); }
      }
    }
    exps[x].push_back(o);
    order.push_back(x);
    return o;
  }
  int make_hook(int task) {
    int h = nhook++;
    int n = r.range(1, 3);
    for (int i = 0; i < n; i++) {
      auto x = act[r.below(act.size())];
      Op o;
      double c = r.next() % 100 / 100.0;
      if (c < 0.45) o = call(x, task, h + 1);
      else if (c < 0.75) o = expect(x, task, h + 1);
      else if (c < 0.85) o.k = O_VIEWS;
      else { o.k = O_STACK; o.a = 0; }
      o.task = task;
      o.depth = h + 1;
      if (o.k == O_VIEWS) continue;             // the views are only compared between calls
      out.push_back(o);
    }
    return h;
  }
  Op call(std::pair<int, int> x, int task, int dep) {
    Op o;
    const sim_fn& f = fn(x);
    o.k = O_CALL; o.mod = x.first; o.fn = x.second; o.task = task; o.depth = dep;
    unsigned n = actual[x]++;
    auto& v = exps[x];
    if (n < v.size()) {
      Op& e = v[n];
      o.inst = e.inst;
      if (f.is_method && (o.inst < 0 || r.ch(p.mut))) o.inst = (int)r.below(4);
      for (uint32_t i = 0; i < f.nparams; i++) {
        PSpec s = e.p[i];
        const sim_param& P = f.params[i];
        s.hook = -1; s.dec = 0; s.m = 0; s.setc = false;
        if (s.kind == 's' && (P.mkinds[e.p[i].m] == MK_DEREF || P.mkinds[e.p[i].m] == MK_STR || P.pclass == PC_REF) && e.p[i].setc && r.ch(0.7)) {
          s.slot = (s.slot + 1 + (int)r.below(3)) & 3;
          s.setc = true;
        }
        if (r.ch(p.mut)) {
          uint32_t nl = P.type ? P.type->nleaves : 0;
          if (P.pclass == PC_VALUE || s.setc) { s.mleaf = nl ? (int)r.below(nl) : 0; s.mseed = r.below(100000); }
          else if (P.pclass != PC_REF && r.ch(0.25)) s.kind = 'n';
          else if (s.kind == 's') { s.slot = (s.slot + 1 + (int)r.below(3)) & 3; if (r.ch(0.3) && P.type) { s.setc = true; s.seed = vid(); } }
          else { s.kind = 's'; s.slot = (int)r.below(4); }
        }
        o.p.push_back(s);
      }
    } else {
      o.inst = f.is_method ? (int)r.below(4) : -1;
      for (uint32_t i = 0; i < f.nparams; i++) o.p.push_back(spec(f.params[i]));
    }
    return o;
  }
  void emit(Op o) { out.push_back(o); }
  void simple(int k, long a = 0, int task = 0) { Op o; o.k = k; o.a = a; o.task = task; emit(o); }
  void pick_active() {
    std::vector<std::pair<int, int>> all;
    for (int m : loaded) for (uint32_t f = 0; f < W[m].m->nfns; f++) all.push_back({m, (int)f});
    act.clear();
    int n = r.range(1, p.fns_hi);
    for (int i = 0; i < n && !all.empty(); i++) { size_t k = r.below(all.size()); act.push_back(all[k]); all.erase(all.begin() + (long)k); }
  }
  // which call is next: mostly the one that is due
  bool due(std::pair<int, int>& x) {
    std::vector<std::pair<int, int>> c;
    std::map<std::pair<int, int>, unsigned> seen;
    for (auto& f : order) if (seen[f]++ >= actual[f] && loaded.count(f.first)) { c.push_back(f); if (ordering) break; }
    if (c.empty()) return false;
    x = ordering ? c[0] : c[r.below(c.size())];
    return true;
  }
  void maybe_fault_on() {
    if (r.ch(p.alloc * 0.25)) { Op o; o.k = O_FAULT; o.a = 1 + (long)(r.ch(0.7) ? r.below(4) : r.below(25)); o.b = r.ch(0.3); emit(o); }
    if (r.ch(p.io)) {
      Op o; o.k = O_IO;
      static const int masks[] = {1 << IO_OPEN, 1 << IO_READ, 1 << IO_FOPEN, 1 << IO_MMAP, 1 << IO_DEBUG, 31};
      static const int er[] = {EMFILE, EACCES, ENOENT, EIO, ENOMEM};
      o.a = masks[r.below(6)];
      o.b = 1 + (long)(r.ch(0.6) ? r.below(3) : r.below(30));
      o.c = r.ch(0.6);
      o.d = er[r.below(5)];
      emit(o);
    }
  }
  Plan gen() {
    for (int i = 0; i < (int)W.size(); i++) if (W[i].h) loaded.insert(i);
    simple(O_STACK, 0);
    simple(O_ORDER, 0);
    if (p.loads > 0) for (int i = 0; i < (int)W.size(); i++) if (r.ch(0.4)) { simple(O_UNLOAD, i); loaded.erase(i); }
    int tests = r.range(p.tests_lo, p.tests_hi);
    bool stack_on = false;
    const double often[] = {1, 1, 0.2, 0};
    p.views *= often[r.below(4)];              // errors looked at often, or at the end only
    for (int t = 0; t < tests; t++) {
      if (p.loads > 0) for (int i = 0; i < (int)W.size(); i++) if (r.ch(p.loads * 0.6)) { bool l = loaded.count(i); simple(l ? O_UNLOAD : O_LOAD, i); if (l) loaded.erase(i); else loaded.insert(i); }
      if (loaded.empty()) { int k = (int)r.below(W.size()); simple(O_LOAD, k); loaded.insert(k); }
      if (p.alloc > 0) simple(O_NOFAULT);
      size_t from = out.size();
      simple(O_INIT);
      exps.clear();
      actual.clear();
      order.clear();
      bool want = r.ch(p.order);
      if (want != ordering || r.ch(0.1)) { simple(O_ORDER, want); ordering = want; }
      bool st = r.ch(p.stack);
      if (st != stack_on || r.ch(0.1)) { simple(O_STACK, st); stack_on = st; }
      bool order0 = ordering, stack0 = stack_on;
      pick_active();
      int K = r.range(1, p.tasks_hi);
      std::vector<int> left(K);
      std::vector<int> role(K);
      for (int k = 0; k < K; k++) { left[k] = r.range(p.steps_lo, std::max(p.steps_lo, p.steps_hi / K)); role[k] = (int)r.below(4); }
      bool faults = r.ch(p.alloc > 0 ? 0.7 : 1.0);
      bool idle = false;
      if (p.capacity > 0 && r.ch(p.capacity)) {
        auto x = act[r.below(act.size())];
        int n = r.range(250, 262);
        for (int i = 0; i < n; i++) emit(expect(x, 0, 0));
      }
      if (r.ch(p.scale)) {                      // a long queue for one function
        auto x = act[r.below(act.size())];
        bool cpp = W[x.first].m->cpp;
        if (r.ch(0.3)) {                        // round numbers of calls that are never made
          int n = cpp ? 256 * r.range(1, 2) : 256;
          for (int i = 0; i < n; i++) emit(expect(x, 0, 0));
          if (r.ch(0.7)) { for (int& l : left) l = 0; idle = true; }
        } else
        for (int i = 0, n = r.range(60, cpp ? 420 : 255); i < n; i++) emit(expect(x, 0, 0));
        if (!idle && r.ch(0.4)) for (int i = 0, n = r.range(100, 500); i < n; i++) emit(call(x, 0, 0));
      }
      std::vector<int> alive;
      for (int k = 0; k < K; k++) alive.push_back(k);
      while (!alive.empty() && !idle) {         // the scheduler
        size_t ai = r.below(alive.size());
        int k = alive[ai];
        int burst = r.ch(0.6) ? 1 : r.range(2, 4);
        while (burst-- && left[k] > 0) {
          left[k]--;
          if (faults) maybe_fault_on();
          auto x = act[r.below(act.size())];
          double pe = role[k] == 0 ? 0.8 : role[k] == 1 ? 0.2 : 0.5;
          if (r.ch(p.views)) simple(O_VIEWS, 0, k);
          if (r.ch(p.views * 0.25)) simple(O_CHECK, 0, k);
          if (r.ch(p.settings)) { bool b = p.order > 0 && r.ch(0.5); if (b) { ordering = r.ch(p.order); simple(O_ORDER, ordering, k); } else { stack_on = r.ch(p.stack); simple(O_STACK, stack_on, k); } }
          if (p.loads > 0 && r.ch(p.loads * 0.06)) {
            int i = (int)r.below(W.size());
            bool l = loaded.count(i);
            if (!l || loaded.size() > 1) { simple(l ? O_UNLOAD : O_LOAD, i, k); if (l) loaded.erase(i); else loaded.insert(i); pick_active(); for (uint32_t f = 0; f < 64; f++) { exps.erase({i, (int)f}); actual.erase({i, (int)f}); } order.erase(std::remove_if(order.begin(), order.end(), [&](std::pair<int, int> q) { return q.first == i; }), order.end()); }
            continue;
          }
          if (r.ch(pe)) emit(expect(x, k, 0));
          else { std::pair<int, int> d; if (!r.ch(p.wrongfn) && due(d)) x = d; else if (!r.ch(p.wrongfn)) { emit(expect(x, k, 0)); continue; } emit(call(x, k, 0)); }
        }
        if (left[k] <= 0) alive.erase(alive.begin() + (long)ai);
      }
      bool drain = !idle && !r.ch(p.drop);
      std::pair<int, int> d;
      int guard = 0;
      while (drain && due(d) && guard++ < 400) { if (faults) maybe_fault_on(); emit(call(d, 0, 0)); if (r.ch(0.02)) break; }
      if (p.alloc > 0 && r.ch(0.8)) simple(O_NOFAULT);
      if (r.ch(p.dirty) && t + 1 < tests) continue;      // the test ends here, without a check
      if (r.ch(0.5)) simple(O_VIEWS);
      simple(O_CHECK);
      simple(O_VIEWS);
      while (r.ch(p.recheck)) { simple(O_CHECK); simple(O_VIEWS); }
      bool moved = p.alloc > 0;
      for (size_t i = from; i < out.size(); i++) moved |= out[i].k == O_LOAD || out[i].k == O_UNLOAD;
      if (!moved && out.size() - from < 120 && r.ch(0.12)) {   // the very same test once more
        size_t to = out.size();
        simple(O_INIT);
        simple(O_ORDER, order0);
        simple(O_STACK, stack0);
        for (size_t i = from + 1; i < to; i++) if (!out[i].depth) { Op o = out[i]; emit(o); }
      }
    }
    return out;
  }
};

// ------------------------------------------------------------------------------------------------ running in children
static int errfd = -1;
static const int REUSE = 1000;    // added to the number of cycles
static int cycles_of(const Prof& p, uint64_t run) { return p.cycles + (mix(run, 77) % 4 ? 0 : REUSE); }
struct Result { bool viol = false; std::string cls, detail; uint64_t hash = 0, shape = 0; int step = 0; long ops = 0; };
static Result run_child(Plan& p, int cycles) {
  long keep[P_N];
  memcpy(keep, H->probe, sizeof keep);
  memset((void*)H, 0, offsetof(Shared, probe));
  if (ftruncate(errfd, 0)) {}
  lseek(errfd, 0, SEEK_SET);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(errfd, 2);
    struct rlimit rl = {10, 11};
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    if (!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); }
    reuse_now = cycles >= REUSE;
    run_plan(p, cycles % REUSE);
    H->probe[P_FAULT_ALLOC] += S.fired_alloc;
    H->probe[P_FAULT_OPEN] += S.fired_io[IO_OPEN];
    H->probe[P_FAULT_READ] += S.fired_io[IO_READ];
    H->probe[P_FAULT_FOPEN] += S.fired_io[IO_FOPEN];
    H->probe[P_FAULT_MMAP] += S.fired_io[IO_MMAP];
    H->probe[P_FAULT_DEBUG] += S.fired_io[IO_DEBUG];
    if (S.fired_io[0] + S.fired_io[1] + S.fired_io[2] + S.fired_io[3] + S.fired_io[IO_DEBUG]) H->probe[P_FREED_BT]++;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Result r;
  r.hash = H->hash; r.shape = H->shape; r.step = H->step; r.ops = H->ops;
  off_t esz = lseek(errfd, 0, SEEK_END);
  char eb[300] = "";
  if (esz > 0) { ssize_t k = pread(errfd, eb, sizeof eb - 1, 0); if (k > 0) eb[k] = 0; }
  if (H->viol) { r.viol = true; r.cls = H->cls; r.detail = H->detail; return r; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !H->inop) return r;
  bool fault = H->in_fault != 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 70) { fprintf(stderr, "%s\n", eb); r.viol = true; r.cls = "harness"; r.detail = eb; return r; }
  // the process ended inside an operation
  bool excused = fault || H->capacity == 1;
  bool loud = esz > 0;
  bool deliberate = WIFEXITED(st) ? WEXITSTATUS(st) != 0 : WTERMSIG(st) == SIGABRT;
  if (excused && loud && deliberate) { H->probe[P_ALLOC_EXIT]++; r.hash = mix(r.hash, (uint64_t)st); if (fault) H->probe[P_FAULT_ALLOC]++; return r; }
  r.viol = true;
  char b[512];
  if (WIFEXITED(st)) { r.cls = excused ? "silent-exit" : "exit"; snprintf(b, sizeof b, "the process exited with %d inside step %d%s; stderr: '%.200s'", WEXITSTATUS(st), r.step, excused ? " after an injected failure" : "", eb); }
  else { r.cls = WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? "hang" : "crash"; snprintf(b, sizeof b, "the process died of signal %d inside step %d%s; stderr: '%.200s'", WTERMSIG(st), r.step, excused ? " after an injected failure" : "", eb); }
  r.detail = b;
  r.hash = mix(r.hash, (uint64_t)st);
  return r;
}
static Result run_counted(Plan& p, int cyc, bool count) {
  long keep[P_N];
  memcpy(keep, H->probe, sizeof keep);
  Result r = run_child(p, cyc);
  if (!count) memcpy(H->probe, keep, sizeof keep);
  return r;
}
static bool same_viol(const Result& a, const Result& b) { return a.viol && b.viol && a.cls == b.cls; }
static Plan minimise(Plan p, const Result& ref, int cyc, int budget) {
  auto prune = [](const Plan& q) {       // hooks nobody refers to
    std::set<int> used;
    for (auto& o : q) for (auto& s : o.p) if (s.hook >= 0) used.insert(s.hook);
    Plan r;
    for (auto& o : q) if (o.depth == 0 || used.count(o.depth - 1)) r.push_back(o);
    return r;
  };
  auto still = [&](Plan& q) { if (budget-- <= 0) return false; Result r = run_counted(q, cyc, false); return same_viol(r, ref); };
  { Plan q = prune(p); if (still(q)) p = q; }
  for (size_t chunk = std::max<size_t>(1, p.size() / 2);; chunk = std::max<size_t>(1, chunk / 2)) {
    bool any = false;
    for (size_t at = 0; at < p.size() && budget > 0;) {
      Plan q(p);
      q.erase(q.begin() + (long)at, q.begin() + (long)std::min(p.size(), at + chunk));
      q = prune(q);
      if (q.size() < p.size() && still(q)) { p = q; any = true; } else at += chunk;
    }
    if (chunk == 1 && (!any || budget <= 0)) break;
  }
  for (size_t i = 0; i < p.size() && budget > 0; i++) {     // simpler arguments
    auto attempt = [&](auto f) { Plan q(p); f(q[i]); if (op_str(q[i]) != op_str(p[i])) { q = prune(q); if (q.size() == p.size() && still(q)) p = q; } };
    attempt([](Op& o) { o.outv = false; o.outs.clear(); });
    attempt([](Op& o) { o.task = 0; });
    for (size_t k = 0; k < p[i].p.size(); k++) {
      attempt([&](Op& o) { o.p[k].m = 0; o.p[k].hook = -1; o.p[k].dec = 0; });
      attempt([&](Op& o) { o.p[k].mleaf = -1; });
      attempt([&](Op& o) { o.p[k].seed %= 4; });
    }
    attempt([](Op& o) { o.ret %= 4; });
  }
  return p;
}
static std::string esc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }

// the two views of every type (mocked header / generated header) have to agree
static bool layout_check(std::string& why) {
  for (auto& M : W) {
    auto a = (const sim_type* const*)dlsym(M.h, "sim_types"), b = (const sim_type* const*)dlsym(M.h, "sim_xtypes");
    auto ca = (const int64_t*)dlsym(M.h, "sim_consts"), cb = (const int64_t*)dlsym(M.h, "sim_xconsts");
    if (!a || !b || !ca || !cb) { why = "no type tables in " + M.path; return false; }
    for (int i = 0; a[i]; i++) {
      char w[300];
      if (!b[i] || a[i]->size != b[i]->size || a[i]->nleaves != b[i]->nleaves) { snprintf(w, sizeof w, "%s: sizeof(%s) is %u in the mocked header, %u in the generated one", M.m->name, a[i]->name, a[i]->size, b[i] ? b[i]->size : 0); why = w; return false; }
      for (uint32_t k = 0; k < a[i]->nleaves; k++) {
        const sim_leaf &x = a[i]->leaves[k], &y = b[i]->leaves[k];
        if (x.off != y.off || x.size != y.size) { snprintf(w, sizeof w, "%s: field %s of %s is at %u+%u in the mocked header, at %u+%u in the generated one", M.m->name, x.name, a[i]->name, x.off, x.size, y.off, y.size); why = w; return false; }
        if (bits_kind(x.kind))
          for (int t = 0; t < 16; t++) {
            Bytes m(a[i]->size + 16);
            val_fill(a[i], m.data(), t);
            if (x.get(m.data()) != y.get(m.data())) { snprintf(w, sizeof w, "%s: field %s of %s reads differently through the generated header", M.m->name, x.name, a[i]->name); why = w; return false; }
          }
      }
    }
    for (int64_t i = 0; i <= ca[0]; i++) if (ca[i] != cb[i]) { why = std::string(M.m->name) + ": a constant differs between the mocked and the generated header"; return false; }
  }
  return true;
}

int main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  seam_init();
  pool_init();
  H = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  errfd = (int)syscall(SYS_memfd_create, "err", 0u);
  if (argc < 3) return 2;
  std::string mode = argv[1];
  {
    FILE* f = fopen(argv[2], "r");
    char l[4096];
    while (f && fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; if (*l) { Mod m; m.path = l; W.push_back(m); } }
    if (f) fclose(f);
  }
  for (size_t i = 0; i < W.size(); i++) if (!load((int)i, true)) { printf("LOADFAIL %s %s\n", W[i].path.c_str(), dlerror()); return 3; }
  for (size_t i = 0; i < W.size(); i++) for (uint32_t f = 0; f < W[i].m->nfns; f++) for (uint32_t p = 0; p < F((int)i, (int)f).nparams; p++) if (F((int)i, (int)f).params[p].pclass != PC_VALUE) slots((int)i, (int)f, (int)p);
  { Window w; easyMock_init(); }
  if (mode == "layout") { std::string why; if (layout_check(why)) { printf("LAYOUT OK\n"); return 0; } printf("LAYOUT %s\n", why.c_str()); return 1; }
  if (mode == "exec") {         // simrt exec WORLD PLAN [-v]
    verbose = argc > 4;
    FILE* f = fopen(argv[3], "r");
    if (!f) return 2;
    Plan p;
    char* l = nullptr;
    size_t n = 0;
    int cyc = 0;
    while (getline(&l, &n, f) > 0) {
      l[strcspn(l, "\n")] = 0;
      if (*l == '#') { sscanf(l, "# cycles %d", &cyc); continue; }
      if (!*l) continue;
      Op o;
      if (!op_parse(l, o)) { printf("BADPLAN %s\n", l); return 2; }
      p.push_back(o);
    }
    Result r = run_child(p, cyc);
    printf("RESULT %s hash=%016llx step=%d %s\n", r.viol ? r.cls.c_str() : "ok", (unsigned long long)r.hash, r.step, r.detail.c_str());
    return r.viol;
  }
  if (mode == "hashes" || mode == "gen") {   // simrt gen WORLD PROFILE SEED FROM COUNT SECONDS OUTPREFIX
    Prof pr;
    if (argc < 9 || !prof_of(argv[3], pr)) return 2;
    uint64_t seed = strtoull(argv[4], 0, 10);
    long from = atol(argv[5]), count = atol(argv[6]);
    double secs = atof(argv[7]);
    std::string outp = argv[8];
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    std::unordered_set<uint64_t> hs, sh;
    long runs = 0, ops = 0, dets = 0, nondet = 0;
    double el = 0;
    std::string sample;
    int nv = 0;
    std::string vj;
    for (long i = from; i < from + count; i++) {
      clock_gettime(CLOCK_MONOTONIC, &t1);
      el = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
      if (el > secs) break;
      Sim s(mix(seed, (uint64_t)i), pr);
      Plan p = s.gen();
      int cyc = cycles_of(pr, mix(seed, (uint64_t)i));
      Result r = run_counted(p, cyc, true);
      runs++;
      ops += r.ops;
      hs.insert(r.hash);
      sh.insert(r.shape);
      if (mode == "hashes") printf("%ld %016llx %s\n", i, (unsigned long long)r.hash, r.viol ? r.cls.c_str() : "ok");
      if (sample.empty() && i == from) { int k = 0; for (auto& o : p) { sample += op_str(o) + "\n"; if (++k > 24) break; } }
      if (runs % 32 == 1 || r.viol) {
        Result q = run_counted(p, cyc, false);
        dets++;
        if (q.hash != r.hash || q.viol != r.viol) {
          // what the code did is not a function of the history alone; it counts when it shows twice
          Result best;
          std::map<std::string, int> n;
          for (int k = 0; k < 8; k++) {
            Result x = k == 0 ? r : k == 1 ? q : run_counted(p, cyc, false);
            if (x.viol && ++n[x.cls] >= 2) best = x;
          }
          nondet++;
          if (!best.viol) { printf("NONDET run %ld: %016llx/%016llx %s / %s\n", i, (unsigned long long)r.hash, (unsigned long long)q.hash, r.detail.c_str(), q.detail.c_str()); continue; }
          r = best;
        }
      }
      if (r.viol) {
        if (r.cls == "harness") { printf("HARNESS %s\n", r.detail.c_str()); return 4; }
        Plan q = minimise(p, r, cyc, 600);
        Result rr = run_counted(q, cyc, false);
        std::string fn = outp + "." + std::to_string(i) + ".plan";
        FILE* f = fopen(fn.c_str(), "w");
        fprintf(f, "# profile %s seed %llu run %ld: %zu operations, minimised to %zu\n# class %s\n# %s\n# cycles %d\n", argv[3], (unsigned long long)seed, i, p.size(), q.size(), rr.cls.c_str(), esc(rr.detail).c_str(), cyc);
        for (auto& o : q) fprintf(f, "%s\n", op_str(o).c_str());
        fclose(f);
        printf("VIOL %s hash=%016llx run=%ld %s\n", fn.c_str(), (unsigned long long)rr.hash, i, esc(rr.cls + ": " + rr.detail).c_str());
        if (++nv >= 1) break;
      }
    }
    printf("STATS {\"runs\": %ld, \"ops\": %ld, \"wall\": %.3f, \"reruns_compared\": %ld, \"reruns_differing\": %ld, \"distinct_histories\": %zu, \"distinct_schedules\": %zu, \"sample\": \"%s\", \"probes\": {", runs, ops, el, dets, nondet, hs.size(), sh.size(), esc(sample).c_str());
    for (int i = 0; i < P_N; i++) printf("%s\"%s\": %ld", i ? ", " : "", probe_n[i], H->probe[i]);
    printf("}}\n");
    return 0;
  }
  return 2;
}
