/* The simulator of the generator's environment.  Loaded into EasyMockGenerate: the program's main() becomes a server
 * that runs the real main() in children, one per simulated generator.  In a child every file-related system call traps
 * (seccomp), and the simulator decides what happens: it goes through, fails, is cut short, or the process dies there;
 * with several children it also decides who goes next.  Clock, heap addresses and allocation failures are simulated by
 * interposition.  Everything is a function of the request. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <poll.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

/* ------------------------------------------------------------------ the one place system calls pass untouched */
long simgen_raw(long n, long a, long b, long c, long d, long e, long f);
extern char simgen_raw_ip[];
__asm__(".text\n.globl simgen_raw\n.hidden simgen_raw\n.type simgen_raw,@function\nsimgen_raw:\n"
        "mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\nsyscall\n"
        ".globl simgen_raw_ip\n.hidden simgen_raw_ip\nsimgen_raw_ip:\nret\n");

enum { G_OPEN, G_READ, G_WRITE, G_CLOSE, G_STAT, G_LINK, G_CWD, G_CHDIR, G_MMAP, G_SEEK, G_DIR, G_ALTER, G_SPAWN, G_OTHER, G_N };
static const char* const gname[] = {"open", "read", "write", "close", "stat", "readlink", "getcwd", "chdir", "mmap", "lseek", "readdir", "alter", "spawn", "other"};
static const struct { int nr, g; } calls[] = {
  {SYS_open, G_OPEN}, {SYS_openat, G_OPEN}, {SYS_creat, G_OPEN}, {SYS_read, G_READ}, {SYS_pread64, G_READ}, {SYS_readv, G_READ},
  {SYS_write, G_WRITE}, {SYS_pwrite64, G_WRITE}, {SYS_writev, G_WRITE}, {SYS_close, G_CLOSE}, {SYS_stat, G_STAT}, {SYS_lstat, G_STAT},
  {SYS_fstat, G_STAT}, {SYS_newfstatat, G_STAT}, {SYS_statx, G_STAT}, {SYS_access, G_STAT}, {SYS_faccessat, G_STAT}, {439, G_STAT},
  {SYS_readlink, G_LINK}, {SYS_readlinkat, G_LINK}, {SYS_getcwd, G_CWD}, {SYS_chdir, G_CHDIR}, {SYS_fchdir, G_CHDIR},
  {SYS_mmap, G_MMAP}, {SYS_lseek, G_SEEK}, {SYS_getdents64, G_DIR}, {SYS_getdents, G_DIR},
  {SYS_unlink, G_ALTER}, {SYS_unlinkat, G_ALTER}, {SYS_rename, G_ALTER}, {SYS_renameat, G_ALTER}, {SYS_renameat2, G_ALTER},
  {SYS_mkdir, G_ALTER}, {SYS_mkdirat, G_ALTER}, {SYS_rmdir, G_ALTER}, {SYS_truncate, G_ALTER}, {SYS_ftruncate, G_ALTER}, {SYS_link, G_ALTER},
  {SYS_linkat, G_ALTER}, {SYS_symlink, G_ALTER}, {SYS_symlinkat, G_ALTER}, {SYS_chmod, G_ALTER}, {SYS_fchmod, G_ALTER}, {SYS_fchmodat, G_ALTER},
  {SYS_chown, G_ALTER}, {SYS_fchown, G_ALTER}, {SYS_lchown, G_ALTER}, {SYS_fchownat, G_ALTER}, {SYS_utimensat, G_ALTER}, {SYS_utimes, G_ALTER},
  {SYS_mknod, G_ALTER}, {SYS_mknodat, G_ALTER}, {SYS_fallocate, G_ALTER}, {SYS_fsync, G_OTHER}, {SYS_fdatasync, G_OTHER},
  {SYS_execve, G_SPAWN}, {SYS_execveat, G_SPAWN}, {SYS_fork, G_SPAWN}, {SYS_vfork, G_SPAWN}, {SYS_clone, G_SPAWN}, {SYS_clone3, G_SPAWN},
  {SYS_socket, G_SPAWN}, {SYS_connect, G_SPAWN}, {SYS_kill, G_SPAWN}, {SYS_mount, G_SPAWN}, {SYS_ptrace, G_SPAWN}, {SYS_setxattr, G_ALTER},
  {SYS_nanosleep, G_OTHER}, {SYS_clock_nanosleep, G_OTHER},
};
enum { NCALLS = sizeof calls / sizeof calls[0] };

enum { A_FAIL, A_SHORT, A_CRASH, A_CRASHAFTER, A_QUOTA };
struct fault { int g; char cls[16]; int nth, act; long val, rep; int seen, fired; };
struct cls { char name[16]; char prefix[512]; };
enum { MAXF = 16, MAXC = 16, MAXA = 64, MAXP = 8, MAXFD = 256, TRACE = 1 << 20 };
struct proc {
  char cwd[512], out[512], err[512];
  char* arg[MAXA]; int narg;
  char* env[MAXA]; int nenv;
  struct cls c[MAXC]; int nc;
  struct fault f[MAXF]; int nf;
  long heap, clockbase, clockstep, allocfail, allocrep, maxev;
  char* store;
};
struct shared {          /* one per child, survives it */
  volatile long events, fired, allocs, alloc_fired, quota_left;
  volatile uint64_t hash;
  volatile long bytes;
  volatile int blocked, state, overflow;
  char blocked_on[200];
  long tracelen;
  char trace[TRACE];
  struct fault f[MAXF];
};
static struct proc P[MAXP];
static int nproc;
static struct shared* SH[MAXP];
static struct proc* me;
static struct shared* my;
static int child_on;          /* interposition of clock, heap, ... active */
static int gate_r = -1, gate_w = -1, scheduled;
static char fdpath[MAXFD][300];
static char curdir[512];
static long clock_now;
static int want_trace;

/* ------------------------------------------------------------------ heap */
extern void* __libc_malloc(size_t);
extern void __libc_free(void*);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);
enum { NREG = 24, REGSZ = 48 << 20 };
static char* reg[NREG];
static size_t regat[NREG];
static uint64_t hrng;
static char *reglo, *reghi;
static uint64_t nx(uint64_t* s) { uint64_t z = (*s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static int alloc_fails(void) {
  if (!child_on) return 0;
  long n = ++my->allocs;
  if (me->allocfail && (n == me->allocfail || (me->allocrep && n > me->allocfail))) { my->alloc_fired++; errno = ENOMEM; return 1; }
  return 0;
}
static void* scatter(size_t n, size_t al) {
  if (!child_on || !me->heap || n > 8192) return 0;
  for (int t = 0; t < 3; t++) {
    int r = (int)(nx(&hrng) % NREG);
    size_t pad = (nx(&hrng) % 5) * 16;
    size_t at = (regat[r] + 16 + pad + al - 1) / al * al;      /* 16: room for the size */
    if (at + n > REGSZ) continue;
    regat[r] = at + n;
    *(size_t*)(reg[r] + at - 8) = n;
    return reg[r] + at;
  }
  return 0;
}
static int is_scattered(void* p) { return reglo && (char*)p >= reglo && (char*)p < reghi; }
void* malloc(size_t n) { if (alloc_fails()) return 0; void* p = scatter(n, 16); return p ? p : __libc_malloc(n); }
void free(void* p) { if (p && is_scattered(p)) return; __libc_free(p); }
void* calloc(size_t a, size_t b) {
  if (alloc_fails()) return 0;
  if (child_on && me->heap && a * b <= 8192) { void* p = scatter(a * b, 16); if (p) { memset(p, 0, a * b); return p; } }
  return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n) {
  if (alloc_fails()) return 0;
  if (p && is_scattered(p)) { size_t o = ((size_t*)p)[-1]; void* q = scatter(n, 16); if (!q) q = __libc_malloc(n); if (!q) return 0; memcpy(q, p, o < n ? o : n); return q; }
  if (!p) { void* q = scatter(n, 16); if (q) return q; }
  return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n) { if (alloc_fails()) return 0; void* p = al <= 4096 ? scatter(n, al < 16 ? 16 : al) : 0; return p ? p : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** o, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
size_t malloc_usable_size(void* p) { if (!p) return 0; if (is_scattered(p)) return ((size_t*)p)[-1]; static size_t (*r)(void*); if (!r) r = (size_t(*)(void*))dlsym(RTLD_NEXT, "malloc_usable_size"); return r(p); }

/* ------------------------------------------------------------------ clock */
static void tick(struct timespec* t) { clock_now += me->clockstep; t->tv_sec = clock_now / 1000; t->tv_nsec = clock_now % 1000 * 1000000; }
int clock_gettime(clockid_t c, struct timespec* t) { if (child_on && me->clockbase) { tick(t); return 0; } return (int)syscall(SYS_clock_gettime, c, t); }
int gettimeofday(struct timeval* tv, void* tz) { (void)tz; if (child_on && me->clockbase) { struct timespec t; tick(&t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; } return (int)syscall(SYS_gettimeofday, tv, tz); }
time_t time(time_t* o) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }

/* ------------------------------------------------------------------ signals: SIGSYS is ours */
int sigaction(int s, const struct sigaction* a, struct sigaction* o) {
  static int (*r)(int, const struct sigaction*, struct sigaction*);
  if (!r) r = (int (*)(int, const struct sigaction*, struct sigaction*))dlsym(RTLD_NEXT, "sigaction");
  if (child_on && s == SIGSYS) { if (o) memset(o, 0, sizeof *o); return 0; }
  return r(s, a, o);
}
static int mask(int (*r)(int, const sigset_t*, sigset_t*), int how, const sigset_t* s, sigset_t* o) {
  sigset_t t;
  if (child_on && s && how != SIG_UNBLOCK) { t = *s; sigdelset(&t, SIGSYS); s = &t; }
  return r(how, s, o);
}
int pthread_sigmask(int how, const sigset_t* s, sigset_t* o) { static int (*r)(int, const sigset_t*, sigset_t*); if (!r) r = (int (*)(int, const sigset_t*, sigset_t*))dlsym(RTLD_NEXT, "pthread_sigmask"); return mask(r, how, s, o); }
int sigprocmask(int how, const sigset_t* s, sigset_t* o) { static int (*r)(int, const sigset_t*, sigset_t*); if (!r) r = (int (*)(int, const sigset_t*, sigset_t*))dlsym(RTLD_NEXT, "sigprocmask"); return mask(r, how, s, o); }

/* ------------------------------------------------------------------ the trap */
static void norm(char* o, size_t n, const char* base, const char* p) {
  char b[1200];
  if (p[0] == '/') snprintf(b, sizeof b, "%s", p); else snprintf(b, sizeof b, "%s/%s", base, p);
  char* seg[128]; int k = 0;
  char* save = 0;
  for (char* t = strtok_r(b, "/", &save); t && k < 128; t = strtok_r(0, "/", &save)) {
    if (!strcmp(t, ".")) continue;
    if (!strcmp(t, "..")) { if (k) k--; continue; }
    seg[k++] = t;
  }
  size_t at = 0;
  o[0] = 0;
  for (int i = 0; i < k && at < n; i++) at += (size_t)snprintf(o + at, n - at, "/%s", seg[i]);
  if (!k) snprintf(o, n, "/");
}
static const char* class_of(const char* path) {
  const char* best = "sys";
  size_t bl = 0;
  for (int i = 0; i < me->nc; i++) {
    size_t l = strlen(me->c[i].prefix);
    if (!strncmp(path, me->c[i].prefix, l) && (l == 1 || path[l] == 0 || path[l] == '/' || me->c[i].prefix[l - 1] == '*' ) && l >= bl) { best = me->c[i].name; bl = l; }
  }
  return best;
}
static void h(const void* p, size_t n) { const unsigned char* c = p; uint64_t x = my->hash; while (n--) x = (x ^ *c++) * 0x100000001B3ull; my->hash = x; }
static void tr(const char* s) {
  size_t n = strlen(s);
  h(s, n);
  if (my->tracelen + (long)n + 1 < TRACE) { memcpy(my->trace + my->tracelen, s, n); my->tracelen += (long)n; }
}
static void die(int code) { simgen_raw(SYS_exit_group, code, 0, 0, 0, 0, 0); }
static const char* errname(long e) { switch (e) { case ENOSPC: return "ENOSPC"; case EIO: return "EIO"; case EINTR: return "EINTR"; case EDQUOT: return "EDQUOT"; case EACCES: return "EACCES"; case EMFILE: return "EMFILE"; case ENOENT: return "ENOENT"; case ENOMEM: return "ENOMEM"; case EROFS: return "EROFS"; case EFBIG: return "EFBIG"; case EAGAIN: return "EAGAIN"; case ENFILE: return "ENFILE"; case ELOOP: return "ELOOP"; case ESTALE: return "ESTALE"; } return "E"; }

static void on_trap(int sig, siginfo_t* si, void* ucv) {
  (void)sig;
  int saved_errno = errno;
  ucontext_t* uc = ucv;
  greg_t* R = uc->uc_mcontext.gregs;
  long nr = si->si_syscall, a0 = R[REG_RDI], a1 = R[REG_RSI], a2 = R[REG_RDX], a3 = R[REG_R10], a4 = R[REG_R8], a5 = R[REG_R9];
  int g = G_OTHER;
  for (int i = 0; i < NCALLS; i++) if (calls[i].nr == nr) g = calls[i].g;
  char path[600] = "";
  const char* p = 0;
  long dirfd = AT_FDCWD;
  int fd = -1, creating = 0;
  switch (nr) {
    case SYS_open: case SYS_creat: case SYS_stat: case SYS_lstat: case SYS_access: case SYS_readlink: case SYS_chdir: case SYS_unlink: case SYS_rename: case SYS_mkdir: case SYS_rmdir:
    case SYS_truncate: case SYS_link: case SYS_chmod: case SYS_chown: case SYS_lchown: case SYS_utimes: case SYS_mknod: case SYS_execve: case SYS_setxattr: p = (const char*)a0; break;
    case SYS_openat: case SYS_newfstatat: case SYS_statx: case SYS_faccessat: case 439: case SYS_readlinkat: case SYS_unlinkat: case SYS_renameat: case SYS_renameat2: case SYS_mkdirat:
    case SYS_linkat: case SYS_fchmodat: case SYS_fchownat: case SYS_utimensat: case SYS_mknodat: case SYS_execveat: dirfd = (int)a0; p = (const char*)a1; break;
    case SYS_symlink: p = (const char*)a1; break;
    case SYS_symlinkat: dirfd = (int)a1; p = (const char*)a2; break;
    case SYS_mmap: fd = (int)a4; break;
    case SYS_read: case SYS_pread64: case SYS_readv: case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_close: case SYS_fstat: case SYS_fchdir: case SYS_lseek: case SYS_getdents64:
    case SYS_getdents: case SYS_ftruncate: case SYS_fchmod: case SYS_fchown: case SYS_fallocate: case SYS_fsync: case SYS_fdatasync: fd = (int)a0; break;
  }
  if (nr == SYS_mmap && fd < 0) { long r = simgen_raw(nr, a0, a1, a2, a3, a4, a5); R[REG_RAX] = r; errno = saved_errno; return; }
  if (p) {
    if (dirfd == AT_FDCWD) norm(path, sizeof path, curdir, p);
    else if (p[0] == 0 && dirfd >= 0 && dirfd < MAXFD) snprintf(path, sizeof path, "%s", fdpath[dirfd]);
    else norm(path, sizeof path, dirfd >= 0 && dirfd < MAXFD ? fdpath[dirfd] : "/?", p);
  } else if (fd >= 0 && fd < MAXFD) snprintf(path, sizeof path, "%s", fdpath[fd]);
  const char* cls = class_of(path);
  if (g == G_OPEN) { long fl = nr == SYS_open ? a1 : nr == SYS_creat ? O_CREAT | O_WRONLY : a2; creating = (fl & (O_CREAT | O_WRONLY | O_RDWR | O_TRUNC)) != 0; }
  long ev = ++my->events;
  if (me->maxev && ev > me->maxev) { my->overflow = 1; die(98); }
  char line[900];
  char what[700];
  snprintf(what, sizeof what, "%s%s %s %s", gname[g], creating ? "+w" : "", cls, path);
  if (scheduled && strcmp(cls, "sys")) {        /* wait for the simulator to pick this process */
    snprintf((char*)my->blocked_on, sizeof my->blocked_on, "%.190s", what);
    char c = 'b';
    simgen_raw(SYS_write, gate_w, (long)&c, 1, 0, 0, 0);
    while (simgen_raw(SYS_read, gate_r, (long)&c, 1, 0, 0, 0) != 1) {}
  }
  long r = 0;
  int done = 0, crash_after = 0;
  char act[64] = "";
  for (int i = 0; i < me->nf && !done; i++) {
    struct fault* f = &my->f[i];
    if (f->act == A_QUOTA) {
      if (g == G_WRITE && strcmp(cls, "std") && strcmp(cls, "sys")) {
        if (f->rep <= 0) f->rep = f->val + 1;        /* bytes left + 1 */
        long left = f->rep - 1;
        if (nr == SYS_write && a2 > left) {
          if (left > 0) { a2 = left; snprintf(act, sizeof act, " cut to %ld (disk full)", left); f->rep = 1; }
          else { r = -ENOSPC; done = 1; snprintf(act, sizeof act, " ENOSPC (disk full)"); }
          f->fired++; my->fired++;
        } else f->rep -= a2;
      }
      continue;
    }
    int isw = f->g == G_OPEN && f->seen < 0;
    (void)isw;
    if (f->g != g && f->g != G_N) continue;
    if (strcmp(f->cls, "any") && strcmp(f->cls, cls)) continue;
    if (f->cls[0] == 'a' && !strcmp(f->cls, "any") && !strcmp(cls, "sys")) continue;
    f->seen++;
    if (f->seen != f->nth && !(f->rep && f->seen > f->nth && (f->rep < 0 || f->seen <= f->nth + f->rep))) continue;
    switch (f->act) {
      case A_FAIL: r = -f->val; done = 1; snprintf(act, sizeof act, " %s", errname(f->val));
        if (g == G_CLOSE) simgen_raw(nr, a0, a1, a2, a3, a4, a5);
        break;
      case A_SHORT: if ((nr == SYS_write || nr == SYS_read || nr == SYS_pread64 || nr == SYS_pwrite64) && a2 > 1) { long n = a2 > f->val ? f->val : a2 - 1; a2 = n < 1 ? 1 : n; snprintf(act, sizeof act, " cut to %ld", a2); } else continue; break;
      case A_CRASH: snprintf(line, sizeof line, "%ld %s KILLED\n", ev, what); f->fired++; my->fired++; tr(line); die(99); break;
      case A_CRASHAFTER: crash_after = 1; snprintf(act, sizeof act, " then KILLED"); break;
    }
    f->fired++;
    my->fired++;
  }
  if ((creating || g == G_ALTER) && !strcmp(cls, "sys") && strncmp(path, "/dev/", 5)) { snprintf(line, sizeof line, "%ld FORBIDDEN %s\n", ev, what); tr(line); r = -EPERM; done = 1; }   /* nothing outside of the scratch tree is changed for real */
  if (g == G_SPAWN && nr != SYS_kill) { snprintf(line, sizeof line, "%ld FORBIDDEN %ld %s\n", ev, nr, path); tr(line); r = -EPERM; done = 1; }
  if (!done) {
    r = simgen_raw(nr, a0, a1, a2, a3, a4, a5);
    if (g == G_OPEN && r >= 0 && r < MAXFD) snprintf(fdpath[r], sizeof fdpath[r], "%.290s", path);
    if (nr == SYS_chdir && r == 0) snprintf(curdir, sizeof curdir, "%s", path);
    if (nr == SYS_fchdir && r == 0) snprintf(curdir, sizeof curdir, "%s", path);
  }
  if (strcmp(cls, "sys") || act[0]) {
    long rr = g == G_MMAP ? 0 : g == G_OPEN ? (r < 0 ? r : 0) : r;
    if (g == G_CWD || g == G_LINK) rr = r < 0 ? r : 0;
    snprintf(line, sizeof line, "%ld %s%s = %ld\n", ev, what, act, rr);
    tr(line);
  } else { h(&nr, sizeof nr); }
  if (g == G_CLOSE && fd >= 0 && fd < MAXFD) fdpath[fd][0] = 0;
  if (crash_after) die(99);
  R[REG_RAX] = r;
  errno = saved_errno;
}

static int install(void) {
  stack_t ss = {0};
  (void)ss;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_trap;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  if (sigaction(SIGSYS, &sa, 0)) return -1;
  sigset_t s;
  sigemptyset(&s);
  sigaddset(&s, SIGSYS);
  sigprocmask(SIG_UNBLOCK, &s, 0);
  static struct sock_filter F[NCALLS + 16];
  int n = 0;
  uint64_t ip = (uint64_t)(uintptr_t)simgen_raw_ip;
  F[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
  F[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ip, 0, 3);
  F[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
  F[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(ip >> 32), 0, 1);
  F[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  F[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
  for (int i = 0; i < NCALLS; i++) F[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)calls[i].nr, (uint8_t)(NCALLS - i), 0);
  F[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  F[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
  struct sock_fprog prog = {(unsigned short)n, F};
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return -1;
  return (int)syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, &prog);
}

/* ------------------------------------------------------------------ the server */
static int (*real_main)(int, char**, char**);
extern char** environ;
static char* server_argv0;

static int run_one(int i) {          /* in the child */
  me = &P[i];
  my = SH[i];
  if (me->heap) {
    hrng = (uint64_t)me->heap * 7919;
    char* b = mmap(0, (size_t)NREG * REGSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED) _exit(97);
    reglo = b; reghi = b + (size_t)NREG * REGSZ;
    for (int k = 0; k < NREG; k++) { reg[k] = b + (size_t)k * REGSZ; regat[k] = nx(&hrng) % 65536; }
    /* what the program allocated before main stays where it is; the free lists get disturbed too */
    void* keep[64];
    for (int k = 0; k < 64; k++) keep[k] = __libc_malloc(16 + nx(&hrng) % 2000);
    for (int k = 0; k < 64; k++) if (nx(&hrng) & 1) __libc_free(keep[k]);
  }
  clock_now = me->clockbase;
  int o = open(me->out, O_WRONLY | O_CREAT | O_APPEND, 0600), e = open(me->err, O_WRONLY | O_CREAT | O_APPEND, 0600), z = open("/dev/null", O_RDONLY);
  if (o < 0 || e < 0 || chdir(me->cwd)) _exit(97);
  dup2(z, 0); dup2(o, 1); dup2(e, 2);
  /* what is left open must not be part of the history */
  close(z); close(o); close(e);
  for (int k = 3; k < MAXFD; k++) if (k != gate_r && k != gate_w) close(k);
  if (scheduled) { dup2(gate_r, 250); dup2(gate_w, 251); close(gate_r); close(gate_w); gate_r = 250; gate_w = 251; }
  snprintf(fdpath[1], sizeof fdpath[1], "/std/out");
  snprintf(fdpath[2], sizeof fdpath[2], "/std/err");
  snprintf(fdpath[0], sizeof fdpath[0], "/std/in");
  snprintf(curdir, sizeof curdir, "%s", me->cwd);
  struct rlimit rl = {6, 7};
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  environ = me->env;
  if (install()) _exit(97);
  child_on = 1;
  int rv = real_main(me->narg, me->arg, me->env);
  exit(rv);
}

static char* rd_line(FILE* f) { static char* l; static size_t n; ssize_t k = getline(&l, &n, f); if (k <= 0) return 0; if (l[k - 1] == '\n') l[k - 1] = 0; return l; }
static int group(const char* s) { for (int i = 0; i < G_N; i++) if (!strcmp(gname[i], s)) return i; return G_N; }

static int server(int fd) {
  FILE* in = fdopen(dup(fd), "r");
  FILE* out = fdopen(dup(fd), "w");
  for (int i = 0; i < MAXP; i++) SH[i] = mmap(0, sizeof(struct shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  char* l;
  uint64_t sched = 0;
  struct proc* p = 0;
  while ((l = rd_line(in))) {
    char* v = strchr(l, ' ');
    if (v) *v++ = 0; else v = l + strlen(l);
    if (!strcmp(l, "new")) { for (int i = 0; i < nproc; i++) { for (int k = 0; k < P[i].narg; k++) free(P[i].arg[k]); for (int k = 0; k < P[i].nenv; k++) free(P[i].env[k]); } memset(P, 0, sizeof P); nproc = 0; sched = 0; want_trace = 0; }
    else if (!strcmp(l, "proc")) { if (nproc == MAXP) return 3; p = &P[nproc++]; p->arg[p->narg++] = strdup(server_argv0); }
    else if (!strcmp(l, "sched")) sched = strtoull(v, 0, 10);
    else if (!strcmp(l, "trace")) want_trace = 1;
    else if (!strcmp(l, "cwd")) snprintf(p->cwd, sizeof p->cwd, "%s", v);
    else if (!strcmp(l, "out")) snprintf(p->out, sizeof p->out, "%s", v);
    else if (!strcmp(l, "err")) snprintf(p->err, sizeof p->err, "%s", v);
    else if (!strcmp(l, "arg") && p->narg < MAXA - 1) p->arg[p->narg++] = strdup(v);
    else if (!strcmp(l, "env") && p->nenv < MAXA - 1) p->env[p->nenv++] = strdup(v);
    else if (!strcmp(l, "cls") && p->nc < MAXC) { struct cls* c = &p->c[p->nc++]; sscanf(v, "%15s %511s", c->name, c->prefix); }
    else if (!strcmp(l, "heap")) p->heap = atol(v);
    else if (!strcmp(l, "clock")) sscanf(v, "%ld %ld", &p->clockbase, &p->clockstep);
    else if (!strcmp(l, "alloc")) sscanf(v, "%ld %ld", &p->allocfail, &p->allocrep);
    else if (!strcmp(l, "maxev")) p->maxev = atol(v);
    else if (!strcmp(l, "fault") && p->nf < MAXF) {      /* fault GROUP CLASS NTH ACTION VALUE REPEAT */
      struct fault* f = &p->f[p->nf++];
      char g[16], a[16];
      sscanf(v, "%15s %15s %d %15s %ld %ld", g, f->cls, &f->nth, a, &f->val, &f->rep);
      f->g = group(g);
      f->act = !strcmp(a, "fail") ? A_FAIL : !strcmp(a, "short") ? A_SHORT : !strcmp(a, "crash") ? A_CRASH : !strcmp(a, "crashafter") ? A_CRASHAFTER : A_QUOTA;
    }
    else if (!strcmp(l, "run")) {
      pid_t pid[MAXP];
      int gate[MAXP][2];       /* parent's ends: read, write */
      int status[MAXP], alive = nproc, waiting[MAXP];
      scheduled = sched != 0;
      uint64_t rng = sched;
      fflush(out);
      for (int i = 0; i < nproc; i++) { memset((void*)SH[i], 0, offsetof(struct shared, trace)); SH[i]->trace[0] = 0; SH[i]->hash = 0xcbf29ce484222325ull; memcpy((void*)SH[i]->f, P[i].f, sizeof P[i].f); for (int k = 0; k < MAXF; k++) SH[i]->f[k].seen = SH[i]->f[k].fired = 0; }
      for (int i = 0; i < nproc; i++) {
        int a[2], b[2];
        gate[i][0] = gate[i][1] = -1;
        if (scheduled) { if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) return 3; }
        pid[i] = fork();
        if (pid[i] == 0) { if (scheduled) { gate_w = a[1]; gate_r = b[0]; } run_one(i); _exit(97); }
        if (scheduled) { close(a[1]); close(b[0]); gate[i][0] = a[0]; gate[i][1] = b[1]; }
        waiting[i] = 0;
        status[i] = -1;
      }
      uint64_t order = 0xcbf29ce484222325ull;
      long switches = 0, steps = 0;
      int last = -1;
      if (scheduled) {
        while (alive) {
          for (int i = 0; i < nproc; i++)                 /* until everybody is at a decision point or gone */
            if (status[i] == -1 && !waiting[i]) {
              char c;
              ssize_t k;
              while ((k = read(gate[i][0], &c, 1)) < 0 && errno == EINTR) {}
              if (k == 1) waiting[i] = 1;
              else { while (waitpid(pid[i], &status[i], 0) < 0 && errno == EINTR) {} alive--; close(gate[i][0]); close(gate[i][1]); }
            }
          int c[MAXP], n = 0;
          for (int i = 0; i < nproc; i++) if (waiting[i]) c[n++] = i;
          if (!n) continue;
          int k = c[0];
          if (last >= 0 && waiting[last] && nx(&rng) % 3) k = last; else k = c[nx(&rng) % (unsigned)n];     /* runs of one process, then a switch */
          if (k != last) switches++;
          last = k;
          steps++;
          waiting[k] = 0;
          order = (order ^ (uint64_t)k) * 0x100000001B3ull;
          if (want_trace) fprintf(out, "S %d %s\n", k, SH[k]->blocked_on);
          char g = 'g';
          if (write(gate[k][1], &g, 1) != 1) {}
        }
      } else
        for (int i = 0; i < nproc; i++) while (waitpid(pid[i], &status[i], 0) < 0 && errno == EINTR) {}
      for (int i = 0; i < nproc; i++) {
        struct shared* s = SH[i];
        int st = WIFEXITED(status[i]) ? WEXITSTATUS(status[i]) : 1000 + WTERMSIG(status[i]);
        fprintf(out, "P %d %d %ld %016llx %ld %ld %ld %d\n", i, st, s->events, (unsigned long long)s->hash, s->fired, s->allocs, s->alloc_fired, s->overflow);
        for (int k = 0; k < P[i].nf; k++) fprintf(out, "F %d %d %d\n", i, k, s->f[k].fired);
        if (want_trace) { fprintf(out, "T %d %ld\n", i, s->tracelen); fwrite(s->trace, 1, (size_t)s->tracelen, out); }
      }
      fprintf(out, "E %016llx %ld %ld\n", (unsigned long long)order, switches, steps);
      fflush(out);
    }
  }
  return 0;
}

static int my_main(int argc, char** argv, char** envp) {
  (void)envp;
  char* s = getenv("SIMGEN_FD");
  if (!s) return real_main(argc, argv, envp);
  server_argv0 = argv[0];
  _exit(server(atoi(s)));
}
int __libc_start_main(int (*m)(int, char**, char**), int argc, char** argv, void (*init)(void), void (*fini)(void), void (*rf)(void), void* end) {
  typedef int (*lsm)(int (*)(int, char**, char**), int, char**, void (*)(void), void (*)(void), void (*)(void), void*);
  real_main = m;
  return ((lsm)dlsym(RTLD_NEXT, "__libc_start_main"))(my_main, argc, argv, init, fini, rf, end);
}
