// LD_PRELOAD seam: every libc entry point through which the program under test meets the outside world becomes a
// request to the simulator; the calling thread is parked until the simulator answers.  One thread at a time runs.
#define _GNU_SOURCE
#include <sys/cdefs.h>
#undef __nonnull
#define __nonnull(params)   // this file defines these functions, and callers do pass null
#include "proto.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define TLS __thread __attribute__((tls_model("initial-exec")))

static Shm *shm;
static Proc *proc;                 // set in the simulated child
static int active;                 // 1 in a simulated child
static TLS Slot *slot;             // this thread's slot; NULL: not a simulated thread
static TLS int in_shim;
static TLS int64_t quantum = INT64_MAX;
static TLS uint64_t ticks_base;
static uintptr_t exe_lo, exe_hi;

#define DEFAULT_QUANTUM 20000000ull

static inline long sys6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r = sys6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
static void die(const char *m) {
  sys6(SYS_write, 2, (long)m, (long)strlen(m), 0, 0, 0);
  sys6(SYS_exit_group, 113, 0, 0, 0, 0, 0);
}
#define NULLCHECK(p) ({ const volatile void *q_ = (p); __asm__ volatile("" : "+r"(q_)); q_ == 0; })
static void *real(const char *name) {
  void *p = dlsym(RTLD_NEXT, name);
  if (!p) die("shim: missing libc symbol\n");
  return p;
}
#define REAL(ret, name, ...) static ret (*p_##name)(__VA_ARGS__); if (!p_##name) { in_shim++; p_##name = real(#name); in_shim--; }

// ---------------------------------------------------------------- requests
static void await_reply(Slot *s) {
  while (__atomic_load_n(&s->reply, __ATOMIC_ACQUIRE) == 0)
    sys6(SYS_futex, (long)&s->reply, 0 /*WAIT*/, 0, 0, 0, 0);
  __atomic_store_n(&s->reply, 0, __ATOMIC_RELAXED);
  uint64_t q = s->quantum ? s->quantum : DEFAULT_QUANTUM;
  quantum = (int64_t)q;
  ticks_base = q;
}
static int64_t request(Slot *s, uint32_t op) {
  int64_t used = (int64_t)ticks_base - quantum;
  s->op = op;
  s->ticks = used > 0 ? (uint64_t)used : 0;
  uint16_t idx = (uint16_t)(s - shm->slot);
  long r = sys6(SYS_sendto, FD_SOCK, (long)&idx, sizeof idx, MSG_NOSIGNAL, 0, 0);
  if (r != sizeof idx) die("shim: lost simulator\n");
  await_reply(s);
  if (s->ret < 0) errno = s->err;
  return s->ret;
}
#define LIVE (active && slot && !in_shim)
#define A(i, v) (slot->a[i] = (int64_t)(v))

static int put_path(char *dst, const char *p) {
  size_t n = p ? strlen(p) : 0;
  if (n >= PATH_CAP) { errno = ENAMETOOLONG; return -1; }
  if (p) memcpy(dst, p, n + 1); else dst[0] = 0;
  return 0;
}

static void tick(void) {
  if (!LIVE) { quantum = INT64_MAX; return; }
  int e = errno;
  in_shim++;
  request(slot, OP_TICK);
  in_shim--;
  errno = e;
}

// ---------------------------------------------------------------- coverage callbacks = pre-emption points
EXPORT void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
  static uint32_t n;
  if (start == stop || *start) return;
  if (!n && proc) n = (uint32_t)proc->spare[0];
  for (uint32_t *x = start; x < stop; x++) { n++; *x = n < COV_CAP ? n : COV_CAP - 1; }
  if (shm && (!proc || !proc->spare[0])) shm->n_guards = n;
}
EXPORT void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (__builtin_expect(!slot, 0)) return;
  shm->cov[*g] = 1;
  if (__builtin_expect(--quantum <= 0, 0)) tick();
}

// ---------------------------------------------------------------- deterministic heap for the program's own allocations
#define HEAP_BASE 0x100000000000ull
#define HEAP_SIZE (24ull << 30)
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

typedef struct Hdr { uint32_t cls; uint32_t magic; uint64_t size; } Hdr; // 16 bytes before every block
typedef struct Free { struct Free *next; } Free;
#define NCLS 160
static Free *freel[NCLS], *freet[NCLS];
static uintptr_t bump, heap_end;
static int heap_lock;
static uint64_t heap_rng;
static int heap_policy;

static inline int is_exe(void *ra) { return (uintptr_t)ra >= exe_lo && (uintptr_t)ra < exe_hi; }
static inline int is_heap(void *p) { return (uintptr_t)p >= HEAP_BASE && (uintptr_t)p < HEAP_BASE + HEAP_SIZE; }
static void hlock(void) { while (__atomic_exchange_n(&heap_lock, 1, __ATOMIC_ACQUIRE)) sys6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
static void hunlock(void) { __atomic_store_n(&heap_lock, 0, __ATOMIC_RELEASE); }
static uint64_t hrand(void) { heap_rng ^= heap_rng << 13; heap_rng ^= heap_rng >> 7; heap_rng ^= heap_rng << 17; return heap_rng; }

static int cls_of(size_t n, size_t *cap) {
  if (n == 0) n = 1;
  if (n <= 1024) { int c = (int)((n + 15) / 16); *cap = (size_t)c * 16; return c; } // 1..64
  int b = 63 - __builtin_clzl(n - 1);                 // 2^b <= n-1 < 2^(b+1), b >= 10
  size_t step = (size_t)1 << (b - 2);
  size_t base = (size_t)1 << b;
  size_t k = (n - base + step - 1) / step;            // 1..4
  *cap = base + k * step;
  return 64 + (b - 10) * 4 + (int)k;
}
// The simulated machine has MEMORY bytes per process. proc->spare[1]: bytes in use, spare[2]: the most there ever were.
#define MEMORY (1ull << 30)
static void *heap_alloc(size_t n, size_t align) {
  size_t cap;
  if (n > (4ull << 30)) { errno = ENOMEM; return NULL; }
  int c = cls_of(n, &cap);
  if (c >= NCLS) { errno = ENOMEM; return NULL; }
  hlock();
  if (proc && proc->spare[1] + cap > MEMORY) { hunlock(); errno = ENOMEM; return NULL; }
  Hdr *h = NULL;
  if (align <= 16 && freel[c]) {
    Free *f = freel[c];
    freel[c] = f->next;
    if (!freel[c]) freet[c] = NULL;
    h = (Hdr *)f - 1;
  } else {
    uintptr_t p = bump;
    if (heap_policy & 4) p += (hrand() & 7) * 16;
    uintptr_t user = p + 16;
    if (align > 16) user = (user + align - 1) & ~(uintptr_t)(align - 1);
    if (user + cap > heap_end) { hunlock(); errno = ENOMEM; return NULL; }
    bump = user + cap;
    bump = (bump + 15) & ~(uintptr_t)15;
    h = (Hdr *)(user - 16);
    h->cls = align > 16 ? 0 : (uint32_t)c;
    h->magic = 0x5eed;
  }
  h->size = cap;
  if (proc) {
    proc->spare[1] += cap;
    if (proc->spare[1] > proc->spare[2]) proc->spare[2] = proc->spare[1];
  }
  hunlock();
  return h + 1;
}
static void heap_free(void *p) {
  Hdr *h = (Hdr *)p - 1;
  if (h->magic != 0x5eed) die("shim: bad free\n");
  uint32_t c = h->cls;
  hlock();
  if (proc) proc->spare[1] -= h->size;
  if (c == 0 || ((heap_policy & 3) == 2 && bump < HEAP_BASE + (2ull << 30))) { hunlock(); return; } // aligned blocks / never-reuse policy
  Free *f = p;
  if ((heap_policy & 3) == 1) {                        // FIFO reuse
    f->next = NULL;
    if (freet[c]) freet[c]->next = f; else freel[c] = f;
    freet[c] = f;
  } else {                                             // LIFO reuse
    f->next = freel[c];
    freel[c] = f;
    if (!freet[c]) freet[c] = f;
  }
  hunlock();
}
static int alloc_event(void) { // returns 1 if this allocation must fail
  uint64_t k = ++proc->alloc_count;
  if (proc->fail_alloc_at && k >= proc->fail_alloc_at && k < proc->fail_alloc_at + proc->fail_alloc_n) { errno = ENOMEM; return 1; }
  if (--quantum <= 0) tick();
  return 0;
}
#define MINE(ra) (active && slot && !in_shim && is_exe(ra))
EXPORT void *malloc(size_t n) {
  if (!MINE(__builtin_return_address(0))) return __libc_malloc(n);
  if (alloc_event()) return NULL;
  return heap_alloc(n, 16);
}
EXPORT void *calloc(size_t a, size_t b) {
  if (!MINE(__builtin_return_address(0))) return __libc_calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
  if (alloc_event()) return NULL;
  void *p = heap_alloc(n, 16);
  if (p) memset(p, 0, n);
  return p;
}
EXPORT void free(void *p) {
  if (!p) return;
  if (!is_heap(p)) { __libc_free(p); return; }
  if (active == 1 && !slot) die("shim: a thread frees memory after its end\n");
  int e = errno;
  heap_free(p);
  errno = e;
}
EXPORT void *realloc(void *p, size_t n) {
  if (!p) {
    if (!MINE(__builtin_return_address(0))) return __libc_realloc(p, n);
    if (alloc_event()) return NULL;
    return heap_alloc(n, 16);
  }
  if (!is_heap(p)) return __libc_realloc(p, n);
  if (MINE(__builtin_return_address(0)) && alloc_event()) return NULL;
  Hdr *h = (Hdr *)p - 1;
  if (n && n <= h->size && n * 4 >= h->size) return p;
  void *q = heap_alloc(n, 16);
  if (!q) return NULL;
  memcpy(q, p, n < h->size ? n : h->size);
  heap_free(p);
  return q;
}
static void *aligned(size_t al, size_t n, void *ra) {
  if (!MINE(ra)) return __libc_memalign(al, n);
  if (alloc_event()) return NULL;
  return heap_alloc(n, al);
}
EXPORT int posix_memalign(void **o, size_t al, size_t n) {
  void *p = aligned(al, n, __builtin_return_address(0));
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
EXPORT void *aligned_alloc(size_t al, size_t n) { return aligned(al, n, __builtin_return_address(0)); }
EXPORT void *memalign(size_t al, size_t n) { return aligned(al, n, __builtin_return_address(0)); }

// ---------------------------------------------------------------- start-up and fork server
static int exe_cb(struct dl_phdr_info *i, size_t sz, void *d) {
  (void)sz; (void)d;
  uintptr_t lo = UINTPTR_MAX, hi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD) {
      uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
      if (a < lo) lo = a;
      if (b > hi) hi = b;
    }
  exe_lo = lo; exe_hi = hi;
  return 1; // first object is the executable
}

static int (*user_main)(int, char **, char **);
static int wrapped_main(int c, char **v, char **e) {
  int r = user_main(c, v, e);
  if (LIVE) { A(0, r); in_shim++; request(slot, OP_EXIT); in_shim--; }
  return r;
}

static char *child_argv[512], *child_env[512];

static void child_setup(int pidx, int sidx, int sock) {
  proc = &shm->proc[pidx];
  sys6(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0, 0);
  if (sock != FD_SOCK) { sys6(SYS_dup2, sock, FD_SOCK, 0, 0, 0, 0); sys6(SYS_close, sock, 0, 0, 0, 0, 0); }
  sys6(SYS_close, FD_CTL, 0, 0, 0, 0, 0);
  char *p = proc->blob;
  for (uint32_t i = 0; i < proc->argc; i++) { child_argv[i] = p; p += strlen(p) + 1; }
  child_argv[proc->argc] = NULL;
  for (uint32_t i = 0; i < proc->envc; i++) { child_env[i] = p; p += strlen(p) + 1; }
  child_env[proc->envc] = NULL;
  environ = child_env;
  heap_rng = proc->heap_seed * 0x9E3779B97F4A7C15ull + 0x1234567;
  if (!heap_rng) heap_rng = 1;
  for (int i = 0; i < 8; i++) hrand();
  heap_policy = proc->heap_seed ? (int)(hrand() & 7) : 0;
  if ((heap_policy & 3) == 3) heap_policy &= 4;
  bump = HEAP_BASE + (proc->heap_seed ? (hrand() & 0x3ffffff) * 16 : 0);
  heap_end = HEAP_BASE + HEAP_SIZE;
  active = 1;
  slot = &shm->slot[sidx];
  await_reply(slot); // started by the simulator
}

typedef struct { uint32_t cmd, pidx, sidx, pid; } Ctl;

static int zygote_loop(void) { // returns 1 in a simulated child
  for (;;) {
    Ctl c;
    char cb[CMSG_SPACE(sizeof(int))];
    struct iovec iov = {&c, sizeof c};
    struct msghdr m = {0};
    m.msg_iov = &iov; m.msg_iovlen = 1; m.msg_control = cb; m.msg_controllen = sizeof cb;
    long n;
    do n = sys6(SYS_recvmsg, FD_CTL, (long)&m, 0, 0, 0, 0); while (n == -EINTR);
    if (n != sizeof c) sys6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    if (c.cmd == 1) {
      struct cmsghdr *h = CMSG_FIRSTHDR(&m);
      int sock = -1;
      if (h && h->cmsg_type == SCM_RIGHTS) memcpy(&sock, CMSG_DATA(h), sizeof(int));
      pid_t pid = fork();
      if (pid == 0) { child_setup((int)c.pidx, (int)c.sidx, sock); return 1; }
      sys6(SYS_close, sock, 0, 0, 0, 0, 0);
      c.pid = (uint32_t)pid;
      sys6(SYS_sendto, FD_CTL, (long)&c, sizeof c, MSG_NOSIGNAL, 0, 0);
    } else if (c.cmd == 2) {
      int st = 0;
      long r;
      do r = sys6(SYS_wait4, (long)c.pid, (long)&st, 0, 0, 0, 0); while (r == -EINTR);
      c.pidx = (uint32_t)st;
      sys6(SYS_sendto, FD_CTL, (long)&c, sizeof c, MSG_NOSIGNAL, 0, 0);
    }
  }
}

typedef int (*lsm_t)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
EXPORT int __libc_start_main(int (*mainf)(int, char **, char **), int argc, char **argv, void (*init)(void),
                             void (*fini)(void), void (*rtld_fini)(void), void *stack_end) {
  lsm_t rl = (lsm_t)dlsym(RTLD_NEXT, "__libc_start_main");
  if (getenv("DST_ZYGOTE")) {
    dl_iterate_phdr(exe_cb, NULL);
    shm = mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, FD_SHM, 0);
    if (shm == MAP_FAILED) die("shim: cannot map shared memory\n");
    if (mmap((void *)HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)HEAP_BASE)
      die("shim: cannot reserve heap\n");
    { Ctl c = {9, 0, 0, (uint32_t)getpid()}; sys6(SYS_sendto, FD_CTL, (long)&c, sizeof c, MSG_NOSIGNAL, 0, 0); }
    zygote_loop();
    user_main = mainf;
    return rl(wrapped_main, (int)proc->argc, child_argv, init, fini, rtld_fini, stack_end);
  }
  return rl(mainf, argc, argv, init, fini, rtld_fini, stack_end);
}

// ---------------------------------------------------------------- path classification
// Pass-through: the dynamic linker and libc tables live on the real file system (read-only); everything else is virtual.
static int passthru(const char *p) {
  static const char *pre[] = {"/proc/", "/sys/", "/usr/lib/", "/lib/", "/lib64/", "/etc/ld.so", "/usr/share/zoneinfo", NULL};
  if (!p) return 0;
  if (!strcmp(p, "/proc/self/cgroup")) return 0;
  for (int i = 0; pre[i]; i++) if (!strncmp(p, pre[i], strlen(pre[i]))) return 1;
  return 0;
}
static int vfd(int fd) { return fd >= VFD_BASE || (fd >= 0 && fd <= 2); }
static int vdir(int d) { return d == AT_FDCWD || d >= VFD_BASE; }
#define ENTER in_shim++
#define LEAVE in_shim--
#define PATHS(p1, p2) if (put_path(slot->path1, p1) || put_path(slot->path2, p2)) return -1

static void escape(const char *what) { // an attempt to reach something the simulation does not model
  ENTER; put_path(slot->path1, what); request(slot, OP_ESCAPE); LEAVE;
}

// ---------------------------------------------------------------- files
static int do_open(int dfd, const char *path, int flags, mode_t mode) {
  if (!LIVE || (path && path[0] == '/' && passthru(path)) || !vdir(dfd)) {
    if (LIVE && (flags & O_ACCMODE) != O_RDONLY) { errno = EACCES; return -1; }
    return (int)raw(SYS_openat, dfd, (long)path, flags, mode, 0, 0);
  }
  if (!path) { errno = EFAULT; return -1; }
  PATHS(path, NULL);
  A(0, dfd); A(1, flags); A(2, mode);
  ENTER; int r = (int)request(slot, OP_OPEN); LEAVE;
  return r;
}
#define OPENMODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
EXPORT int open(const char *p, int flags, ...) { OPENMODE return do_open(AT_FDCWD, p, flags, mode); }
EXPORT int open64(const char *p, int flags, ...) { OPENMODE return do_open(AT_FDCWD, p, flags, mode); }
EXPORT int openat(int d, const char *p, int flags, ...) { OPENMODE return do_open(d, p, flags, mode); }
EXPORT int openat64(int d, const char *p, int flags, ...) { OPENMODE return do_open(d, p, flags, mode); }
EXPORT int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t do_read(int fd, void *buf, size_t n, int64_t off) {
  A(0, fd); A(1, n > SLOT_DATA ? SLOT_DATA : n); A(2, off);
  ENTER; ssize_t r = request(slot, OP_READ); LEAVE;
  if (r > 0) memcpy(buf, slot->data, (size_t)r);
  return r;
}
static ssize_t do_write(int fd, const void *buf, size_t n, int64_t off) {
  if (n > SLOT_DATA) n = SLOT_DATA;
  memcpy(slot->data, buf, n);
  slot->datalen = (uint32_t)n;
  A(0, fd); A(1, n); A(2, off);
  ENTER; ssize_t r = request(slot, OP_WRITE); LEAVE;
  return r;
}
EXPORT ssize_t read(int fd, void *b, size_t n) { if (!LIVE || !vfd(fd)) return raw(SYS_read, fd, (long)b, n, 0, 0, 0); return do_read(fd, b, n, -1); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { if (!LIVE || !vfd(fd)) return raw(SYS_pread64, fd, (long)b, n, o, 0, 0); return do_read(fd, b, n, o); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
EXPORT ssize_t write(int fd, const void *b, size_t n) { if (!LIVE || !vfd(fd)) return raw(SYS_write, fd, (long)b, n, 0, 0, 0); return do_write(fd, b, n, -1); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (!LIVE || !vfd(fd)) return raw(SYS_pwrite64, fd, (long)b, n, o, 0, 0); return do_write(fd, b, n, o); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!LIVE || !vfd(fd)) return raw(SYS_readv, fd, (long)v, c, 0, 0, 0);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, -1); // a legal short read
  return 0;
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!LIVE || !vfd(fd)) return raw(SYS_writev, fd, (long)v, c, 0, 0, 0);
  size_t n = 0;
  for (int i = 0; i < c && n < SLOT_DATA; i++) {
    size_t k = v[i].iov_len; if (k > SLOT_DATA - n) k = SLOT_DATA - n;
    memcpy(slot->data + n, v[i].iov_base, k); n += k;
  }
  slot->datalen = (uint32_t)n;
  A(0, fd); A(1, n); A(2, -1);
  ENTER; ssize_t r = request(slot, OP_WRITE); LEAVE;
  return r;
}
static int op_fd(int op, int fd, int64_t x, int64_t y) {
  A(0, fd); A(1, x); A(2, y);
  ENTER; int r = (int)request(slot, (uint32_t)op); LEAVE;
  return r;
}
EXPORT int close(int fd) { if (!LIVE || !vfd(fd)) return (int)raw(SYS_close, fd, 0, 0, 0, 0, 0); return op_fd(OP_CLOSE, fd, 0, 0); }
EXPORT off_t lseek(int fd, off_t o, int w) {
  if (!LIVE || !vfd(fd)) return raw(SYS_lseek, fd, o, w, 0, 0, 0);
  A(0, fd); A(1, o); A(2, w);
  ENTER; off_t r = request(slot, OP_LSEEK); LEAVE;
  return r;
}
EXPORT off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
EXPORT int fsync(int fd) { if (!LIVE || !vfd(fd)) return (int)raw(SYS_fsync, fd, 0, 0, 0, 0, 0); return op_fd(OP_FSYNC, fd, 0, 0); }
EXPORT int fdatasync(int fd) { if (!LIVE || !vfd(fd)) return (int)raw(SYS_fdatasync, fd, 0, 0, 0, 0, 0); return op_fd(OP_FSYNC, fd, 1, 0); }
EXPORT void sync(void) { if (LIVE) op_fd(OP_FSYNC, -1, 2, 0); }
EXPORT int syncfs(int fd) { if (!LIVE || !vfd(fd)) return (int)raw(SYS_syncfs, fd, 0, 0, 0, 0, 0); return op_fd(OP_FSYNC, -1, 2, 0); }
EXPORT int ftruncate(int fd, off_t l) { if (!LIVE || !vfd(fd)) return (int)raw(SYS_ftruncate, fd, l, 0, 0, 0, 0); slot->path1[0] = 0; return op_fd(OP_TRUNC, fd, l, 0); }
EXPORT int ftruncate64(int fd, off_t l) { return ftruncate(fd, l); }
EXPORT int truncate(const char *p, off_t l) { if (!LIVE) return (int)raw(SYS_truncate, (long)p, l, 0, 0, 0, 0); PATHS(p, NULL); return op_fd(OP_TRUNC, -1, l, 0); }
EXPORT int truncate64(const char *p, off_t l) { return truncate(p, l); }
EXPORT int posix_fallocate(int fd, off_t o, off_t l) { if (!LIVE) return 0; return op_fd(OP_FALLOC, fd, o, l) < 0 ? errno : 0; }
EXPORT int posix_fallocate64(int fd, off_t o, off_t l) { return posix_fallocate(fd, o, l); }
EXPORT int fallocate(int fd, int m, off_t o, off_t l) { (void)m; if (!LIVE) return 0; return op_fd(OP_FALLOC, fd, o, l); }
EXPORT int fallocate64(int fd, int m, off_t o, off_t l) { return fallocate(fd, m, o, l); }

// stat family
static int do_stat(int dfd, const char *p, int flags, StatRep *r) { // p == NULL or "" + AT_EMPTY_PATH: by fd
  PATHS(p ? p : "", NULL);
  A(0, dfd); A(1, flags); A(2, p == NULL || (!*p && (flags & AT_EMPTY_PATH)));
  ENTER; int k = (int)request(slot, OP_STAT); LEAVE;
  if (k == 0) memcpy(r, slot->data, sizeof *r);
  return k;
}
static void fill(struct stat *s, const StatRep *r) {
  memset(s, 0, sizeof *s);
  s->st_dev = 77; s->st_ino = r->ino; s->st_nlink = r->nlink; s->st_mode = (mode_t)r->mode; s->st_uid = (uid_t)r->uid; s->st_gid = (gid_t)r->gid;
  s->st_size = (off_t)r->size; s->st_blksize = 4096; s->st_blocks = (blkcnt_t)((r->size + 511) / 512);
  s->st_mtim.tv_sec = (time_t)(r->mtime_ns / 1000000000ull); s->st_mtim.tv_nsec = (long)(r->mtime_ns % 1000000000ull);
  s->st_atim = s->st_mtim;
  s->st_ctim.tv_sec = (time_t)(r->ctime_ns / 1000000000ull); s->st_ctim.tv_nsec = (long)(r->ctime_ns % 1000000000ull);
}
EXPORT int fstatat(int d, const char *p, struct stat *s, int fl) {
  if (NULLCHECK(p) || NULLCHECK(s)) { errno = EFAULT; return -1; }
  int byfd = !p || (!*p && (fl & AT_EMPTY_PATH));
  if (!LIVE || (!byfd && *p == '/' && passthru(p)) || (byfd ? !vfd(d) && d != AT_FDCWD : !vdir(d))) return (int)raw(SYS_newfstatat, d, (long)p, (long)s, fl, 0, 0);
  StatRep r; int k = do_stat(d, byfd ? NULL : p, fl, &r);
  if (!k) fill(s, &r);
  return k;
}
EXPORT int fstatat64(int d, const char *p, struct stat64 *s, int fl) { return fstatat(d, p, (struct stat *)s, fl); }
EXPORT int stat(const char *p, struct stat *s) { return fstatat(AT_FDCWD, p, s, 0); }
EXPORT int stat64(const char *p, struct stat64 *s) { return fstatat(AT_FDCWD, p, (struct stat *)s, 0); }
EXPORT int lstat(const char *p, struct stat *s) { return fstatat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
EXPORT int lstat64(const char *p, struct stat64 *s) { return fstatat(AT_FDCWD, p, (struct stat *)s, AT_SYMLINK_NOFOLLOW); }
EXPORT int fstat(int fd, struct stat *s) { return fstatat(fd, "", s, AT_EMPTY_PATH); }
EXPORT int fstat64(int fd, struct stat64 *s) { return fstatat(fd, "", (struct stat *)s, AT_EMPTY_PATH); }
EXPORT int statx(int d, const char *restrict p, int fl, unsigned mask, struct statx *restrict x) {
  if (NULLCHECK(p) || NULLCHECK(x)) { errno = EFAULT; return -1; }
  int byfd = !p || (!*p && (fl & AT_EMPTY_PATH));
  if (!LIVE || (!byfd && *p == '/' && passthru(p)) || (byfd ? !vfd(d) && d != AT_FDCWD : !vdir(d))) return (int)raw(SYS_statx, d, (long)p, fl, mask, (long)x, 0);
  if (!x) { errno = EFAULT; return -1; } // std's probe
  StatRep r; int k = do_stat(d, byfd ? NULL : p, fl, &r);
  if (k) return k;
  memset(x, 0, sizeof *x);
  x->stx_mask = STATX_BASIC_STATS; x->stx_blksize = 4096; x->stx_nlink = (uint32_t)r.nlink; x->stx_uid = (uint32_t)r.uid; x->stx_gid = (uint32_t)r.gid;
  x->stx_mode = (uint16_t)r.mode; x->stx_ino = r.ino; x->stx_size = r.size; x->stx_blocks = (r.size + 511) / 512; x->stx_dev_minor = 77;
  x->stx_mtime.tv_sec = (int64_t)(r.mtime_ns / 1000000000ull); x->stx_mtime.tv_nsec = (uint32_t)(r.mtime_ns % 1000000000ull);
  x->stx_atime = x->stx_mtime;
  x->stx_ctime.tv_sec = (int64_t)(r.ctime_ns / 1000000000ull); x->stx_ctime.tv_nsec = (uint32_t)(r.ctime_ns % 1000000000ull);
  return 0;
}
EXPORT int faccessat(int d, const char *p, int m, int fl) {
  if (!LIVE || (p && *p == '/' && passthru(p))) return (int)raw(SYS_faccessat, d, (long)p, m, 0, 0, 0);
  PATHS(p, NULL); (void)fl;
  return op_fd(OP_ACCESS, d, m, 0);
}
EXPORT int access(const char *p, int m) { return faccessat(AT_FDCWD, p, m, 0); }
EXPORT int euidaccess(const char *p, int m) { return faccessat(AT_FDCWD, p, m, 0); }

// names
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
  if (!LIVE) return (int)raw(SYS_renameat2, d1, (long)a, d2, (long)b, fl, 0);
  PATHS(a, b);
  return A(3, fl), op_fd(OP_RENAME, d1, d2, 0);
}
EXPORT int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
EXPORT int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }
EXPORT int unlinkat(int d, const char *p, int fl) { if (!LIVE) { errno = EPERM; return -1; } PATHS(p, NULL); return op_fd(OP_UNLINK, d, fl, 0); }
EXPORT int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
EXPORT int remove(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
EXPORT int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
EXPORT int mkdirat(int d, const char *p, mode_t m) { if (!LIVE) { errno = EPERM; return -1; } PATHS(p, NULL); return op_fd(OP_MKDIR, d, m, 0); }
EXPORT int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
EXPORT int linkat(int d1, const char *a, int d2, const char *b, int fl) { if (!LIVE) { errno = EPERM; return -1; } PATHS(a, b); A(3, fl); return op_fd(OP_LINK, d1, d2, 0); }
EXPORT int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int symlinkat(const char *a, int d, const char *b) { if (!LIVE) { errno = EPERM; return -1; } PATHS(a, b); return op_fd(OP_SYMLINK, d, 0, 0); }
EXPORT int symlink(const char *a, const char *b) { return symlinkat(a, AT_FDCWD, b); }
EXPORT ssize_t readlinkat(int d, const char *p, char *buf, size_t n) {
  if (!LIVE || (p && *p == '/' && passthru(p))) return raw(SYS_readlinkat, d, (long)p, (long)buf, n, 0, 0);
  PATHS(p, NULL);
  A(0, d);
  ENTER; ssize_t r = request(slot, OP_READLINK); LEAVE;
  if (r < 0) return r;
  if ((size_t)r > n) r = (ssize_t)n;
  memcpy(buf, slot->data, (size_t)r);
  return r;
}
EXPORT ssize_t readlink(const char *p, char *b, size_t n) { return readlinkat(AT_FDCWD, p, b, n); }
EXPORT char *realpath(const char *p, char *out) {
  if (!LIVE || (p && *p == '/' && passthru(p))) { REAL(char *, realpath, const char *, char *); return p_realpath(p, out); }
  if (put_path(slot->path1, p)) return NULL;
  ENTER; int64_t r = request(slot, OP_REALPATH); LEAVE;
  if (r < 0) return NULL;
  if (!out) { out = __libc_malloc((size_t)r + 1); if (!out) return NULL; }
  memcpy(out, slot->data, (size_t)r);
  out[r] = 0;
  return out;
}
EXPORT char *canonicalize_file_name(const char *p) { return realpath(p, NULL); }
EXPORT char *getcwd(char *b, size_t n) {
  if (!LIVE) { REAL(char *, getcwd, char *, size_t); return p_getcwd(b, n); }
  ENTER; int64_t r = request(slot, OP_GETCWD); LEAVE;
  if (r < 0) return NULL;
  if (!b) { n = (size_t)r + 1; b = __libc_malloc(n); }
  if ((size_t)r + 1 > n) { errno = ERANGE; return NULL; }
  memcpy(b, slot->data, (size_t)r);
  b[r] = 0;
  return b;
}
EXPORT int chdir(const char *p) { if (!LIVE) { errno = EPERM; return -1; } PATHS(p, NULL); return op_fd(OP_CHDIR, AT_FDCWD, 0, 0); }
EXPORT int fchmodat(int d, const char *p, mode_t m, int fl) { if (!LIVE) { errno = EPERM; return -1; } PATHS(p, NULL); A(3, fl); return op_fd(OP_CHMOD, d, m, 0); }
EXPORT int chmod(const char *p, mode_t m) { return fchmodat(AT_FDCWD, p, m, 0); }
EXPORT int fchmod(int fd, mode_t m) { if (!LIVE || !vfd(fd)) { errno = EPERM; return -1; } slot->path1[0] = 0; return op_fd(OP_CHMOD, fd, m, 1); }
EXPORT int fchownat(int d, const char *p, uid_t u, gid_t g, int fl) { if (!LIVE) { errno = EPERM; return -1; } PATHS(p, NULL); A(3, g); A(4, fl); return op_fd(OP_CHOWN, d, u, 0); }
EXPORT int chown(const char *p, uid_t u, gid_t g) { return fchownat(AT_FDCWD, p, u, g, 0); }
EXPORT int lchown(const char *p, uid_t u, gid_t g) { return fchownat(AT_FDCWD, p, u, g, AT_SYMLINK_NOFOLLOW); }
EXPORT int fchown(int fd, uid_t u, gid_t g) { if (!LIVE || !vfd(fd)) { errno = EPERM; return -1; } slot->path1[0] = 0; A(3, g); A(4, 0); return op_fd(OP_CHOWN, fd, u, 1); }
EXPORT int utimensat(int d, const char *p, const struct timespec t[2], int fl) {
  if (!LIVE) { errno = EPERM; return -1; }
  PATHS(p ? p : "", NULL);
  A(3, t ? t[1].tv_nsec : UTIME_NOW); A(4, t ? t[1].tv_sec : 0); A(5, fl);
  return op_fd(OP_UTIMENS, d, p ? 0 : 1, 0);
}
EXPORT int futimens(int fd, const struct timespec t[2]) { return utimensat(fd, NULL, t, 0); }
EXPORT int flock(int fd, int op) { if (!LIVE || !vfd(fd)) return (int)raw(SYS_flock, fd, op, 0, 0, 0, 0); return op_fd(OP_FLOCK, fd, op, 0); }

static int do_fcntl(int fd, int cmd, long arg) {
  if (!LIVE || !vfd(fd)) return (int)raw(SYS_fcntl, fd, cmd, arg, 0, 0, 0);
  switch (cmd) {
    case F_DUPFD: case F_DUPFD_CLOEXEC: return op_fd(OP_DUP, fd, -1, 0);
    case F_SETLK: case F_SETLKW: case F_GETLK: case F_OFD_SETLK: case F_OFD_SETLKW: return 0;
    default: return op_fd(OP_FDFLAGS, fd, cmd, arg);
  }
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int dup(int fd) { if (!LIVE || !vfd(fd)) return (int)raw(SYS_dup, fd, 0, 0, 0, 0, 0); return op_fd(OP_DUP, fd, -1, 0); }
EXPORT int dup2(int a, int b) { if (!LIVE) return (int)raw(SYS_dup2, a, b, 0, 0, 0, 0); return op_fd(OP_DUP, a, b, 0); }
EXPORT int dup3(int a, int b, int f) { (void)f; return dup2(a, b); }
EXPORT int isatty(int fd) {
  if (active && fd >= 0 && fd <= 2 && (proc->tty >> fd & 1)) return 1;
  errno = ENOTTY;
  return 0;
}
static char *my_getenv(const char *n, void *ra) {
  if (MINE(ra)) {
    size_t l = strlen(n) + 1, k = 0;
    int known = 0;
    for (; k < proc->envq_len; k += strlen(proc->envq + k) + 1) if (!strcmp(proc->envq + k, n)) known = 1;
    if (!known && proc->envq_len + l <= ENVQ_CAP) { memcpy(proc->envq + proc->envq_len, n, l); proc->envq_len += l; }
  }
  size_t l = strlen(n);
  for (char **e = environ; e && *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
  return NULL;
}
EXPORT char *getenv(const char *n) { return my_getenv(n, __builtin_return_address(0)); }
EXPORT char *secure_getenv(const char *n) { return my_getenv(n, __builtin_return_address(0)); }
EXPORT int ioctl(int fd, unsigned long rq, ...) {
  va_list ap; va_start(ap, rq); long a = va_arg(ap, long); va_end(ap);
  if (LIVE && fd >= 0 && fd <= 2 && (proc->tty >> fd & 1) && rq == 0x5413 /*TIOCGWINSZ*/) { unsigned short w[4] = {24, 97, 0, 0}; memcpy((void *)a, w, 8); return 0; }
  if (LIVE && vfd(fd)) { errno = ENOTTY; return -1; }
  return (int)raw(SYS_ioctl, fd, (long)rq, a, 0, 0, 0);
}
EXPORT int poll(struct pollfd *f, nfds_t n, int t) {
  if (!LIVE) return (int)raw(SYS_poll, (long)f, (long)n, t, 0, 0, 0);
  for (nfds_t i = 0; i < n; i++) f[i].revents = (short)(f[i].events & (POLLIN | POLLOUT));
  return (int)n;
}
EXPORT ssize_t copy_file_range(int a, off_t *x, int b, off_t *y, size_t n, unsigned f) { (void)a; (void)x; (void)b; (void)y; (void)n; (void)f; errno = ENOSYS; return -1; }
EXPORT ssize_t sendfile(int a, int b, off_t *o, size_t n) { (void)a; (void)b; (void)o; (void)n; errno = EINVAL; return -1; }
EXPORT ssize_t sendfile64(int a, int b, off_t *o, size_t n) { return sendfile(a, b, o, n); }
EXPORT ssize_t splice(int a, off_t *x, int b, off_t *y, size_t n, unsigned f) { (void)a; (void)x; (void)b; (void)y; (void)n; (void)f; errno = EINVAL; return -1; }
EXPORT void *mmap64(void *a, size_t l, int pr, int fl, int fd, off_t o) {
  if (LIVE && fd >= VFD_BASE) { errno = ENODEV; return MAP_FAILED; }
  long r = sys6(SYS_mmap, (long)a, (long)l, pr, fl, fd, o);
  if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; }
  return (void *)r;
}
EXPORT void *mmap(void *a, size_t l, int pr, int fl, int fd, off_t o) { return mmap64(a, l, pr, fl, fd, o); }
EXPORT mode_t umask(mode_t m) { (void)m; return 022; }

// directories
typedef struct { uint64_t magic; int fd; char *buf, *p, *end; struct dirent64 d; } VDir;
#define DMAGIC 0xd1d1d1d1aa55aa55ull
static DIR *list_dir(int dfd, const char *p) {
  if (put_path(slot->path1, p)) return NULL;
  A(0, dfd);
  ENTER; int64_t r = request(slot, OP_READDIR); LEAVE;
  if (r < 0) return NULL;
  VDir *v = __libc_calloc(1, sizeof *v);
  v->magic = DMAGIC; v->fd = dfd >= VFD_BASE ? dfd : -1;
  v->buf = __libc_malloc((size_t)r + 1); memcpy(v->buf, slot->data, (size_t)r); v->p = v->buf; v->end = v->buf + r;
  return (DIR *)v;
}
EXPORT DIR *opendir(const char *p) { if (!LIVE || passthru(p)) { REAL(DIR *, opendir, const char *); return p_opendir(p); } return list_dir(AT_FDCWD, p); }
EXPORT DIR *fdopendir(int fd) { if (!LIVE || !vfd(fd)) { REAL(DIR *, fdopendir, int); return p_fdopendir(fd); } return list_dir(fd, ""); }
EXPORT struct dirent64 *readdir64(DIR *d) {
  VDir *v = (VDir *)d;
  if (v->magic != DMAGIC) { REAL(struct dirent64 *, readdir64, DIR *); return p_readdir64(d); }
  if (v->p >= v->end) return NULL;
  // record: type byte, name NUL
  v->d.d_type = (unsigned char)*v->p++;
  size_t n = strlen(v->p);
  v->d.d_ino = 1 + (uint64_t)(v->p - v->buf);
  v->d.d_reclen = sizeof(struct dirent64);
  if (n > 255) n = 255;
  memcpy(v->d.d_name, v->p, n); v->d.d_name[n] = 0;
  v->p += n + 1;
  return &v->d;
}
EXPORT struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
EXPORT int dirfd(DIR *d) { VDir *v = (VDir *)d; if (v->magic != DMAGIC) { REAL(int, dirfd, DIR *); return p_dirfd(d); } return v->fd; }
EXPORT int closedir(DIR *d) {
  VDir *v = (VDir *)d;
  if (v->magic != DMAGIC) { REAL(int, closedir, DIR *); return p_closedir(d); }
  if (v->fd >= 0) op_fd(OP_CLOSE, v->fd, 0, 0);
  v->magic = 0; __libc_free(v->buf); __libc_free(v);
  return 0;
}

// ---------------------------------------------------------------- time, randomness, identity
static uint64_t sim_clock(int id) { A(0, id); ENTER; uint64_t r = (uint64_t)request(slot, OP_CLOCK); LEAVE; return r; }
EXPORT int clock_gettime(clockid_t id, struct timespec *t) {
  if (!LIVE) return (int)raw(SYS_clock_gettime, id, (long)t, 0, 0, 0, 0);
  uint64_t n = sim_clock(id);
  t->tv_sec = (time_t)(n / 1000000000ull); t->tv_nsec = (long)(n % 1000000000ull);
  return 0;
}
EXPORT int gettimeofday(struct timeval *restrict t, void *restrict z) {
  (void)z;
  if (!LIVE) return (int)raw(SYS_gettimeofday, (long)t, 0, 0, 0, 0, 0);
  uint64_t n = sim_clock(CLOCK_REALTIME);
  t->tv_sec = (time_t)(n / 1000000000ull); t->tv_usec = (long)(n % 1000000000ull / 1000);
  return 0;
}
EXPORT time_t time(time_t *o) {
  time_t v;
  if (!LIVE) { struct timespec t; raw(SYS_clock_gettime, 0, (long)&t, 0, 0, 0, 0); v = t.tv_sec; } else v = (time_t)(sim_clock(CLOCK_REALTIME) / 1000000000ull);
  if (o) *o = v;
  return v;
}
static int sim_sleep(int id, int abs, const struct timespec *t) {
  A(0, t->tv_sec * 1000000000ll + t->tv_nsec); A(1, abs); A(2, id);
  ENTER; int r = (int)request(slot, OP_SLEEP); LEAVE;
  return r;
}
EXPORT int nanosleep(const struct timespec *t, struct timespec *rem) { if (!LIVE) return (int)raw(SYS_nanosleep, (long)t, (long)rem, 0, 0, 0, 0); return sim_sleep(CLOCK_MONOTONIC, 0, t); }
EXPORT int clock_nanosleep(clockid_t id, int fl, const struct timespec *t, struct timespec *rem) {
  if (!LIVE) { long r = sys6(SYS_clock_nanosleep, id, fl, (long)t, (long)rem, 0, 0); return (int)-r; }
  return sim_sleep(id, fl & TIMER_ABSTIME, t) < 0 ? errno : 0;
}
EXPORT int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, NULL); }
EXPORT unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, NULL); return 0; }
EXPORT ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (!LIVE) return raw(SYS_getrandom, (long)b, n, fl, 0, 0, 0);
  if (n > 4096) n = 4096;
  A(0, n); ENTER; int64_t r = request(slot, OP_RANDOM); LEAVE;
  if (r > 0) memcpy(b, slot->data, (size_t)r);
  return r;
}
EXPORT int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
EXPORT pid_t getpid(void) { if (!active) return (pid_t)sys6(SYS_getpid, 0, 0, 0, 0, 0, 0); return (pid_t)proc->pid; }
EXPORT pid_t getppid(void) { if (!active) return (pid_t)sys6(SYS_getppid, 0, 0, 0, 0, 0, 0); return 1; }
static pid_t vtid(void) { return (pid_t)(proc->pid + (uint64_t)(slot - shm->slot)); }
EXPORT pid_t gettid(void) { if (!active || !slot) return (pid_t)sys6(SYS_gettid, 0, 0, 0, 0, 0, 0); return vtid(); }
EXPORT uid_t getuid(void) { return 1000; }
EXPORT uid_t geteuid(void) { return 1000; }
EXPORT int sched_getaffinity(pid_t p, size_t sz, cpu_set_t *m) {
  if (!active) return (int)raw(SYS_sched_getaffinity, p, (long)sz, (long)m, 0, 0, 0);
  memset(m, 0, sz);
  for (uint64_t i = 0; i < proc->ncpu && i < sz * 8; i++) CPU_SET_S(i, sz, m);
  return 0;
}
EXPORT long sysconf(int n) {
  if (active && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return (long)proc->ncpu;
  REAL(long, sysconf, int);
  return p_sysconf(n);
}

// ---------------------------------------------------------------- threads
EXPORT int sched_yield(void) { if (!LIVE) return (int)raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0); return op_fd(OP_YIELD, 0, 0, 0); }

typedef struct Dtor { void (*fn)(void *); void *arg; struct Dtor *next; } Dtor;
static TLS Dtor *dtors;
static TLS int is_worker;
EXPORT int __cxa_thread_atexit_impl(void (*fn)(void *), void *arg, void *dso) {
  if (LIVE && is_worker) {
    Dtor *d = __libc_malloc(sizeof *d);
    d->fn = fn; d->arg = arg; d->next = dtors; dtors = d;
    return 0;
  }
  REAL(int, __cxa_thread_atexit_impl, void (*)(void *), void *, void *);
  return p___cxa_thread_atexit_impl(fn, arg, dso);
}
// thread-specific data: destructors run before the simulator is told that the thread is gone
static struct { pthread_key_t k; void (*fn)(void *); } keys[64];
static int nkeys;
EXPORT int pthread_key_create(pthread_key_t *k, void (*fn)(void *)) {
  REAL(int, pthread_key_create, pthread_key_t *, void (*)(void *));
  int r = p_pthread_key_create(k, fn);
  if (r == 0 && fn) { if (nkeys == 64) die("shim: too many keys\n"); keys[nkeys].k = *k; keys[nkeys].fn = fn; nkeys++; }
  return r;
}
EXPORT int pthread_key_delete(pthread_key_t k) {
  REAL(int, pthread_key_delete, pthread_key_t);
  for (int i = 0; i < nkeys; i++) if (keys[i].k == k) { keys[i] = keys[--nkeys]; break; }
  return p_pthread_key_delete(k);
}
static void run_dtors(void) {
  for (int round = 0; round < 8; round++) {
    int any = 0;
    while (dtors) { Dtor *d = dtors; dtors = d->next; d->fn(d->arg); __libc_free(d); any = 1; }
    for (int i = 0; i < nkeys; i++) {
      void *v = pthread_getspecific(keys[i].k);
      if (v) { pthread_setspecific(keys[i].k, NULL); keys[i].fn(v); any = 1; }
    }
    if (!any) return;
  }
}
typedef struct { void *(*fn)(void *); void *arg; Slot *s; } Start;
static void *trampoline(void *v) {
  Start st = *(Start *)v;
  __libc_free(v);
  is_worker = 1;
  in_shim = 1;
  slot = st.s;
  await_reply(slot);
  in_shim = 0;
  void *r = st.fn(st.arg);
  run_dtors();
  Slot *s = slot;
  in_shim = 1;
  request(s, OP_THREAD_EXIT); // answered at once; the rest of this thread's life is libc only
  quantum = INT64_MAX;
  slot = NULL;
  return r;
}
#define STACK_BASE 0x200000000000ull
#define STACK_GUARD (1ul << 16)
#define STACK_STRIDE (1ull << 30)
#define MAXT 1024
static struct { pthread_t t; int sidx; } tmap[MAXT];
static int ntmap;
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!LIVE) return p_pthread_create(t, at, fn, arg);
  ENTER;
  int64_t r = request(slot, OP_SPAWN);
  if (r < 0) { LEAVE; return slot->err; }
  Start *st = __libc_malloc(sizeof *st);
  st->fn = fn; st->arg = arg; st->s = &shm->slot[r];
  // std keeps a map keyed by stack address, so that stacks are placed by the simulation, one fresh place per thread
  static uint64_t nstacks;
  pthread_attr_t own;
  size_t size = 2u << 20, guard = STACK_GUARD;
  if (at) pthread_attr_getstacksize(at, &size);
  size = (size + 0xffff) & ~(size_t)0xffff;
  char *base = (char *)(STACK_BASE + nstacks++ * STACK_STRIDE);
  if (size + guard > STACK_STRIDE) size = STACK_STRIDE - guard;
  if (sys6(SYS_mmap, (long)base, (long)guard, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != (long)base
      || sys6(SYS_mmap, (long)(base + guard), (long)size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != (long)(base + guard))
    die("shim: no room for a stack\n");
  pthread_attr_init(&own);
  pthread_attr_setstack(&own, base + guard, size);
  int e = p_pthread_create(t, &own, trampoline, st);
  pthread_attr_destroy(&own);
  if (e) die("shim: real pthread_create failed\n");
  if (ntmap < MAXT) { tmap[ntmap].t = *t; tmap[ntmap].sidx = (int)r; ntmap++; }
  else { int k = -1; for (int i = 0; i < MAXT; i++) if (tmap[i].sidx < 0) { k = i; break; } if (k < 0) die("shim: too many threads\n"); tmap[k].t = *t; tmap[k].sidx = (int)r; }
  LEAVE;
  return 0;
}
static int find_t(pthread_t t) { for (int i = ntmap - 1; i >= 0; i--) if (tmap[i].sidx >= 0 && pthread_equal(tmap[i].t, t)) return i; return -1; }
EXPORT int pthread_join(pthread_t t, void **ret) {
  REAL(int, pthread_join, pthread_t, void **);
  if (!LIVE) return p_pthread_join(t, ret);
  int i = find_t(t);
  if (i >= 0) { A(0, tmap[i].sidx); ENTER; request(slot, OP_JOIN); LEAVE; tmap[i].sidx = -1; }
  ENTER; int r = p_pthread_join(t, ret); LEAVE;
  return r;
}
EXPORT int pthread_detach(pthread_t t) {
  REAL(int, pthread_detach, pthread_t);
  if (!LIVE) return p_pthread_detach(t);
  int i = find_t(t);
  if (i >= 0) { A(0, tmap[i].sidx); ENTER; request(slot, OP_DETACH); LEAVE; tmap[i].sidx = -1; }
  return p_pthread_detach(t);
}
EXPORT int pthread_getattr_np(pthread_t t, pthread_attr_t *a) {
  REAL(int, pthread_getattr_np, pthread_t, pthread_attr_t *);
  in_shim++; int r = p_pthread_getattr_np(t, a); in_shim--;
  if (is_worker && r == 0) pthread_attr_setguardsize(a, STACK_GUARD);
  return r;
}

static int sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *to) {
  int cmd = op & 127;
  if (cmd == 0 || cmd == 9) { // WAIT, WAIT_BITSET
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    A(0, (uintptr_t)addr);
    A(1, to ? to->tv_sec * 1000000000ll + to->tv_nsec : -1);
    A(2, cmd == 9);              // WAIT_BITSET: absolute
    A(3, (op & 256) ? 0 : 1);    // FUTEX_CLOCK_REALTIME
    ENTER; int r = (int)request(slot, OP_FUTEX_WAIT); LEAVE;
    return r;
  }
  if (cmd == 1 || cmd == 10) { A(0, (uintptr_t)addr); A(1, val); ENTER; int r = (int)request(slot, OP_FUTEX_WAKE); LEAVE; return r; }
  errno = ENOSYS;
  return -1;
}
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (!LIVE) return raw(n, a, b, c, d, e, f);
  switch (n) {
    case SYS_futex: return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d);
    case SYS_getrandom: return getrandom((void *)a, (size_t)b, (unsigned)c);
    case SYS_gettid: return vtid();
    case SYS_getpid: return getpid();
    case SYS_openat: return do_open((int)a, (const char *)b, (int)c, (mode_t)d);
    case SYS_open: return do_open(AT_FDCWD, (const char *)a, (int)b, (mode_t)c);
    case SYS_read: return read((int)a, (void *)b, (size_t)c);
    case SYS_write: return write((int)a, (void *)b, (size_t)c);
    case SYS_close: return close((int)a);
    case SYS_statx: return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
    case SYS_rename: return rename((const char *)a, (const char *)b);
    case SYS_renameat2: return do_rename((int)a, (const char *)b, (int)c, (const char *)d, (unsigned)e);
    case SYS_unlink: return unlink((const char *)a);
    case SYS_sched_yield: return sched_yield();
    case SYS_nanosleep: return nanosleep((const struct timespec *)a, (struct timespec *)b);
    case SYS_copy_file_range: case SYS_memfd_create: case SYS_io_uring_setup: errno = ENOSYS; return -1;
    default: return raw(n, a, b, c, d, e, f);
  }
}

// ---------------------------------------------------------------- processes and exit
EXPORT void exit(int code) {
  REAL(void, exit, int);
  if (LIVE) { A(0, code); ENTER; request(slot, OP_EXIT); LEAVE; active = 2; }
  p_exit(code);
  __builtin_unreachable();
}
EXPORT void _exit(int code) { if (LIVE) { A(0, code); ENTER; request(slot, OP_EXIT); LEAVE; } for (;;) sys6(SYS_exit_group, code, 0, 0, 0, 0, 0); }
EXPORT void _Exit(int code) { _exit(code); }
EXPORT int execve(const char *p, char *const a[], char *const e[]) { (void)a; (void)e; if (LIVE) { escape(p); errno = EPERM; return -1; } return (int)raw(SYS_execve, (long)p, (long)a, (long)e, 0, 0, 0); }
EXPORT int execvp(const char *p, char *const a[]) { (void)a; if (LIVE) escape(p); errno = EPERM; return -1; }
EXPORT int posix_spawn(pid_t *pid, const char *p, const void *fa, const void *at, char *const a[], char *const e[]) { (void)pid; (void)fa; (void)at; (void)a; (void)e; if (LIVE) escape(p); return EPERM; }
EXPORT int posix_spawnp(pid_t *pid, const char *p, const void *fa, const void *at, char *const a[], char *const e[]) { (void)pid; (void)fa; (void)at; (void)a; (void)e; if (LIVE) escape(p); return EPERM; }
EXPORT pid_t fork(void) {
  if (LIVE) { escape("fork"); errno = EAGAIN; return -1; }
  REAL(pid_t, fork, void);
  return p_fork();
}
EXPORT int kill(pid_t p, int s) { (void)s; if (LIVE) { escape("kill"); errno = EPERM; return -1; } return (int)raw(SYS_kill, p, s, 0, 0, 0, 0); }
EXPORT int socket(int a, int b, int c) { if (LIVE) { escape("socket"); errno = EAFNOSUPPORT; return -1; } return (int)raw(SYS_socket, a, b, c, 0, 0, 0); }
