// Shared-memory protocol between the shim (inside the simulated process) and the simulator.
// Keep in step with simd/src/proto.rs.
#ifndef PROTO_H
#define PROTO_H
#include <stdint.h>

#define NSLOTS 640
#define NPROCS 8
#define SLOT_DATA (1u << 21)
#define PATH_CAP 4096
#define BLOB_CAP (1u << 18)
#define COV_CAP (1u << 18)
#define ENVQ_CAP 8192

enum {
  OP_NONE = 0,
  OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_LSEEK, OP_STAT, OP_FSYNC, OP_TRUNC, OP_RENAME, OP_UNLINK,
  OP_MKDIR, OP_LINK, OP_SYMLINK, OP_READLINK, OP_REALPATH, OP_CHMOD, OP_CHOWN, OP_ACCESS, OP_UTIMENS, OP_READDIR,
  OP_GETCWD, OP_CHDIR, OP_DUP, OP_FLOCK, OP_FDFLAGS, OP_FALLOC,
  OP_FUTEX_WAIT, OP_FUTEX_WAKE, OP_SPAWN, OP_JOIN, OP_THREAD_EXIT, OP_YIELD, OP_SLEEP, OP_TICK,
  OP_CLOCK, OP_RANDOM, OP_EXIT, OP_DETACH, OP_ESCAPE, OP_MMAP, OP_FORK
};

typedef struct {
  uint32_t reply;      // futex: simulator sets to 1 when answered
  uint32_t op;
  int64_t a[8];
  int64_t ret;
  int32_t err;
  uint32_t datalen;
  uint64_t quantum;    // reply: ticks until a forced OP_TICK (0: use default)
  uint64_t ticks;      // request: ticks executed since the last reply
  char path1[PATH_CAP];
  char path2[PATH_CAP];
  char data[SLOT_DATA];
} Slot;

typedef struct {
  uint64_t heap_seed;
  uint64_t fail_alloc_at;   // 1-based index of the allocation (from the program's own code) that fails; 0: none
  uint64_t fail_alloc_n;    // how many consecutive allocations fail
  uint64_t alloc_count;
  uint64_t pid;
  uint64_t ncpu;
  uint64_t stack_limit;
  uint64_t spare[9];
  uint32_t argc, envc;
  uint32_t envq_len, tty;   // names looked up with getenv (NUL separated); tty: bit n set: fd n is a terminal
  char envq[ENVQ_CAP];
  char blob[BLOB_CAP];      // argv strings then env strings, NUL separated
} Proc;

typedef struct {
  uint32_t n_guards;
  uint32_t pad[15];
  uint8_t cov[COV_CAP];
  Proc proc[NPROCS];
  Slot slot[NSLOTS];
} Shm;

typedef struct {       // OP_STAT reply, in data[]
  uint64_t ino, size, mode, nlink, uid, gid, mtime_ns, ctime_ns, blksize, isvirt;
} StatRep;

#define VFD_BASE 500
#define FD_SHM 190
#define FD_CTL 191
#define FD_SOCK 192
#endif
