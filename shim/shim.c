// LD_PRELOAD shim: routes every operating-system interaction of the program
// under test (files, directories, standard streams, clocks, randomness,
// allocation failures) to the simulator over a socket.  The shim holds no
// policy and makes no choice: each call blocks until the simulator answers,
// so the simulator decides what happens, and when, and in which order
// relative to other simulated processes.  Nothing is passed through to the
// real file system: a path is only ever looked up on the simulated disk.
//
// It also contains a fork server, so that a run costs one fork, not one exec.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <pthread.h>
#include <sys/types.h>
#include <linux/futex.h>
#include <sched.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static int escape(const char *what);

#define RPC_FD 500
#define MAXIO 65536

enum {
  OP_OPEN = 1, OP_CLOSE, OP_READ, OP_WRITE, OP_LSEEK, OP_STAT, OP_FTRUNC, OP_TRUNC,
  OP_FSYNC, OP_READDIR, OP_MKDIR, OP_RMDIR, OP_UNLINK, OP_RENAME, OP_LINK, OP_SYMLINK,
  OP_READLINK, OP_REALPATH, OP_CHMOD, OP_FCHMOD, OP_CHOWN, OP_FCHOWN, OP_UTIMENS,
  OP_ACCESS, OP_GETCWD, OP_CHDIR, OP_FCNTL, OP_DUP, OP_FLOCK, OP_GETPID, OP_CLOCK,
  OP_RANDOM, OP_SLEEP, OP_ESCAPE, OP_REWINDDIR, OP_THREAD, OP_GETENV, OP_GETUID,
  OP_SCHED, OP_NCPU
};

struct req { uint32_t op, n1, n2, pad; int64_t a[4]; };
struct rep { int64_t ret; int32_t err; uint32_t n; };
struct meta { uint64_t ino, size; int64_t mtime; uint32_t mode, nlink, uid, gid; };

static int active = 0;              // 1 in a simulated process
static atomic_flag lock = ATOMIC_FLAG_INIT;
static long alloc_countdown = 0;    // 0: never fail

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
static void die(int sig) {
  long pid = raw6(SYS_getpid, 0, 0, 0, 0, 0, 0);
  raw6(SYS_kill, pid, sig, 0, 0, 0, 0);
  for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
}

// One remote call. Returns ret (negative: errno set), reply bytes in out.
static int64_t rpc_now(struct req *q, const void *p1, const void *p2, void *out, size_t outcap, uint32_t *outn) {
  while (atomic_flag_test_and_set_explicit(&lock, memory_order_acquire)) raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  struct iovec iov[3] = {{q, sizeof *q}, {(void *)p1, q->n1}, {(void *)p2, q->n2}};
  struct msghdr m;
  memset(&m, 0, sizeof m);
  m.msg_iov = iov; m.msg_iovlen = 3;
  long r;
  do r = raw6(SYS_sendmsg, RPC_FD, (long)&m, MSG_NOSIGNAL, 0, 0, 0); while (r == -EINTR);
  if (r < 0) die(SIGKILL);
  struct rep rep;
  struct iovec riov[2] = {{&rep, sizeof rep}, {out, outcap}};
  memset(&m, 0, sizeof m);
  m.msg_iov = riov; m.msg_iovlen = 2;
  do r = raw6(SYS_recvmsg, RPC_FD, (long)&m, 0, 0, 0, 0); while (r == -EINTR);
  if (r < (long)sizeof rep) die(SIGKILL);
  atomic_flag_clear_explicit(&lock, memory_order_release);
  if (rep.ret == INT64_MIN) die(rep.err);   // the simulator kills this process here
  if (outn) *outn = rep.n;
  if (rep.ret < 0) { errno = rep.err; return -1; }
  return rep.ret;
}

// ---- threads ----
// Only the thread that holds the baton runs.  It gives it up before a system
// call (the simulator says which runnable thread goes next), when it waits
// for another one (futex, join) and when it ends, so the simulator decides the
// interleaving of a program with threads.  All of this state is touched by the
// holder of the baton only.
#define MAXT 1024
enum { T_FREE, T_RUNNABLE, T_FUTEX, T_JOIN, T_DONE };
static struct thr {
  int state, go, target, timed, timedout, woken, detached, joined;
  uint32_t *addr;
  int64_t deadline;
  pthread_t id;
  void *(*f)(void *);
  void *x;
} th[MAXT];
static int slots = 1, live = 1;
static __thread int self __attribute__((tls_model("initial-exec"))) = 0;
static __thread int gone __attribute__((tls_model("initial-exec"))) = 0;
static pthread_key_t end_key;
static int have_end_key = 0;

static int64_t call_now(uint32_t op, int64_t a, int64_t b, const void *p, uint32_t n) {
  struct req q = {op, n, 0, 0, {a, b, 0, 0}};
  return rpc_now(&q, p, 0, 0, 0, 0);
}
static void wait_turn(void) {
  struct thr *t = &th[self];
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) raw6(SYS_futex, (long)&t->go, FUTEX_WAIT, 0, 0, 0, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}
// Who goes next; the caller may itself be among the runnable ones.
static int choose(int except) {
  uint8_t map[MAXT / 8];
  for (;;) {
    int n = 0, one = -1, first = -1;
    memset(map, 0, sizeof map);
    for (int i = 0; i < slots; i++) {
      if (th[i].state == T_RUNNABLE && i != except) { n++; one = i; map[i / 8] |= 1 << (i % 8); }
      if (th[i].state == T_FUTEX && th[i].timed && (first < 0 || th[i].deadline < th[first].deadline)) first = i;
    }
    if (n == 1) return one;
    if (n == 0 && except >= 0) return except;
    if (n > 1) {
      int64_t r = call_now(OP_SCHED, self, n, map, (slots + 7) / 8);
      return r >= 0 && r < slots && th[r].state == T_RUNNABLE && r != except ? (int)r : one;
    }
    if (first >= 0) {               // nobody can run: time passes until a wait times out
      int64_t now = call_now(OP_CLOCK, CLOCK_MONOTONIC, 0, 0, 0);
      if (th[first].deadline > now) call_now(OP_SLEEP, th[first].deadline - now, 0, 0, 0);
      th[first].state = T_RUNNABLE;
      th[first].timedout = 1;
      continue;
    }
    call_now(OP_SCHED, self, 0, 0, 0);   // deadlock: the simulator ends the process
    die(SIGKILL);
  }
}
static void hand_over(int n) {
  __atomic_store_n(&th[n].go, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&th[n].go, FUTEX_WAKE, 1, 0, 0, 0);
}
static void yield_to(int except) {
  int n = choose(except);
  if (n == self) return;
  hand_over(n);
  wait_turn();
}
static void yield_turn(void) { yield_to(-1); }
static int threaded(void) { return active && live > 1 && !gone; }

static void thread_ends(void *v) {
  // the first round of destructors: come back after the others
  if ((long)v == 1) { pthread_setspecific(end_key, (void *)2); return; }
  th[self].state = T_DONE;
  live--;
  for (int i = 0; i < slots; i++)
    if (th[i].state == T_JOIN && th[i].target == self) th[i].state = T_RUNNABLE;
  gone = 1;
  hand_over(choose(-1));
}
static void *thread_starts(void *v) {
  self = (int)(long)v;
  pthread_setspecific(end_key, (void *)1);
  wait_turn();
  return th[self].f(th[self].x);
}
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t *addr2) {
  int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  struct thr *t = &th[self];
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    t->timed = ts != 0;
    if (ts) {
      t->deadline = ts->tv_sec >= (int64_t)9e9 ? INT64_MAX : ts->tv_sec * 1000000000LL + ts->tv_nsec;
      if (cmd == FUTEX_WAIT) {
        int64_t now = call_now(OP_CLOCK, CLOCK_MONOTONIC, 0, 0, 0);
        t->deadline = t->deadline > INT64_MAX - now ? INT64_MAX : t->deadline + now;
      }
    }
    t->addr = addr; t->timedout = 0;
    t->state = T_FUTEX;
    yield_turn();
    if (t->timedout) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    uint32_t k = 0;
    for (int i = 0; i < slots && k < val; i++)
      if (th[i].state == T_FUTEX && th[i].addr == addr) { th[i].state = T_RUNNABLE; k++; }
    return k;
  }
  escape("futex");
  return -1;
}

static int64_t rpc(struct req *q, const void *p1, const void *p2, void *out, size_t outcap, uint32_t *outn) {
  if (threaded()) yield_turn();
  return rpc_now(q, p1, p2, out, outcap, outn);
}
static int64_t call(uint32_t op, int64_t a, int64_t b, int64_t c, int64_t d) {
  struct req q = {op, 0, 0, 0, {a, b, c, d}};
  return rpc(&q, 0, 0, 0, 0, 0);
}
static int64_t call1(uint32_t op, const char *p, int64_t a, int64_t b, int64_t c) {
  if (!p) { errno = EFAULT; return -1; }
  size_t n = strlen(p);
  if (n >= PATH_MAX) { errno = ENAMETOOLONG; return -1; }
  struct req q = {op, n, 0, 0, {a, b, c, 0}};
  return rpc(&q, p, 0, 0, 0, 0);
}
static int64_t call2(uint32_t op, const char *p, const char *p2, int64_t a, int64_t b, int64_t c) {
  if (!p || !p2) { errno = EFAULT; return -1; }
  struct req q = {op, strlen(p), strlen(p2), 0, {a, b, c, 0}};
  return rpc(&q, p, p2, 0, 0, 0);
}
static int escape(const char *what) {
  if (active) call1(OP_ESCAPE, what, 0, 0, 0);
  errno = ENOSYS;
  return -1;
}

#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

// ---- files ----
static int open_impl(int dfd, const char *p, int fl, va_list ap) {
  int mode = 0;
  if (fl & (O_CREAT | __O_TMPFILE)) mode = va_arg(ap, int);
  if (!active) return (int)raw6(SYS_openat, dfd, (long)p, fl, mode, 0, 0);
  return (int)call1(OP_OPEN, p, dfd, fl, mode);
}
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int r = open_impl(AT_FDCWD, p, fl, ap); va_end(ap); return r; }
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int r = open_impl(AT_FDCWD, p, fl, ap); va_end(ap); return r; }
int openat64(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int r = open_impl(d, p, fl, ap); va_end(ap); return r; }
int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int r = open_impl(d, p, fl, ap); va_end(ap); return r; }
int creat64(const char *p, mode_t m) { return active ? (int)call1(OP_OPEN, p, AT_FDCWD, O_CREAT | O_WRONLY | O_TRUNC, m) : escape("creat"); }
int creat(const char *p, mode_t m) { return creat64(p, m); }
int close(int fd) {
  if (!active) return (int)raw6(SYS_close, fd, 0, 0, 0, 0, 0);
  return (int)call(OP_CLOSE, fd, 0, 0, 0);
}
static ssize_t read_impl(int fd, void *b, size_t n, int64_t off) {
  if (n > MAXIO) n = MAXIO;
  struct req q = {OP_READ, 0, 0, 0, {fd, (int64_t)n, off, 0}};
  return rpc(&q, 0, 0, b, n, 0);
}
ssize_t read(int fd, void *b, size_t n) {
  if (!active) { long r = raw6(SYS_read, fd, (long)b, n, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
  return read_impl(fd, b, n, -1);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return read_impl(fd, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return read_impl(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  for (int i = 0; i < c; i++) if (v[i].iov_len) return read_impl(fd, v[i].iov_base, v[i].iov_len, -1);
  return 0;
}
static ssize_t write_impl(int fd, const void *b, size_t n, int64_t off) {
  if (n > MAXIO) n = MAXIO;
  struct req q = {OP_WRITE, n, 0, 0, {fd, off, 0, 0}};
  return rpc(&q, b, 0, 0, 0, 0);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!active) { long r = raw6(SYS_write, fd, (long)b, n, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
  return write_impl(fd, b, n, -1);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return write_impl(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return write_impl(fd, b, n, o); }
static char vbuf[MAXIO];
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!active) { long r = raw6(SYS_writev, fd, (long)v, c, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
  size_t n = 0;
  for (int i = 0; i < c && n < MAXIO; i++) {
    size_t k = v[i].iov_len < MAXIO - n ? v[i].iov_len : MAXIO - n;
    memcpy(vbuf + n, v[i].iov_base, k);
    n += k;
  }
  return write_impl(fd, vbuf, n, -1);
}
off64_t lseek64(int fd, off64_t o, int w) { return call(OP_LSEEK, fd, o, w, 0); }
off_t lseek(int fd, off_t o, int w) { return call(OP_LSEEK, fd, o, w, 0); }
int ftruncate64(int fd, off64_t n) { return (int)call(OP_FTRUNC, fd, n, 0, 0); }
int ftruncate(int fd, off_t n) { return (int)call(OP_FTRUNC, fd, n, 0, 0); }
int truncate64(const char *p, off64_t n) { return (int)call1(OP_TRUNC, p, n, 0, 0); }
int truncate(const char *p, off_t n) { return (int)call1(OP_TRUNC, p, n, 0, 0); }
int posix_fallocate64(int fd, off64_t o, off64_t n) { return 0; }
int posix_fallocate(int fd, off_t o, off_t n) { return 0; }
int posix_fadvise64(int fd, off64_t o, off64_t n, int a) { return 0; }
int posix_fadvise(int fd, off_t o, off_t n, int a) { return 0; }
int fsync(int fd) { return (int)call(OP_FSYNC, fd, 0, 0, 0); }
int fdatasync(int fd) { return (int)call(OP_FSYNC, fd, 1, 0, 0); }
int sync_file_range(int fd, off64_t o, off64_t n, unsigned f) { return (int)call(OP_FSYNC, fd, 1, 0, 0); }
int syncfs(int fd) { return (int)call(OP_FSYNC, fd, 2, 0, 0); }
void sync(void) { if (active) call(OP_FSYNC, -1, 2, 0, 0); }
int flock(int fd, int op) { return (int)call(OP_FLOCK, fd, op, 0, 0); }
int dup(int fd) { return active ? (int)call(OP_DUP, fd, -1, 0, 0) : (int)raw6(SYS_dup, fd, 0, 0, 0, 0, 0); }
int dup2(int fd, int to) { return active ? (int)call(OP_DUP, fd, to, 0, 0) : (int)raw6(SYS_dup2, fd, to, 0, 0, 0, 0); }
int dup3(int fd, int to, int f) { return dup2(fd, to); }
int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (!active) { long r = raw6(SYS_fcntl, fd, cmd, a, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
  return (int)call(OP_FCNTL, fd, cmd, a, 0);
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  return fcntl64(fd, cmd, a);
}
int ioctl(int fd, unsigned long r, ...) { if (active) { errno = ENOTTY; return -1; } errno = ENOTTY; return -1; }
int isatty(int fd) { errno = ENOTTY; return 0; }

// ---- metadata ----
static int stat_rpc(int dfd, const char *p, int flags, struct meta *m) {
  if (!p) { errno = EFAULT; return -1; }
  struct req q = {OP_STAT, strlen(p), 0, 0, {dfd, flags, 0, 0}};
  return (int)rpc(&q, p, 0, m, sizeof *m, 0);
}
static void fill(struct stat64 *s, const struct meta *m) {
  memset(s, 0, sizeof *s);
  s->st_dev = 1; s->st_ino = m->ino; s->st_mode = m->mode; s->st_nlink = m->nlink;
  s->st_uid = m->uid; s->st_gid = m->gid; s->st_size = m->size; s->st_blksize = 4096;
  s->st_blocks = (m->size + 511) / 512;
  s->st_mtim.tv_sec = m->mtime / 1000000000; s->st_mtim.tv_nsec = m->mtime % 1000000000;
  s->st_atim = s->st_ctim = s->st_mtim;
}
static int st_impl(int dfd, const char *p, int fl, struct stat64 *s) {
  if (!active) {
    long r = raw6(SYS_newfstatat, dfd, (long)p, (long)s, fl, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return 0;
  }
  struct meta m;
  if (stat_rpc(dfd, p, fl, &m) < 0) return -1;
  fill(s, &m);
  return 0;
}
int stat64(const char *p, struct stat64 *s) { return st_impl(AT_FDCWD, p, 0, s); }
int lstat64(const char *p, struct stat64 *s) { return st_impl(AT_FDCWD, p, AT_SYMLINK_NOFOLLOW, s); }
int fstat64(int fd, struct stat64 *s) { return st_impl(fd, "", AT_EMPTY_PATH, s); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { return st_impl(d, p, f, s); }
int stat(const char *p, struct stat *s) { return st_impl(AT_FDCWD, p, 0, (struct stat64 *)s); }
int lstat(const char *p, struct stat *s) { return st_impl(AT_FDCWD, p, AT_SYMLINK_NOFOLLOW, (struct stat64 *)s); }
int fstat(int fd, struct stat *s) { return st_impl(fd, "", AT_EMPTY_PATH, (struct stat64 *)s); }
int fstatat(int d, const char *p, struct stat *s, int f) { return st_impl(d, p, f, (struct stat64 *)s); }
int statx(int d, const char *p, int fl, unsigned mask, struct statx *s) {
  if (!active) { long r = raw6(SYS_statx, d, (long)p, fl, mask, (long)s, 0); if (r < 0) { errno = -r; return -1; } return 0; }
  struct meta m;
  if (!s) { errno = EFAULT; return -1; }
  if (stat_rpc(d, p, fl, &m) < 0) return -1;
  memset(s, 0, sizeof *s);
  s->stx_mask = STATX_BASIC_STATS | STATX_BTIME; s->stx_blksize = 4096;
  s->stx_nlink = m.nlink; s->stx_uid = m.uid; s->stx_gid = m.gid; s->stx_mode = m.mode;
  s->stx_ino = m.ino; s->stx_size = m.size; s->stx_blocks = (m.size + 511) / 512;
  s->stx_mtime.tv_sec = m.mtime / 1000000000; s->stx_mtime.tv_nsec = m.mtime % 1000000000;
  s->stx_atime = s->stx_ctime = s->stx_btime = s->stx_mtime; s->stx_dev_minor = 1;
  return 0;
}
int mkdirat(int d, const char *p, mode_t m) { return (int)call1(OP_MKDIR, p, d, m, 0); }
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
int rmdir(const char *p) { return (int)call1(OP_RMDIR, p, AT_FDCWD, 0, 0); }
int unlinkat(int d, const char *p, int f) { return (int)call1(f & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, p, d, 0, 0); }
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int remove(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int renameat2(int d1, const char *p, int d2, const char *p2, unsigned f) { return (int)call2(OP_RENAME, p, p2, d1, d2, f); }
int renameat(int d1, const char *p, int d2, const char *p2) { return renameat2(d1, p, d2, p2, 0); }
int rename(const char *p, const char *p2) { return renameat2(AT_FDCWD, p, AT_FDCWD, p2, 0); }
int linkat(int d1, const char *p, int d2, const char *p2, int f) { return (int)call2(OP_LINK, p, p2, d1, d2, f); }
int link(const char *p, const char *p2) { return linkat(AT_FDCWD, p, AT_FDCWD, p2, 0); }
int symlinkat(const char *t, int d, const char *p) { return (int)call2(OP_SYMLINK, t, p, d, 0, 0); }
int symlink(const char *t, const char *p) { return symlinkat(t, AT_FDCWD, p); }
ssize_t readlinkat(int d, const char *p, char *b, size_t n) {
  if (!active) { long r = raw6(SYS_readlinkat, d, (long)p, (long)b, n, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
  struct req q = {OP_READLINK, strlen(p), 0, 0, {d, (int64_t)n, 0, 0}};
  return rpc(&q, p, 0, b, n, 0);
}
ssize_t readlink(const char *p, char *b, size_t n) { return readlinkat(AT_FDCWD, p, b, n); }
char *realpath(const char *p, char *out) {
  if (!active) { errno = ENOENT; return 0; }
  char *b = out ? out : malloc(PATH_MAX);
  if (!b) return 0;
  struct req q = {OP_REALPATH, strlen(p), 0, 0, {0, 0, 0, 0}};
  uint32_t n = 0;
  int64_t r = rpc(&q, p, 0, b, PATH_MAX - 1, &n);
  if (r < 0) { if (!out) { int e = errno; free(b); errno = e; } return 0; }
  b[n] = 0;
  return b;
}
int chmod(const char *p, mode_t m) { return (int)call1(OP_CHMOD, p, AT_FDCWD, m, 0); }
int fchmodat(int d, const char *p, mode_t m, int f) { return (int)call1(OP_CHMOD, p, d, m, 0); }
int fchmod(int fd, mode_t m) { return (int)call(OP_FCHMOD, fd, m, 0, 0); }
int chown(const char *p, uid_t u, gid_t g) { return (int)call1(OP_CHOWN, p, u, g, 0); }
int lchown(const char *p, uid_t u, gid_t g) { return (int)call1(OP_CHOWN, p, u, g, 1); }
int fchownat(int d, const char *p, uid_t u, gid_t g, int f) { return (int)call1(OP_CHOWN, p, u, g, 0); }
int fchown(int fd, uid_t u, gid_t g) { return (int)call(OP_FCHOWN, fd, u, g, 0); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { return (int)call1(OP_UTIMENS, p ? p : "", d, t ? t[1].tv_sec : -1, f); }
int futimens(int fd, const struct timespec t[2]) { return (int)call1(OP_UTIMENS, "", fd, t ? t[1].tv_sec : -1, 0); }
int utimes(const char *p, const struct timeval t[2]) { return (int)call1(OP_UTIMENS, p, AT_FDCWD, t ? t[1].tv_sec : -1, 0); }
int faccessat(int d, const char *p, int m, int f) { return (int)call1(OP_ACCESS, p, d, m, f); }
int access(const char *p, int m) { return faccessat(AT_FDCWD, p, m, 0); }
int eaccess(const char *p, int m) { return access(p, m); }
int euidaccess(const char *p, int m) { return access(p, m); }
char *getcwd(char *b, size_t n) {
  if (!active) return 0;
  if (!b) { if (!n) n = PATH_MAX; b = malloc(n); if (!b) return 0; }
  struct req q = {OP_GETCWD, 0, 0, 0, {0, 0, 0, 0}};
  uint32_t k = 0;
  if (rpc(&q, 0, 0, b, n - 1, &k) < 0) return 0;
  if (k >= n - 1) { errno = ERANGE; return 0; }
  b[k] = 0;
  return b;
}
int chdir(const char *p) { return (int)call1(OP_CHDIR, p, 0, 0, 0); }

// ---- directories ----
struct simdir { int fd; struct dirent64 ent; };
DIR *fdopendir(int fd) {
  struct simdir *d = malloc(sizeof *d);
  if (!d) return 0;
  d->fd = fd;
  return (DIR *)d;
}
DIR *opendir(const char *p) {
  int fd = (int)call1(OP_OPEN, p, AT_FDCWD, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
  if (fd < 0) return 0;
  DIR *d = fdopendir(fd);
  if (!d) close(fd);
  return d;
}
struct dirent64 *readdir64(DIR *dd) {
  struct simdir *d = (struct simdir *)dd;
  struct req q = {OP_READDIR, 0, 0, 0, {d->fd, 0, 0, 0}};
  uint32_t n = 0;
  int64_t r = rpc(&q, 0, 0, d->ent.d_name, sizeof d->ent.d_name - 1, &n);
  if (r <= 0) return 0;             // 0: end (errno untouched), <0: errno set
  d->ent.d_name[n] = 0;
  d->ent.d_ino = (uint64_t)r >> 8;
  d->ent.d_type = r & 255;
  d->ent.d_reclen = sizeof d->ent;
  d->ent.d_off = 0;
  return &d->ent;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *dd) { struct simdir *d = (struct simdir *)dd; int fd = d->fd; free(d); return close(fd); }
int dirfd(DIR *dd) { return ((struct simdir *)dd)->fd; }
void rewinddir(DIR *dd) { call(OP_REWINDDIR, ((struct simdir *)dd)->fd, 0, 0, 0); }

// ---- clock, randomness, identity ----
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!active) return (int)raw6(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
  int64_t v = call(OP_CLOCK, c, 0, 0, 0);
  t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *t, void *z) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *o) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (o) *o = s.tv_sec; return s.tv_sec; }
int nanosleep(const struct timespec *t, struct timespec *r) { return active ? (int)call(OP_SLEEP, t->tv_sec * 1000000000LL + t->tv_nsec, 0, 0, 0) : 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r) { return nanosleep(t, r); }
unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, 0); return 0; }
int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, 0); }
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!active) return raw6(SYS_getrandom, (long)b, n, f, 0, 0, 0);
  if (n > MAXIO) n = MAXIO;
  struct req q = {OP_RANDOM, 0, 0, 0, {(int64_t)n, 0, 0, 0}};
  return rpc(&q, 0, 0, b, n, 0);
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
pid_t getpid(void) { return active ? (pid_t)call(OP_GETPID, 0, 0, 0, 0) : (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0); }
// Whatever the program asks its environment for is decided by the simulator,
// too.  The values live as long as the process.
char *getenv(const char *name) {
  if (!active) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
      if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return 0;
  }
  static struct { char name[64], value[128]; } known[64];
  static int count;
  size_t n = strlen(name);
  if (n >= sizeof known[0].name) return 0;
  for (int i = 0; i < count; i++)
    if (!strcmp(known[i].name, name)) return known[i].value;
  if (count == 64) return 0;
  struct req q = {OP_GETENV, n, 0, 0, {0, 0, 0, 0}};
  uint32_t k = 0;
  int64_t r = rpc(&q, name, 0, known[count].value, sizeof known[0].value - 1, &k);
  if (r <= 0) return 0;
  known[count].value[k] = 0;
  strcpy(known[count].name, name);
  return known[count++].value;
}
uid_t getuid(void) { return active ? (uid_t)call(OP_GETUID, 0, 0, 0, 0) : (uid_t)raw6(SYS_getuid, 0, 0, 0, 0, 0, 0); }
gid_t getgid(void) { return active ? (gid_t)call(OP_GETUID, 0, 0, 0, 0) : (gid_t)raw6(SYS_getgid, 0, 0, 0, 0, 0, 0); }
gid_t getegid(void) { return getgid(); }
uid_t geteuid(void) { return getuid(); }

// ---- what a simulated process may not do ----
pid_t fork(void) { return escape("fork"); }
pid_t vfork(void) { return escape("vfork"); }
int execve(const char *p, char *const a[], char *const e[]) { return escape("execve"); }
int execvp(const char *p, char *const a[]) { return escape("execvp"); }
int posix_spawn(pid_t *pid, const char *p, const void *fa, const void *at, char *const a[], char *const e[]) { escape("posix_spawn"); return ENOSYS; }
int posix_spawnp(pid_t *pid, const char *p, const void *fa, const void *at, char *const a[], char *const e[]) { escape("posix_spawnp"); return ENOSYS; }
int socket(int d, int t, int p) { return escape("socket"); }
int connect(int s, const struct sockaddr *a, socklen_t n) { return escape("connect"); }
int kill(pid_t p, int s) { return escape("kill"); }
int mount(const char *a, const char *b, const char *c, unsigned long d, const void *e) { return escape("mount"); }
int mknod(const char *p, mode_t m, dev_t d) { return escape("mknod"); }
int mkfifo(const char *p, mode_t m) { return escape("mkfifo"); }
int mkfifoat(int d, const char *p, mode_t m) { return escape("mkfifoat"); }
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { if (!active) return -1; errno = EXDEV; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { errno = EINVAL; return -1; }
ssize_t sendfile(int a, int b, off_t *c, size_t d) { errno = EINVAL; return -1; }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = EINVAL; return -1; }

long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (active) switch (n) {
    case SYS_futex: if (gone) break; return sim_futex((uint32_t *)a, b, c, (const struct timespec *)d, (uint32_t *)e);
    case SYS_gettid: return gettid();
    case SYS_sched_yield: return sched_yield();
    case SYS_statx: return statx(a, (char *)b, c, d, (struct statx *)e);
    case SYS_getrandom: return getrandom((void *)a, b, c);
    case SYS_copy_file_range: return copy_file_range(a, (off64_t *)b, c, (off64_t *)d, e, f);
    case SYS_renameat2: return renameat2(a, (char *)b, c, (char *)d, e);
    case SYS_openat: return openat(a, (char *)b, c, d);
    case SYS_faccessat2: return faccessat(a, (char *)b, c, d);
    case SYS_execveat: case SYS_clone: case SYS_openat2: case SYS_open: case SYS_unlink: case SYS_rename:
      return escape("syscall");
  }
  long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}

int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *x) {
  if (!active) return REAL(pthread_create)(t, at, f, x);
  if (call(OP_THREAD, 0, 0, 0, 0) < 0) return errno;
  int i = 1;
  while (i < slots && !(th[i].state == T_FREE || (th[i].state == T_DONE && (th[i].joined || th[i].detached)))) i++;
  if (i == MAXT) return EAGAIN;
  if (!have_end_key) { pthread_key_create(&end_key, thread_ends); have_end_key = 1; }
  if (i == slots) slots++;
  memset(&th[i], 0, sizeof th[i]);
  th[0].state = th[0].state ? th[0].state : T_RUNNABLE;
  th[i].f = f; th[i].x = x; th[i].state = T_RUNNABLE;
  if (at) {
    int ds = 0;
    pthread_attr_getdetachstate(at, &ds);
    th[i].detached = ds == PTHREAD_CREATE_DETACHED;
  }
  live++;
  int r = REAL(pthread_create)(t, at, thread_starts, (void *)(long)i);
  if (r) { th[i].state = T_FREE; live--; }
  else th[i].id = *t;
  return r;
}
static int slot_of(pthread_t t) {
  for (int i = 1; i < slots; i++)
    if (th[i].state != T_FREE && !th[i].joined && !th[i].detached && th[i].id == t) return i;
  return -1;
}
int pthread_join(pthread_t t, void **ret) {
  int i = active && !gone ? slot_of(t) : -1;
  if (i > 0) {
    while (th[i].state != T_DONE) {
      th[self].state = T_JOIN;
      th[self].target = i;
      yield_turn();
    }
    th[i].joined = 1;
  }
  return REAL(pthread_join)(t, ret);
}
int pthread_detach(pthread_t t) {
  int i = active && !gone ? slot_of(t) : -1;
  if (i > 0) th[i].detached = 1;
  return REAL(pthread_detach)(t);
}
int sched_yield(void) {
  // give every other thread a chance: a thread that spins must not keep the baton
  if (threaded()) yield_to(self);
  return 0;
}
pid_t gettid(void) {
  static pid_t pid = 0;
  if (!active) return (pid_t)raw6(SYS_gettid, 0, 0, 0, 0, 0, 0);
  if (!pid) pid = (pid_t)call(OP_GETPID, 0, 0, 0, 0);
  return pid + self;
}
static int ncpu(void) {
  static int n = 0;
  if (!n) n = (int)call(OP_NCPU, 0, 0, 0, 0);
  return n > 0 ? n : 1;
}
int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set) {
  if (!active) { long r = raw6(SYS_sched_getaffinity, pid, size, (long)set, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }
  memset(set, 0, size);
  for (int i = 0, n = ncpu(); i < n; i++) CPU_SET_S(i, size, set);
  return 0;
}
long sysconf(int name) {
  if (active && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return ncpu();
  return REAL(sysconf)(name);
}
int get_nprocs(void) { return active ? ncpu() : 1; }

// ---- allocation failures ----
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static inline int alloc_fails(void) { return alloc_countdown && --alloc_countdown == 0; }
void *malloc(size_t n) { if (alloc_fails()) { errno = ENOMEM; return 0; } return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (alloc_fails()) { errno = ENOMEM; return 0; } return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (alloc_fails()) { errno = ENOMEM; return 0; } return __libc_realloc(p, n); }

// ---- fork server ----
struct ctl { uint32_t cmd, argc, len; uint32_t cpu; int64_t alloc_fail; uint64_t pid; };
struct ctlrep { int64_t v; };
static char cbuf[1 << 17];
static int (*real_main)(int, char **, char **);

static int server_main(int argc, char **argv, char **envp) {
  const char *s = getenv("MOSIM_CTL");
  if (!s) return real_main(argc, argv, envp);
  int cfd = atoi(s);
  unsetenv("MOSIM_CTL");
  unsetenv("LD_PRELOAD");
  struct ctlrep hello = {0x6d6f73696d};
  raw6(SYS_write, cfd, (long)&hello, sizeof hello, 0, 0, 0);
  for (;;) {
    struct ctl c;
    struct iovec iov[2] = {{&c, sizeof c}, {cbuf, sizeof cbuf}};
    union { char b[CMSG_SPACE(sizeof(int))]; struct cmsghdr h; } cm;
    struct msghdr m;
    memset(&m, 0, sizeof m);
    m.msg_iov = iov; m.msg_iovlen = 2; m.msg_control = &cm; m.msg_controllen = sizeof cm;
    long r;
    do r = raw6(SYS_recvmsg, cfd, (long)&m, 0, 0, 0, 0); while (r == -EINTR);
    if (r < (long)sizeof c) raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    struct ctlrep rep = {0};
    if (c.cmd == 1) {
      int fd = -1;
      struct cmsghdr *h = CMSG_FIRSTHDR(&m);
      if (h) memcpy(&fd, CMSG_DATA(h), sizeof fd);
      __typeof__(&fork) rfork = REAL(fork);
      pid_t pid = rfork();
      if (pid == 0) {
        raw6(SYS_dup2, fd, RPC_FD, 0, 0, 0, 0);
        raw6(SYS_close, fd, 0, 0, 0, 0, 0);
        raw6(SYS_close, cfd, 0, 0, 0, 0, 0);
        struct rlimit rl = {c.cpu, c.cpu + 1};
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit ra = {3ULL << 30, 3ULL << 30};
        setrlimit(RLIMIT_AS, &ra);
        struct rlimit rc = {0, 0};
        setrlimit(RLIMIT_CORE, &rc);
        char **nargv = __libc_calloc(c.argc + 1, sizeof *nargv);
        char *p = cbuf;
        for (uint32_t i = 0; i < c.argc; i++) { nargv[i] = p; p += strlen(p) + 1; }
        active = 1;
        alloc_countdown = c.alloc_fail;
        int rc2 = real_main(c.argc, nargv, envp);
        exit(rc2);
      }
      raw6(SYS_close, fd, 0, 0, 0, 0, 0);
      rep.v = pid;
    } else if (c.cmd == 2) {
      int st = 0;
      long k;
      do k = raw6(SYS_wait4, c.pid, (long)&st, 0, 0, 0, 0); while (k == -EINTR);
      rep.v = k < 0 ? -1 : st;
    } else if (c.cmd == 3) {
      raw6(SYS_kill, c.pid, SIGKILL, 0, 0, 0, 0);
    }
    raw6(SYS_write, cfd, (long)&rep, sizeof rep, 0, 0, 0);
  }
}
int __libc_start_main(int (*m)(int, char **, char **), int argc, char **argv, void (*init)(void), void (*fini)(void), void (*rtld_fini)(void), void *stack_end) {
  __typeof__(&__libc_start_main) real = REAL(__libc_start_main);
  real_main = m;
  return real(server_main, argc, argv, init, fini, rtld_fini, stack_end);
}
