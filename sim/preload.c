/* libsim.so: the seam between the unmodified mutagenyx binary and the simulator.
 *
 * Loaded with LD_PRELOAD.  __libc_start_main turns the process into a fork server; each
 * simulated instance is a fork of it that runs the real main() with the argv, environment,
 * working directory, clock, hash seed, pid, terminal and fault plan found in its shared-memory
 * slot.  Every path is rewritten below the slot's scratch root, so nothing the tool does can
 * reach a real file.  Operations are numbered; the slot's budget says after how many operations
 * the instance parks and lets the simulator run something else. */
#define _GNU_SOURCE
#include "simshm.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/signalfd.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static struct shm *S;
static struct slot *I; /* this instance's slot; NULL in the server */
static int slotno, evfd = -1, cmdfd = -1, resfd[NSLOT];
static char vcwd[2048];

#define REAL(name, ret, ...) static ret (*r_##name)(__VA_ARGS__)
#define INIT(name) do { if (!r_##name) r_##name = dlsym(RTLD_NEXT, #name); } while (0)

/* ---------------------------------------------------------------- raw helpers */
static long rs6(long n, long a, long b, long c, long d, long e, long f) {
  long ret; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
#define RS_(n, a, b, c, d, e, f, ...) rs6((long)(n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
#define rs(...) RS_(__VA_ARGS__, 0, 0, 0, 0, 0, 0, 0)
static void die_now(void) { rs(SYS_kill, rs(SYS_getpid), SIGKILL, 0, 0, 0, 0); for (;;) rs(SYS_pause, 0,0,0,0,0,0); }
static long fail(long neg) { errno = (int)-neg; return -1; }

static void send_msg(uint32_t kind, uint32_t slot, int32_t val) {
  struct msg m = { kind, slot, val, 0 };
  while (rs(SYS_write, (long)evfd, (long)&m, sizeof m, 0, 0, 0) == -EINTR) ;
}
static void rpc(uint32_t op) {
  I->rpc_op = op;
  __sync_synchronize();
  send_msg(M_REQ, slotno, op);
  char c; long k;
  do k = rs(SYS_read, (long)resfd[slotno], (long)&c, 1, 0, 0, 0); while (k == -EINTR);
  if (k != 1) die_now();
  __sync_synchronize();
}
static void harness_error(const char *why) {
  snprintf(I->rpc_buf, BUFSZ, "%s", why); I->rpc_len = strlen(I->rpc_buf);
  rpc(R_HARNESS_ERROR); die_now();
}

/* ---------------------------------------------------------------- fd table */
enum kind { K_NONE, K_FILE, K_STDOUT, K_STDERR, K_VR, K_VW, K_DIR, K_OTHER };
struct fdent { uint8_t kind, nonblock, wrote; int32_t vp; char *path; uint32_t last; };
#define NFD 1024
static struct fdent T[NFD];
static struct fdent *ent(int fd) { return fd >= 0 && fd < NFD ? &T[fd] : &T[NFD - 1]; }
static void setent(int fd, int kind, const char *path, int vp) {
  if (fd < 0 || fd >= NFD) { harness_error("file descriptor out of range"); return; }
  struct fdent *e = &T[fd]; e->kind = kind; e->nonblock = 0; e->wrote = 0; e->vp = vp; e->last = 0;
  e->path = path ? strdup(path) : NULL;
}

/* ---------------------------------------------------------------- paths */
static int normalise(const char *base, const char *p, char *out, size_t n) {
  char tmp[4096];
  if (p[0] == '/') { if (snprintf(tmp, sizeof tmp, "%s", p) >= (int)sizeof tmp) return -ENAMETOOLONG; }
  else if (snprintf(tmp, sizeof tmp, "%s/%s", base, p) >= (int)sizeof tmp) return -ENAMETOOLONG;
  size_t o = 0; out[0] = 0; char *save, *t;
  for (t = strtok_r(tmp, "/", &save); t; t = strtok_r(NULL, "/", &save)) {
    if (!strcmp(t, ".")) continue;
    if (!strcmp(t, "..")) { while (o > 0 && out[o - 1] != '/') o--; if (o > 0) o--; out[o] = 0; continue; }
    size_t l = strlen(t); if (l > 255) return -ENAMETOOLONG; if (o + l + 2 > n) return -ENAMETOOLONG;
    out[o++] = '/'; memcpy(out + o, t, l); o += l; out[o] = 0;
  }
  if (o == 0) { out[0] = '/'; out[1] = 0; }
  return 0;
}
/* virtual path (normalised) and real path of a caller's path */
static int xlat(int dirfd, const char *p, char *v, char *r) {
  if (!p) return -EFAULT;
  if (!*p) return -ENOENT;
  const char *base = vcwd;
  if (p[0] != '/' && dirfd != AT_FDCWD) { struct fdent *e = ent(dirfd); if (e->kind == K_NONE || !e->path) return -EBADF; base = e->path; }
  int k = normalise(base, p, v, 2048); if (k) return k;
  if (!strcmp(v, "/dev/null")) { strcpy(r, v); return 0; }
  if (snprintf(r, 4096, "%s%s", I->root, v) >= 4096) return -ENAMETOOLONG;
  return 0;
}

/* ---------------------------------------------------------------- log */
static struct logrec *lastrec; static uint32_t lastrec_fd = ~0u;
static uint64_t fnv(uint64_t h, const void *p, size_t n) { const unsigned char *c = p; if (!h) h = 1469598103934665603ull; while (n--) { h ^= *c++; h *= 1099511628211ull; } return h; }
static void logop(uint32_t op, long ret, const char *p1, const char *p2, uint64_t bytes, const void *data, uint32_t fault, int fd) {
  uint64_t seq = S->gseq;
  if (lastrec && fd >= 0 && lastrec_fd == (uint32_t)fd && lastrec->op == op && lastrec->lastseq + 1 == seq && !fault && !lastrec->fault && ret >= 0 && lastrec->ret >= 0) {
    lastrec->lastseq = seq; lastrec->n++; lastrec->bytes += bytes; if (data) lastrec->hash = fnv(lastrec->hash, data, bytes); return;
  }
  size_t l1 = p1 ? strlen(p1) : 0, l2 = p2 ? strlen(p2) : 0, need = sizeof(struct logrec) + l1 + l2; need = (need + 7) & ~7ul;
  if (I->log_len + need > LOGSZ) { I->log_overflow = 1; lastrec = NULL; return; }
  struct logrec *r = (void *)(I->log + I->log_len);
  r->seq = r->lastseq = seq; r->op = op; r->ret = (int32_t)ret; r->n = 1; r->bytes = bytes; r->hash = data ? fnv(0, data, bytes) : 0; r->fault = fault; r->l1 = l1; r->l2 = l2;
  memset((char *)(r + 1), 0, need - sizeof *r);
  if (l1) memcpy((char *)(r + 1), p1, l1);
  if (l2) memcpy((char *)(r + 1) + l1, p2, l2);
  I->log_len += need; lastrec = r; lastrec_fd = fd >= 0 ? (uint32_t)fd : ~0u;
}

/* ---------------------------------------------------------------- the operation gate
 * returns 0: proceed; <0: fail with -errno; >0: perform at most that many bytes minus one.
 * *fa receives the index+1 of the fault that fired. */
static int crash_after_pending; static long torn_pending = -1;
static long gate(uint32_t cls, uint32_t *fa) {
  *fa = 0;
  if (I->budget == 0) rpc(R_PARK);
  if (I->budget != ~0ull) I->budget--;
  S->gseq++;
  if (++I->total_ops > I->max_ops) { I->limit_hit = 1; die_now(); }
  /* the CPU limit is for work without any operation; the operations have a limit of their own */
  if ((I->total_ops & 1023) == 0) { struct itimerval it = { { 0, 0 }, { I->cpu_secs, 0 } }; setitimer(ITIMER_VIRTUAL, &it, NULL); }
  uint32_t nc = I->opcount[cls]++, na = I->opcount[C_ANY]++;
  long out = 0;
  for (uint32_t i = 0; i < I->nfaults; i++) {
    struct fault *f = &I->faults[i];
    if (f->action == A_CLOCKJUMP) continue;
    uint32_t cnt; if (f->cls == cls) cnt = nc; else if (f->cls == C_ANY) cnt = na; else continue;
    int hit = f->action == A_ERR_STICKY ? cnt >= f->nth : cnt == f->nth;
    if (!hit) continue;
    if (f->action == A_SHORT && cls != C_READ && cls != C_WRITE && cls != C_STDOUT && cls != C_STDERR && cls != C_PREAD) continue;
    if (f->action == A_TORN && cls != C_WRITE && cls != C_STDOUT) { f->fired++; *fa = i + 1; die_now(); }
    f->fired++; *fa = i + 1;
    switch (f->action) {
      case A_ERR: case A_ERR_STICKY: out = -f->arg; break;
      case A_SHORT: out = f->arg + 1; break;
      case A_CRASH_BEFORE: die_now(); break;
      case A_CRASH_AFTER: crash_after_pending = 1; break;
      case A_TORN: torn_pending = f->arg; break;
    }
    if (out < 0) break;
  }
  return out;
}
static void after(void) { if (crash_after_pending) die_now(); }

/* ---------------------------------------------------------------- open and friends */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char v[2048], r[4096]; int k = xlat(dirfd, path, v, r);
  uint32_t fa; int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  uint32_t cls = wr ? C_OPENW : C_OPENR;
  long g = gate(cls, &fa);
  if (k == 0 && g < 0) { logop(cls, g, v, NULL, flags, NULL, fa, -1); return fail(g); }
  if (k) { logop(cls, k, path, NULL, flags, NULL, 0, -1); return fail(k); }
  long fd = rs(SYS_openat, (long)AT_FDCWD, (long)r, (long)(flags | O_CLOEXEC), (long)mode, 0, 0);
  logop(cls, fd < 0 ? fd : 0, v, NULL, flags, NULL, fa, -1);
  after();
  if (fd < 0) return fail(fd);
  setent(fd, (flags & O_DIRECTORY) ? K_DIR : K_FILE, v, -1);
  if (flags & O_TRUNC) ent(fd)->wrote = 1;
  return fd;
}
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
  if (!I) { long k = rs(SYS_openat, (long)AT_FDCWD, (long)p, (long)fl, (long)m, 0, 0); return k < 0 ? fail(k) : k; } return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); return open(p, fl, m); }
int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
  if (!I) { long k = rs(SYS_openat, (long)d, (long)p, (long)fl, (long)m, 0, 0); return k < 0 ? fail(k) : k; } return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); return openat(d, p, fl, m); }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static void stamp(int fd) { struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = I->clock_ns / 1000000000; long ns = I->clock_ns % 1000000000; if (ns < 0) { ns += 1000000000; ts[0].tv_sec--; ts[1].tv_sec--; } ts[0].tv_nsec = ts[1].tv_nsec = ns; rs(SYS_utimensat, (long)fd, 0, (long)ts, 0, 0, 0); }
int close(int fd) {
  if (I) { struct fdent *e = ent(fd); if (e->kind == K_FILE && e->wrote) stamp(fd); if (e->kind != K_NONE) { free(e->path); e->path = NULL; e->kind = K_NONE; } if (lastrec_fd == (uint32_t)fd) lastrec = NULL; }
  long k = rs(SYS_close, (long)fd, 0, 0, 0, 0, 0); return k < 0 ? fail(k) : k;
}

/* ---------------------------------------------------------------- read / write */
static long vread(struct fdent *e, void *buf, size_t n, long g) {
  if (g > 0 && n > (size_t)(g - 1) && g > 1) n = g - 1;
  if (n > BUFSZ) n = BUFSZ;
  I->rpc_a[0] = e->vp; I->rpc_a[1] = (long)n; I->rpc_a[2] = e->nonblock;
  rpc(R_PREAD);
  if (I->rpc_ret < 0) return -I->rpc_errno;
  memcpy(buf, I->rpc_buf, I->rpc_ret); return I->rpc_ret;
}
static ssize_t do_read(int fd, void *buf, size_t n) {
  struct fdent *e = ent(fd); uint32_t fa; uint32_t cls = (e->kind == K_VR) ? C_PREAD : C_READ;
  if (e->kind == K_NONE) { long k = rs(SYS_read, (long)fd, (long)buf, (long)n, 0, 0, 0); return k < 0 ? fail(k) : k; }
  long g = gate(cls, &fa);
  if (g < 0) { logop(cls, g, e->path, NULL, 0, NULL, fa, -1); return fail(g); }
  long k;
  if (e->kind == K_VR) k = vread(e, buf, n, g);
  else { if (g > 1 && n > (size_t)(g - 1)) n = g - 1; k = rs(SYS_read, (long)fd, (long)buf, (long)n, 0, 0, 0); }
  logop(cls, k < 0 ? k : 0, e->path, NULL, k > 0 ? k : 0, k > 0 ? buf : NULL, fa, fd);
  after();
  return k < 0 ? fail(k) : k;
}
static ssize_t do_write(int fd, const void *buf, size_t n) {
  struct fdent *e = ent(fd); uint32_t fa;
  if (e->kind == K_NONE) { long k = rs(SYS_write, (long)fd, (long)buf, (long)n, 0, 0, 0); return k < 0 ? fail(k) : k; }
  uint32_t cls = e->kind == K_STDOUT ? C_STDOUT : e->kind == K_STDERR ? C_STDERR : C_WRITE;
  long g = gate(cls, &fa);
  if (g < 0) { logop(cls, g, e->path, NULL, 0, NULL, fa, -1); return fail(g); }
  if (e->kind == K_VW) { logop(cls, 0, "vpipe", NULL, n, buf, fa, -1); after(); return n; }
  if (g > 1 && n > (size_t)(g - 1)) n = g - 1;
  if (torn_pending >= 0) { size_t m = (size_t)torn_pending < n ? (size_t)torn_pending : n; rs(SYS_write, (long)fd, (long)buf, (long)m, 0, 0, 0); logop(cls, 0, e->path, NULL, m, buf, fa, -1); die_now(); }
  if (cls == C_WRITE && I->disk_left != ~0ull && strcmp(e->path, "/dev/null")) {
    if (n > 0 && I->disk_left == 0) { logop(cls, -ENOSPC, e->path, NULL, 0, NULL, 0xffff, -1); return fail(-ENOSPC); }
    if (n > I->disk_left) n = I->disk_left;
    I->disk_left -= n;
  }
  e->wrote = 1;
  long k = rs(SYS_write, (long)fd, (long)buf, (long)n, 0, 0, 0);
  logop(cls, k < 0 ? k : 0, e->path, NULL, k > 0 ? k : 0, k > 0 ? buf : NULL, fa, fd);
  after();
  return k < 0 ? fail(k) : k;
}
ssize_t read(int fd, void *b, size_t n) { if (!I) { long k = rs(SYS_read, (long)fd, (long)b, (long)n, 0, 0, 0); return k < 0 ? fail(k) : k; } return do_read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (!I) { long k = rs(SYS_write, (long)fd, (long)b, (long)n, 0, 0, 0); return k < 0 ? fail(k) : k; } return do_write(fd, b, n); }
ssize_t readv(int fd, const struct iovec *v, int c) { for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len); return read(fd, NULL, 0); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!I) { long k = rs(SYS_writev, (long)fd, (long)v, (long)c, 0, 0, 0); return k < 0 ? fail(k) : k; }
  size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
  char *b = malloc(n + 1); size_t o = 0; for (int i = 0; i < c; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
  ssize_t k = do_write(fd, b, n); int e = errno; free(b); errno = e; return k;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { if (I) { uint32_t fa; long g = gate(C_READ, &fa); logop(C_READ, g < 0 ? g : 0, ent(fd)->path, NULL, 0, NULL, fa, -1); if (g < 0) return fail(g); if (g > 1 && n > (size_t)(g - 1)) n = g - 1; } long k = rs(SYS_pread64, (long)fd, (long)b, (long)n, (long)o, 0, 0); return k < 0 ? fail(k) : k; }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { if (I) { uint32_t fa; long g = gate(C_WRITE, &fa); logop(C_WRITE, g < 0 ? g : 0, ent(fd)->path, NULL, n, b, fa, -1); if (g < 0) return fail(g); ent(fd)->wrote = 1; } long k = rs(SYS_pwrite64, (long)fd, (long)b, (long)n, (long)o, 0, 0); return k < 0 ? fail(k) : k; }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
static int misc_fd(int fd, const char *what, long k) { (void)what; (void)fd; return k < 0 ? (int)fail(k) : (int)k; }
#define MISCGATE(fd, what) do { if (I && ent(fd)->kind != K_NONE) { uint32_t fa; long g = gate(C_MISC, &fa); logop(C_MISC, g < 0 ? g : 0, ent(fd)->path, what, 0, NULL, fa, -1); if (g < 0) return fail(g); after(); } } while (0)
int fsync(int fd) { MISCGATE(fd, "fsync"); return misc_fd(fd, "", I ? 0 : rs(SYS_fsync, (long)fd, 0, 0, 0, 0, 0)); }
int fdatasync(int fd) { MISCGATE(fd, "fdatasync"); return 0; }
int ftruncate64(int fd, off64_t l) { MISCGATE(fd, "ftruncate"); if (I) ent(fd)->wrote = 1; return misc_fd(fd, "", rs(SYS_ftruncate, (long)fd, (long)l, 0, 0, 0, 0)); }
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
int fchmod(int fd, mode_t m) { MISCGATE(fd, "fchmod"); return misc_fd(fd, "", rs(SYS_fchmod, (long)fd, (long)m, 0, 0, 0, 0)); }
int flock(int fd, int op) { MISCGATE(fd, "flock"); return misc_fd(fd, "", rs(SYS_flock, (long)fd, (long)op, 0, 0, 0, 0)); }
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = ENOSYS; return -1; }
ssize_t sendfile(int a, int b, off_t *c, size_t d) { (void)a; (void)b; (void)c; (void)d; errno = EINVAL; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { (void)a; (void)b; (void)c; (void)d; errno = EINVAL; return -1; }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = EINVAL; return -1; }

/* ---------------------------------------------------------------- path operations */
#define PATHOP(cls, dirfd, path, what, expr) \
  char v[2048], r[4096]; int k0 = xlat(dirfd, path, v, r); uint32_t fa; long g = gate(cls, &fa); \
  if (k0) { logop(cls, k0, path, what, 0, NULL, 0, -1); return fail(k0); } \
  if (g < 0) { logop(cls, g, v, what, 0, NULL, fa, -1); return fail(g); } \
  long k = (expr); logop(cls, k, v, what, 0, NULL, fa, -1); after(); \
  if (k < 0) return fail(k);
#define RAW(n, a, b, c, d, e) rs(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), 0L)

static uint64_t phash(const char *p) { return fnv(0, p, strlen(p)); }
static void fixstat(struct stat *st, const char *v) { st->st_ino = phash(v) | 1; st->st_dev = 1; st->st_ctim = st->st_mtim; st->st_atim = st->st_mtim; }
int stat(const char *p, struct stat *st) { if (!I) { long k = RAW(SYS_newfstatat, AT_FDCWD, p, st, 0, 0); return k < 0 ? fail(k) : k; } PATHOP(C_STAT, AT_FDCWD, p, NULL, RAW(SYS_newfstatat, AT_FDCWD, r, st, 0, 0)); fixstat(st, v); return 0; }
int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st) { if (!I) { long k = RAW(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW, 0); return k < 0 ? fail(k) : k; } PATHOP(C_STAT, AT_FDCWD, p, NULL, RAW(SYS_newfstatat, AT_FDCWD, r, st, AT_SYMLINK_NOFOLLOW, 0)); fixstat(st, v); return 0; }
int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
int fstat(int fd, struct stat *st) { long k = RAW(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH, 0); if (k < 0) return fail(k); if (I && ent(fd)->path) fixstat(st, ent(fd)->path); return 0; }
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int fstatat(int d, const char *p, struct stat *st, int fl) { if (!I || (fl & AT_EMPTY_PATH && !*p)) { long k = RAW(SYS_newfstatat, d, p, st, fl, 0); return k < 0 ? fail(k) : k; } PATHOP(C_STAT, d, p, NULL, RAW(SYS_newfstatat, AT_FDCWD, r, st, fl, 0)); fixstat(st, v); return 0; }
int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return fstatat(d, p, (struct stat *)st, fl); }
int statx(int d, const char *p, int fl, unsigned m, struct statx *sx) {
  if (!I) { long k = RAW(SYS_statx, d, p, fl, m, sx); return k < 0 ? fail(k) : k; }
  if (!p) { errno = EFAULT; return -1; } /* std's availability probe */
  if ((fl & AT_EMPTY_PATH) && !*p) { long k = RAW(SYS_statx, d, p, fl, m, sx); if (k < 0) return fail(k); sx->stx_ctime = sx->stx_btime = sx->stx_atime = sx->stx_mtime; sx->stx_ino = ent(d)->path ? phash(ent(d)->path) | 1 : 1; return 0; }
  PATHOP(C_STAT, d, p, NULL, RAW(SYS_statx, AT_FDCWD, r, fl, m, sx)); sx->stx_ctime = sx->stx_btime = sx->stx_atime = sx->stx_mtime; sx->stx_ino = phash(v) | 1; return 0;
}
int access(const char *p, int m) { if (!I) { long k = RAW(SYS_faccessat, AT_FDCWD, p, m, 0, 0); return k < 0 ? fail(k) : k; } PATHOP(C_STAT, AT_FDCWD, p, "access", RAW(SYS_faccessat, AT_FDCWD, r, m, 0, 0)); return 0; }
int faccessat(int d, const char *p, int m, int fl) { (void)fl; PATHOP(C_STAT, d, p, "access", RAW(SYS_faccessat, AT_FDCWD, r, m, 0, 0)); return 0; }
int mkdir(const char *p, mode_t m) { if (!I) { long k = RAW(SYS_mkdirat, AT_FDCWD, p, m, 0, 0); return k < 0 ? fail(k) : k; } PATHOP(C_MKDIR, AT_FDCWD, p, NULL, RAW(SYS_mkdirat, AT_FDCWD, r, m, 0, 0)); return 0; }
int mkdirat(int d, const char *p, mode_t m) { PATHOP(C_MKDIR, d, p, NULL, RAW(SYS_mkdirat, AT_FDCWD, r, m, 0, 0)); return 0; }
int unlink(const char *p) { if (!I) { long k = RAW(SYS_unlinkat, AT_FDCWD, p, 0, 0, 0); return k < 0 ? fail(k) : k; } PATHOP(C_UNLINK, AT_FDCWD, p, NULL, RAW(SYS_unlinkat, AT_FDCWD, r, 0, 0, 0)); return 0; }
int unlinkat(int d, const char *p, int fl) { PATHOP((fl & AT_REMOVEDIR) ? C_RMDIR : C_UNLINK, d, p, NULL, RAW(SYS_unlinkat, AT_FDCWD, r, fl, 0, 0)); return 0; }
int rmdir(const char *p) { PATHOP(C_RMDIR, AT_FDCWD, p, NULL, RAW(SYS_unlinkat, AT_FDCWD, r, AT_REMOVEDIR, 0, 0)); return 0; }
int renameat(int d1, const char *a, int d2, const char *b) { char v2[2048], r2[4096]; int k2 = xlat(d2, b, v2, r2); if (k2) return fail(k2); PATHOP(C_RENAME, d1, a, v2, RAW(SYS_renameat2, AT_FDCWD, r, AT_FDCWD, r2, 0)); return 0; }
int rename(const char *a, const char *b) { return renameat(AT_FDCWD, a, AT_FDCWD, b); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) { (void)fl; return renameat(d1, a, d2, b); }
int linkat(int d1, const char *a, int d2, const char *b, int fl) { char v2[2048], r2[4096]; int k2 = xlat(d2, b, v2, r2); if (k2) return fail(k2); PATHOP(C_RENAME, d1, a, v2, RAW(SYS_linkat, AT_FDCWD, r, AT_FDCWD, r2, fl)); return 0; }
int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
int symlink(const char *t, const char *p) { if (t[0] == '/') { errno = EPERM; return -1; } PATHOP(C_RENAME, AT_FDCWD, p, t, RAW(SYS_symlinkat, t, AT_FDCWD, r, 0, 0)); return 0; }
int symlinkat(const char *t, int d, const char *p) { (void)d; return symlink(t, p); }
int chmod(const char *p, mode_t m) { PATHOP(C_MISC, AT_FDCWD, p, "chmod", RAW(SYS_fchmodat, AT_FDCWD, r, m, 0, 0)); return 0; }
int truncate64(const char *p, off64_t l) { PATHOP(C_OPENW, AT_FDCWD, p, "truncate", RAW(SYS_truncate, r, l, 0, 0, 0)); return 0; }
int truncate(const char *p, off_t l) { return truncate64(p, l); }
int utimensat(int d, const char *p, const struct timespec ts[2], int fl) { if (!p) { long k = RAW(SYS_utimensat, d, 0, ts, fl, 0); return k < 0 ? fail(k) : k; } PATHOP(C_MISC, d, p, "utimensat", RAW(SYS_utimensat, AT_FDCWD, r, ts, fl, 0)); return 0; }
ssize_t readlink(const char *p, char *b, size_t n) { if (!I || !strncmp(p, "/proc/", 6)) { long k = RAW(SYS_readlinkat, AT_FDCWD, p, b, n, 0); return k < 0 ? fail(k) : k; } PATHOP(C_STAT, AT_FDCWD, p, "readlink", RAW(SYS_readlinkat, AT_FDCWD, r, b, n, 0)); return k; }
char *realpath(const char *p, char *out) {
  if (!I) { static char *(*rr)(const char *, char *); if (!rr) rr = dlsym(RTLD_NEXT, "realpath"); return rr(p, out); }
  char v[2048], r[4096]; int k = xlat(AT_FDCWD, p, v, r); uint32_t fa; long g = gate(C_STAT, &fa); struct stat st;
  long s = k ? k : g < 0 ? g : RAW(SYS_newfstatat, AT_FDCWD, r, &st, 0, 0);
  logop(C_STAT, s, k ? p : v, "realpath", 0, NULL, fa, -1);
  if (s < 0) { errno = -s; return NULL; }
  if (!out) out = malloc(4096);
  /* follow symbolic links inside the simulated tree */
  char pr[64], t[4200]; long fd = RAW(SYS_openat, AT_FDCWD, r, O_PATH | O_CLOEXEC, 0, 0);
  if (fd >= 0) {
    snprintf(pr, sizeof pr, "/proc/self/fd/%ld", fd); long l = RAW(SYS_readlinkat, AT_FDCWD, pr, t, sizeof t - 1, 0); RAW(SYS_close, fd, 0, 0, 0, 0);
    size_t rl = strlen(I->root);
    if (l > 0) { t[l] = 0; if (!strncmp(t, I->root, rl) && (t[rl] == '/' || !t[rl])) { snprintf(v, sizeof v, "%s", t[rl] ? t + rl : "/"); } }
  }
  strcpy(out, v); return out;
}
char *getcwd(char *b, size_t n) { if (!I) { static char *(*rr)(char *, size_t); if (!rr) rr = dlsym(RTLD_NEXT, "getcwd"); return rr(b, n); } if (!b) return strdup(vcwd); if (strlen(vcwd) + 1 > n) { errno = ERANGE; return NULL; } return strcpy(b, vcwd); }
int chdir(const char *p) { char v[2048], r[4096]; int k = xlat(AT_FDCWD, p, v, r); if (k) return fail(k); struct stat st; long s = RAW(SYS_newfstatat, AT_FDCWD, r, &st, 0, 0); if (s < 0) return fail(s); strcpy(vcwd, v); return 0; }
DIR *opendir(const char *p) { int fd = open(p, O_RDONLY | O_DIRECTORY | O_CLOEXEC); if (fd < 0) return NULL; return fdopendir(fd); }

/* ---------------------------------------------------------------- descriptors */
static int dupent(int old, int nw) { if (nw >= 0) { struct fdent e = *ent(old); setent(nw, e.kind, e.path, e.vp); } return nw; }
int dup(int fd) { long k = RAW(SYS_dup, fd, 0, 0, 0, 0); if (k < 0) return fail(k); return I ? dupent(fd, k) : k; }
int dup2(int a, int b) { long k = RAW(SYS_dup2, a, b, 0, 0, 0); if (k < 0) return fail(k); return I && a != b ? dupent(a, k) : k; }
int dup3(int a, int b, int f) { long k = RAW(SYS_dup3, a, b, f, 0, 0); if (k < 0) return fail(k); return I ? dupent(a, k) : k; }
static int do_fcntl(int fd, int cmd, long arg) {
  if (I && cmd == F_SETFL && ent(fd)->kind == K_VR) { ent(fd)->nonblock = !!(arg & O_NONBLOCK); return 0; }
  long k = RAW(SYS_fcntl, fd, cmd, arg, 0, 0); if (k < 0) return fail(k);
  if (I && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) dupent(fd, k);
  return k;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int isatty(int fd) { if (I) { if (fd == 1 && I->stdout_tty) return 1; errno = ENOTTY; return 0; } struct { char c[64]; } t; return RAW(SYS_ioctl, fd, TCGETS, &t, 0, 0) == 0; }
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap);
  if (I) {
    if (req == FIONBIO && ent(fd)->kind == K_VR) { ent(fd)->nonblock = !!*(int *)a; return 0; }
    if (req == TIOCGWINSZ) { if (fd <= 2 && I->stdout_tty) { struct winsize *w = a; memset(w, 0, sizeof *w); w->ws_col = I->tty_cols; w->ws_row = 24; return 0; } errno = ENOTTY; return -1; }
  }
  long k = RAW(SYS_ioctl, fd, req, a, 0, 0); return k < 0 ? fail(k) : k;
}
int pipe2(int f[2], int fl) {
  if (!I) { long k = RAW(SYS_pipe2, f, fl, 0, 0, 0); return k < 0 ? fail(k) : k; }
  uint32_t fa; long g = gate(C_MISC, &fa); logop(C_MISC, g < 0 ? g : 0, "pipe", NULL, 0, NULL, fa, -1); if (g < 0) return fail(g);
  int vp = I->vpipes++;
  long a = RAW(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0, 0), b = RAW(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0, 0);
  if (a < 0 || b < 0) return fail(-EMFILE);
  setent(a, K_VR, "pipe", vp); setent(b, K_VW, "pipe", vp); if (fl & O_NONBLOCK) ent(a)->nonblock = 1;
  f[0] = a; f[1] = b; after(); return 0;
}
int pipe(int f[2]) { return pipe2(f, 0); }
int poll(struct pollfd *p, nfds_t n, int to) {
  int any = 0; if (I) for (nfds_t i = 0; i < n; i++) if (ent(p[i].fd)->kind == K_VR) any = 1;
  if (!any) { if (!I) { long k = RAW(SYS_poll, p, n, to, 0, 0); return k < 0 ? fail(k) : k; } for (nfds_t i = 0; i < n; i++) p[i].revents = 0; return 0; }
  uint32_t fa; long g = gate(C_POLL, &fa); logop(C_POLL, g < 0 ? g : 0, NULL, NULL, 0, NULL, fa, -1); if (g < 0) return fail(g);
  int64_t *l = (void *)I->rpc_buf; for (nfds_t i = 0; i < n; i++) l[i] = ent(p[i].fd)->kind == K_VR ? ent(p[i].fd)->vp : -1;
  I->rpc_a[0] = n; I->rpc_a[1] = to; rpc(R_POLL);
  int c = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = l[i] ? (short)l[i] : 0; if (p[i].revents) c++; }
  after(); return c;
}

/* ---------------------------------------------------------------- processes */
struct facts { const void *key; int n; struct { int a, b; } d[16]; char chd[1024]; int used; };
static struct facts FA[16];
static struct facts *fa_get(const void *k, int mk) { for (int i = 0; i < 16; i++) if (FA[i].used && FA[i].key == k) return &FA[i]; if (mk) for (int i = 0; i < 16; i++) if (!FA[i].used) { memset(&FA[i], 0, sizeof FA[i]); FA[i].used = 1; FA[i].key = k; return &FA[i]; } return NULL; }
int posix_spawn_file_actions_init(posix_spawn_file_actions_t *f) { memset(f, 0, sizeof *f); fa_get(f, 1); return 0; }
int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *f) { struct facts *x = fa_get(f, 0); if (x) x->used = 0; return 0; }
int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *f, int a, int b) { struct facts *x = fa_get(f, 1); if (x && x->n < 16) { x->d[x->n].a = a; x->d[x->n].b = b; x->n++; } return 0; }
int posix_spawn_file_actions_addclose(posix_spawn_file_actions_t *f, int a) { (void)f; (void)a; return 0; }
int posix_spawn_file_actions_addchdir_np(posix_spawn_file_actions_t *f, const char *p) { struct facts *x = fa_get(f, 1); if (x) snprintf(x->chd, sizeof x->chd, "%s", p); return 0; }
int posix_spawn_file_actions_addchdir(posix_spawn_file_actions_t *f, const char *p) { return posix_spawn_file_actions_addchdir_np(f, p); }
int posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *f, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
  (void)at; (void)envp; uint32_t fa; long g = gate(C_SPAWN, &fa);
  logop(C_SPAWN, g < 0 ? g : 0, file, argv[1] ? argv[1] : NULL, 0, NULL, fa, -1);
  if (g < 0) return -g;
  struct facts *x = f ? fa_get(f, 0) : NULL; int vo = -1, ve = -1; /* -1 inherit, -2 discard, >=0 pipe id */
  if (x) for (int i = 0; i < x->n; i++) { struct fdent *e = ent(x->d[i].a); int t = e->kind == K_VW ? e->vp : e->kind == K_STDOUT || e->kind == K_STDERR ? -1 : -2; if (x->d[i].b == 1) vo = t; if (x->d[i].b == 2) ve = t; }
  char cwd[2048]; if (x && x->chd[0]) { if (normalise(vcwd, x->chd, cwd, sizeof cwd)) return ENAMETOOLONG; } else strcpy(cwd, vcwd);
  size_t o = 0; int n = 0; 
#define PUT(s) do { size_t l = strlen(s) + 1; if (o + l > BUFSZ) return E2BIG; memcpy(I->rpc_buf + o, s, l); o += l; } while (0)
  PUT(cwd); PUT(file); for (; argv[n]; n++) PUT(argv[n]);
  I->rpc_len = o; I->rpc_a[0] = vo; I->rpc_a[1] = ve; I->rpc_a[2] = n; rpc(R_SPAWN);
  if (I->rpc_ret < 0) return I->rpc_errno;
  *pid = I->rpc_ret; after(); return 0;
}
int posix_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *f, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return posix_spawnp(pid, file, f, at, argv, envp); }
int pidfd_spawnp(int *restrict fd, const char *restrict file, const posix_spawn_file_actions_t *restrict f, const posix_spawnattr_t *restrict at, char *const argv[restrict], char *const envp[restrict]) { (void)fd; (void)file; (void)f; (void)at; (void)argv; (void)envp; return ENOSYS; }
static pid_t do_wait(pid_t pid, int *st, int opt) {
  uint32_t fa; long g = gate(C_WAIT, &fa); logop(C_WAIT, g < 0 ? g : 0, NULL, NULL, 0, NULL, fa, -1); if (g < 0) return fail(g);
  I->rpc_a[0] = pid; I->rpc_a[1] = !!(opt & WNOHANG); rpc(R_WAIT);
  if (I->rpc_ret < 0) { errno = I->rpc_errno; return -1; }
  if (st) *st = (int)I->rpc_a[2];
  after(); return I->rpc_ret;
}
pid_t waitpid(pid_t p, int *st, int o) { if (!I) { long k = RAW(SYS_wait4, p, st, o, 0, 0); return k < 0 ? fail(k) : k; } return do_wait(p, st, o); }
pid_t wait4(pid_t p, int *st, int o, struct rusage *u) { (void)u; return waitpid(p, st, o); }
pid_t wait(int *st) { return waitpid(-1, st, 0); }
int waitid(idtype_t t, id_t id, siginfo_t *si, int o) { (void)t; int st = 0; pid_t p = do_wait(id, &st, o); if (p < 0) return -1; if (si) { memset(si, 0, sizeof *si); if (p) { si->si_pid = p; si->si_signo = SIGCHLD; if (WIFEXITED(st)) { si->si_code = CLD_EXITED; si->si_status = WEXITSTATUS(st); } else { si->si_code = CLD_KILLED; si->si_status = WTERMSIG(st); } } } return 0; }
pid_t fork(void) { if (I) harness_error("fork() called by the program: no seam for it"); long k = rs(SYS_fork, 0L, 0L, 0L, 0L, 0L, 0L); return k < 0 ? fail(k) : k; }
pid_t vfork(void) { return fork(); }
pid_t getpid(void) { return I ? (pid_t)I->pid : (pid_t)rs(SYS_getpid, 0L, 0L, 0L, 0L, 0L, 0L); }
pid_t gettid(void) { return I ? (pid_t)I->pid : (pid_t)rs(SYS_gettid, 0L, 0L, 0L, 0L, 0L, 0L); }
pid_t getppid(void) { return I ? 1 : (pid_t)rs(SYS_getppid, 0L, 0L, 0L, 0L, 0L, 0L); }
int kill(pid_t p, int sig) { if (I && p == (pid_t)I->pid) p = rs(SYS_getpid, 0L, 0L, 0L, 0L, 0L, 0L); else if (I) { errno = ESRCH; return -1; } long k = RAW(SYS_kill, p, sig, 0, 0, 0); return k < 0 ? fail(k) : k; }

/* ---------------------------------------------------------------- clocks and randomness */
static void clockjumps(void) { uint32_t n = I->opcount[C_CLOCK]++; for (uint32_t i = 0; i < I->nfaults; i++) { struct fault *f = &I->faults[i]; if (f->action == A_CLOCKJUMP && f->nth == n) { f->fired++; I->clock_ns += (int64_t)f->arg * 1000000000ll; } } }
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!I) { long k = RAW(SYS_clock_gettime, c, ts, 0, 0, 0); return k < 0 ? fail(k) : k; }
  int64_t v;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { clockjumps(); I->clock_ns += I->clock_step; v = I->clock_ns; }
  else { I->mono_ns += I->clock_step > 0 ? I->clock_step : 1; v = I->mono_ns; }
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
  return 0;
}
int gettimeofday(struct timeval *tv, void *z) { (void)z; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int nanosleep(const struct timespec *a, struct timespec *b) { (void)b; if (!I) return 0; int64_t d = a->tv_sec * 1000000000ll + a->tv_nsec; I->clock_ns += d; I->mono_ns += d; I->rpc_a[0] = d; uint32_t fa; gate(C_MISC, &fa); rpc(R_SLEEP); return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { (void)c; (void)f; return nanosleep(a, b); }
static uint64_t sm(uint64_t *s) { uint64_t z = (*s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  (void)fl; if (!I) { long k = RAW(SYS_getrandom, b, n, fl, 0, 0); return k < 0 ? fail(k) : k; }
  I->opcount[C_RANDOM]++;
  unsigned char *c = b; for (size_t i = 0; i < n; i++) c[i] = (unsigned char)(sm(&I->hashseed) >> 24);
  return n;
}
int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (I) switch (n) {
    case SYS_getrandom: return getrandom((void *)a, b, c);
    case SYS_statx: return statx(a, (const char *)b, c, d, (struct statx *)e);
    case SYS_clone3: case SYS_fork: case SYS_vfork: case SYS_execve: case SYS_openat2: case SYS_copy_file_range: errno = ENOSYS; return -1;
    case SYS_openat: return openat(a, (const char *)b, c, d);
    case SYS_getpid: return getpid();
    case SYS_gettid: return gettid();
  }
  long k = rs(n, a, b, c, d, e, f); return k < 0 ? fail(k) : k;
}

/* ---------------------------------------------------------------- the fork server */
typedef int (*main_t)(int, char **, char **);
static char *ARGV[2048];
static void become(int s) {
  slotno = s; struct slot *x = &S->slots[s];
  rs(SYS_close, (long)cmdfd, 0L, 0L, 0L, 0L, 0L);
  long o = RAW(SYS_openat, AT_FDCWD, x->outpath, O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, 0644, 0), e = RAW(SYS_openat, AT_FDCWD, x->errpath, O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, 0644, 0), z = RAW(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY, 0, 0);
  if (o < 0 || e < 0 || z < 0) _exit(99);
  RAW(SYS_dup2, z, 0, 0, 0, 0); RAW(SYS_dup2, o, 1, 0, 0, 0); RAW(SYS_dup2, e, 2, 0, 0, 0); RAW(SYS_close, z, 0, 0, 0, 0); RAW(SYS_close, o, 0, 0, 0, 0); RAW(SYS_close, e, 0, 0, 0, 0);
  struct rlimit rl = { 1500ull << 20, 1500ull << 20 }; setrlimit(RLIMIT_AS, &rl);
  struct rlimit rc = { 0, 0 }; setrlimit(RLIMIT_CORE, &rc);
  struct itimerval it = { { 0, 0 }, { x->cpu_secs, 0 } }; setitimer(ITIMER_VIRTUAL, &it, NULL);
  sigset_t m; sigemptyset(&m); sigprocmask(SIG_SETMASK, &m, NULL);
  strcpy(vcwd, x->cwd);
  char *p = x->strs; int n = 0; for (uint32_t i = 0; i < x->argc; i++) { ARGV[n++] = p; p += strlen(p) + 1; } ARGV[n++] = NULL;
  for (uint32_t i = 0; i < x->envc; i++) { ARGV[n++] = p; p += strlen(p) + 1; } ARGV[n++] = NULL;
  environ = &ARGV[x->argc + 1];
  I = x; setent(1, K_STDOUT, "<stdout>", -1); setent(2, K_STDERR, "<stderr>", -1);
  rpc(R_PARK);
}
static void server(void) {
  sigset_t m; sigemptyset(&m); sigaddset(&m, SIGCHLD); sigprocmask(SIG_BLOCK, &m, NULL);
  int sfd = signalfd(-1, &m, SFD_NONBLOCK | SFD_CLOEXEC); static long pids[NSLOT];
  send_msg(M_READY, 0, 0);
  for (;;) {
    struct pollfd p[2] = { { cmdfd, POLLIN, 0 }, { sfd, POLLIN, 0 } };
    RAW(SYS_poll, p, 2, -1, 0, 0);
    if (p[1].revents) { char b[512]; while (RAW(SYS_read, sfd, b, sizeof b, 0, 0) > 0) ; int st; long k; while ((k = RAW(SYS_wait4, -1, &st, WNOHANG, 0, 0)) > 0) for (int i = 0; i < NSLOT; i++) if (pids[i] == k) { pids[i] = 0; send_msg(M_DEAD, i, st); } }
    if (p[0].revents) {
      unsigned char c; long k = RAW(SYS_read, cmdfd, &c, 1, 0, 0); if (k != 1) _exit(0);
      static pid_t (*rf)(void); if (!rf) rf = dlsym(RTLD_NEXT, "fork"); long ch = rf();
      if (ch == 0) { RAW(SYS_close, sfd, 0, 0, 0, 0); become(c); return; }
      pids[c] = ch; send_msg(M_STARTED, c, (int32_t)ch);
    }
  }
}
int __libc_start_main(main_t mn, int argc, char **argv, main_t init, void (*fini)(void), void (*rtld)(void), void *stack) {
  static int (*real)(main_t, int, char **, main_t, void (*)(void), void (*)(void), void *);
  real = dlsym(RTLD_NEXT, "__libc_start_main");
  const char *e = getenv("SIM_FDS");
  if (e) {
    int shmfd; sscanf(e, "%d,%d,%d,%d,%d,%d,%d", &shmfd, &evfd, &cmdfd, &resfd[0], &resfd[1], &resfd[2], &resfd[3]);
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED, shmfd, 0); if (S == MAP_FAILED) _exit(98);
    RAW(SYS_close, shmfd, 0, 0, 0, 0);
    server();
    argc = I->argc; argv = ARGV;
  }
  return real(mn, argc, argv, init, fini, rtld, stack);
}
