/* Shared between preload.c and the driver (src/shm.rs mirrors it field by field). */
#ifndef SIMSHM_H
#define SIMSHM_H
#include <stdint.h>
#define NSLOT 4
#define MAXF 48
#define STRSZ 65536
#define BUFSZ 262144
#define LOGSZ (4u<<20)

enum cls { C_OPENR, C_OPENW, C_READ, C_WRITE, C_STDOUT, C_STDERR, C_STAT, C_MKDIR, C_UNLINK,
           C_RMDIR, C_RENAME, C_SPAWN, C_WAIT, C_POLL, C_PREAD, C_CLOCK, C_RANDOM, C_MISC, C_ANY, C_N };
enum act { A_ERR = 1, A_ERR_STICKY, A_SHORT, A_CRASH_BEFORE, A_CRASH_AFTER, A_TORN, A_CLOCKJUMP };
enum rpc { R_PARK = 1, R_SPAWN, R_WAIT, R_POLL, R_PREAD, R_SLEEP, R_HARNESS_ERROR };

struct fault { uint32_t cls, nth, action; int32_t arg; uint32_t fired, pad; };

struct slot {
  /* configuration, written by the driver before the instance starts */
  uint32_t argc, envc, pid, nfaults;
  uint32_t stdout_tty, tty_cols, cpu_secs, pad0;
  uint64_t hashseed;
  int64_t clock_ns, clock_step, mono_ns;
  uint64_t disk_left, max_ops;
  char root[256], cwd[1024], outpath[256], errpath[256];
  struct fault faults[MAXF];
  char strs[STRSZ];
  /* run time */
  uint64_t budget;          /* operations left in this slice */
  uint64_t total_ops;
  uint32_t opcount[C_N];
  uint32_t vpipes;
  uint32_t limit_hit;       /* 1: max_ops exceeded */
  /* rpc */
  uint32_t rpc_op; int32_t rpc_errno;
  int64_t rpc_a[6]; int64_t rpc_ret;
  uint32_t rpc_len, pad1;
  char rpc_buf[BUFSZ];
  /* event log */
  uint32_t log_len, log_overflow;
  char log[LOGSZ];
};
struct shm { uint64_t gseq; uint64_t pad; struct slot slots[NSLOT]; };

/* event pipe message, child or server -> driver */
struct msg { uint32_t kind; uint32_t slot; int32_t val; uint32_t pad; };
enum { M_REQ = 1, M_DEAD, M_STARTED, M_READY };
/* log record header */
struct logrec { uint64_t seq, lastseq; uint32_t op; int32_t ret; uint64_t n, bytes, hash; uint32_t fault; uint16_t l1, l2; };
#endif
