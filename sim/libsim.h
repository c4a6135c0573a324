// Shared-memory layout between the simulator driver (Python) and the simulated process.
#ifndef LIBSIM_H
#define LIBSIM_H
#include <stdint.h>
#define SIM_MAGIC 0x4d495331u
#define SIM_MAXFAULT 1024
#define SIM_MAXJ 60000
#define SIM_MAXPATH 1024
#define SIM_PATHLEN 200
// operation kinds
enum { K_OPENR = 1, K_OPENW, K_READ, K_WRITE, K_CLOSE, K_SEEK, K_RENAME, K_UNLINK, K_MKDIR, K_RMDIR, K_SYNC, K_TRUNC, K_SLEEP, K_RANDOM, K_CLOCK, K_MALLOC, K_LINK, K_MPI_SEND, K_MPI_RECV, K_MPI_PROBE, K_MPI_COLL, K_MPI_FIN, K_MPI_OTHER, K_LAPACK, K_STAT, K_NKIND };
// actions
enum {
  A_NONE = 0, A_ERR = 1,       // fail with errno=arg, no effect
  A_ERR_STICKY = 2,            // this and every later operation of the same kind fails with errno=arg
  A_ERR_FD = 3,                // this and every later operation of this kind on this open file fails
  A_SHORT = 4,                 // transfer at most arg bytes
  A_TORN_ERR = 5,              // write arg bytes, then every later write on this file fails with ENOSPC
  A_CRASH_BEFORE = 6, A_CRASH_AFTER = 7,
  A_CRASH_TORN = 8,            // write arg bytes, then die
  A_EINTR = 9,
  A_STALL = 10,                // simulated clock advances by arg ns
  A_FULL = 11,                 // disk full: write arg bytes, then ALL writes fail with ENOSPC
  A_CLOSE_LOST = 12,           // close reports arg and the last write to the file is lost
  A_NACT
};
struct sim_fault { uint32_t rank, op, act, pad; int64_t arg; };
struct sim_jrec { uint32_t rank, op; uint16_t kind, act; int32_t pathid; int64_t req, ret; };
#define SIM_MAXDEC 20000
// Every scheduling decision of a multi-process or multi-thread run goes through sim_choose(): value 0 is the
// canonical choice. mode 0: values drawn from seed; mode 1: the sparse list din[], everything else 0.
struct sim_sched {
  uint32_t mode, nranks;
  uint64_t seed;
  uint32_t p_switch, p_delay, p_miss, p_sync;  // per million
  uint32_t eager, max_delay, step_limit, kill_delay;
  uint32_t ndin, ndout, count, pos;
  uint32_t steps, verdict, dropped, maxqueue;
  uint64_t trace;                               // hash of the whole schedule
  uint32_t nmsg, nmiss, ndelay, nsync, nswitch, njobfail, reserved0, reserved1;
  struct { uint32_t idx, val; } din[SIM_MAXDEC], dout[SIM_MAXDEC];
};
struct sim_shm {
  uint32_t magic, armed;
  uint64_t seed;
  uint32_t p_short_r, p_short_w, p_eintr, p_stall;   // per million, PRNG mode
  int64_t quota;            // total bytes that fit on the simulated disk; <0: unlimited
  int64_t written;
  int64_t malloc_fail;      // ordinal of the allocation that fails; <0 none
  int64_t malloc_sticky;    // 1: all later allocations fail too
  int64_t malloc_min;       // only allocations of at least this size are eligible/counted
  int64_t malloc_count;
  int64_t clock_base;       // ns
  int64_t clock_step;       // ns added per reading
  int64_t clock_jump_at;    // reading ordinal at which clock_jump is added
  int64_t clock_jump;
  int64_t sim_ns;           // simulated time elapsed
  int64_t clock_reads;
  uint32_t nfault, njournal, npath, overflow;
  uint32_t sticky[20];         // per file-operation kind // errno per kind
  uint32_t full;            // disk full latched
  uint32_t op_limit;        // ops per rank before the run is declared runaway (exit 198); 0 none
  uint32_t fired[A_NACT + 3];
  uint32_t random_seed, malloc_shuffle; // malloc_shuffle: seed of random padding of allocations; 0 none
  char prefix[512];         // absolute scratch prefix; only paths below it are simulated
  struct sim_fault fault[SIM_MAXFAULT];
  char path[SIM_MAXPATH][SIM_PATHLEN];
  struct sim_jrec j[SIM_MAXJ];
  struct sim_sched sc;
  int32_t job_n, job_turn;  // several independent programs at once (simjob): one runs at a time
  uint32_t job_alive, job_pad;
  int32_t pid_base, pid_step; // a process sees the number pid_base + rank * pid_step: 0 = programs on different machines, which can coincide
};
#define SIM_CRASH_EXIT 197
#define SIM_LIMIT_EXIT 198
#define SIM_DEADLOCK_EXIT 193
#define SIM_KILLED_EXIT 199
#define SIM_RACE_EXIT 192
#define SIM_OVERRUN_RC 194
#endif
