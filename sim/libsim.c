// libsim.so: the system-call seam of the deterministic simulator. LD_PRELOADed into a real,
// unmodified binary. A seccomp filter turns every file-system call, sleep and randomness
// request into SIGSYS; the handler looks the operation up in the fault plan and performs,
// alters, fails or crashes it. Clock readings and allocations are interposed as symbols.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include "libsim.h"

__asm__(".section .text.simraw,\"ax\",@progbits\n.balign 4096\n.globl sim_raw\n.hidden sim_raw\n.type sim_raw,@function\n"
        "sim_raw:\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n ret\n"
        ".balign 4096\n.text\n");
extern long sim_raw(long n, long a, long b, long c, long d, long e, long f);
#define RAW(n, a, b, c, d, e, f) sim_raw((long)(n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

static struct sim_shm *S;
static uint32_t my_rank = 0, my_op = 0;
static int malloc_on = 0;
#define NFD 1024
static int32_t fdpath[NFD];   // path id + 1; 0 = not simulated
static uint32_t fderr_r[NFD], fderr_w[NFD];
static int64_t last_write_len[NFD];
static unsigned char fdwr[NFD];
static uint64_t rnd_state;

static uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
void sim_set_rank(int r) { my_rank = (uint32_t)r; my_op = 0; rnd_state = mix(rnd_state ^ (uint64_t)(r + 1) * 0x1234567); }
int64_t *sim_clock_cell(void) { return S ? &S->sim_ns : 0; }
int sim_active(void) { return S != 0; }

uint32_t sim_choose(uint32_t n, uint32_t permillion) {
  struct sim_sched *c = &S->sc;
  uint32_t idx = c->count++, v = 0;
  if (n < 2) return 0;
  if (c->mode == 1) {
    while (c->pos < c->ndin && c->din[c->pos].idx < idx) c->pos++;
    if (c->pos < c->ndin && c->din[c->pos].idx == idx) v = c->din[c->pos].val % n;
  } else {
    uint64_t h = mix(c->seed ^ mix(idx + 0x51ull));
    if ((uint32_t)(h % 1000000u) < permillion) v = 1 + (uint32_t)((h >> 32) % (n - 1));
  }
  if (v) { if (c->ndout < SIM_MAXDEC) { c->dout[c->ndout].idx = idx; c->dout[c->ndout].val = v; c->ndout++; } else c->dropped = 1; }
  return v;
}
void sim_trace(uint64_t x) { S->sc.trace = mix(S->sc.trace ^ x); }
struct sim_sched *sim_sc(void) { return S ? &S->sc : 0; }
void (*sim_sleep_hook)(int64_t) = 0;

static int path_id(const char *p) {
  uint32_t n = S->npath;
  for (uint32_t i = 0; i < n; i++) if (!strncmp(S->path[i], p, SIM_PATHLEN - 1)) return (int)i;
  if (n >= SIM_MAXPATH) return SIM_MAXPATH - 1;
  strncpy(S->path[n], p, SIM_PATHLEN - 1);
  S->npath = n + 1;
  return (int)n;
}
// path -> id of its name relative to the scratch prefix, or -1 if not simulated
static int outside(const char *p) { return strncmp(p, "/dev/", 5) && strncmp(p, "/proc/", 6) && strncmp(p, "/sys/", 5); }
static char last_out[PATH_MAX];
static int classify(int dfd, const char *p) {
  if (!p) return -1;
  char full[3 * PATH_MAX], out[3 * PATH_MAX];
  size_t pl = strlen(S->prefix);
  last_out[0] = 0;
  if (p[0] == '/') { if (strlen(p) >= PATH_MAX) return -1; strcpy(full, p); }
  else if (dfd != AT_FDCWD && dfd >= 0 && dfd < NFD && fdpath[dfd]) {
    strcpy(full, S->prefix); strcat(full, "/"); strcat(full, S->path[fdpath[dfd] - 1]); strcat(full, "/"); strcat(full, p);
  } else if (dfd != AT_FDCWD) return path_id(p);
  else {
    long n = RAW(SYS_getcwd, full, PATH_MAX, 0, 0, 0, 0);
    if (n <= 0 || strlen(p) >= PATH_MAX) return -1;
    strcat(full, "/"); strcat(full, p);
  }
  size_t o = 0; // lexical normalisation
  for (const char *q = full; *q;) {
    while (*q == '/') q++;
    const char *e = q; while (*e && *e != '/') e++;
    size_t n = (size_t)(e - q);
    if (n == 0 || (n == 1 && q[0] == '.')) {}
    else if (n == 2 && q[0] == '.' && q[1] == '.') { while (o && out[o - 1] != '/') o--; if (o) o--; }
    else { out[o++] = '/'; memcpy(out + o, q, n); o += n; }
    q = e;
  }
  out[o] = 0;
  if (strncmp(out, S->prefix, pl) || (out[pl] && out[pl] != '/')) { strncpy(last_out, out, sizeof last_out - 1); return -1; }
  const char *q = out + pl; if (*q == '/') q++;
  return path_id(*q ? q : ".");
}
__attribute__((noreturn)) static void die(int code) { RAW(SYS_exit_group, code, 0, 0, 0, 0, 0); __builtin_unreachable(); }

static void journal(uint32_t op, int kind, int act, int pathid, int64_t req, int64_t ret) {
  uint32_t i = __atomic_fetch_add(&S->njournal, 1, __ATOMIC_RELAXED);
  if (act) __atomic_fetch_add(&S->fired[act], 1, __ATOMIC_RELAXED);
  if (i >= SIM_MAXJ) { S->overflow = 1; return; }
  struct sim_jrec *r = &S->j[i];
  r->rank = my_rank; r->op = op; r->kind = (uint16_t)kind; r->act = (uint16_t)act; r->pathid = pathid; r->req = req; r->ret = ret;
}
static const struct sim_fault *lookup(uint32_t op) {
  for (uint32_t i = 0; i < S->nfault; i++)
    if (S->fault[i].op == op && S->fault[i].rank == my_rank) return &S->fault[i];
  return 0;
}
// A change outside the simulated directory is carried out, but not silently.
static void note_outside(int kind, long ret) {
  if (!last_out[0] || ret < 0 || !outside(last_out)) return;
  char b[SIM_PATHLEN];
  b[0] = '!'; strncpy(b + 1, last_out, sizeof b - 2); b[sizeof b - 1] = 0;
  journal(0xffffffffu, kind, 0, path_id(b), 0, ret);
}
// Several programs share the simulated machine: the one that holds the turn runs until its next operation.
static void job_wait(void) {
  int t;
  while ((t = __atomic_load_n(&S->job_turn, __ATOMIC_ACQUIRE)) != (int)my_rank) RAW(SYS_futex, &S->job_turn, FUTEX_WAIT, t, 0, 0, 0);
}
static void job_yield(void) {
  int cand[32], n = 0;
  for (int k = 0; k < S->job_n; k++) { int r = (int)(((int)my_rank + k) % S->job_n); if (S->job_alive & (1u << r)) cand[n++] = r; }
  int r = cand[sim_choose((uint32_t)n, S->sc.p_switch)];
  S->sc.steps++;
  if (r == (int)my_rank) return;
  S->sc.nswitch++;
  sim_trace(((uint64_t)S->sc.count << 8) | (uint64_t)r);
  __atomic_store_n(&S->job_turn, r, __ATOMIC_RELEASE);
  RAW(SYS_futex, &S->job_turn, FUTEX_WAKE, 64, 0, 0, 0);
  job_wait();
}
// One simulated operation. Returns the raw syscall result (negative errno on failure).
static long do_op(int kind, int fd, int pathid, long nr, long a, long b, long c, long d, long e, long f) {
  if (S->job_n > 1) job_yield();
  uint32_t op = my_op++;
  if (S->op_limit && op > S->op_limit) die(SIM_LIMIT_EXIT);
  int act = A_NONE; int64_t arg = 0;
  int64_t req = 0;
  if (kind == K_READ || kind == K_WRITE) {
    req = c;
    if (nr == SYS_writev || nr == SYS_readv) { struct iovec *v = (struct iovec *)b; req = 0; for (long i = 0; i < c; i++) req += (int64_t)v[i].iov_len; }
  } else if (kind == K_SEEK) req = b;
  const struct sim_fault *F = lookup(op);
  if (F) { act = (int)F->act; arg = F->arg; }
  int err = 0;
  if (kind < 20 && S->sticky[kind]) err = (int)S->sticky[kind];
  if (kind == K_READ && fd >= 0 && fd < NFD && fderr_r[fd]) err = (int)fderr_r[fd];
  if (kind == K_WRITE && fd >= 0 && fd < NFD && fderr_w[fd]) err = (int)fderr_w[fd];
  if ((kind == K_WRITE || kind == K_MKDIR) && S->full) err = ENOSPC;
  if (kind == K_OPENW && S->full) {
    struct stat st; // creating a new name needs space; an existing one can be opened
    if (RAW(SYS_newfstatat, nr == SYS_open ? AT_FDCWD : a, nr == SYS_open ? a : b, &st, 0, 0, 0) == -ENOENT) err = ENOSPC;
  }
  if (!act && !err && kind == K_WRITE && S->quota >= 0 && S->written + req > S->quota) { act = A_FULL; arg = S->quota - S->written; if (arg < 0) arg = 0; }
  if (!act && !err && (S->p_short_r | S->p_short_w | S->p_eintr | S->p_stall)) {
    uint64_t h = mix(S->seed ^ mix(((uint64_t)my_rank << 32) | op));
    uint32_t u = (uint32_t)(h % 1000000u), w = (uint32_t)((h >> 32) % 1000000u);
    uint64_t h2 = mix(h);
    if (kind == K_READ || kind == K_WRITE) {
      uint32_t ps = kind == K_READ ? S->p_short_r : S->p_short_w;
      if (w < S->p_eintr) { act = A_EINTR; }
      else if (u < ps && req > 1) {
        act = A_SHORT;
        switch (h2 % 4) { case 0: arg = 1; break; case 1: arg = 1 + (int64_t)((h2 >> 8) % 8); break; case 2: arg = 1 + (int64_t)((h2 >> 8) % 64); break; default: arg = 1 + (int64_t)((h2 >> 8) % (uint64_t)req); }
        if (arg >= req) arg = req - 1;
      }
    }
    if (!act && (uint32_t)((h2 >> 20) % 1000000u) < S->p_stall) { act = A_STALL; arg = (int64_t)((h2 >> 3) % 4000000000ull); }
  }
  if (err && act != A_CRASH_BEFORE && act != A_CRASH_AFTER) { journal(op, kind, act, pathid, req, -err); return -err; }
  long ret;
  switch (act) {
    case A_ERR: ret = -arg; journal(op, kind, act, pathid, req, ret); return ret;
    case A_EINTR: ret = -EINTR; journal(op, kind, act, pathid, req, ret); return ret;
    case A_ERR_STICKY: if (kind < 20) S->sticky[kind] = (uint32_t)arg; journal(op, kind, act, pathid, req, -arg); return -arg;
    case A_ERR_FD:
      if (fd >= 0 && fd < NFD) { if (kind == K_READ) fderr_r[fd] = (uint32_t)arg; else if (kind == K_WRITE) fderr_w[fd] = (uint32_t)arg; }
      journal(op, kind, act, pathid, req, -arg); return -arg;
    case A_CRASH_BEFORE: journal(op, kind, act, pathid, req, 0); die(SIM_CRASH_EXIT);
    case A_CRASH_AFTER: ret = RAW(nr, a, b, c, d, e, f); journal(op, kind, act, pathid, req, ret); die(SIM_CRASH_EXIT);
    case A_CLOSE_LOST:
      if (fd >= 0 && fd < NFD && fdwr[fd] && last_write_len[fd] > 0) {
        struct stat st;
        if (RAW(SYS_fstat, fd, &st, 0, 0, 0, 0) == 0 && st.st_size >= last_write_len[fd]) RAW(SYS_ftruncate, fd, st.st_size - last_write_len[fd], 0, 0, 0, 0);
      }
      RAW(SYS_close, fd, 0, 0, 0, 0, 0);
      journal(op, kind, act, pathid, req, -arg); return -arg;
    case A_STALL: S->sim_ns += arg; break;
    default: break;
  }
  int partial = act == A_SHORT || act == A_TORN_ERR || act == A_CRASH_TORN || act == A_FULL;
  if (partial && (kind == K_READ || kind == K_WRITE)) {
    int64_t n = arg < req ? arg : req;
    if (act == A_SHORT && n < 1) n = 1;
    if (act == A_FULL) S->full = 1;
    if (act == A_TORN_ERR && fd >= 0 && fd < NFD) fderr_w[fd] = ENOSPC;
    if (n <= 0) ret = act == A_CRASH_TORN ? 0 : -ENOSPC;
    else if (nr == SYS_writev || nr == SYS_readv) {
      struct iovec v[64]; int k = 0; int64_t left = n;
      struct iovec *src = (struct iovec *)b;
      for (long i = 0; i < c && k < 64 && left > 0; i++) { v[k] = src[i]; if ((int64_t)v[k].iov_len > left) v[k].iov_len = (size_t)left; left -= (int64_t)v[k].iov_len; k++; }
      ret = RAW(nr, a, v, k, d, e, f);
    } else ret = RAW(nr, a, b, n, d, e, f);
    if (act == A_CRASH_TORN) { journal(op, kind, act, pathid, req, ret); die(SIM_CRASH_EXIT); }
  } else ret = RAW(nr, a, b, c, d, e, f);
  if (kind == K_WRITE && ret > 0) { S->written += ret; if (fd >= 0 && fd < NFD) last_write_len[fd] = ret; }
  journal(op, kind, act, pathid, req, kind == K_OPENR || kind == K_OPENW ? (ret < 0 ? ret : 0) : ret);
  return ret;
}

// One simulated non-file operation (message passing). Returns 0, or a positive error number; *stall gets a number of steps.
int sim_comm_op(int kind, int64_t req, int64_t ret, int quiet, int64_t *stall) {
  uint32_t op = my_op++;
  const struct sim_fault *F = lookup(op);
  int act = F ? (int)F->act : 0;
  if (stall) *stall = 0;
  if (act == A_CRASH_BEFORE || act == A_CRASH_AFTER || act == A_CRASH_TORN) { journal(op, kind, A_CRASH_BEFORE, -1, req, 0); die(SIM_CRASH_EXIT); }
  if (act == A_ERR) { journal(op, kind, act, -1, req, -F->arg); return (int)F->arg; }
  if (act == A_STALL) { journal(op, kind, act, -1, req, F->arg); if (stall) *stall = F->arg; return 0; }
  if (!quiet) journal(op, kind, 0, -1, req, ret);
  return 0;
}
void sim_die(int code) { die(code); }

static long open_common(int dfd, const char *p, long flags, long mode, long nr, long a, long b, long c, long d) {
  int id = classify(dfd, p);
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  (void)mode;
  if (id < 0) { long q = RAW(nr, a, b, c, d, 0, 0); if (w) note_outside(K_OPENW, q); return q; }
  long r = do_op(w ? K_OPENW : K_OPENR, -1, id, nr, a, b, c, d, 0, 0);
  if (r >= 0 && r < NFD) { fdpath[r] = id + 1; fderr_r[r] = fderr_w[r] = 0; last_write_len[r] = 0; fdwr[r] = (unsigned char)w; }
  return r;
}

static void on_sys(int sig, siginfo_t *si, void *uc) {
  (void)sig;
  ucontext_t *u = uc;
  greg_t *g = u->uc_mcontext.gregs;
  long nr = si->si_syscall, a = g[REG_RDI], b = g[REG_RSI], c = g[REG_RDX], d = g[REG_R10], e = g[REG_R8], f = g[REG_R9], r;
  int id;
  int fd = (int)a;
  int sim_fd = fd >= 0 && fd < NFD && fdpath[fd];
  switch (nr) {
    case SYS_open: r = open_common(AT_FDCWD, (char *)a, b, c, nr, a, b, c, d); break;
    case SYS_creat: r = open_common(AT_FDCWD, (char *)a, O_CREAT | O_WRONLY | O_TRUNC, b, nr, a, b, c, d); break;
    case SYS_openat: r = open_common((int)a, (char *)b, c, d, nr, a, b, c, d); break;
    case SYS_read: case SYS_readv: case SYS_pread64:
      r = sim_fd ? do_op(K_READ, fd, fdpath[fd] - 1, nr, a, b, c, d, e, f) : RAW(nr, a, b, c, d, e, f); break;
    case SYS_write: case SYS_writev: case SYS_pwrite64:
      r = sim_fd ? do_op(K_WRITE, fd, fdpath[fd] - 1, nr, a, b, c, d, e, f) : RAW(nr, a, b, c, d, e, f); break;
    case SYS_close:
      if (sim_fd) { id = fdpath[fd] - 1; r = do_op(K_CLOSE, fd, id, nr, a, 0, 0, 0, 0, 0);
        if (r < 0) RAW(SYS_close, fd, 0, 0, 0, 0, 0); // Linux: the descriptor is gone even when close reports an error
        fdpath[fd] = 0;
      } else r = RAW(nr, a, 0, 0, 0, 0, 0);
      break;
    case SYS_lseek: r = sim_fd ? do_op(K_SEEK, fd, fdpath[fd] - 1, nr, a, b, c, 0, 0, 0) : RAW(nr, a, b, c, 0, 0, 0); break;
    case SYS_rename: id = classify(AT_FDCWD, (char *)b); if (id < 0) id = classify(AT_FDCWD, (char *)a);
      if (id >= 0) r = do_op(K_RENAME, -1, id, nr, a, b, 0, 0, 0, 0); else { r = RAW(nr, a, b, c, d, e, f); note_outside(K_RENAME, r); } break;
    case SYS_renameat: case SYS_renameat2: id = classify((int)c, (char *)d); if (id < 0) id = classify((int)a, (char *)b);
      r = id >= 0 ? do_op(K_RENAME, -1, id, nr, a, b, c, d, e, 0) : RAW(nr, a, b, c, d, e, f); break;
    case SYS_link: case SYS_symlink: id = classify(AT_FDCWD, (char *)b);
      r = id >= 0 ? do_op(K_LINK, -1, id, nr, a, b, 0, 0, 0, 0) : RAW(nr, a, b, c, d, e, f); break;
    case SYS_unlink: id = classify(AT_FDCWD, (char *)a); if (id >= 0) r = do_op(K_UNLINK, -1, id, nr, a, 0, 0, 0, 0, 0); else { r = RAW(nr, a, b, c, d, e, f); note_outside(K_UNLINK, r); } break;
    case SYS_unlinkat: id = classify((int)a, (char *)b); r = id >= 0 ? do_op((c & AT_REMOVEDIR) ? K_RMDIR : K_UNLINK, -1, id, nr, a, b, c, 0, 0, 0) : RAW(nr, a, b, c, d, e, f); break;
    case SYS_mkdir: id = classify(AT_FDCWD, (char *)a); if (id >= 0) r = do_op(K_MKDIR, -1, id, nr, a, b, 0, 0, 0, 0); else { r = RAW(nr, a, b, c, d, e, f); note_outside(K_MKDIR, r); } break;
    case SYS_mkdirat: id = classify((int)a, (char *)b); r = id >= 0 ? do_op(K_MKDIR, -1, id, nr, a, b, c, 0, 0, 0) : RAW(nr, a, b, c, d, e, f); break;
    case SYS_rmdir: id = classify(AT_FDCWD, (char *)a); r = id >= 0 ? do_op(K_RMDIR, -1, id, nr, a, 0, 0, 0, 0, 0) : RAW(nr, a, b, c, d, e, f); break;
    case SYS_fsync: case SYS_fdatasync: r = sim_fd ? do_op(K_SYNC, fd, fdpath[fd] - 1, nr, a, 0, 0, 0, 0, 0) : RAW(nr, a, b, c, d, e, f); break;
    case SYS_ftruncate: r = sim_fd ? do_op(K_TRUNC, fd, fdpath[fd] - 1, nr, a, b, 0, 0, 0, 0) : RAW(nr, a, b, c, d, e, f); break;
    case SYS_stat: case SYS_lstat: case SYS_access:
      id = classify(AT_FDCWD, (char *)a); r = id >= 0 ? do_op(K_STAT, -1, id, nr, a, b, c, d, e, f) : RAW(nr, a, b, c, d, e, f); break;
    case SYS_newfstatat: case SYS_statx: case SYS_faccessat: case SYS_faccessat2:
      id = b && *(char *)b ? classify((int)a, (char *)b) : -1; r = id >= 0 ? do_op(K_STAT, -1, id, nr, a, b, c, d, e, f) : RAW(nr, a, b, c, d, e, f); break;
    case SYS_truncate: id = classify(AT_FDCWD, (char *)a); r = id >= 0 ? do_op(K_TRUNC, -1, id, nr, a, b, 0, 0, 0, 0) : RAW(nr, a, b, c, d, e, f); break;
    case SYS_sendfile: case SYS_copy_file_range: r = -ENOSYS; break; // callers fall back to read and write
    case SYS_dup: r = RAW(nr, a, 0, 0, 0, 0, 0); if (r >= 0 && r < NFD && sim_fd) { fdpath[r] = fdpath[fd]; fdwr[r] = fdwr[fd]; } break;
    case SYS_dup2: case SYS_dup3: r = RAW(nr, a, b, c, 0, 0, 0); if (r >= 0 && r < NFD) { fdpath[r] = sim_fd ? fdpath[fd] : 0; fdwr[r] = sim_fd ? fdwr[fd] : 0; } break;
    case SYS_nanosleep: { struct timespec *t = (void *)a; { int64_t ns = (int64_t)t->tv_sec * 1000000000 + t->tv_nsec; if (sim_sleep_hook) sim_sleep_hook(ns); else S->sim_ns += ns; } r = 0; break; }
    case SYS_clock_nanosleep: { struct timespec *t = (void *)c; if (!(b & TIMER_ABSTIME)) { int64_t ns = (int64_t)t->tv_sec * 1000000000 + t->tv_nsec; if (sim_sleep_hook) sim_sleep_hook(ns); else S->sim_ns += ns; } r = 0; break; }
    case SYS_getrandom: { unsigned char *p = (void *)a; for (long i = 0; i < b; i++) { rnd_state = mix(rnd_state); p[i] = (unsigned char)(rnd_state >> 24); } r = b; break; }
    default: r = RAW(nr, a, b, c, d, e, f);
  }
  g[REG_RAX] = r;
}

static int64_t sim_now(void) {
  int64_t n = __atomic_fetch_add(&S->clock_reads, 1, __ATOMIC_RELAXED);
  S->sim_ns += S->clock_step;
  int64_t t = S->clock_base + S->sim_ns;
  if (S->clock_jump && n >= S->clock_jump_at) t += S->clock_jump;
  return t;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!S || !S->armed) return (int)syscall(SYS_clock_gettime, id, ts);
  int64_t t;
  if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) {
    S->sim_ns += S->clock_step; t = S->sim_ns + 1000000000; // monotonic clocks never jump backwards
  } else t = sim_now();
  ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  (void)tz;
  if (!S || !S->armed) return (int)syscall(SYS_gettimeofday, tv, 0);
  int64_t t = sim_now();
  tv->tv_sec = t / 1000000000; tv->tv_usec = (t % 1000000000) / 1000;
  return 0;
}
time_t time(time_t *p) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (p) *p = ts.tv_sec;
  return ts.tv_sec;
}

clock_t clock(void) {
  struct timespec ts;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
  return (clock_t)(ts.tv_sec * 1000000 + ts.tv_nsec / 1000);
}

// glibc draws temporary names from the vDSO clock; here they come from the simulated randomness
static int temp_name(char *t, int suffix, int dir, int flags) {
  static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
  size_t n = strlen(t);
  if (n < (size_t)suffix + 6 || memcmp(t + n - (size_t)suffix - 6, "XXXXXX", 6)) { errno = EINVAL; return -1; }
  char *x = t + n - suffix - 6;
  for (int k = 0; k < 10000; k++) {
    rnd_state = mix(rnd_state + 1);
    uint64_t v = rnd_state;
    for (int i = 0; i < 6; i++) { x[i] = al[v % 62]; v /= 62; }
    int r = dir ? mkdir(t, 0700) : open(t, (flags & ~O_ACCMODE) | O_RDWR | O_CREAT | O_EXCL, 0600);
    if (r >= 0) return r;
    if (errno != EEXIST) return -1;
  }
  errno = EEXIST;
  return -1;
}
char *mkdtemp(char *t) { return temp_name(t, 0, 1, 0) < 0 ? 0 : t; }
int mkstemp(char *t) { return temp_name(t, 0, 0, 0); }
int mkostemp(char *t, int f) { return temp_name(t, 0, 0, f); }
int mkstemps(char *t, int s) { return temp_name(t, s, 0, 0); }
int mkstemp64(char *t) { return temp_name(t, 0, 0, 0); }
int mkostemp64(char *t, int f) { return temp_name(t, 0, 0, f); }

// Process numbers and host names: the programs of one scenario may run on different machines that share a disk
pid_t getpid(void) {
  if (!S || !S->armed) return (pid_t)syscall(SYS_getpid);
  return (pid_t)(S->pid_base + S->pid_step * (int32_t)my_rank);
}
static void host_name(char *b) { strcpy(b, "node0"); b[4] = (char)('0' + (S->pid_step ? 0 : my_rank % 10)); }
int gethostname(char *b, size_t n) {
  char h[16];
  if (!S || !S->armed) strcpy(h, "node0"); else host_name(h);
  if (strlen(h) >= n) { errno = ENAMETOOLONG; return -1; }
  strcpy(b, h);
  return 0;
}
int uname(struct utsname *u) {
  int r = (int)syscall(SYS_uname, u);
  if (S && S->armed && !r) host_name(u->nodename);
  return r;
}

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static int alloc_fails(size_t n) {
  if (!malloc_on || (int64_t)n < S->malloc_min) return 0;
  int64_t k = S->malloc_count++;
  if (S->malloc_fail < 0) return 0;
  if (k == S->malloc_fail || (S->malloc_sticky && k > S->malloc_fail)) { journal(my_op, K_MALLOC, A_ERR, -1, (int64_t)n, -ENOMEM); return 1; }
  return 0;
}
// Another memory layout: every block gets a seeded number of extra bytes, so that the relative order of addresses changes,
// and what uninitialised and freed memory contains is seeded as well. With the top bit set each block also has a header and
// a canary behind it: a write past the end of a block ends the run (exit 194) when the block is released or at exit.
#define GUARD 0x80000000u
#define HMAGIC 0x5afe9c7a3b1d8e46ull
#define CANARY 64
struct ghdr { struct ghdr *prev, *next; uint64_t n, magic; };
static struct ghdr glist = {&glist, &glist, 0, 0};
static int guarding = 0;
static uint64_t shuffle_state;
extern void __libc_free(void *);
static size_t pad(size_t n) {
  if (!malloc_on || !S->malloc_shuffle || n > 65536) return n;
  shuffle_state = mix(shuffle_state + S->malloc_shuffle);
  return n + (shuffle_state % 24) * (shuffle_state & 0x100 ? 16 : 160);
}
static void *fill(void *p, size_t n, unsigned w) {
  if (p && malloc_on && S->malloc_shuffle) memset(p, (int)(1 + mix(S->malloc_shuffle + w) % 254), n < 262144 ? n : 262144);
  return p;
}
__attribute__((noreturn)) static void overrun(struct ghdr *h) {
  static const char m[] = "simulator: a heap block was written past its end\n";
  (void)h;
  RAW(SYS_write, 2, m, sizeof m - 1, 0, 0, 0);
  die(SIM_OVERRUN_RC);
}
static void gcheck(struct ghdr *h) {
  unsigned char *c = (unsigned char *)(h + 1) + h->n;
  for (int i = 0; i < CANARY; i++) if (c[i] != (unsigned char)(0xa5 + i)) overrun(h);
}
static int guarded(void *p) {
  struct ghdr *h = (struct ghdr *)p - 1;
  return guarding && h->magic == (HMAGIC ^ (uint64_t)p);
}
static void *galloc(size_t n) {
  if (n > PTRDIFF_MAX - 8192) { errno = ENOMEM; return 0; }
  struct ghdr *h = __libc_malloc(pad(n) + sizeof *h + CANARY);
  if (!h) return 0;
  guarding = 1;
  h->n = n; h->magic = HMAGIC ^ (uint64_t)(h + 1);
  h->prev = &glist; h->next = glist.next; glist.next->prev = h; glist.next = h;
  unsigned char *c = (unsigned char *)(h + 1) + n;
  for (int i = 0; i < CANARY; i++) c[i] = (unsigned char)(0xa5 + i);
  return h + 1;
}
#define GUARDED_MODE (malloc_on && (S->malloc_shuffle & GUARD))
void free(void *p) {
  if (!p) return;
  if (guarded(p)) {
    struct ghdr *h = (struct ghdr *)p - 1;
    gcheck(h);
    h->prev->next = h->next; h->next->prev = h->prev;
    h->magic = 0;
    fill(p, h->n, 2);
    __libc_free(h);
    return;
  }
  __libc_free(p);
}
void *malloc(size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return 0; } return fill(GUARDED_MODE ? galloc(n) : __libc_malloc(pad(n)), n, 1); }
void *calloc(size_t n, size_t m) {
  if (alloc_fails(n * m)) { errno = ENOMEM; return 0; }
  size_t t;
  if (!GUARDED_MODE || __builtin_mul_overflow(n, m, &t)) return __libc_calloc(n, m);
  void *p = galloc(t);
  return p ? memset(p, 0, t) : 0;
}
void *realloc(void *p, size_t n) {
  if (alloc_fails(n)) { errno = ENOMEM; return 0; }
  if (!p) return fill(GUARDED_MODE ? galloc(n) : __libc_malloc(n), n, 1);
  if (!guarded(p)) return __libc_realloc(p, n);
  if (!n) { free(p); return 0; }
  void *q = galloc(n);
  if (!q) return 0;
  fill(q, n, 1);
  size_t o = ((struct ghdr *)p - 1)->n;
  memcpy(q, p, o < n ? o : n);
  free(p);
  return q;
}
void *memalign(size_t a, size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return 0; } return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return 0; } return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { if (alloc_fails(n)) return ENOMEM; *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
__attribute__((destructor)) static void check_blocks(void) {
  if (!guarding) return;
  for (struct ghdr *h = glist.next; h != &glist; h = h->next) gcheck(h);
}

__attribute__((constructor(101))) static void sim_init(void) {
  const char *p = getenv("SIM_SHM");
  if (!p || S) return;
  int fd = open(p, O_RDWR | O_CLOEXEC);
  if (fd < 0) _exit(196);
  struct sim_shm *m = mmap(0, sizeof *m, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  if (m == MAP_FAILED || m->magic != SIM_MAGIC) _exit(196);
  S = m;
  rnd_state = mix(S->random_seed);
  const char *jr = getenv("SIM_RANK");
  if (jr && S->job_n > 1) { my_rank = (uint32_t)atoi(jr); unsetenv("SIM_RANK"); job_wait(); }
  const char *in = getenv("SIM_STDIN");
  if (in) { fdpath[0] = path_id(in) + 1; unsetenv("SIM_STDIN"); }
  unsetenv("LD_PRELOAD");
  unsetenv("SIM_SHM");
  const char *out = getenv("SIM_STDOUT"); // stdout is a simulated regular file of this name
  if (out) { fdpath[1] = path_id(out) + 1; fdwr[1] = 1; unsetenv("SIM_STDOUT"); }
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_sys;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSYS, &sa, 0);
  static const int trapped[] = {SYS_open, SYS_creat, SYS_openat, SYS_read, SYS_readv, SYS_pread64, SYS_write, SYS_writev, SYS_pwrite64, SYS_close, SYS_lseek, SYS_rename, SYS_renameat, SYS_renameat2,
    SYS_link, SYS_symlink, SYS_unlink, SYS_unlinkat, SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_fsync, SYS_fdatasync, SYS_ftruncate, SYS_dup, SYS_dup2, SYS_dup3, SYS_nanosleep, SYS_clock_nanosleep, SYS_getrandom,
    SYS_stat, SYS_lstat, SYS_access, SYS_newfstatat, SYS_statx, SYS_faccessat, SYS_faccessat2, SYS_truncate, SYS_sendfile, SYS_copy_file_range};
  enum { NT = sizeof trapped / sizeof *trapped };
  struct sock_filter flt[NT + 16];
  int n = 0;
  uint64_t page = (uint64_t)&sim_raw;
#define ST(code, k) flt[n++] = (struct sock_filter)BPF_STMT(code, k)
#define JP(code, k, t, fl) flt[n++] = (struct sock_filter)BPF_JUMP(code, k, t, fl)
  ST(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
  JP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(page >> 32), 0, 4);
  ST(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
  ST(BPF_ALU | BPF_AND | BPF_K, 0xfffff000u);
  JP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)page, 0, 1);
  ST(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  ST(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
  for (int i = 0; i < NT; i++) JP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)trapped[i], (uint8_t)(NT - i), 0);
  ST(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  ST(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
  struct sock_fprog prog = {(unsigned short)n, flt};
  prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
  if (syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, &prog)) _exit(195);
  S->armed = 1;
  malloc_on = 1;
}
