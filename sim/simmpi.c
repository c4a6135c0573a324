// A simulated MPI library: the ranks are forked processes, exactly one runs at a time, and a seeded scheduler decides
// who runs next, when a message becomes visible, whether a send is buffered or synchronous and whether a probe misses.
// Linked into the real program below the real Boost.MPI. The original process plays mpirun: it collects exit codes and
// ends the job when a rank dies.
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <mpi.h>
#include "libsim.h"

// Open MPI's predefined objects are opaque addresses
struct ompi_predefined_communicator_t { char x[1024]; } ompi_mpi_comm_world, ompi_mpi_comm_self, ompi_mpi_comm_null;
struct ompi_predefined_group_t { char x[1024]; } ompi_mpi_group_empty, ompi_mpi_group_null;
struct ompi_predefined_request_t { char x[1024]; } ompi_request_null;
struct ompi_predefined_errhandler_t { char x[1024]; } ompi_mpi_errors_return, ompi_mpi_errors_are_fatal;
struct ompi_predefined_info_t { char x[1024]; } ompi_mpi_info_null;
struct ompi_predefined_message_t { char x[1024]; } ompi_message_null, ompi_message_no_proc;
struct ompi_predefined_op_t { char x[1024]; } ompi_mpi_op_sum, ompi_mpi_op_max, ompi_mpi_op_min, ompi_mpi_op_land, ompi_mpi_op_lor, ompi_mpi_op_prod;
struct ompi_predefined_datatype_t { char x[1024]; } ompi_mpi_datatype_null;
#define TYPES(X) X(packed, 1) X(byte, 1) X(char, 1) X(signed_char, 1) X(unsigned_char, 1) X(short, 2) X(unsigned_short, 2) X(int, 4) X(unsigned, 4) X(long, 8) X(unsigned_long, 8) \
  X(long_long_int, 8) X(unsigned_long_long, 8) X(float, 4) X(double, 8) X(long_double, 16) X(cxx_bool, 1) X(cxx_cplex, 8) X(cxx_dblcplex, 16) X(cxx_ldblcplex, 32) X(c_bool, 1) X(wchar, 4) X(2int, 8) X(float_int, 8) X(double_int, 16) X(long_double_int, 32)
#define DEF(n, s) struct ompi_predefined_datatype_t ompi_mpi_##n;
TYPES(DEF)

extern struct sim_sched *sim_sc(void) __attribute__((weak));
extern uint32_t sim_choose(uint32_t n, uint32_t permillion) __attribute__((weak));
extern void sim_trace(uint64_t) __attribute__((weak));
extern int sim_comm_op(int, int64_t, int64_t, int, int64_t *) __attribute__((weak));
extern void sim_set_rank(int) __attribute__((weak));
extern void sim_die(int) __attribute__((weak));
extern int64_t *sim_clock_cell(void) __attribute__((weak));
extern void (*sim_sleep_hook)(int64_t) __attribute__((weak));

#define MAXR 16
#define MAXMSG 200000
#define ARENA (1ull << 30)
enum { R_RUN, R_SLEEP, R_RECV, R_SENDSYNC, R_FIN, R_EXITED, R_DEAD };
enum { M_FREE, M_QUEUED, M_MATCHED, M_DONE };
struct msg { int32_t src, dst, tag, ctx; uint64_t off; int64_t len; uint32_t visible; uint8_t state, sync; int32_t next; };
struct rank { int state, src, tag, ctx; int64_t wake; int syncmsg; uint32_t stall_until, idle, misses; pid_t pid; uint32_t last_visible[MAXR]; int bc; };
struct world {
  int n, turn, live, failed, fin;
  uint32_t kill_at;
  uint64_t top; int nmsg;
  int head[MAXR], tail[MAXR];
  uint32_t inflight;
  struct rank r[MAXR];
  struct msg m[MAXMSG];
};
static struct world *W;
static char *A;
static int me = 0, inited = 0, finalized = 0;
static struct sim_sched *C;

static void futex_wait(int *p, int v) { syscall(SYS_futex, p, FUTEX_WAIT, v, 0, 0, 0); }
static void futex_wake(int *p) { syscall(SYS_futex, p, FUTEX_WAKE, 64, 0, 0, 0); }
static void die(int c) { sim_die(c); _exit(c); }

static size_t tsize(MPI_Datatype t) {
#define SZ(n, s) if ((void *)t == (void *)&ompi_mpi_##n) return s;
  TYPES(SZ)
  fprintf(stderr, "simmpi: unknown datatype\n");
  die(196);
  return 0;
}
static int matches(const struct msg *m, int src, int tag, int ctx) {
  return m->ctx == ctx && (src == MPI_ANY_SOURCE || m->src == src) && (tag == MPI_ANY_TAG || m->tag == tag);
}
// Candidates: for every source the earliest matching message, if it is visible. Seeded choice among sources.
static int find(int dst, int src, int tag, int ctx, int choose) {
  int cand[MAXR], nc = 0;
  uint32_t blocked = 0;
  for (int i = W->head[dst]; i >= 0; i = W->m[i].next) {
    struct msg *m = &W->m[i];
    if (m->state != M_QUEUED || !matches(m, src, tag, ctx)) continue;
    if (blocked & (1u << m->src)) continue;
    blocked |= 1u << m->src;
    if (m->visible <= C->steps) cand[nc++] = i;
  }
  if (!nc) return -1;
  return cand[choose && nc > 1 ? sim_choose((uint32_t)nc, 500000) : 0];
}
static int ready(int r) {
  struct rank *q = &W->r[r];
  if (q->stall_until > C->steps) return 0;
  switch (q->state) {
    case R_RUN: case R_SLEEP: return 1;
    case R_RECV: return find(r, q->src, q->tag, q->ctx, 0) >= 0;
    case R_SENDSYNC: return W->m[q->syncmsg].state == M_DONE;
    case R_FIN: return W->fin == W->live;
    default: return 0;
  }
}
// Picks the next rank. cur < 0: the caller is mpirun.
static void pass(int cur) {
  for (;;) {
    C->steps++;
    if (C->step_limit && C->steps > C->step_limit) { C->verdict = 3; if (cur >= 0) die(SIM_DEADLOCK_EXIT); W->turn = -2; return; }
    if (W->kill_at && C->steps >= W->kill_at && cur >= 0) die(SIM_KILLED_EXIT);
    int cand[MAXR], nc = 0;
    for (int k = 0; k < W->n; k++) { // canonical order: the current rank first, sleepers last
      int r = cur >= 0 ? (cur + k) % W->n : k;
      if (ready(r) && W->r[r].state != R_SLEEP) cand[nc++] = r;
    }
    int nrun = nc;
    for (int k = 1; k <= W->n; k++) {
      int r = cur >= 0 ? (cur + k) % W->n : k % W->n;
      if (ready(r) && W->r[r].state == R_SLEEP) cand[nc++] = r;
    }
    if (!nc) {
      uint32_t t = 0xffffffffu; // nothing can run: let the step counter jump to the next delivery or end of a stall
      for (int r = 0; r < W->n; r++) {
        if (W->r[r].state <= R_FIN && W->r[r].stall_until > C->steps && W->r[r].stall_until < t) t = W->r[r].stall_until;
        for (int i = W->head[r]; i >= 0; i = W->m[i].next) if (W->m[i].state == M_QUEUED && W->m[i].visible > C->steps && W->m[i].visible < t) t = W->m[i].visible;
      }
      if (t != 0xffffffffu) { C->steps = t - 1; if (C->step_limit) C->step_limit += 0; continue; }
      if (W->kill_at) { if (cur >= 0) die(SIM_KILLED_EXIT); W->turn = -2; return; } // mpirun ends the job
      C->verdict = 1; // deadlock
      if (cur >= 0) die(SIM_DEADLOCK_EXIT);
      W->turn = -2; return;
    }
    if (!nrun) { // only pollers: is anything left that could change?
      int any = 0; uint32_t idle = 0xffffffffu;
      for (int r = 0; r < W->n; r++) {
        for (int i = W->head[r]; i >= 0; i = W->m[i].next) if (W->m[i].state == M_QUEUED && W->m[i].visible > C->steps) any = 1;
        if (W->r[r].stall_until > C->steps && W->r[r].state <= R_FIN) any = 1;
        if (W->r[r].state == R_SLEEP && W->r[r].idle < idle) idle = W->r[r].idle;
      }
      if (any) for (int r = 0; r < W->n; r++) W->r[r].idle = 0; // counting starts after the last delivery
      if (!any && idle > 40 && W->kill_at) { if (cur >= 0) die(SIM_KILLED_EXIT); W->turn = -2; return; }
      if (!any && idle > 40) { C->verdict = 2; if (cur >= 0) die(SIM_DEADLOCK_EXIT); W->turn = -2; return; }
    }
    // a poller is chosen less often than a rank that has work to do
    int k;
    if (nrun && nc > nrun) k = sim_choose(8, C->p_switch) == 7 ? nrun + (int)sim_choose((uint32_t)(nc - nrun), 500000) : (int)sim_choose((uint32_t)nrun, C->p_switch);
    else k = (int)sim_choose((uint32_t)nc, C->p_switch);
    int r = cand[k];
    if (r != cur) C->nswitch++;
    if (W->r[r].state == R_SLEEP) {
      int64_t *t = sim_clock_cell();
      if (t && *t < W->r[r].wake) *t = W->r[r].wake;
    }
    sim_trace(((uint64_t)C->count << 8) | (uint64_t)r);
    W->turn = r;
    return;
  }
}
static void yield_(int state) {
  W->r[me].state = state;
  pass(me);
  if (W->turn == me) { W->r[me].state = R_RUN; return; }
  futex_wake(&W->turn);
  int t;
  while ((t = __atomic_load_n(&W->turn, __ATOMIC_ACQUIRE)) != me) futex_wait(&W->turn, t);
  W->r[me].state = R_RUN;
}
static void on_sleep(int64_t ns) {
  int64_t *t = sim_clock_cell();
  if (!W || W->n < 2) { if (t) *t += ns; return; }
  W->r[me].wake = (t ? *t : 0) + ns;
  yield_(R_SLEEP);
}
static int op(int kind, int64_t req, int64_t ret, int quiet) {
  int64_t stall = 0;
  int e = sim_comm_op(kind, req, ret, quiet, &stall);
  if (stall > 0 && W) { W->r[me].stall_until = C->steps + (uint32_t)stall; yield_(R_RUN); }
  return e;
}
static void busy(void) { for (int r = 0; r < W->n; r++) W->r[r].idle = 0; }

static void mpirun(void) {
  int rc = 0;
  pass(-1);
  futex_wake(&W->turn);
  while (W->live > 0) {
    if (W->turn == -2) break; // nothing can run any more
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    int r = 0;
    while (r < W->n && W->r[r].pid != p) r++;
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    W->live--;
    if (W->r[r].state == R_FIN || W->r[r].state == R_EXITED) W->fin--;
    if (code == 196 || code == 195) rc = code;
    if (code == SIM_DEADLOCK_EXIT || code == SIM_LIMIT_EXIT || code == SIM_KILLED_EXIT) { if (code != SIM_KILLED_EXIT && !rc) rc = code; W->r[r].state = R_DEAD; break; }
    int ok = W->r[r].state == R_EXITED;
    W->r[r].state = ok ? R_EXITED : R_DEAD;
    if (code && !rc) rc = code;
    if (!ok && !rc) rc = 1;            // left without MPI_Finalize
    if (!ok && !W->kill_at) { W->kill_at = C->steps + 1 + (C->kill_delay ? sim_choose(C->kill_delay, 700000) : 0); C->njobfail++; }
    if (W->live > 0) { busy(); pass(-1); futex_wake(&W->turn); }
  }
  for (int r = 0; r < W->n; r++) if (W->r[r].state != R_EXITED && W->r[r].state != R_DEAD) kill(W->r[r].pid, SIGKILL);
  while (waitpid(-1, 0, 0) > 0) {}
  if (!rc && W->turn == -2) rc = SIM_DEADLOCK_EXIT;
  sim_die(rc);
}

int MPI_Init(int *argc, char ***argv) {
  (void)argc; (void)argv;
  if (!sim_sc || !sim_sc()) { fprintf(stderr, "simmpi: not under the simulator\n"); _exit(196); }
  C = sim_sc();
  inited = 1;
  int n = (int)C->nranks;
  if (n < 1) n = 1;
  W = mmap(0, sizeof *W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  A = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (W == MAP_FAILED || A == MAP_FAILED) _exit(196);
  W->n = W->live = n;
  for (int i = 0; i < MAXR; i++) W->head[i] = W->tail[i] = -1;
  if (n == 1) { W->r[0].state = R_RUN; return MPI_SUCCESS; }
  if (&sim_sleep_hook) sim_sleep_hook = on_sleep;
  W->turn = -1;
  fflush(0);
  for (int i = 0; i < n; i++) {
    pid_t p = fork();
    if (p < 0) _exit(196);
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      me = i;
      sim_set_rank(i);
      int t;
      while ((t = __atomic_load_n(&W->turn, __ATOMIC_ACQUIRE)) != me) futex_wait(&W->turn, t);
      return MPI_SUCCESS;
    }
    W->r[i].pid = p;
  }
  mpirun();
  return MPI_SUCCESS;
}
int MPI_Init_thread(int *a, char ***b, int req, int *prov) { *prov = req < MPI_THREAD_SERIALIZED ? req : MPI_THREAD_SERIALIZED; return MPI_Init(a, b); }
int MPI_Initialized(int *f) { *f = inited; return 0; }
int MPI_Finalized(int *f) { *f = finalized; return 0; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_SERIALIZED; return 0; }
int MPI_Is_thread_main(int *f) { *f = 1; return 0; }
int MPI_Finalize(void) {
  op(K_MPI_FIN, 0, 0, 0);
  if (W->n > 1) {
    W->fin++;
    busy();
    yield_(R_FIN);
    W->r[me].state = R_EXITED; // keeps the token: mpirun passes it on when this process has ended
  }
  finalized = 1;
  return 0;
}
int MPI_Abort(MPI_Comm c, int code) { (void)c; if (W && W->n > 1) W->kill_at = C->steps + 1; sim_die(code ? code & 127 : 1); return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { (void)c; *r = me; return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { (void)c; *n = W->n; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler e) { (void)c; (void)e; return 0; }
int MPI_Comm_get_attr(MPI_Comm c, int k, void *v, int *f) {
  (void)c;
  static int ub = 0x7fffffff, host = MPI_PROC_NULL;
  if (k == MPI_TAG_UB) { *(int **)v = &ub; *f = 1; } else if (k == MPI_HOST || k == MPI_IO) { *(int **)v = &host; *f = 1; } else *f = 0;
  return 0;
}
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "simulated"); *l = 9; return 0; }
int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; }
int MPI_Get_library_version(char *s, int *l) { strcpy(s, "simmpi"); *l = 6; return 0; }
int MPI_Error_string(int c, char *s, int *l) { *l = sprintf(s, "simulated MPI error %d", c); return 0; }
int MPI_Error_class(int c, int *k) { *k = c; return 0; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info i, void *p) { (void)i; void *q = malloc(n ? (size_t)n : 1); *(void **)p = q; return q ? 0 : MPI_ERR_NO_MEM; }
int MPI_Free_mem(void *p) { free(p); return 0; }

static int post(const void *buf, int64_t len, int dst, int tag, int ctx, int sync) {
  if (dst < 0 || dst >= W->n) return -1;
  int i = W->nmsg++;
  if (i >= MAXMSG || W->top + (uint64_t)len > ARENA) { fprintf(stderr, "simmpi: out of message space\n"); die(196); }
  struct msg *m = &W->m[i];
  memset(m, 0, sizeof *m);
  m->src = me; m->dst = dst; m->tag = tag; m->ctx = ctx; m->off = W->top; m->len = len; m->state = M_QUEUED; m->sync = (uint8_t)sync; m->next = -1;
  memcpy(A + W->top, buf, (size_t)len);
  W->top += (uint64_t)(len + 15) & ~15ull;
  uint32_t d = C->max_delay ? sim_choose(C->max_delay + 1, C->p_delay) : 0;
  if (d) C->ndelay++;
  m->visible = C->steps + d;
  struct rank *q = &W->r[dst];
  if (m->visible < q->last_visible[me]) m->visible = q->last_visible[me]; // per-pair order is kept
  q->last_visible[me] = m->visible;
  if (W->tail[dst] >= 0) W->m[W->tail[dst]].next = i; else W->head[dst] = i;
  W->tail[dst] = i;
  C->nmsg++;
  busy();
  return i;
}
static int64_t key(int peer, int tag) { return ((int64_t)(peer & 0xff) << 32) | (uint32_t)tag; }
static int want_sync(int64_t len) {
  int s = len > (int64_t)C->eager;
  if (!s && C->p_sync && sim_choose(2, C->p_sync)) s = 1;
  if (s) C->nsync++;
  return s;
}
static int send_(const void *b, int n, MPI_Datatype t, int dst, int tag, int force) {
  int64_t len = (int64_t)n * (int64_t)tsize(t);
  int e = op(K_MPI_SEND, key(dst, tag), len, 0);
  if (e) return MPI_ERR_OTHER;
  int s = force || want_sync(len);
  int i = post(b, len, dst, tag, 0, s);
  if (i < 0) return MPI_ERR_RANK;
  if (s) { W->r[me].syncmsg = i; yield_(R_SENDSYNC); } else yield_(R_RUN);
  return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { (void)c; return send_(b, n, t, dst, tag, 0); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { (void)c; return send_(b, n, t, dst, tag, 1); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { (void)c; return send_(b, n, t, dst, tag, 0); }

static void unlink_msg(int dst, int i) {
  int p = -1;
  for (int k = W->head[dst]; k >= 0; p = k, k = W->m[k].next)
    if (k == i) { if (p < 0) W->head[dst] = W->m[k].next; else W->m[p].next = W->m[k].next; if (W->tail[dst] == k) W->tail[dst] = p; return; }
}
static int await(int src, int tag, int ctx) {
  struct rank *q = &W->r[me];
  q->src = src; q->tag = tag; q->ctx = ctx;
  yield_(R_RECV);
  int i;
  while ((i = find(me, src, tag, ctx, 1)) < 0) yield_(R_RECV);
  return i;
}
static void set_status(MPI_Status *s, const struct msg *m) {
  if (s == MPI_STATUS_IGNORE) return;
  s->MPI_SOURCE = m->src; s->MPI_TAG = m->tag; s->MPI_ERROR = 0; s->_ucount = (size_t)m->len; s->_cancelled = 0;
}
static int take(int i, void *b, int64_t cap, MPI_Status *st) {
  struct msg *m = &W->m[i];
  set_status(st, m);
  int rc = 0;
  if (m->len > cap) rc = MPI_ERR_TRUNCATE;
  memcpy(b, A + m->off, (size_t)(m->len < cap ? m->len : cap));
  if (m->state == M_QUEUED) unlink_msg(me, i);
  m->state = M_DONE;
  busy();
  op(K_MPI_RECV, key(m->src, m->tag), m->len, 0);
  return rc;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st) {
  (void)c;
  int e = op(K_MPI_OTHER, key(src, tag), 0, 1);
  if (e) return MPI_ERR_OTHER;
  int i = await(src, tag, 0);
  return take(i, b, (int64_t)n * (int64_t)tsize(t), st);
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *st) {
  (void)c;
  int e = op(K_MPI_PROBE, key(src, tag), 0, 0);
  if (e) return MPI_ERR_OTHER;
  set_status(st, &W->m[await(src, tag, 0)]);
  return 0;
}
static int iprobe(int src, int tag) {
  yield_(R_RUN);
  int i = find(me, src, tag, 0, 1);
  if (i >= 0 && W->r[me].misses < 5 && C->p_miss && sim_choose(2, C->p_miss)) { W->r[me].misses++; C->nmiss++; i = -1; } else if (i >= 0) W->r[me].misses = 0;
  if (i < 0) W->r[me].idle++;
  return i;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *f, MPI_Status *st) {
  (void)c;
  if (op(K_MPI_PROBE, key(src, tag), 0, 1)) return MPI_ERR_OTHER;
  int i = iprobe(src, tag);
  *f = i >= 0;
  if (i >= 0) set_status(st, &W->m[i]);
  return 0;
}
static int grab(int i, MPI_Message *m, MPI_Status *st) {
  set_status(st, &W->m[i]);
  unlink_msg(me, i);
  W->m[i].state = M_MATCHED;
  *m = (MPI_Message)(intptr_t)(i + 1);
  return 0;
}
int MPI_Mprobe(int src, int tag, MPI_Comm c, MPI_Message *m, MPI_Status *st) {
  (void)c;
  if (op(K_MPI_PROBE, key(src, tag), 0, 0)) return MPI_ERR_OTHER;
  return grab(await(src, tag, 0), m, st);
}
int MPI_Improbe(int src, int tag, MPI_Comm c, int *f, MPI_Message *m, MPI_Status *st) {
  (void)c;
  if (op(K_MPI_PROBE, key(src, tag), 0, 1)) return MPI_ERR_OTHER;
  int i = iprobe(src, tag);
  *f = i >= 0;
  return i >= 0 ? grab(i, m, st) : 0;
}
int MPI_Mrecv(void *b, int n, MPI_Datatype t, MPI_Message *m, MPI_Status *st) {
  int i = (int)(intptr_t)*m - 1;
  *m = MPI_MESSAGE_NULL;
  int r = take(i, b, (int64_t)n * (int64_t)tsize(t), st);
  yield_(R_RUN);
  return r;
}
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { size_t z = tsize(t); *n = s->_ucount % z ? MPI_UNDEFINED : (int)(s->_ucount / z); return 0; }
int MPI_Get_elements(const MPI_Status *s, MPI_Datatype t, int *n) { return MPI_Get_count(s, t, n); }

// non-blocking requests
struct req { int used, recv, msg, src, tag; void *buf; int64_t cap; int done; MPI_Status st; int err; };
static struct req RQ[256];
static MPI_Request rq_new(int recv) {
  for (int i = 0; i < 256; i++) if (!RQ[i].used) { memset(&RQ[i], 0, sizeof RQ[i]); RQ[i].used = 1; RQ[i].recv = recv; return (MPI_Request)(intptr_t)(i + 1); }
  die(196); return 0;
}
static struct req *rq(MPI_Request r) { return &RQ[(intptr_t)r - 1]; }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r) {
  (void)c;
  int64_t len = (int64_t)n * (int64_t)tsize(t);
  if (op(K_MPI_SEND, key(dst, tag), len, 0)) return MPI_ERR_OTHER;
  int s = want_sync(len);
  int i = post(b, len, dst, tag, 0, s);
  if (i < 0) return MPI_ERR_RANK;
  *r = rq_new(0);
  rq(*r)->msg = i; rq(*r)->done = !s;
  yield_(R_RUN);
  return 0;
}
int MPI_Issend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r) { return MPI_Isend(b, n, t, dst, tag, c, r); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *r) {
  (void)c;
  if (op(K_MPI_OTHER, key(src, tag), 0, 1)) return MPI_ERR_OTHER;
  *r = rq_new(1);
  struct req *q = rq(*r);
  q->src = src; q->tag = tag; q->buf = b; q->cap = (int64_t)n * (int64_t)tsize(t);
  return 0;
}
static int progress(struct req *q) {
  if (q->done) return 1;
  if (q->recv) { int i = find(me, q->src, q->tag, 0, 1); if (i >= 0) { q->err = take(i, q->buf, q->cap, &q->st); q->done = 1; } }
  else if (W->m[q->msg].state == M_DONE) q->done = 1;
  return q->done;
}
int MPI_Test(MPI_Request *r, int *f, MPI_Status *st) {
  if (*r == MPI_REQUEST_NULL) { *f = 1; return 0; }
  yield_(R_RUN);
  struct req *q = rq(*r);
  *f = progress(q);
  if (!*f) { W->r[me].idle++; return 0; }
  if (st != MPI_STATUS_IGNORE) *st = q->st;
  int e = q->err;
  q->used = 0; *r = MPI_REQUEST_NULL;
  return e;
}
int MPI_Wait(MPI_Request *r, MPI_Status *st) {
  if (*r == MPI_REQUEST_NULL) return 0;
  struct req *q = rq(*r);
  while (!progress(q)) {
    if (q->recv) { W->r[me].src = q->src; W->r[me].tag = q->tag; W->r[me].ctx = 0; yield_(R_RECV); }
    else { W->r[me].syncmsg = q->msg; yield_(R_SENDSYNC); }
  }
  if (st != MPI_STATUS_IGNORE) *st = q->st;
  int e = q->err;
  q->used = 0; *r = MPI_REQUEST_NULL;
  return e;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) {
  int e = 0;
  for (int i = 0; i < n; i++) { int x = MPI_Wait(&r[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]); if (x) e = x; }
  return e;
}
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *st) {
  yield_(R_RUN);
  *f = 1;
  for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && !progress(rq(r[i]))) *f = 0;
  if (*f) return MPI_Waitall(n, r, st);
  W->r[me].idle++;
  return 0;
}
int MPI_Cancel(MPI_Request *r) { (void)r; return 0; }
int MPI_Request_free(MPI_Request *r) { if (*r != MPI_REQUEST_NULL) rq(*r)->used = 0; *r = MPI_REQUEST_NULL; return 0; }

// collectives travel in a context of their own
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  (void)c;
  int64_t len = (int64_t)n * (int64_t)tsize(t);
  if (op(K_MPI_COLL, key(root, -1), len, 0)) return MPI_ERR_OTHER;
  int seq = W->r[me].bc++;
  if (W->n < 2) return 0;
  if (me == root) {
    int last = -1;
    for (int i = 0; i < W->n; i++) if (i != me) {
      last = post(b, len, i, seq, 1, 0);
      yield_(R_RUN);
    }
    if (last >= 0 && C->p_sync && sim_choose(2, C->p_sync)) { W->r[me].syncmsg = last; yield_(R_SENDSYNC); }
    return 0;
  }
  int i = await(root, seq, 1);
  return take(i, b, len, MPI_STATUS_IGNORE);
}
int MPI_Barrier(MPI_Comm c) {
  char x = 0;
  if (W->n < 2) return 0;
  if (op(K_MPI_COLL, 0, 0, 0)) return MPI_ERR_OTHER;
  int seq = W->r[me].bc++;
  if (me == 0) {
    for (int i = 1; i < W->n; i++) { int k = await(i, seq, 2); take(k, &x, 1, MPI_STATUS_IGNORE); }
    for (int i = 1; i < W->n; i++) post(&x, 1, i, seq, 3, 0);
    yield_(R_RUN);
  } else {
    post(&x, 1, 0, seq, 2, 0);
    int k = await(0, seq, 3);
    take(k, &x, 1, MPI_STATUS_IGNORE);
  }
  (void)c;
  return 0;
}
#define NOTSIM(name, args) int name args { fprintf(stderr, "simmpi: " #name " is not simulated\n"); sim_die(196); return 0; }
NOTSIM(MPI_Topo_test, (MPI_Comm c, int *s))
NOTSIM(MPI_Comm_test_inter, (MPI_Comm c, int *f))
NOTSIM(MPI_Type_free, (MPI_Datatype * t))
NOTSIM(MPI_Group_free, (MPI_Group * g))
NOTSIM(MPI_Comm_split, (MPI_Comm c, int a, int b, MPI_Comm *n))
NOTSIM(MPI_Comm_free, (MPI_Comm * c))
NOTSIM(MPI_Group_union, (MPI_Group a, MPI_Group b, MPI_Group *c))
NOTSIM(MPI_Group_translate_ranks, (MPI_Group a, int n, const int *b, MPI_Group c, int *d))
NOTSIM(MPI_Group_size, (MPI_Group g, int *n))
NOTSIM(MPI_Group_rank, (MPI_Group g, int *n))
NOTSIM(MPI_Group_intersection, (MPI_Group a, MPI_Group b, MPI_Group *c))
NOTSIM(MPI_Group_incl, (MPI_Group a, int n, const int *r, MPI_Group *c))
NOTSIM(MPI_Group_excl, (MPI_Group a, int n, const int *r, MPI_Group *c))
NOTSIM(MPI_Group_difference, (MPI_Group a, MPI_Group b, MPI_Group *c))
NOTSIM(MPI_Group_compare, (MPI_Group a, MPI_Group b, int *r))
NOTSIM(MPI_Comm_group, (MPI_Comm c, MPI_Group *g))
NOTSIM(MPI_Comm_dup, (MPI_Comm c, MPI_Comm *n))
NOTSIM(MPI_Comm_create, (MPI_Comm c, MPI_Group g, MPI_Comm *n))
NOTSIM(MPI_Comm_compare, (MPI_Comm a, MPI_Comm b, int *r))
