// Starts several programs on one simulated machine: simjob SHM LIBSIM -- cwd stdout bin args... -- cwd stdout bin args...
// libsim lets one of them run at a time; the seeded choice of who comes next after an exit is made here.
// Writes one line "rank code" per program to standard output.
#define _GNU_SOURCE
#include <fcntl.h>
#include <linux/futex.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include "libsim.h"
static struct sim_shm *S;
static uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
static uint32_t choose(uint32_t n, uint32_t permillion) { // the same decision machinery as in libsim.c
  struct sim_sched *c = &S->sc;
  uint32_t idx = c->count++, v = 0;
  if (n < 2) return 0;
  if (c->mode == 1) {
    while (c->pos < c->ndin && c->din[c->pos].idx < idx) c->pos++;
    if (c->pos < c->ndin && c->din[c->pos].idx == idx) v = c->din[c->pos].val % n;
  } else {
    uint64_t h = mix(c->seed ^ mix(idx + 0x51ull));
    if ((uint32_t)(h % 1000000u) < permillion) v = 1 + (uint32_t)((h >> 32) % (n - 1));
  }
  if (v) { if (c->ndout < SIM_MAXDEC) { c->dout[c->ndout].idx = idx; c->dout[c->ndout].val = v; c->ndout++; } else c->dropped = 1; }
  return v;
}
static void pass(void) {
  int cand[32], n = 0;
  for (int r = 0; r < S->job_n; r++) if (S->job_alive & (1u << r)) cand[n++] = r;
  if (!n) return;
  int r = cand[choose((uint32_t)n, S->sc.p_switch)];
  S->sc.trace = mix(S->sc.trace ^ (((uint64_t)S->sc.count << 8) | (uint64_t)r));
  __atomic_store_n(&S->job_turn, r, __ATOMIC_RELEASE);
  syscall(SYS_futex, &S->job_turn, FUTEX_WAKE, 64, 0, 0, 0);
}
int main(int argc, char **argv) {
  int fd = open(argv[1], O_RDWR | O_CLOEXEC), n = 0;
  pid_t pid[32];
  if (fd < 0) return 196;
  S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (S == MAP_FAILED) return 196;
  S->job_turn = -1;
  for (int i = 3; i < argc; i++) n += !strcmp(argv[i], "--");
  if (n > 31) return 196;
  S->job_n = n;
  S->job_alive = (1u << n) - 1;
  int i = 4, r = 0;
  while (i < argc) {
    int e = i;
    while (e < argc && strcmp(argv[e], "--")) e++;
    argv[e] = 0;
    pid[r] = fork();
    if (!pid[r]) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      char b[16];
      if (chdir(argv[i])) _exit(196);
      int o = open(argv[i + 1], O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(o, 1); close(o);
      snprintf(b, sizeof b, "%d", r);
      setenv("SIM_RANK", b, 1);
      setenv("SIM_SHM", argv[1], 1);
      setenv("LD_PRELOAD", argv[2], 1);
      execv(argv[i + 2], argv + i + 2);
      _exit(196);
    }
    r++;
    i = e + 1;
  }
  pass();
  for (int left = n; left; left--) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    for (r = 0; r < n && pid[r] != p; r++) {}
    printf("%d %d\n", r, WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
    fflush(stdout);
    S->job_alive &= ~(1u << r);
    pass();
  }
  return 0;
}
