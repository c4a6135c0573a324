// The diagonalisation routines of LAPACK as an operation of the simulated machine: a call may report that its iteration
// did not converge. Below the simulated OpenMP library it also tells which memory the real routine is going to write.
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include "libsim.h"
extern int sim_comm_op(int, int64_t, int64_t, int, int64_t *) __attribute__((weak));
extern void simomp_access(const void *, size_t, int, void *) __attribute__((weak));
extern void simomp_point(void) __attribute__((weak));
#define Z(n) ((size_t)((n) > 0 ? (n) : 0))
#define WR(p, n) do { if (simomp_access) simomp_access(p, n, 1, __builtin_return_address(0)); } while (0)
static int fails(const char *name, int n) {
  if (simomp_point) simomp_point();
  if (sim_comm_op && sim_comm_op(K_LAPACK, n, 0, 0, 0)) { fprintf(stderr, "simulated: %s does not converge\n", name); return 1; }
  return 0;
}
#define HIDDEN size_t h1, size_t h2, size_t h3
#define PASS h1, h2, h3
void __real_dsyev_(char *, char *, int *, double *, int *, double *, double *, int *, int *, size_t, size_t, size_t);
void __wrap_dsyev_(char *jz, char *ul, int *n, double *a, int *lda, double *w, double *work, int *lwork, int *info, HIDDEN) {
  WR(info, 4); WR(work, *lwork > 0 ? Z(*lwork) * 8 : 8);
  if (*lwork > 0) { WR(a, Z(*n) * Z(*lda) * 8); WR(w, Z(*n) * 8); if (fails("dsyev", *n)) { *info = 1; return; } }
  __real_dsyev_(jz, ul, n, a, lda, w, work, lwork, info, PASS);
}
void __real_dsyevd_(char *, char *, int *, double *, int *, double *, double *, int *, int *, int *, int *, size_t, size_t, size_t);
void __wrap_dsyevd_(char *jz, char *ul, int *n, double *a, int *lda, double *w, double *work, int *lwork, int *iwork, int *liwork, int *info, HIDDEN) {
  WR(info, 4); WR(work, *lwork > 0 ? Z(*lwork) * 8 : 8); WR(iwork, *liwork > 0 ? Z(*liwork) * 4 : 4);
  if (*lwork > 0) { WR(a, Z(*n) * Z(*lda) * 8); WR(w, Z(*n) * 8); if (fails("dsyevd", *n)) { *info = 1; return; } }
  __real_dsyevd_(jz, ul, n, a, lda, w, work, lwork, iwork, liwork, info, PASS);
}
#define RARGS char *jz, char *rg, char *ul, int *n, double *a, int *lda, double *vl, double *vu, int *il, int *iu, double *tol, int *m, double *w, double *z, int *ldz, int *isz, double *work, int *lwork
void __real_dsyevr_(RARGS, int *iwork, int *liwork, int *info, HIDDEN);
void __wrap_dsyevr_(RARGS, int *iwork, int *liwork, int *info, HIDDEN) {
  WR(info, 4); WR(work, *lwork > 0 ? Z(*lwork) * 8 : 8); WR(iwork, *liwork > 0 ? Z(*liwork) * 4 : 4);
  if (*lwork > 0) {
    int k = *rg == 'I' || *rg == 'i' ? *iu - *il + 1 : *n;
    WR(a, Z(*n) * Z(*lda) * 8); WR(w, Z(*n) * 8); WR(z, Z(k) * Z(*ldz) * 8); WR(isz, Z(2 * k) * 4); WR(m, 4);
    if (fails("dsyevr", *n)) { *info = 1; return; }
  }
  __real_dsyevr_(jz, rg, ul, n, a, lda, vl, vu, il, iu, tol, m, w, z, ldz, isz, work, lwork, iwork, liwork, info, PASS);
}
void __real_zheev_(char *, char *, int *, void *, int *, double *, void *, int *, double *, int *, size_t, size_t, size_t);
void __wrap_zheev_(char *jz, char *ul, int *n, void *a, int *lda, double *w, void *work, int *lwork, double *rwork, int *info, HIDDEN) {
  WR(info, 4); WR(work, *lwork > 0 ? Z(*lwork) * 16 : 16);
  if (*lwork > 0) { WR(a, Z(*n) * Z(*lda) * 16); WR(w, Z(*n) * 8); WR(rwork, Z(3 * *n - 2) * 8); if (fails("zheev", *n)) { *info = 1; return; } }
  __real_zheev_(jz, ul, n, a, lda, w, work, lwork, rwork, info, PASS);
}
void __real_zheevd_(char *, char *, int *, void *, int *, double *, void *, int *, double *, int *, int *, int *, int *, size_t, size_t, size_t);
void __wrap_zheevd_(char *jz, char *ul, int *n, void *a, int *lda, double *w, void *work, int *lwork, double *rwork, int *lrwork, int *iwork, int *liwork, int *info, HIDDEN) {
  WR(info, 4); WR(work, *lwork > 0 ? Z(*lwork) * 16 : 16); WR(rwork, *lrwork > 0 ? Z(*lrwork) * 8 : 8); WR(iwork, *liwork > 0 ? Z(*liwork) * 4 : 4);
  if (*lwork > 0) { WR(a, Z(*n) * Z(*lda) * 16); WR(w, Z(*n) * 8); if (fails("zheevd", *n)) { *info = 1; return; } }
  __real_zheevd_(jz, ul, n, a, lda, w, work, lwork, rwork, lrwork, iwork, liwork, info, PASS);
}
#define CARGS char *jz, char *rg, char *ul, int *n, void *a, int *lda, double *vl, double *vu, int *il, int *iu, double *tol, int *m, double *w, void *z, int *ldz, int *isz, void *work, int *lwork, double *rwork, int *lrwork
void __real_zheevr_(CARGS, int *iwork, int *liwork, int *info, HIDDEN);
void __wrap_zheevr_(CARGS, int *iwork, int *liwork, int *info, HIDDEN) {
  WR(info, 4); WR(work, *lwork > 0 ? Z(*lwork) * 16 : 16); WR(rwork, *lrwork > 0 ? Z(*lrwork) * 8 : 8); WR(iwork, *liwork > 0 ? Z(*liwork) * 4 : 4);
  if (*lwork > 0) {
    int k = *rg == 'I' || *rg == 'i' ? *iu - *il + 1 : *n;
    WR(a, Z(*n) * Z(*lda) * 16); WR(w, Z(*n) * 8); WR(z, Z(k) * Z(*ldz) * 16); WR(isz, Z(2 * k) * 4); WR(m, 4);
    if (fails("zheevr", *n)) { *info = 1; return; }
  }
  __real_zheevr_(jz, rg, ul, n, a, lda, vl, vu, il, iu, tol, m, w, z, ldz, isz, work, lwork, rwork, lrwork, iwork, liwork, info, PASS);
}
