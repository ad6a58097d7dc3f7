/* calls every Fortran entry point with random arguments; every C operation is replaced by a recorder */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
struct W { const char *name; void *f; int idx, canon; const char *sp, *ex; };
static int ncall, cidx, cret; static long cargs[16];
static int rec(int i, long *a);
static int nargs_of(int i);
#include "gen.h"
static unsigned long long rs; static unsigned rnd(void) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return rs >> 33; }
static int *idxp, *cntp, *arrp, cap; static int want[64], wantn; static int wide[16];
static int rec(int i, long *a) {
  int k, n = 0; for (k = 0; k < sizeof WR / sizeof *WR; k++) if (WR[k].idx == i || WR[k].canon == i) { n = strlen(WR[k].sp); break; }
  ncall++; cidx = i; for (k = 0; k < n && k < 16; k++) cargs[k] = a[k];
  cret = (int)rnd();
  if (idxp) { *idxp = rnd() % 3 ? (int)(rnd() % 50) : -1; want[0] = *idxp == -1 ? -1 : *idxp + 1; }
  if (cntp) { int c = rnd() % 4 ? (int)(rnd() % (cap + 1)) : -1; *cntp = c; wantn = c; for (k = 0; k < cap; k++) { arrp[k] = rnd() % 99; want[k] = k < c ? arrp[k] + 1 : arrp[k]; } }
  return cret;
}
void mpi_save_fort_pointers_(int *, int *, int *);
void mpi_get_fort_pointers_(void) {}
int main(int ac, char **av) {
  long it = 0; time_t t0 = time(0); rs = atoi(av[1]) * 77 + 5; int secs = atoi(av[2]) < 3 ? atoi(av[2]) : 3, k, i;
  static int si[4], ss[4], ip[1]; mpi_save_fort_pointers_(si, ss, ip);
  for (; time(0) - t0 < secs && it < 300; it++) for (i = 0; i < sizeof WR / sizeof *WR; i++) {
    struct W *w = &WR[i]; int n = strlen(w->sp); void *p[16]; unsigned char old[16][128]; int sz[16]; long exp[16]; char spe[16]; int isw[16];
    printf("%s(", w->name);
    for (k = 0; k < n; k++) { char c = w->sp[k]; sz[k] = c == 'v' ? 4 : c == 'w' ? 8 : 64; int b; p[k] = malloc(sz[k]); for (b = 0; b < sz[k]; b++) ((unsigned char *)p[k])[b] = rnd() % 5 ? rnd() : 0; spe[k] = 0;
      if (c == 'v') exp[k] = *(int *)p[k]; else if (c == 'w') exp[k] = *(long *)p[k]; else { exp[k] = (long)p[k]; int m = rnd() % 4;
        if (m < 3 && (c == 's' || c == 'S' || c == 'i')) { void *q = m == 0 ? (void *)si : m == 1 ? (void *)ss : (void *)ip; long e = (long)q; if (c == 's' && m == 0) e = 0; if (c == 'S' && m == 1) e = 0; if (c == 'i' && m == 2) e = -1; p[k] = q; sz[k] = 0; exp[k] = e; spe[k] = 1; printf("%s ", m == 0 ? "MPI_STATUS_IGNORE" : m == 1 ? "MPI_STATUSES_IGNORE" : "MPI_IN_PLACE"); } }
      if (!spe[k]) { if (c == 'v') printf("%ld ", exp[k]); else printf("%p ", p[k]); }
    }
    int ierr[2] = {0x1234567, 0x7654321}; idxp = cntp = arrp = 0; int adj[16] = {0};
    if (!strncmp(w->ex, "index=", 6)) { int q = atoi(w->ex + 6); idxp = p[q]; adj[q] = 1; }
    if (!strncmp(w->ex, "some=", 5)) { int q = w->ex[5] - '0', r = w->ex[7] - '0'; cap = rnd() % 6; *(int *)p[0] = cap; exp[0] = cap; cntp = p[q]; arrp = p[r]; adj[q] = adj[r] = 1; }
    printf(")\n");
    for (k = 0; k < n; k++) memcpy(old[k], p[k], sz[k]);
    ncall = 0; void *a[16]; for (k = 0; k < n; k++) a[k] = p[k]; a[n] = ierr; for (k = n + 1; k < 16; k++) a[k] = 0;
    typedef int (*F)(void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *);
    fflush(stdout);
    ((F)w->f)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]);
#define BAD(...) do { printf("\n%s: ", w->name); printf(__VA_ARGS__); printf("\n"); fflush(stdout); return 1; } while (0)
    if (ncall != 1) BAD("%d C operations performed instead of one", ncall);
    if (cidx != w->idx && cidx != w->canon) BAD("performs %s", NAMES[cidx]);
    for (k = 0; k < n; k++) if (w->sp[k] == 'v' ? (int)cargs[k] != (int)exp[k] : cargs[k] != exp[k]) BAD("argument %d of %s is %ld, want %ld", k + 1, NAMES[cidx], w->sp[k] == 'v' ? (long)(int)cargs[k] : cargs[k], exp[k]);
    if (ierr[0] != cret) BAD("the error argument is %d, the operation returned %d", ierr[0], cret);
    if (ierr[1] != 0x7654321) BAD("memory behind the error argument written");
    for (k = 0; k < n; k++) if (sz[k] && !adj[k] && memcmp(old[k], p[k], sz[k])) BAD("argument %d changed", k + 1);
    if (idxp && *idxp != want[0]) BAD("index is %d, want %d", *idxp, want[0]);
    if (cntp) { if (*cntp != wantn) BAD("count is %d, want %d", *cntp, wantn); for (k = 0; k < cap; k++) if (arrp[k] != want[k]) BAD("array element %d is %d, want %d (count %d)", k, arrp[k], want[k], wantn); }
    for (k = 0; k < n; k++) if (!spe[k]) free(p[k]);
  }
  return 0;
}
