// user-side code around the work-sharing helpers, instrumented like the library
#include <omp.h>
#include <cstdlib>
#include "Utils.hpp"
extern "C" void ku_piece(int tid, int b, int e);
extern "C" void ku_bad(int tid, int k, int i, int got, int want, const char *what);
void ku_simple(int n, int *bb, int *ee) {
#pragma omp parallel
  { int b = -77, e = -77; SpMP::getSimpleThreadPartition(&b, &e, n); bb[omp_get_thread_num()] = b; ee[omp_get_thread_num()] = e; }
}
void ku_balanced(const int *ps, int n, int *bb, int *ee) {
#pragma omp parallel
  { int b = -77, e = -77; SpMP::getLoadBalancedPartition(&b, &e, ps, n); bb[omp_get_thread_num()] = b; ee[omp_get_thread_num()] = e; }
}
// calls rounds times in one region; in[(k*n + t)*w + i]: contribution i of thread t in round k
void ku_prefix(int rounds, int w, bool multiple, const int *in, int *workspace) {
  int *shared_sum = (int *)malloc(w * sizeof(int)); // exactly as long as documented
#pragma omp parallel
  {
    int tid = omp_get_thread_num(), n = omp_get_num_threads();
    int *v = (int *)malloc(w * sizeof(int));
    for (int k = 0; k < rounds; ++k) {
      for (int i = 0; i < w; ++i) v[i] = in[(k * n + tid) * w + i];
      int *sum = shared_sum;
      if (multiple) SpMP::prefixSumMultiple(v, sum, w, workspace); else SpMP::prefixSum(v, sum, workspace);
      for (int i = 0; i < w; ++i) {
        int want = 0, all = 0;
        for (int t = 0; t < n; ++t) { if (t < tid) want += in[(k * n + t) * w + i]; all += in[(k * n + t) * w + i]; }
        if (v[i] != want) ku_bad(tid, k, i, v[i], want, "exclusive sum");
        if (sum[i] != all) ku_bad(tid, k, i, sum[i], all, "total");
      }
    }
  }
}
void ku_parmemset_inside(void *p, int c, size_t n, void *q) {
#pragma omp parallel
  {
#pragma omp master
    SpMP::parMemset(p, c, n);
#pragma omp barrier
#pragma omp master
    SpMP::parMemcpy(q, p, n);
  }
}
void ku_copy(double *out, const double *in, int len) { SpMP::copyVector(out, in, len); }
void ku_copyi(int *out, const int *in, int len) { SpMP::copyVector(out, in, len); }
bool ku_check(const double *e, const double *a, int n, double tol, double ign) { return SpMP::correctnessCheck(e, a, n, tol, ign); }
bool ku_check_default(const double *e, const double *a, int n) { return SpMP::correctnessCheck(e, a, n); }
