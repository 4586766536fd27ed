// user-side sweeps, written like the kernels of test/gs_test.cpp, compiled with the same instrumentation as the
// library.  Values are combined modulo 2^64 so that every stale or early read changes the result.
#include <omp.h>
#include <stdint.h>
#include <xmmintrin.h>
#include <string.h>
#include <algorithm>
#include "CSR.hpp"
#include "LevelSchedule.hpp"
#include "synk/barrier.hpp"
using namespace SpMP;
using namespace std;
typedef uint64_t V;
static inline V mixv(V x) { x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32; return x; }

static inline void row_(const CSR &A, int base, V *y, const V *b, int row) {
  V sum = b[row];
  for (int j = A.rowptr[row] - base; j < A.rowptr[row + 1] - base; ++j) {
    int c = A.colidx[j] - base;
    if (c < A.m) sum += (V)A.values[j] * y[c];
  }
  y[row] = mixv(sum);
}
static void head_(const LevelSchedule &s, int tid, int nthreads) {
  int n = s.ntasks, per = (n + nthreads - 1) / nthreads;
  int b = min(per * tid, n), e = min(b + per, n);
  memset((char *)(s.taskFinished + b), 0, (e - b) * sizeof(int));
  synk::Barrier::getInstance()->wait(tid);
}
// mode 0: barrier, 1: point to point.  perm == NULL: reordered matrix
static void sweep_(const CSR &A, int base, V *y, const V *b, const LevelSchedule &schedule, const int *perm, bool backward, bool p2p, int tid, int nthreads) {
  const vector<int> &threadBoundaries = schedule.threadBoundaries;
  const vector<int> &taskBoundaries = schedule.taskBoundaries;
  if (p2p) {
    head_(schedule, tid, nthreads);
    const short *nparents = backward ? schedule.nparentsBackward : schedule.nparentsForward;
    int **parents = backward ? schedule.parentsBackward : schedule.parentsForward;
    volatile int *taskFinished = schedule.taskFinished;
    if (!backward)
      for (int task = threadBoundaries[tid]; task < threadBoundaries[tid + 1]; ++task) {
        SPMP_LEVEL_SCHEDULE_WAIT;
        for (int i = taskBoundaries[task]; i < taskBoundaries[task + 1]; ++i) row_(A, base, y, b, perm ? perm[i] : i);
        SPMP_LEVEL_SCHEDULE_NOTIFY;
      }
    else
      for (int task = threadBoundaries[tid + 1] - 1; task >= threadBoundaries[tid]; --task) {
        SPMP_LEVEL_SCHEDULE_WAIT;
        for (int i = taskBoundaries[task + 1] - 1; i >= taskBoundaries[task]; --i) row_(A, base, y, b, perm ? perm[i] : i);
        SPMP_LEVEL_SCHEDULE_NOTIFY;
      }
  } else {
    if (!backward)
      for (int task = threadBoundaries[tid]; task < threadBoundaries[tid + 1]; ++task) {
        for (int i = taskBoundaries[task]; i < taskBoundaries[task + 1]; ++i) row_(A, base, y, b, perm ? perm[i] : i);
        synk::Barrier::getInstance()->wait(tid);
      }
    else
      for (int task = threadBoundaries[tid + 1] - 1; task >= threadBoundaries[tid]; --task) {
        for (int i = taskBoundaries[task + 1] - 1; i >= taskBoundaries[task]; --i) row_(A, base, y, b, perm ? perm[i] : i);
        synk::Barrier::getInstance()->wait(tid);
      }
  }
}
// dirs: bit k set = k-th sweep goes backward
void ks_sweeps(const CSR &A, int base, V *y, const V *b, const LevelSchedule &s, const int *perm, int nsweeps, int dirs, bool p2p) {
  for (int k = 0; k < nsweeps; ++k) {
#pragma omp parallel
    sweep_(A, base, y, b, s, perm, dirs >> k & 1, p2p, omp_get_thread_num(), omp_get_num_threads());
  }
}
// several sweeps inside one parallel region, separated by the barrier
void ks_sweeps_one_region(const CSR &A, int base, V *y, const V *b, const LevelSchedule &s, const int *perm, int nsweeps, int dirs, bool p2p) {
#pragma omp parallel
  {
    int tid = omp_get_thread_num(), n = omp_get_num_threads();
    for (int k = 0; k < nsweeps; ++k) {
      if (k) synk::Barrier::getInstance()->wait(tid);
      sweep_(A, base, y, b, s, perm, dirs >> k & 1, p2p, tid, n);
    }
  }
}
// the sequential sweep
void ks_reference(const CSR &A, int base, V *y, const V *b, int nsweeps, int dirs) {
  for (int k = 0; k < nsweeps; ++k)
    if (!(dirs >> k & 1)) for (int i = 0; i < A.m; ++i) row_(A, base, y, b, i);
    else for (int i = A.m - 1; i >= 0; --i) row_(A, base, y, b, i);
}
// backward sweep followed, without a barrier, by a product with the result, task by task (the fused schedule)
void ks_fused(const CSR &A, int base, V *y, const V *b, V *w, const LevelSchedule &schedule, const FusedGSAndSpMVSchedule &f, const int *perm) {
#pragma omp parallel
  {
    int tid = omp_get_thread_num(), n = omp_get_num_threads();
    sweep_(A, base, y, b, schedule, perm, true, true, tid, n);
    volatile int *taskFinished = schedule.taskFinished;
    const short *nparents = f.nparents;
    int **parents = f.parents;
    for (int task = schedule.threadBoundaries[tid + 1] - 1; task >= schedule.threadBoundaries[tid]; --task) {
      SPMP_LEVEL_SCHEDULE_WAIT;
      for (int i = schedule.taskBoundaries[task]; i < schedule.taskBoundaries[task + 1]; ++i) {
        int row = perm ? perm[i] : i;
        V sum = 0;
        for (int j = A.rowptr[row] - base; j < A.rowptr[row + 1] - base; ++j) {
          int c = A.colidx[j] - base;
          if (c < A.m) sum += (V)A.values[j] * y[c];
        }
        w[row] = sum;
      }
    }
  }
}
