// user-side code around synk::ReduceBarrier and synk::LoadImba, instrumented like the library
#include <stdint.h>
#include <omp.h>
#include <xmmintrin.h>
#include "synk/reduce.hpp"
extern "C" void kr_bad(int tid, int k, unsigned long long got, unsigned long long want, const char *op);
extern "C" void kr_early(int tid, int k, int u);
extern "C" void kr_freeze(int on);
typedef uint64_t T;
static T sum_(T a, T b) { return a + b; }
static T max_(T a, T b) { return a > b ? a : b; }
static T min_(T a, T b) { return a < b ? a : b; }
// op: 0 sum (one decimal digit group per thread), 1 max (descending with the episode), 2 min
static T contribution(int op, int k, int tid, int n) {
  switch (op) {
  case 0: return (T)(k + 1) << ((n > 8 ? 4 : 8) * tid);
  case 1: return 1000 - 10 * k + (tid * 7 + k * 3) % n;
  default: return 1000 + 10 * k + (tid * 7 + k * 3) % n;
  }
}
static T expected(int op, int k, int n) {
  T r = contribution(op, k, 0, n);
  for (int t = 1; t < n; ++t) { T c = contribution(op, k, t, n); r = op == 0 ? r + c : op == 1 ? max_(r, c) : min_(r, c); }
  return r;
}
static void episodes_(synk::ReduceBarrier<T> *b, int tid, int n, int from, int to, int op, int *data) {
  T (*f)(T, T) = op == 0 ? sum_ : op == 1 ? max_ : min_;
  T zero = op == 2 ? ~(T)0 : 0;
  for (int k = from; k < to; ++k) {
    int o = op == 3 ? k % 3 : op;
    if (op == 3) { f = o == 0 ? sum_ : o == 1 ? max_ : min_; zero = o == 2 ? ~(T)0 : 0; }
    if (data) data[k * n + tid] = k + 1;
    T r = b->wait(tid, zero, contribution(o, k, tid, n), f);
    if (r != expected(o, k, n)) kr_bad(tid, k, r, expected(o, k, n), o == 0 ? "sum" : o == 1 ? "max" : "min");
    if (data) for (int u = 0; u < n; ++u) if (data[k * n + u] != k + 1) kr_early(tid, k, u);
  }
}
void kr_reduce(int cores, int tpc, int regions, int episodes, int op, bool freeze_init, int *data) {
  synk::ReduceBarrier<T> *b = new synk::ReduceBarrier<T>(cores, tpc);
  if (freeze_init) {
    kr_freeze(1);
#pragma omp parallel
    { b->init(omp_get_thread_num()); }
    kr_freeze(0);
  }
  for (int r = 0; r < regions; ++r) {
#pragma omp parallel
    {
      int tid = omp_get_thread_num(), n = omp_get_num_threads();
      if (!freeze_init && !r) b->init(tid);
      episodes_(b, tid, n, r * episodes, (r + 1) * episodes, op, data);
    }
  }
  delete b;
}
