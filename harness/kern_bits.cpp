// user-side code around the bit vector, instrumented like the library
#include <omp.h>
#include "reordering/BitVector.hpp"
extern "C" void ku_ret(int tid, int k, int what);
extern "C" void ku_call(int tid, int k);
void kbits_run(int n, int preset, int len, const int *prog, int *final) {
  SpMP::BitVector v(n);
  for (int i = 0; i < n; ++i) if (preset >> i & 1) v.set(i);
#pragma omp parallel
  {
    int tid = omp_get_thread_num();
    for (int k = 0; k < len; ++k) {
      int op = prog[tid * len + k] & 7, i = prog[tid * len + k] >> 3, r = 0;
      ku_call(tid, k);
      switch (op) {
      case 0: r = v.get(i) ? 1 : 0; break;
      case 1: r = v.testAndSet(i) ? 1 : 0; break;
      case 2: v.atomicClear(i); break;
      case 3: v.set(i); break;
      }
      ku_ret(tid, k, r);
    }
  }
  for (int i = 0; i < n; ++i) final[i] = v.get(i);
}
