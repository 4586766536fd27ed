id='u04-two-winners'; prop='U04'
edits=[('reordering/BitVector.hpp','''      BitVectorType prev = __sync_fetch_and_or(bv_ + getIndexOf_(i), mask);
      return !(prev & mask);''','''      __sync_fetch_and_or(bv_ + getIndexOf_(i), mask);
      return true; // it was clear''')]
needs='two threads that both see a bit clear before either has set it'
breaks='both threads are told that they have set the bit'
threads=8
demo='''
#include <stdio.h>
#include <omp.h>
#include "reordering/BitVector.hpp"
using namespace SpMP;
int main()
{
  int n = 1 << 15, bad = 0;
  omp_set_dynamic(0);
  for (int it = 0; it < 200 && !bad; ++it) {
    BitVector b(n);
    long won = 0;
#pragma omp parallel num_threads(4) reduction(+:won)
    {
      for (int k = 0; k < n; k += 4096) {
#pragma omp barrier
        for (int i = k; i < k + 4096; ++i) won += b.testAndSet(i);
      }
    }
    if (won != n) { printf("%ld winners for %d bits\\n", won, n); bad = 1; }
  }
  if (!bad) puts("ok");
  return bad;
}
'''
