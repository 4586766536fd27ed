id='u02-last-takes-rest'; prop='U02'
edits=[('Utils.cpp','''  *end = std::min(*begin + n_per_thread, n);
''','''  *end = tid == nthreads - 1 ? n : *begin + n_per_thread;
''')]
needs='a range that is shorter than the pieces of all threads but the last one, such as 7 items for 5 threads'
breaks='a piece of the range ends behind the range'
threads=8
demo='''
#include <stdio.h>
#include <omp.h>
#include "Utils.hpp"
int main()
{
  int bad = 0;
  omp_set_dynamic(0);
  for (int t = 1; t <= 9; ++t) for (int n = 0; n < 40; ++n) {
    int b[16], e[16], k = 0;
#pragma omp parallel num_threads(t)
    {
      int x, y;
      SpMP::getSimpleThreadPartition(&x, &y, n);
      b[omp_get_thread_num()] = x; e[omp_get_thread_num()] = y;
    }
    for (int i = 0; i < t; ++i) { if (b[i] != k || e[i] < b[i] || e[i] > n) bad = 1; k = e[i]; }
    if (k != n) bad = 1;
    if (bad) { printf("%d items for %d threads\\n", n, t); return 1; }
  }
  puts("ok");
  return 0;
}
'''
