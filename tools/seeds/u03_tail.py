id='u03-tail-of-idle-thread'; prop='U03'
edits=[('Utils.cpp','''    memset((char *)ptr + nBegin, c, nEnd - nBegin);''','''    if (nCacheLineBegin < nCacheLineEnd) { // threads may have nothing to do
      memset((char *)ptr + nBegin, c, nEnd - nBegin);
    }''')]
needs='a block with a tail after its last whole cache line and fewer cache lines than the last thread would need to get one'
breaks='the tail is left as it was'
threads=8
demo='''
#include <stdio.h>
#include <string.h>
#include <omp.h>
#include "Utils.hpp"
int main()
{
  static char buf[2048];
  omp_set_dynamic(0);
  for (int t = 1; t <= 8; ++t) for (int n = 0; n < 1500; ++n) {
    memset(buf, 1, sizeof buf);
    omp_set_num_threads(t);
    SpMP::parMemset(buf, 7, n);
    for (int i = 0; i < 2048; ++i) if (buf[i] != (i < n ? 7 : 1)) { printf("byte %d of %d, %d threads\\n", i, n, t); return 1; }
  }
  puts("ok");
  return 0;
}
'''
