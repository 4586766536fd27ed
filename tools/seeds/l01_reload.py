id='l01-reload-leaks'; prop='L01'
edits=[('COO.cpp','''  coo.dealloc();
  coo.values = values;''','''  coo.values = values;''')]
needs='a triplet list that already holds a matrix when another one is loaded into it'
breaks='the arrays of the first matrix are lost'
demo='''
#include <stdio.h>
#include <malloc.h>
#include "COO.hpp"
using namespace SpMP;
static const int N = 3000;
int main()
{
  FILE *f = fopen("l.mtx", "w");
  fprintf(f, "%%%%MatrixMarket matrix coordinate real general\\n%d %d %d\\n", N, N, N);
  for (int i = 1; i <= N; ++i) fprintf(f, "%d %d 1\\n", i, i);
  fclose(f);
  COO c; bool sym = false;
  loadMatrixMarket("l.mtx", c, sym, 1);
  struct mallinfo2 a = mallinfo2();
  for (int k = 0; k < 50; ++k) loadMatrixMarket("l.mtx", c, sym, 1);
  struct mallinfo2 b = mallinfo2();
  long grown = (long)(b.uordblks + b.hblkhd) - (long)(a.uordblks + a.hblkhd);
  printf("%ld bytes\\n", grown);
  return grown > 20L*N;
}
'''
