id='f01-zero-based-rows'; prop='F01'
edits=[('COO.cpp','''    if (0 == x || 0 == y) base = 0;''','''    if (0 == x) base = 0;''')]
needs='a zero-based file in which the first row has no entry'
breaks='the file is taken for a one-based one, so that columns and rows are off by one'
demo='''
#include <stdio.h>
#include "COO.hpp"
using namespace SpMP;
int main()
{
  FILE *f = fopen("z.mtx", "w");
  fprintf(f, "%%%%MatrixMarket matrix coordinate real general\\n3 3 3\\n1 0 4\\n1 1 5\\n2 2 6\\n");
  fclose(f);
  COO c; bool sym = false;
  int bad = !loadMatrixMarket("z.mtx", c, sym, 1);
  static const int R[] = {2, 2, 3}, C[] = {1, 2, 3};
  if (!bad) for (int i = 0; i < 3; ++i) if (c.rowidx[i] != R[i] || c.colidx[i] != C[i]) bad = 1;
  puts(bad ? "another matrix" : "ok");
  return bad;
}
'''
