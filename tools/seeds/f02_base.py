id='f02-count-of-one-based'; prop='F02'
edits=[('CSR.cpp','''  fprintf(fp, "%d %d %d\\n", m, n, rowptr[m] - base);''','''  fprintf(fp, "%d %d %d\\n", m, n, rowptr[m]);''')]
needs='a matrix in one-based indexing that is stored as text'
breaks='the header announces one entry too many, so that the file cannot be read again'
demo='''
#include <stdio.h>
#include "CSR.hpp"
#include "COO.hpp"
using namespace SpMP;
int main()
{
  int rp[] = {1, 2, 4}, ci[] = {1, 1, 2}; double v[] = {1, 2, 3};
  CSR A(2, 2, rp, ci, v);
  A.storeMatrixMarket("s.mtx");
  COO c; bool sym = false;
  int bad = !loadMatrixMarket("s.mtx", c, sym, 1);
  if (!bad) bad = c.nnz != 3 || c.m != 2 || c.n != 2;
  puts(bad ? "cannot be read again" : "ok");
  return bad;
}
'''
