id='m06-sort-one-based'; prop='M06'
edits=[('COO.cpp','''      qsort(colidx, values, rowptr[i] - outBase, rowptr[i+1] - 1 - outBase);''','''      qsort(colidx, values, rowptr[i] - outBase, rowptr[i+1] - 1);''')]
needs='a conversion to one-based indexing, and a row that begins with a smaller column than the row before ends with'
breaks='the first entry of the next row is sorted into a row'
threads=1
demo='''
#include <stdio.h>
#include "COO.hpp"
#include "CSR.hpp"
using namespace SpMP;
int main()
{
  COO c;
  static int r[] = {1, 1, 2, 2, 3}, k[] = {3, 2, 1, 3, 2}; static double v[] = {1, 2, 3, 4, 5};
  int rp[4], ci[8] = {-1, -1, -1, -1, -1, 0, 0, 0}; double va[8] = {0};
  dcoo2csr(3, 5, rp, ci, va, r, k, v, true, 1);
  static const int RP[] = {1, 3, 5, 6}, CI[] = {2, 3, 1, 3, 2}; static const double VA[] = {2, 1, 3, 4, 5};
  int bad = 0;
  for (int i = 0; i < 4; ++i) bad |= rp[i] != RP[i];
  for (int i = 0; i < 5; ++i) bad |= ci[i] != CI[i] || va[i] != VA[i];
  puts(bad ? "another matrix" : "ok");
  return bad;
}
'''
