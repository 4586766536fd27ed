id='m01-pattern-order'; prop='M01'
edits=[('CSR.cpp','''  else {
    for (i = iEnd - 1; i >= iBegin; --i) {
      for (j = rowptr[i + 1] - 1; j >= rowptr[i]; --j) {''','''  else {
    for (i = iBegin; i < iEnd; ++i) {
      for (j = rowptr[i]; j < rowptr[i + 1]; ++j) {''')]
needs='transposing a matrix without stored values in which one thread owns two rows that share a column'
breaks='rows of the transpose of a pattern-only matrix are not sorted any more'
demo='''
#include <stdio.h>
#include "CSR.hpp"
using namespace SpMP;
int main()
{
  int rowptr[] = {0, 2, 4, 5, 7}, colidx[] = {0, 2, 0, 1, 2, 0, 3};
  CSR A; A.m = A.n = 4; A.rowptr = rowptr; A.colidx = colidx;
  omp_set_num_threads(2);
  CSR *T = A.transpose();
  int bad = 0;
  for (int i = 0; i < 4; ++i)
    for (int j = T->rowptr[i] + 1; j < T->rowptr[i + 1]; ++j)
      if (T->colidx[j - 1] >= T->colidx[j]) bad = 1;
  printf("%s\\n", bad ? "unsorted" : "ok");
  return bad;
}
'''
