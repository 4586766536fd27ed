id='m02-pattern-upper-sort'; prop='M02'
edits=[('Permute.cpp','''          int k = j - 1;
          while (k >= diagptr[i] + 1 && colidx[k] > c) {
            colidx[k + 1] = colidx[k];
            --k;
          }''','''          int k = j - 1;
          while (k > diagptr[i] + 1 && colidx[k] > c) {
            colidx[k + 1] = colidx[k];
            --k;
          }''')]
needs='an in-place column permutation of a matrix that has diagonal pointers but no values, and a row in which the smallest of three new columns behind the diagonal comes later'
breaks='the part of the row behind the diagonal is not sorted, though it holds the right columns'
demo='''
#include <stdio.h>
#include "CSR.hpp"
using namespace SpMP;
int main()
{
  int rp[] = {0, 4, 5, 6, 7}, ci[] = {0, 1, 2, 3, 1, 2, 3}, perm[] = {0, 3, 2, 1};
  CSR A(4, 4, rp, ci, NULL);
  A.constructDiagPtr();
  A.permuteColsInPlace(perm);
  int bad = 0;
  for (int j = A.diagptr[0] + 2; j < rp[1]; ++j) if (ci[j] < ci[j - 1]) bad = 1;
  for (int c = 0; c < 4; ++c) { int k = 0; for (int j = 0; j < 4; ++j) k += ci[j] == c; if (k != 1) bad = 1; }
  puts(bad ? "not sorted" : "ok");
  return bad;
}
'''
