id='r01-twin-without-degree'; prop='R01'
edits=[('reordering/RCM.cpp','''      int u = colidx[rowptr[i] - base] - base;
      if (rowptr[u + 1] == rowptr[u] + 1 && colidx[rowptr[u] - base] - base == i) {''','''      int u = colidx[rowptr[i] - base] - base;
      if (colidx[rowptr[u] - base] - base == i) {''')]
needs='a matrix with rows that store no diagonal and a component, not the first one, whose smallest row has a single neighbour that has more'
breaks='the component is taken for a pair of rows and the rest of it never gets a position'
demo='''
#include <stdio.h>
#include <vector>
#include "CSR.hpp"
using namespace SpMP;
int main()
{
  // 0 - 1   2 - 3 - 4   5
  int rp[] = {0, 1, 2, 3, 5, 6, 6}, ci[] = {1, 0, 3, 2, 4, 3};
  double v[] = {1, 1, 1, 1, 1, 1};
  CSR A(6, 6, rp, ci, v);
  std::vector<int> p(6, -9), q(6, -9);
  A.getBFSPermutation(&p[0], &q[0]);
  int bad = 0;
  for (int i = 0; i < 6; ++i) if (p[i] < 0 || p[i] > 5 || q[p[i]] != i) bad = 1;
  puts(bad ? "no permutation" : "ok");
  return bad;
}
'''
