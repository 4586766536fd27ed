id='r03-empty-column'; prop='R03'
edits=[('reordering/BFSBipartite.cpp','''        colInversePerm[colPermIdx] = i;
        colPerm[i] = colPermIdx;
        ++colPermIdx;''','''        colInversePerm[colPermIdx++] = i;''')]
needs='a matrix with an empty column'
breaks='the column permutation is not set for empty columns'
demo='''
#include <stdio.h>
#include <vector>
#include "CSR.hpp"
using namespace SpMP;
extern "C" void bfsBipartite(SpMP::CSR& A, SpMP::CSR& AT, int *rowPerm, int *rowInversePerm, int *colPerm, int *colInversePerm);
int main()
{
  int rp[] = {0, 2, 3}, ci[] = {0, 2, 3}; double v[] = {1, 2, 3};
  CSR A(2, 4, rp, ci, v);
  CSR *T = A.transpose();
  std::vector<int> p(2, -5), q(2, -5), c(4, -5), d(4, -5);
  bfsBipartite(A, *T, &p[0], &q[0], &c[0], &d[0]);
  int bad = 0;
  for (int i = 0; i < 2; ++i) bad |= p[i] < 0 || p[i] > 1 || q[p[i]] != i;
  for (int i = 0; i < 4; ++i) bad |= c[i] < 0 || c[i] > 3 || d[c[i]] != i;
  puts(bad ? "no permutation" : "ok");
  return bad;
}
'''
