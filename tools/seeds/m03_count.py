id='m03-unlocked-count'; prop='M03'
edits=[('SymGS.cpp','''            int cnt = __sync_fetch_and_add(cnts + c, 1);
            (*symColIdx)[(*symRowPtr)[c] + cnt] = i;''','''            int cnt = cnts[c]++;
            (*symColIdx)[(*symRowPtr)[c] + cnt] = i;''')]
needs='a non-symmetric pattern in which rows of two threads lack the mirror entry in the same row, appended at the same time'
breaks='two threads append to the same place of a row, and one of the entries is lost'
threads=8
demo='''
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <vector>
#include "CSR.hpp"
using namespace SpMP;
namespace SpMP { bool getSymmetricNnzPattern(const CSR *A, int **symRowPtr, int **symDiagPtr, int **symExtPtr, int **symColIdx); }
int main()
{
  int n = 400000; // every row refers to row 0, which refers to itself only
  std::vector<int> rp(n + 1), ci;
  for (int i = 0; i < n; ++i) { ci.push_back(0); if (i) ci.push_back(i); rp[i + 1] = ci.size(); }
  std::vector<double> v(ci.size(), 1);
  CSR A(n, n, &rp[0], &ci[0], &v[0]);
  for (int it = 0; it < 5; ++it) {
    int *r = NULL, *d = NULL, *e = NULL, *c = NULL;
    if (getSymmetricNnzPattern(&A, &r, &d, &e, &c)) { puts("not symmetric"); return 1; }
    if (r[1] - r[0] != n) { puts("row 0 too short"); return 1; }
    for (int i = 0; i < n; ++i) if (c[i] != i) { printf("entry %d of row 0 is %d\\n", i, c[i]); return 1; }
  }
  puts("ok");
  return 0;
}
'''
