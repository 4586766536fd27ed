id='m04-ext-of-neighbour'; prop='M04'
edits=[('SymGS.cpp','''      U->extptr[iEnd - 1] =
        rowPtrPartialSum[1][tid + 1] - (A.rowptr[iEnd] - extptr[iEnd - 1]);''','''      U->extptr[iEnd - 1] =
        U->rowptr[iEnd] - (A.rowptr[iEnd] - extptr[iEnd - 1]);''')]
needs='a matrix with non-local columns, several threads, and a thread that gets to the end of its rows before the next one has started with its own'
breaks='the start of the non-local columns of the last row of a thread is computed from a row pointer that the next thread has not shifted yet'
threads=8
demo='''
#include <stdio.h>
#include <stdlib.h>
#include <vector>
#include <omp.h>
#include "CSR.hpp"
using namespace SpMP;
namespace SpMP { void splitLU(CSR& A, CSR *L, CSR *U); }
int main()
{
  omp_set_dynamic(0);
  for (int it = 0; it < 4000; ++it) {
    int n = 8 + it%9; // one or two rows per thread, each with the diagonal, a next row and two remote columns
    std::vector<int> rp(n + 1), ci, ext; std::vector<double> v;
    for (int i = 0; i < n; ++i) {
      ci.push_back(i); if (i + 1 < n) ci.push_back(i + 1);
      ext.push_back(ci.size());
      ci.push_back(n); ci.push_back(n + 1);
      rp[i + 1] = ci.size();
    }
    v.assign(ci.size(), 2);
    CSR A(n, n + 2, &rp[0], &ci[0], &v[0]);
    std::vector<double> id(n, 0.5);
    std::vector<int> dp(rp.begin(), rp.end() - 1);
    A.extptr = &ext[0]; A.idiag = &id[0]; A.diagptr = &dp[0];
    CSR L, U;
    splitLU(A, &L, &U);
    for (int i = 0; i < n; ++i) if (U.extptr[i] != U.rowptr[i + 1] - 2) { printf("row %d of %d: non-local columns start at %d, not %d\\n", i, n, U.extptr[i], U.rowptr[i + 1] - 2); exit(1); }
    A.extptr = NULL; A.idiag = NULL; A.diagptr = NULL;
  }
  puts("ok");
  return 0;
}
'''
