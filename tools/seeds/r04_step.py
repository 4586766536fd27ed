id='r04-one-step-to-root'; prop='R04'
edits=[('reordering/ConnectedComponents.cpp','''    int r = ii;
    while (p[r] != r) {
      r = p[r];
      assert(!WITH_BIT_VECTOR || !bv->get(r));
    }
    p[ii] = r;''','''    // parents have smaller ids, hence have been compressed before
    int r = p[ii];
    if (p[r] != r) {
      r = p[r];
      assert(!WITH_BIT_VECTOR || !bv->get(r));
    }
    p[ii] = r;''')]
needs='a component that spans the rows of several threads, and a thread that follows a parent of another thread before that one has been compressed'
breaks='a row keeps a parent that is not the root of its component and is counted in no component'
threads=8
demo='''
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <vector>
#include "CSR.hpp"
using namespace SpMP;
namespace SpMP { void findConnectedComponents(const CSR *A, int *numOfComponents, int **compToRoot, int **compSizes, int **compSizePrefixSum, int **nodesSortedByComp); }
int main()
{
  int n = 8*200000;
  std::vector<int> rp(n + 1), ci;
  for (int i = 0; i < n; ++i) { if (i > 1) ci.push_back(i - 1); if (i && i + 1 < n) ci.push_back(i + 1); rp[i + 1] = ci.size(); }
  std::vector<double> v(ci.size(), 1);
  CSR A(n, n, &rp[0], &ci[0], &v[0]);
  alarm(100);
  for (int it = 0; it < 30; ++it) {
    int nc = -1, *root, *size, *pre, *nodes;
    findConnectedComponents(&A, &nc, &root, &size, &pre, &nodes);
    if (nc != 2 || root[0] != 0 || root[1] != 1 || size[0] != 1 || size[1] != n - 1) { printf("%d components, the first has %d of %d rows\\n", nc, size[0], n); return 1; }
    for (int i = 0; i < n; ++i) if (nodes[i] != i) { printf("row %d at %d\\n", nodes[i], i); return 1; }
    delete[] root; delete[] size; delete[] pre; delete[] nodes;
  }
  puts("ok");
  return 0;
}
'''
