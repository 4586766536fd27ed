id='m07-row-number'; prop='M07'
edits=[('Laplacian.cpp','''        int row = (iz*ny + iy)*nx + ix;
        int idx = A->rowptr[row];
''','''        int row = (iz*nx + iy)*ny + ix;
        int idx = A->rowptr[row];
''')]
needs='a grid whose extents in x and y differ'
breaks='the entries of a grid point are stored in the row of another one'
demo='''
#include <stdio.h>
#include "CSR.hpp"
using namespace SpMP;
int main()
{
  CSR A;
  generate3D27PtLaplacian(&A, 2, 4, 3);
  int bad = A.m != 24;
  for (int i = 0; i < 24 && !bad; ++i) {
    int x = i%2, y = i/2%4, z = i/8, k = A.rowptr[i];
    for (int j = 0; j < 24; ++j) {
      int dx = j%2 - x, dy = j/2%4 - y, dz = j/8 - z;
      if (dx*dx > 1 || dy*dy > 1 || dz*dz > 1) continue;
      if (k >= A.rowptr[i + 1] || A.colidx[k] != j || A.values[k] != (i == j ? 26 : -1)) { bad = 1; break; }
      ++k;
    }
    if (k != A.rowptr[i + 1] || A.colidx[A.diagptr[i]] != i) bad = 1;
  }
  puts(bad ? "another operator" : "ok");
  return bad;
}
'''
srcs='*.cpp reordering/*.cpp synk/barrier.cpp synk/synk.cpp'
