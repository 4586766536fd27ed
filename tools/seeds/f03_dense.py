id='f03-dense-as-sparse'; prop='F03'
edits=[('COO.cpp','''  if (!mm_is_valid (matcode) || mm_is_array (matcode) || mm_is_dense (matcode) ) {''','''  if (!mm_is_valid (matcode)) {''')]
needs='a dense (array) file whose numbers can be read as the size line and the entries of a sparse one'
breaks='a dense file is loaded as a sparse matrix that has nothing to do with it'
demo='''
#include <stdio.h>
#include "COO.hpp"
using namespace SpMP;
int main()
{
  FILE *f = fopen("d.mtx", "w");
  fprintf(f, "%%%%MatrixMarket matrix array real general\\n6 1\\n1\\n1\\n1\\n1\\n1\\n3\\n");
  fclose(f);
  COO c; bool sym = false;
  if (loadMatrixMarket("d.mtx", c, sym, 1)) { printf("loaded as %d by %d with %d entries\\n", c.m, c.n, c.nnz); return 1; }
  puts("ok");
  return 0;
}
'''
