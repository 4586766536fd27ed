id='f04-coordinate-as-vector'; prop='F04'
edits=[('Vector.cpp','''  if (!mm_is_array(matcode)) {''','''  if (!mm_is_matrix(matcode)) {''')]
needs='a well-formed coordinate file given to the vector loader'
breaks='the coordinates of a sparse matrix are returned as the elements of a dense one'
demo='''
#include <stdio.h>
#include <stdlib.h>
#include "Vector.hpp"
using namespace SpMP;
int main()
{
  FILE *f = fopen("c.mtx", "w");
  fprintf(f, "%%%%MatrixMarket matrix coordinate real general\\n2 2 2\\n1 1 5\\n2 2 6\\n");
  fclose(f);
  double *v = NULL; int m = 0, n = 0;
  if (loadVectorMatrixMarket("c.mtx", &v, &m, &n)) { puts("loaded"); return 1; }
  puts("ok");
  return 0;
}
'''
