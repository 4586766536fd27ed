id='m05-minus-gamma'; prop='M05'
edits=[('SpMV.cpp','else if (-1 == alpha && 1 == beta && 0 == gamma) {','else if (-1 == alpha && 1 == beta) {')]
needs='a product with alpha = -1, beta = 1 and a non-zero constant gamma'
breaks='the residual fast path is taken although a constant has to be added, which is then dropped'
demo='''
#include <stdio.h>
#include "CSR.hpp"
using namespace SpMP;
int main()
{
  int rowptr[] = {0, 1, 2}, colidx[] = {0, 1}; double v[] = {2, 3};
  CSR A; A.m = A.n = 2; A.rowptr = rowptr; A.colidx = colidx; A.values = v;
  double x[] = {1, 1}, y[] = {10, 10}, w[2];
  A.multiplyWithVector(w, -1, x, 1, y, 5);
  printf("%g %g\\n", w[0], w[1]);
  return !(w[0] == 13 && w[1] == 12);
}
'''
