id='m08-width-from-diagonal'; prop='M08'
edits=[('CSR.cpp','''        int min_row = INT_MAX, max_row = INT_MIN;''','''        int min_row = i, max_row = i;''')]
needs='a row all of whose entries lie on one side of the diagonal'
breaks='the width of such a row is measured from the diagonal instead of from its first or to its last entry'
demo='''
#include <stdio.h>
#include "CSR.hpp"
using namespace SpMP;
int main()
{
  int rp[] = {0, 2, 3}, ci[] = {1, 3, 0}; double v[] = {1, 2, 3};
  CSR A(2, 4, rp, ci, v);
  int bad = A.getAverageWidth(false) != 1 || A.getAverageWidth(true) != 1;
  puts(bad ? "another width" : "ok");
  return bad;
}
'''
