id='u01-empty-is-wrapped'; prop='U01'
edits=[('MemoryPool.cpp','''  if (tail_ >= head_) { // not wrapped around
    if (end < sz) { // wrap around''','''  if (tail_ > head_ || head_ == 0) { // not wrapped around
    if (end < sz) { // wrap around''')]
needs='a pool used as a queue that has become empty somewhere in the middle, followed by a front request that does not fit below that point'
breaks='the empty pool is taken for a full one, and the front block is placed before the start of the buffer'
demo='''
#include <stdio.h>
#include "MemoryPool.hpp"
using namespace SpMP;
int main()
{
  MemoryPool p(1 << 20);
  char *b = (char *)p.allocate(128);
  p.setHead(p.getTail()); // the block is gone
  char *f = (char *)p.allocateFront(4096);
  int bad = f < b || f + 4096 > b + (1 << 20);
  puts(bad ? "outside the buffer" : "ok");
  return bad;
}
'''
