id='r02-publish-before-placing'; prop='R02'
edits=[('reordering/RCM.cpp','''          int w = write_offset[16*(l + 1)];
          for (int i = 0; i < childrenIdx; ++i) {
            int c = children[i];
            int idx = m - (w + i) - 1;
            inversePerm[idx] = c;
            perm[c] = idx;
            write_offset[16*(l + 1)] = w + i + 1;
          }''','''          int w = write_offset[16*(l + 1)];
          write_offset[16*(l + 1)] = w + childrenIdx; // once for all of them
          for (int i = 0; i < childrenIdx; ++i) {
            int c = children[i];
            int idx = m - (w + i) - 1;
            inversePerm[idx] = c;
            perm[c] = idx;
          }''')]
needs='a component of at least 65536 rows, and the thread of the next level has to read a position between its announcement and its placement'
breaks='the thread of the next level takes a row from a position that has not been written yet'
threads=8
demo='''
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <vector>
#include <algorithm>
#include "CSR.hpp"
using namespace SpMP;
static int *perm; static long lo, len;
// the first store into a page that is not there takes long
static void slow(int, siginfo_t *i, void *)
{
  char *a = (char *)i->si_addr, *b = (char *)perm + lo;
  if (a < b || a >= b + len) _exit(3);
  usleep(300000);
  mprotect(b, len, PROT_READ | PROT_WRITE);
}
int main()
{
  // a row with 70000 neighbours, each of which has a further one when its number is a multiple of 5
  int fan = 70000, more = fan/5, n = 1 + fan + more;
  std::vector<std::vector<int> > adj(n);
  for (int i = 0; i < n; ++i) adj[i].push_back(i);
  for (int i = 1; i <= fan; ++i) { adj[0].push_back(i); adj[i].push_back(0); }
  for (int i = 0; i < more; ++i) { int p = 5*i + 5, c = 1 + fan + i; adj[p].push_back(c); adj[c].push_back(p); }
  std::vector<int> rp(n + 1), ci;
  for (int i = 0; i < n; ++i) { std::sort(adj[i].begin(), adj[i].end()); ci.insert(ci.end(), adj[i].begin(), adj[i].end()); rp[i + 1] = ci.size(); }
  std::vector<double> v(ci.size(), 1);
  CSR A(n, n, &rp[0], &ci[0], &v[0]);
  long bytes = (n*sizeof(int) + 4095)/4096*4096;
  perm = (int *)mmap(NULL, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  lo = 4096; len = fan*sizeof(int)/4096*4096 - 4096;
  mprotect((char *)perm + lo, len, PROT_NONE);
  struct sigaction sa = {}; sa.sa_sigaction = slow; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, NULL);
  std::vector<int> q(n, 1);
  alarm(60);
  A.getRCMPermutation(perm, &q[0], false);
  for (int i = 0; i < n; ++i) if (perm[i] < 0 || perm[i] >= n || q[perm[i]] != i) { puts("no permutation"); return 1; }
  puts("ok");
  return 0;
}
'''
