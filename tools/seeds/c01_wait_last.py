id='c01-unrolled-wait'; prop='C01'
edits=[('LevelSchedule.hpp','''  for (int i = 0; i < n; ++i) \\
    while (!taskFinished[c[i]]) _mm_pause(); \\
''','''  int i = 0; \\
  for ( ; i + 4 <= n; i += 4) \\
    while (!taskFinished[c[i]] || !taskFinished[c[i + 1]] || !taskFinished[c[i + 2]]) _mm_pause(); \\
  for ( ; i < n; ++i) \\
    while (!taskFinished[c[i]]) _mm_pause(); \\
''')]
needs='a task with four parents, so at least five threads, the fourth parent being the last to finish'
breaks='the unrolled wait does not look at every fourth parent, so rows are read before they have their final value'
threads=5
demo='''
#include <stdio.h>
#include <unistd.h>
#include <omp.h>
#include <immintrin.h>
#include "LevelSchedule.hpp"
using namespace SpMP;
int main()
{
  omp_set_dynamic(0);
  int bad = 0;
  for (int late = 0; late < 4; ++late) {
    short nparents[5] = {0, 0, 0, 0, 4};
    int list[4] = {0, 1, 2, 3};
    int *parents[5] = {list, list, list, list, list};
    volatile int taskFinished[5] = {0, 0, 0, 0, 0};
    volatile int x = 0;
    int got = -1;
#pragma omp parallel num_threads(5)
    {
      int task = omp_get_thread_num();
      if (task == 4) {
        SPMP_LEVEL_SCHEDULE_WAIT;
        got = x;
      }
      else {
        if (task == late) { usleep(200000); x = 1; }
        SPMP_LEVEL_SCHEDULE_NOTIFY;
      }
    }
    if (got != 1) bad = 1;
  }
  printf("%s\\n", bad ? "read too early" : "ok");
  return bad;
}
'''
