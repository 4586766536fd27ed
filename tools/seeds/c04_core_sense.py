id='c04-core-sense-early'; prop='C04'
edits=[('synk/barrier.cpp','''        /* sync with other cores */
        if (numCores > 1) {''','''        /* wake up the core's remaining threads */
        bar->coreSense = bar->threadSenses[0];

        /* sync with other cores */
        if (numCores > 1) {'''),
('synk/barrier.cpp','''            bar->parity = 1-bar->parity;
        }

        /* wake up the core's remaining threads */
        bar->coreSense = bar->threadSenses[0];
    }
''','''            bar->parity = 1-bar->parity;
        }
    }
''')]
needs='a barrier with at least two cores and at least two threads per core, one thread of another core arriving late'
breaks='the secondary threads of a core are released once their own core has arrived, before the other cores have'
demo='''
#include <stdio.h>
#include <unistd.h>
#include <omp.h>
#include "synk/barrier.hpp"
int main()
{
  volatile int arrived = 0, bad = 0;
  omp_set_dynamic(0);
  synk::Barrier::initializeInstance(2, 2);
#pragma omp parallel num_threads(4)
  {
    int tid = omp_get_thread_num();
    for (int e = 0; e < 5; ++e) {
#pragma omp barrier
      if (tid == 3) { usleep(100000); arrived = e + 1; }
      synk::Barrier::getInstance()->wait(tid);
      if (arrived < e + 1) bad = 1;
#pragma omp barrier
    }
  }
  printf("%s\\n", bad ? "released early" : "ok");
  return bad;
}
'''
