id='c06-late-creator'; prop='C06'
edits=[('synk/loadimba.cpp','''#pragma omp barrier
#pragma omp master
            instance = new LoadImba(omp_get_num_threads()/threadsPerCore, threadsPerCore);
#pragma omp barrier
            instance->init(omp_get_thread_num());
''','''            // only the master creates it; the others wait for it below
#pragma omp master
            instance = new LoadImba(omp_get_num_threads()/threadsPerCore, threadsPerCore);
#pragma omp barrier
            instance->init(omp_get_thread_num());
''')]
needs='the shared instance is first asked for inside a parallel region and a thread gets there after the master has created it'
breaks='the late thread finds an instance and skips its part of the initialisation, so the team never gets through'
demo='''
#include <stdio.h>
#include <unistd.h>
#include <omp.h>
#include "synk/loadimba.hpp"
int main()
{
  int bad = 0, arrived = 0;
  omp_set_dynamic(0);
  alarm(20);
#pragma omp parallel num_threads(4)
  {
    int tid = omp_get_thread_num();
    if (tid == 3) usleep(200000);
    synk::LoadImba *l = synk::LoadImba::getInstance();
    for (int e = 1; e < 5; ++e) {
      __sync_fetch_and_add(&arrived, 1);
      l->wait(tid, 0);
      if (arrived < 4*e) bad = 1;
#pragma omp barrier
    }
  }
  if (bad) printf("released early\\n"); else printf("ok\\n");
  return bad;
}
'''
srcs='*.cpp reordering/*.cpp synk/*.cpp'
