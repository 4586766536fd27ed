// user-side code, compiled with the same instrumentation as the library
#include <omp.h>
#include "synk/barrier.hpp"

// every thread publishes its contribution for episode k, waits, and must see everyone's
extern "C" void kb_bad(int tid, int k, int u);
extern "C" void kb_freeze(int on);
static void episodes_(synk::Barrier *b, int tid, int n, int from, int to, int *data) {
  for (int k = from; k < to; ++k) {
    data[k * n + tid] = k + 1;
    b->wait(tid);
    for (int u = 0; u < n; ++u)
      if (data[k * n + u] != k + 1) kb_bad(tid, k, u);
  }
}
void kb_explicit(int cores, int tpc, int episodes, int *data) {
  synk::Barrier *b = new synk::Barrier(cores, tpc);
#pragma omp parallel
  {
    int tid = omp_get_thread_num(), n = omp_get_num_threads();
    b->init(tid);
    episodes_(b, tid, n, 0, episodes, data);
  }
  delete b;
}
// several parallel regions share one barrier object
void kb_explicit_regions(int cores, int tpc, int regions, int episodes, int *data) {
  synk::Barrier *b = new synk::Barrier(cores, tpc);
  kb_freeze(1); // interleavings of init are explored by kb_explicit
#pragma omp parallel
  { b->init(omp_get_thread_num()); }
  kb_freeze(0);
  for (int r = 0; r < regions; ++r) {
#pragma omp parallel
    {
      int tid = omp_get_thread_num(), n = omp_get_num_threads();
      episodes_(b, tid, n, r * episodes, (r + 1) * episodes, data);
    }
  }
  delete b;
}
// the shared instance, obtained lazily inside the region by every thread
void kb_singleton_inside(int episodes, int *data) {
#pragma omp parallel
  {
    int tid = omp_get_thread_num(), n = omp_get_num_threads();
    for (int k = 0; k < episodes; ++k) {
      data[k * n + tid] = k + 1;
      synk::Barrier::getInstance()->wait(tid);
      for (int u = 0; u < n; ++u)
        if (data[k * n + u] != k + 1) kb_bad(tid, k, u);
    }
  }
}
void kb_singleton_outside(int episodes, int *data) {
  synk::Barrier *b = synk::Barrier::getInstance();
#pragma omp parallel
  { episodes_(b, omp_get_thread_num(), omp_get_num_threads(), 0, episodes, data); }
}
void kb_singleton_init(int cores, int tpc, bool inside, int episodes, int *data) {
  if (!inside) synk::Barrier::initializeInstance(cores, tpc);
#pragma omp parallel
  {
    if (inside) synk::Barrier::initializeInstance(cores, tpc);
    episodes_(synk::Barrier::getInstance(), omp_get_thread_num(), omp_get_num_threads(), 0, episodes, data);
  }
}
void kb_delete() { synk::Barrier::deleteInstance(); }
