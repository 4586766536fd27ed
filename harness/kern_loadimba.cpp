// user-side code around synk::LoadImba, instrumented like the library
#include <stdint.h>
#include <omp.h>
#include <xmmintrin.h>
#include "synk/loadimba.hpp"
extern "C" void kr_bad(int tid, int k, unsigned long long got, unsigned long long want, const char *op);
extern "C" void kr_early(int tid, int k, int u);
extern "C" void kr_freeze(int on);
static void li_episodes(synk::LoadImba *b, int tid, int n, int from, int to, int uses, int *data) {
  for (int k = from; k < to; ++k) {
    data[k * n + tid] = k + 1;
    b->wait(tid, k % uses);
    for (int u = 0; u < n; ++u) if (data[k * n + u] != k + 1) kr_early(tid, k, u);
  }
}
void kl_explicit(int cores, int tpc, int uses, int episodes, bool freeze_init, bool touch, int *data) {
  synk::LoadImba *b = new synk::LoadImba(cores, tpc);
  if (freeze_init) {
    kr_freeze(1);
#pragma omp parallel
    { b->init(omp_get_thread_num(), uses); }
    kr_freeze(0);
  }
#pragma omp parallel
  {
    int tid = omp_get_thread_num(), n = omp_get_num_threads();
    if (!freeze_init) b->init(tid, uses);
    if (touch && tid == 0) b->reset(); // initialisation is complete for every thread
    if (touch) {
#pragma omp barrier
    }
    li_episodes(b, tid, n, 0, episodes, uses, data);
  }
  int n = cores * tpc;
  for (int t = 0; t < n; ++t) for (int u = 0; u < uses; ++u) {
    synk::ThreadLoadImba *l = b->limba[t];
    uint64_t cnt = (episodes - u + uses - 1) / uses;
    if (l->cnt[u] != cnt) kr_bad(t, u, l->cnt[u], cnt, "number of measured waits");
    if (cnt && (l->min[u] > l->max[u] || l->tot[u] < l->max[u] || l->tot[u] > cnt * l->max[u] || l->max[u] >> 62)) kr_bad(t, u, l->tot[u], l->max[u], "measured cycles");
  }
  delete b;
}
void kl_inside(int episodes, int *data) {
#pragma omp parallel
  { synk::LoadImba *b = synk::LoadImba::getInstance(); li_episodes(b, omp_get_thread_num(), omp_get_num_threads(), 0, episodes, 1, data); }
}
void kl_outside(int episodes, int *data) {
  synk::LoadImba *b = synk::LoadImba::getInstance();
#pragma omp parallel
  { li_episodes(b, omp_get_thread_num(), omp_get_num_threads(), 0, episodes, 1, data); }
}
void kl_init(int cores, int tpc, bool inside, int episodes, int *data) {
  if (!inside) synk::LoadImba::initializeInstance(cores, tpc);
#pragma omp parallel
  {
    if (inside) synk::LoadImba::initializeInstance(cores, tpc);
    li_episodes(synk::LoadImba::getInstance(), omp_get_thread_num(), omp_get_num_threads(), 0, episodes, 1, data);
  }
}
void kl_delete() { synk::LoadImba::deleteInstance(); }
// both kinds of barrier in one program
void kl_both(int episodes, int *data) {
  synk::Barrier *p = synk::Barrier::getInstance();
  synk::LoadImba *b = synk::LoadImba::getInstance();
#pragma omp parallel
  {
    int tid = omp_get_thread_num(), n = omp_get_num_threads();
    for (int k = 0; k < episodes; ++k) {
      data[k * n + tid] = k + 1;
      if (k % 2) p->wait(tid); else b->wait(tid);
      for (int u = 0; u < n; ++u) if (data[k * n + u] != k + 1) kr_early(tid, k, u);
    }
  }
}
void kl_delete_plain() { synk::Barrier::deleteInstance(); }
