// C06: barrier that measures load imbalance
#include "../mc/rt.hpp"
#include "util.hpp"
using namespace mc;
void kl_explicit(int cores, int tpc, int uses, int episodes, bool freeze_init, bool touch, int *data);
void kl_inside(int, int *);
void kl_outside(int, int *);
void kl_init(int, int, bool, int, int *);
void kl_both(int, int *);
void kl_delete();
void kl_delete_plain();
extern "C" void kr_bad(int tid, int k, unsigned long long got, unsigned long long want, const char *op) { fail("measurement", "thread %d, counter %d: %s is %llu, expected %llu", tid, k, op, got, want); }
extern "C" void kr_early(int tid, int k, int u) { fail("early-exit", "thread %d left episode %d although thread %d had not entered it", tid, k, u); }
extern "C" void kr_freeze(int on) { freeze(on); }
static int *buf(int n) { return (int *)calloc(n + 1, sizeof(int)); }
void mc_enumerate() {
  bool th = tier();
  bound("every interleaving (DPOR with sleep sets) of episodes for teams of 1-3 and every core shape; with initialisation for teams of 1-2; other teams up to 6: all schedules with at most 1 (thorough: 2) deviations from round robin");
  bound("create/delete/create histories over all pairs of team sizes 1-3, singleton created inside and outside parallel regions, next to a plain barrier");
  Options o; o.max_exec = 20000000;
  for (int n = 1; n <= 6; ++n) for (int tpc = 1; tpc <= n; ++tpc) {
    if (n % tpc) continue;
    o.threads = n;
    for (int ep = 1; ep <= (th ? 4 : 3); ++ep) for (int uses = 1; uses <= 2; ++uses) {
      o.delay = n <= 3 ? -1 : th || n == 4 ? 2 : 1;
      MC_RUN(o, S("episodes n=%d tpc=%d ep=%d uses=%d", n, tpc, ep, uses), ([=] { int *d = buf(ep * n); kl_explicit(n / tpc, tpc, uses, ep, true, false, d); free(d); }));
    }
    for (int touch = 0; touch < 2; ++touch) for (int fill = 0; fill < 2; ++fill) {
      o.fill = fill ? 0 : 0xCD;
      o.delay = n <= (th ? 3 : 2) ? -1 : 1;
      MC_RUN(o, S("init+episodes n=%d tpc=%d reset=%d fill=%d", n, tpc, touch, fill), ([=] { int *d = buf(2 * n); kl_explicit(n / tpc, tpc, 1, 1, false, touch, d); free(d); }));
    }
    o.fill = 0xCD;
  }
  for (int n = 1; n <= 3; ++n) for (int ep = 1; ep <= 2; ++ep) {
    o.threads = n; o.delay = n <= 2 ? -1 : 1;
    MC_RUN(o, S("lazy-inside n=%d ep=%d", n, ep), ([=] { int *d = buf(ep * n); kl_inside(ep, d); kl_delete(); free(d); }));
    MC_RUN(o, S("lazy-outside n=%d ep=%d", n, ep), ([=] { int *d = buf(ep * n); kl_outside(ep, d); kl_delete(); free(d); }));
    MC_RUN(o, S("both n=%d ep=%d", n, ep), ([=] { int *d = buf(2 * ep * n); kl_both(2 * ep, d); kl_delete(); kl_delete_plain(); free(d); }));
    for (int tpc = 1; tpc <= n; ++tpc) if (n % tpc == 0) for (int in = 0; in < 2; ++in)
      MC_RUN(o, S("init n=%d tpc=%d inside=%d ep=%d", n, tpc, in, ep), ([=] { int *d = buf(ep * n); kl_init(n / tpc, tpc, in, ep, d); kl_delete(); free(d); }));
  }
  for (int n1 = 1; n1 <= 3; ++n1) for (int n2 = 1; n2 <= 3; ++n2) for (int w = 0; w < 8; ++w) {
    o.threads = n1; o.delay = n1 == 1 && n2 == 1 ? -1 : n1 < 3 && n2 < 3 ? (th ? 3 : 2) : th ? 2 : 1;
    if (w >= 4 && o.delay > 1) o.delay = th ? 2 : 1;
    MC_RUN(o, S("recreate %d->%d how=%d", n1, n2, w), ([=] {
      int *d = buf(4 * n1);
      if (w & 4) kl_both(2, d); else if (w & 1) kl_inside(1, d); else kl_outside(1, d);
      kl_delete(); if (w & 4) kl_delete_plain();
      free(d);
      set_threads(n2);
      d = buf(4 * n2);
      if (w & 2) kl_inside(2, d); else kl_outside(2, d);
      if (w & 4) { kl_delete(); kl_both(2, d); kl_delete_plain(); }
      kl_delete(); free(d);
      if (live_blocks()) fail("leak", "%ld blocks still allocated after everything was deleted: %s", live_blocks(), live_summary().c_str());
    }));
  }
}
