// C05: reduction barrier
#include "../mc/rt.hpp"
#include "util.hpp"
using namespace mc;
void kr_reduce(int cores, int tpc, int regions, int episodes, int op, bool freeze_init, int *data);
extern "C" void kr_bad(int tid, int k, unsigned long long got, unsigned long long want, const char *op) { fail("reduction", "thread %d got %llx as %s of episode %d, expected %llx", tid, got, op, k, want); }
extern "C" void kr_early(int tid, int k, int u) { fail("early-exit", "thread %d left episode %d although thread %d had not entered it", tid, k, u); }
extern "C" void kr_freeze(int on) { freeze(on); }
static int *buf(int n) { return (int *)calloc(n + 1, sizeof(int)); }
void mc_enumerate() {
  bool th = tier();
  bound("every interleaving (DPOR with sleep sets): initialisation together with episodes for teams of 1-3 (thorough: 4), episodes alone for teams of 1-4 (thorough: 6), every core shape, sum/max/min/alternating");
  bound("for teams above those, all schedules with at most 2 (thorough: 3) deviations from round robin");
  Options o; o.max_exec = 20000000;
  for (int n = 1; n <= 6; ++n) for (int tpc = 1; tpc <= n; ++tpc) {
    if (n % tpc) continue;
    o.threads = n;
    for (int op = 0; op < 4; ++op) for (int ep = 1; ep <= (th ? 5 : 3); ++ep) for (int reg = 1; reg <= 2; ++reg) for (int data = 0; data < 2; ++data) {
      if (reg == 2 && (ep > 2 || data)) continue;
      o.delay = -1;
      if (n > 3 && op != 0 && op != 3) continue;
      bool full = n <= 3 || (n == 4 && ep <= (th ? 3 : 2) && !data && reg == 1);
      if (!full) o.delay = th ? 2 : 1;
      MC_RUN(o, S("episodes n=%d tpc=%d op=%d ep=%d regions=%d data=%d%s", n, tpc, op, ep, reg, data, full ? "" : " bounded"), ([=] { int *d = data ? buf(ep * reg * n) : 0; kr_reduce(n / tpc, tpc, reg, ep, op, true, d); free(d); }));
    }
    for (int ep = 1; ep <= 2; ++ep) for (int fill = 0; fill < 2; ++fill) {
      o.fill = fill ? 0 : 0xCD;
      o.delay = n <= (th ? 3 : 2) ? -1 : 1;
      MC_RUN(o, S("init+episodes n=%d tpc=%d ep=%d fill=%d", n, tpc, ep, fill), ([=] { kr_reduce(n / tpc, tpc, 1, ep, 0, false, 0); }));
    }
    o.fill = 0xCD;
  }
  // larger teams: more rounds between cores, pseudo cores with several rounds
  bound(th ? "shapes of 7-16 threads (2-16 cores of 1-4 threads): one deviation from round robin" : "shapes of 7-16 threads (2-16 cores of 1-4 threads): round robin, and for up to 8 (10 with several threads per core) threads one deviation from it");
  for (int n = 7; n <= 16; ++n) for (int tpc = 1; tpc <= 4; ++tpc) {
    if (n % tpc || n / tpc < 2) continue;
    o.threads = n;
    for (int op = 0; op < 4; op += 3) for (int ep = 1; ep <= 4; ++ep) for (int init = 0; init < 2; ++init) {
      if (ep > 2 && (init || op == 0)) continue;
      o.delay = th || (n <= 8 + 2 * (tpc > 1) && ep <= 2) ? 1 : 0;
      MC_RUN(o, S("large n=%d tpc=%d op=%d ep=%d init=%d", n, tpc, op, ep, init), ([=] { int *d = buf(ep * n); kr_reduce(n / tpc, tpc, 1, ep, op, !init, d); free(d); }));
    }
  }
}
