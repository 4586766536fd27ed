// C04: dissemination barrier
#include "../mc/rt.hpp"
#include "util.hpp"
using namespace mc;
void kb_explicit(int, int, int, int *);
void kb_explicit_regions(int, int, int, int, int *);
void kb_singleton_inside(int, int *);
void kb_singleton_outside(int, int *);
void kb_singleton_init(int, int, bool, int, int *);
void kb_delete();
extern "C" void kb_bad(int tid, int k, int u) {
  fail("early-exit", "thread %d left episode %d although thread %d had not entered it", tid, k, u);
}
extern "C" void kb_freeze(int on) { freeze(on); }
static int *buf(int n) { return (int *)calloc(n, sizeof(int)); }

void mc_enumerate() {
  bool th = tier();
  bound("every interleaving (DPOR with sleep sets); initialisation + episodes together for teams of 1-4, episodes alone for teams up to 6");
  bound(th ? "up to 9 consecutive episodes, 3 parallel regions" : "up to 6 consecutive episodes, 3 parallel regions");
  Options o; o.max_exec = 20000000;
  for (int n = 1; n <= 6; ++n)
    for (int tpc = 1; tpc <= n; ++tpc) {
      if (n % tpc) continue;
      o.threads = n;
      int maxep = n <= 3 ? (th ? 9 : 5) : n == 4 ? (th ? 5 : 3) : 0;
      for (int ep = 1; ep <= maxep; ++ep)
        for (int fill = 0; fill < 2; ++fill) {
          o.fill = fill ? 0xCD : 0;
          if (fill == 0 && ep > 2) continue;
          MC_RUN(o, S("explicit n=%d tpc=%d ep=%d fill=%d", n, tpc, ep, fill), ([=] { int *d = buf(ep * n); kb_explicit(n / tpc, tpc, ep, d); free(d); }));
        }
      o.fill = 0xCD;
      for (int reg = 1; reg <= 3; ++reg)
        for (int ep = 1; ep <= (th ? 4 : 3); ++ep) {
          if (n >= 5 && ep * reg > (th ? 9 : 6)) continue;
          MC_RUN(o, S("regions n=%d tpc=%d regions=%d ep=%d", n, tpc, reg, ep), ([=] { int *d = buf(reg * ep * n); kb_explicit_regions(n / tpc, tpc, reg, ep, d); free(d); }));
        }
    }
  for (int n = 1; n <= 4; ++n) {
    o.threads = n;
    for (int ep = 1; ep <= 3; ++ep) {
      MC_RUN(o, S("lazy-inside n=%d ep=%d", n, ep), ([=] { int *d = buf(ep * n); kb_singleton_inside(ep, d); kb_delete(); free(d); }));
      MC_RUN(o, S("lazy-outside n=%d ep=%d", n, ep), ([=] { int *d = buf(ep * n); kb_singleton_outside(ep, d); kb_delete(); free(d); }));
      for (int tpc = 1; tpc <= n; ++tpc) if (n % tpc == 0) for (int in = 0; in < 2; ++in)
        MC_RUN(o, S("init n=%d tpc=%d inside=%d ep=%d", n, tpc, in, ep), ([=] { int *d = buf(ep * n); kb_singleton_init(n / tpc, tpc, in, ep, d); kb_delete(); free(d); }));
    }
  }
  bound(th ? "shapes of 7-16 threads (1-16 cores of 1-16 threads): at most one deviation from round robin, for up to 8 threads two" : "shapes of 7-16 threads (1-16 cores of 1-16 threads): round robin, for up to 9 threads also every deviation from it");
  for (int n = 7; n <= 16; ++n) for (int tpc = 1; tpc <= n; ++tpc) if (n % tpc == 0)
    for (int ep = 1; ep <= 3; ++ep) {
      o.threads = n; o.delay = th ? n <= 8 && ep <= 2 ? 2 : 1 : n <= 9 && ep <= 2 ? 1 : 0;
      MC_RUN(o, S("large n=%d tpc=%d ep=%d", n, tpc, ep), ([=] { int *d = buf(ep * n); kb_explicit(n / tpc, tpc, ep, d); free(d); }));
      if (ep == 2 && (th || n <= 9)) MC_RUN(o, S("large regions n=%d tpc=%d ep=%d", n, tpc, ep), ([=] { int *d = buf(2 * ep * n); kb_explicit_regions(n / tpc, tpc, 2, ep, d); free(d); }));
    }
  o.delay = -1;
  // delete and create again with other team sizes, both creation places
  for (int n1 = 1; n1 <= 3; ++n1) for (int n2 = 1; n2 <= 3; ++n2) for (int w = 0; w < 4; ++w) {
    o.threads = n1;
    MC_RUN(o, S("recreate %d->%d how=%d", n1, n2, w), ([=] {
      int *d = buf(2 * n1);
      if (w & 1) kb_singleton_inside(2, d); else kb_singleton_outside(2, d);
      kb_delete(); free(d);
      set_threads(n2);
      d = buf(2 * n2);
      if (w & 2) kb_singleton_inside(2, d); else kb_singleton_outside(2, d);
      kb_delete(); free(d);
    }));
  }
}
