// U02: work partitions and parallel prefix sums
#include "../mc/rt.hpp"
#include "util.hpp"
#include <climits>
using namespace mc;
void ku_simple(int n, int *bb, int *ee);
void ku_balanced(const int *ps, int n, int *bb, int *ee);
void ku_prefix(int rounds, int w, bool multiple, const int *in, int *workspace);
extern "C" void ku_bad(int tid, int k, int i, int got, int want, const char *what) { fail("prefix-sum", "thread %d, call %d, value %d: %s is %d, expected %d", tid, k, i, what, got, want); }
static void pieces(const int *b, const int *e, int t, int n) {
  if (b[0] != 0) fail("partition", "the first piece of [0,%d) begins at %d", n, b[0]);
  for (int i = 0; i < t; ++i) {
    if (b[i] < 0 || e[i] < b[i] || e[i] > n) fail("partition", "piece %d of %d is [%d,%d) in [0,%d)", i, t, b[i], e[i], n);
    if (i && b[i] != e[i - 1]) fail("partition", "piece %d of [0,%d) begins at %d, piece %d ends at %d", i, n, b[i], i - 1, e[i - 1]);
  }
  if (e[t - 1] != n) fail("partition", "the last piece of [0,%d) ends at %d", n, e[t - 1]);
}
static void balanced(int t, int n, const std::vector<int> &w, int base) {
  int *ps = (int *)malloc(sizeof(int) * (n + 1));
  ps[0] = base;
  long mx = 0;
  for (int i = 0; i < n; ++i) { ps[i + 1] = ps[i] + w[i]; mx = std::max(mx, (long)w[i]); }
  int b[16], e[16];
  ku_balanced(ps, n, b, e);
  pieces(b, e, t, n);
  long tot = (long)ps[n] - base, share = (tot + t - 1) / t;
  for (int i = 0; i < t; ++i) if ((long)ps[e[i]] - ps[b[i]] > share + std::max(0l, mx - 1)) fail("imbalance", "piece %d of %d has %ld of %ld units (largest row %ld)", i, t, (long)ps[e[i]] - ps[b[i]], tot, mx);
  free(ps);
}
void mc_enumerate() {
  bool th = tier();
  bound("teams of 7, 8, 13 and 16: the same partitions, weighted up to 40 rows, prefix sums of up to 70 values, at most one deviation from round robin (prefix sums of 1 and 3 values) or one interleaving");
  bound(th ? "simple partitions of 0..300 items and of counts around 2^30 and 2^31; weighted partitions of every weight vector over {0,1,2,5} of up to 7 rows and over {0,3} of up to 12 rows" : "simple partitions of 0..120 items and of counts around 2^30 and 2^31; weighted partitions of every weight vector over {0,1,2,5} of up to 5 rows and over {0,3} of up to 10 rows");
  bound("prefix sums: every interleaving (DPOR) for teams of 1-3 with every contribution vector over {0,1,-4}, 1-3 calls in a row on one workspace; teams of 4-6: all schedules with at most 2 deviations from round robin");
  Options o; o.max_exec = 200000000;
  for (int t = 1; t <= 6; ++t) {
    o.threads = t; o.delay = -1;
    MC_RUN(o, S("simple threads=%d", t), ([=] {
      freeze(true);
      int n = choose(th ? 301 : 121), b[16], e[16];
      ku_simple(n, b, e);
      pieces(b, e, t, n);
      for (int i = 0; i < t; ++i) if (e[i] - b[i] > (n + t - 1) / t) fail("imbalance", "piece %d of %d has %d of %d items", i, t, e[i] - b[i], n);
    }));
    MC_RUN(o, S("simple large threads=%d", t), ([=] {
      freeze(true);
      static const int big[] = {INT_MAX / 2 - 1, INT_MAX / 2, INT_MAX / 2 + 1, INT_MAX / 2 + 2, INT_MAX - 64, INT_MAX - 63, INT_MAX - 62, INT_MAX - 61, INT_MAX - 60, INT_MAX - 59, INT_MAX - 6, 1 << 20, (1 << 20) + 1};
      int n = big[choose(13)], b[16], e[16];
      ku_simple(n, b, e);
      pieces(b, e, t, n);
      for (int i = 0; i < t; ++i) if (e[i] - b[i] > (n + t - 1) / t) fail("imbalance", "piece %d of %d has %d of %d items", i, t, e[i] - b[i], n);
    }));
    for (int base = 0; base < 2; ++base) {
      for (int n = 0; n <= (th ? 7 : 5); ++n) MC_RUN(o, S("weighted rows=%d base=%d threads=%d", n, base, t), ([=] {
        freeze(true);
        static const int W[4] = {0, 1, 2, 5};
        std::vector<int> w; for (int i = 0; i < n; ++i) w.push_back(W[choose(4)]);
        balanced(t, n, w, base);
      }));
      for (int n = 6; n <= (th ? 12 : 10); ++n) MC_RUN(o, S("weighted2 rows=%d base=%d threads=%d", n, base, t), ([=] {
        freeze(true);
        int bits = choose(1 << n);
        std::vector<int> w; for (int i = 0; i < n; ++i) w.push_back(bits >> i & 1 ? 3 : 0);
        balanced(t, n, w, base);
      }));
      MC_RUN(o, S("weighted large base=%d threads=%d", base, t), ([=] {
        freeze(true);
        static const int W[5] = {0, 1, 1 << 28, INT_MAX / 4 - 8, 123456789};
        std::vector<int> w; long tot = 0;
        for (int i = 0; i < 4; ++i) { w.push_back(W[choose(5)]); tot += w.back(); }
        balanced(t, 4, w, base);
      }));
    }
    for (int rounds = 1; rounds <= 3; ++rounds) for (int w = 0; w <= (th ? 4 : 3); ++w) { // w==0: prefixSum
      o.delay = t <= (th ? 4 : 3) ? -1 : 2;
      MC_RUN(o, S("prefix%s rounds=%d width=%d threads=%d", w ? "Multiple" : "", rounds, w, t), ([=] {
        int W = w ? w : 1, n = rounds * t * W;
        static const int V[3] = {1, 0, -4};
        int *in = (int *)malloc(sizeof(int) * n), *ws = (int *)malloc(sizeof(int) * W * (t + 1));
        // distinct weights, with a small set of enumerated disturbances
        for (int i = 0; i < n; ++i) in[i] = (i % 5 + 1) << (i % 4 * 3);
        int which = choose(n + 1);
        if (which) in[which - 1] = V[choose(3)];
        ku_prefix(rounds, W, w > 0, in, ws);
        if (w) for (int i = 0; i < t; ++i) for (int j = 0; j < W; ++j) {
          int want = 0; for (int u = 0; u < i; ++u) want += in[((rounds - 1) * t + u) * W + j];
          if (ws[i * W + j] != want) fail("prefix-sum", "the workspace entry %d of thread %d holds %d, documented result %d", j, i, ws[i * W + j], want);
        }
        free(in); free(ws);
      }));
    }
  }
  for (int t : {7, 8, 13, 16}) {
    o.threads = t; o.delay = -1;
    MC_RUN(o, S("wide simple threads=%d", t), ([=] {
      freeze(true);
      static const int big[] = {INT_MAX / 2, INT_MAX - 16, INT_MAX - 17, 1 << 20};
      int k = choose(125), n = k < 121 ? k : big[k - 121], b[16], e[16];
      ku_simple(n, b, e);
      pieces(b, e, t, n);
      for (int i = 0; i < t; ++i) if (e[i] - b[i] > ((long)n + t - 1) / t) fail("imbalance", "piece %d of %d has %d of %d items", i, t, e[i] - b[i], n);
    }));
    for (int base = 0; base < 2; ++base) MC_RUN(o, S("wide weighted base=%d threads=%d", base, t), ([=] {
      freeze(true);
      int n = choose(41), kind = choose(6);
      std::vector<int> w;
      for (int i = 0; i < n; ++i) w.push_back(kind == 0 ? 1 : kind == 1 ? i % 3 : kind == 2 ? (i == n / 2) * 100 : kind == 3 ? n - i : kind == 4 ? (i % 7 == 6) * 9 : i < 3 ? 50 : 0);
      balanced(t, n, w, base);
    }));
    for (int w : {0, 1, 2, 3, 8, 17, 70}) for (int rounds = 1; rounds <= 2; ++rounds) {
      o.delay = w <= 3 && rounds == 1 ? 1 : -1;
      MC_RUN(o, S("wide prefix%s rounds=%d width=%d threads=%d", w ? "Multiple" : "", rounds, w, t), ([=] {
        if (rounds > 1 || w > 3) freeze(true);
        int W = w ? w : 1, n = rounds * t * W;
        int *in = (int *)malloc(sizeof(int) * n), *ws = (int *)malloc(sizeof(int) * W * (t + 1));
        int k = choose(3);
        for (int i = 0; i < n; ++i) in[i] = k == 0 ? (i * 7 + 3) % 31 : k == 1 ? i - 5 : (i % t == t - 1) * 1000;
        ku_prefix(rounds, W, w > 0, in, ws);
        free(in); free(ws);
      }));
    }
  }
}
