// R01/R02: breadth-first and reverse Cuthill-McKee reordering
#include "matutil.hpp"
#include <climits>
#include <queue>
using namespace SpMP;
namespace SpMP { extern int mcParThr; }
// symmetric pattern with the entries of the rows in the given order
static Ref graph(int n, unsigned long bits, unsigned diag, int order) {
  Ref a = ref_sym(n, bits, diag);
  for (int i = 0; i < n; ++i) {
    if (order == 1) std::reverse(a.r[i].begin(), a.r[i].end());
    if (order == 2 && a.r[i].size() > 1) std::rotate(a.r[i].begin(), a.r[i].begin() + 1, a.r[i].end());
  }
  return a;
}
// further structured graphs: several components, long paths, bipartite blocks
static const int NGRAPH = NSTRUCT + 8;
static Ref sgraph(int n, int kind, bool diag) {
  Ref a(n, n);
  if (kind < NSTRUCT) a = ref_struct(n, kind);
  else {
    std::vector<std::vector<char>> p(n, std::vector<char>(n, 0));
    auto e = [&](int i, int j) { if (i >= 0 && j >= 0 && i < n && j < n) p[i][j] = p[j][i] = 1; };
    int k = kind - NSTRUCT;
    for (int i = 0; i < n; ++i) {
      if (k == 0) e(i, i + 2);                             // two interleaved paths
      if (k == 1) e(i, (i + 1) % n);                       // ring
      if (k == 2 && i % 2 == 0) e(i, i + 1);               // pairs
      if (k == 3 && i % 3 != 2) e(i, i + 1);               // paths of three
      if (k == 4) for (int j = 0; j < n; ++j) if (i >= 1 && i <= 2 && (j == 0 || j > 2)) e(i, j); // 0 - {1,2} - rest
      if (k == 5) { e(i, n - 1 - i); e(i, i + 3); }        // ladder
      if (k == 6 && i >= n / 2 && i + 1 < n) e(i, i + 1);  // isolated rows, then a path
      if (k == 7) { if (i < n - 1 && i > 0) e(i, i + 1); if (i == 0) e(0, n / 2); } // path with its middle attached to row 0
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (p[i][j] && i != j) a.r[i].push_back({j, 1});
    for (int i = 0; i < n; ++i) { a.r[i].push_back({i, 1}); std::sort(a.r[i].begin(), a.r[i].end()); }
  }
  if (!diag) for (int i = 0; i < n; ++i) for (size_t k = 0; k < a.r[i].size(); ++k) if (a.r[i][k].first == i) { a.r[i].erase(a.r[i].begin() + k); break; }
  return a;
}
// order[k] = row at position k; checked for contiguous components and levels, and for the Cuthill-McKee order if rcm
static void ordering(const Ref &a, const std::vector<int> &order, bool rcm) {
  int n = a.m;
  std::vector<int> comp(n, -1), size;
  for (int i = 0; i < n; ++i) if (comp[i] < 0) {
    std::vector<int> st{i}; comp[i] = (int)size.size(); size.push_back(0);
    while (!st.empty()) { int u = st.back(); st.pop_back(); ++size.back(); for (auto &p : a.r[u]) if (comp[p.first] < 0) { comp[p.first] = comp[i]; st.push_back(p.first); } }
  }
  std::string os; for (int x : order) os += S(" %d", x);
  for (int b = 0; b < n;) {
    int c = comp[order[b]], e = b;
    while (e < n && comp[order[e]] == c) ++e;
    if (e - b != size[c]) fail("component", "the component of row %d is not contiguous in the order%s of %s", order[b], os.c_str(), show(a).c_str());
    std::vector<int> dist(n, -1), first(n, INT_MAX); std::queue<int> q; q.push(order[b]); dist[order[b]] = 0;
    while (!q.empty()) { int u = q.front(); q.pop(); for (auto &p : a.r[u]) if (dist[p.first] < 0) { dist[p.first] = dist[u] + 1; q.push(p.first); } }
    for (int k = b; k < e; ++k) for (auto &p : a.r[order[k]]) if (dist[p.first] == dist[order[k]] + 1) first[p.first] = std::min(first[p.first], k);
    for (int k = b + 1; k < e; ++k) {
      int u = order[k - 1], v = order[k];
      if (dist[v] < dist[u]) fail("levels", "row %d (distance %d from row %d) follows row %d (distance %d) in the order%s of %s", v, dist[v], order[b], u, dist[u], os.c_str(), show(a).c_str());
      if (!rcm || dist[v] != dist[u]) continue;
      if (first[v] < first[u]) fail("cuthill-mckee", "row %d precedes row %d although its earliest neighbour comes later, order%s of %s", u, v, os.c_str(), show(a).c_str());
      if (first[v] == first[u] && a.r[v].size() < a.r[u].size()) fail("cuthill-mckee", "row %d precedes row %d of smaller degree, order%s of %s", u, v, os.c_str(), show(a).c_str());
    }
    b = e;
  }
}
static void check(const Ref &a, int base, bool rcm, bool pseudo, int thr, bool values, bool real = false) {
  int n = a.m;
  mcParThr = thr;
  step_barriers(!real);
  CSR *A = build(a, base, values ? W_VALUES : 0);
  Saved s(*A);
  int *perm = lib_alloc<int>(n), *inv = lib_alloc<int>(n);
  for (int i = 0; i < n; ++i) perm[i] = inv[i] = -1;
  if (rcm) A->getRCMPermutation(perm, inv, pseudo); else A->getBFSPermutation(perm, inv);
  std::vector<int> order(n);
  uint64_t h = 1;
  for (int i = 0; i < n; ++i) {
    if (perm[i] < 0 || perm[i] >= n || inv[i] < 0 || inv[i] >= n) fail("permutation", "perm[%d]=%d inversePerm[%d]=%d for %s", i, perm[i], i, inv[i], show(a).c_str());
    h = h * 31 + inv[i];
  }
  outcome(h);
  for (int i = 0; i < n; ++i) if (inv[perm[i]] != i || perm[inv[i]] != i) fail("permutation", "perm and inversePerm are not inverse at %d for %s", i, show(a).c_str());
  for (int i = 0; i < n; ++i) order[i] = inv[rcm ? n - 1 - i : i];
  ordering(a, order, rcm);
  s.same(*A, "the reordering");
}
void mc_enumerate() {
  bool th = tier(), rcm = !strcmp(prop(), "R02");
  Options o; o.max_exec = 400000000;
  if (rcm) bound(th ? "every graph up to 6 vertices (1 thread); every interleaving up to 4 vertices on 2 threads and 3 on 3 (delay bound 3 for 1-based matrices and, in the assert build, 4 vertices with source selection); delay bound 2 for 5 vertices on 2 threads and 4 on 3" : "every graph up to 5 vertices (1 thread); every interleaving up to 3 vertices on 2 threads (4 for small components) and 2 on 3; delay bound 2 (with source selection 1) for 4 vertices on 2 threads and 3 on 3, 1 for 4 vertices on 3");
  else bound(th ? "every graph up to 6 vertices (1 thread), 5 (2 threads), 4 (3 threads), every interleaving" : "every graph up to 5 vertices (1 and 2 threads), 3 (3 threads), every interleaving; 4 vertices on 3 threads every interleaving in the release build, base 0, else delay bound 2");
  bound("structured graphs of up to 40 rows on teams of 5, 7, 8, 13 and 16, one interleaving (thorough: at most one deviation from round robin up to 9 rows)");
  bound("with and without diagonal (every subset of it up to 3 vertices), three orders of the row entries, both bases; component sizes below and above the threshold of the parallel traversal, with and without source selection");
  bound("structured graphs (paths, rings, stars, trees, bipartite blocks, several components) up to 12 rows (thorough 20) on 1-4 threads with delay bound 1 (thorough 2 up to 8 rows)");
  if (rcm) bound("one stretch between two barriers at a time: all graphs of 4 vertices on 2 threads every interleaving, on 3 threads delay bound 2 (thorough 3; 5 vertices on 2 threads); structured graphs of 5 to 7 (thorough 9) vertices, delay bound 2 to 3, every interleaving for the parallel traversal of 5 and 6 (thorough: and small components of 5) on 2 threads");
  else bound("one stretch between two barriers at a time, every interleaving of it: all graphs of 4 and 5 vertices on 2 threads, 4 on 3; structured graphs of 5 to 8 (thorough 9) vertices on 2 and 3 threads");
  bound("synk::Barrier taken as one step (C04 decides it), except in the cases marked `real barrier'");
  if (rcm) { // the same node found by both threads, for a whole level
    o.threads = 2;
    MC_RUN(o, S("phases wide level"), ([=] {
      each_phase([&] { check(sgraph(7, NSTRUCT + 4, 1), 0, rcm, true, 2, true); });
    }));
  }
  for (int cfg = 0; cfg < (rcm ? 3 : 2); ++cfg) { // 0: small components, 1: large components, 2: large components with source selection
    o.fill = 0xCD;
    for (int t = 1; t <= 3; ++t) {
      int nmax = t == 1 ? (th ? 6 : 5) : t == 2 ? (th || !rcm ? 5 : 4) : 4;
      for (int n = 0; n <= nmax; ++n) for (int base = 0; base < 2; ++base) for (int dg = 0; dg < 2; ++dg) {
        o.threads = t; o.delay = -1;
        if (rcm) { if (t == 3 && n == 3 && !th) o.delay = 2; if (th && base && ((t == 3 && n == 3) || (t == 2 && n == 4 && cfg))) o.delay = 3; if (th && t == 2 && n == 4 && cfg == 2 && variant()) o.delay = 3; if (t == 3 && n == 4) o.delay = th ? 2 : 1; if (t == 2 && n == 4 && !th && (cfg || variant())) o.delay = 2; if (t == 2 && n == 5) o.delay = cfg == 2 ? 1 : 2; if (cfg && !th && o.delay == 2 && (cfg == 2 || base)) o.delay = 1; }
        else if (t == 3 && n == 4 && !th && (variant() || base)) o.delay = 2;
        if (n > 4 && base && !th) continue;
        MC_RUN(o, S("all graphs n=%d base=%d diag=%d cfg=%d threads=%d", n, base, dg, cfg, t), ([=] {
          int e = n * (n - 1) / 2;
          unsigned long bits = choose(1 << e);
          unsigned diag = dg ? ~0u : n <= 3 ? choose(1 << n) : 0;
          int order = n <= 3 ? choose(2) : (int)(bits % 3);
          check(graph(n, bits, diag, order), base, rcm, cfg == 2, cfg ? 2 : n + 2, n & 1);
        }));
      }
    }
    for (int t = 1; t <= 4; ++t) for (int n = 5; n <= (th ? 20 : 12); n += 1 + n / 8) for (int kind = 0; kind < NGRAPH; ++kind) {
      if (!th && t == 4 && (cfg == 2 || n < 9)) continue;
      if (!th && cfg == 2 && t == 3 && n > 7) continue;
      o.threads = t; o.delay = t == 1 ? -1 : th && n <= 8 && cfg < 2 ? 2 : 1; o.fill = t == 1 ? 0x7f : 0xCD;
      MC_RUN(o, S("structured n=%d kind=%d cfg=%d threads=%d", n, kind, cfg, t), ([=] {
        int base = kind & 1, dg = choose(2);
        check(sgraph(n, kind, dg), base, rcm, cfg == 2, cfg ? 2 : n + 2, true);
      }));
      // components on both sides of the threshold
      if (cfg && kind >= NSTRUCT && (th || (cfg == 1 && t < 4) || (cfg == 2 && t < 3))) MC_RUN(o, S("mixed n=%d kind=%d cfg=%d threads=%d", n, kind, cfg, t), ([=] {
        check(sgraph(n, kind, n & 1), !(kind & 1), rcm, cfg == 2, 3 + choose(n - 3), true);
      }));
    }
    // one stretch between two barriers after the other: all its interleavings, the other stretches in one interleaving
    for (int t = 2; t <= 3; ++t) for (int n = 4; n <= (th ? 9 : rcm ? 7 : 8); ++n) {
      o.threads = t; o.delay = rcm && (t == 3 || (!cfg && n > 4 + th)) ? (th && n <= 5 ? 3 : 2) : -1; o.fill = 0xCD;
      auto phases = [=](const Ref &a, int thr, int base) { each_phase([&] { check(a, base, rcm, cfg == 2, thr, true); }); };
      int e = n * (n - 1) / 2;
      if (n <= (t == 2 && (th || !rcm) ? 5 : 4)) for (int part = 0; part < 8; ++part) MC_RUN(o, S("phases all graphs n=%d cfg=%d threads=%d part=%d", n, cfg, t, part), ([=] {
        unsigned long bits = choose((1 << e) / 8) * 8 + part;
        phases(graph(n, bits, n & 1 ? ~0u : 0, (int)(bits % 3)), cfg ? 2 : n + 2, (int)(bits / 3 & 1));
      }));
      int full = o.delay;
      if (n >= 5) for (int kind = 0; kind < NGRAPH; ++kind) {
      if (n == 7 && kind == NSTRUCT + 4 && t == 2 && cfg == 2) continue; // run first
      o.delay = rcm && n >= 7 ? th ? 3 : 2 : full;
      MC_RUN(o, S("phases structured n=%d kind=%d cfg=%d threads=%d", n, kind, cfg, t), ([=] {
        phases(sgraph(n, kind, n & 1), cfg ? 2 : n + 2, (n + kind) & 1);
      }));
      }
    }
    for (int n = 1; n <= 4; ++n) {
      Options o; o.threads = 2; o.delay = 1; o.isolate = true; o.max_exec = 400000000;
      if (cfg == 2 && n == 4 && !th) continue;
      MC_RUN(o, S("real barrier n=%d cfg=%d", n, cfg), ([=] {
        int bits = choose(1 << (n * (n - 1) / 2));
        check(graph(n, bits, ~0u, 0), 0, rcm, cfg == 2, cfg ? 2 : n + 2, true, true);
      }));
    }
  }
  for (int cfg = 0; cfg < (rcm ? 3 : 2); ++cfg) for (int t : {5, 7, 8, 13, 16}) for (int n : {5, 9, 16, 33, 40}) for (int kind = 0; kind < NGRAPH; ++kind) {
    o.threads = t; o.delay = th && n <= 9 && (!rcm || t < 8) ? 1 : 0; o.max_events = 1000000; o.fill = 0xCD;
    MC_RUN(o, S("wide n=%d kind=%d cfg=%d threads=%d", n, kind, cfg, t), ([=] {
      check(sgraph(n, kind, n & 1), (n + kind) & 1, rcm, cfg == 2, choose(2) ? 2 + cfg * n / 3 : n + 2, true);
    }));
  }
}
