// R03: breadth-first reordering of rectangular matrices
#include "matutil.hpp"
#include "reordering/BFSBipartite.hpp"
#include <queue>
using namespace SpMP;
static std::string order_str(const std::vector<int> &v) { std::string s; for (int x : v) s += S(" %d", x); return s; }
static void check(const Ref &a, int base, bool values, bool apply, bool real) {
  step_barriers(!real);
  int m = a.m, n = a.n;
  Ref at = transposed(a);
  CSR *A = build(a, base, values ? W_VALUES : 0), *AT = build(at, base, values ? W_VALUES : 0);
  Saved s(*A), st(*AT);
  int *p[4] = {lib_alloc<int>(m), lib_alloc<int>(m), lib_alloc<int>(n), lib_alloc<int>(n)};
  for (int k = 0; k < 4; ++k) for (int i = 0; i < (k < 2 ? m : n); ++i) p[k][i] = -1;
  bfsBipartite(*A, *AT, p[0], p[1], p[2], p[3]);
  uint64_t h = 1;
  for (int side = 0; side < 2; ++side) {
    int z = side ? n : m, *q = p[2 * side], *iq = p[2 * side + 1];
    const char *w = side ? "column" : "row";
    for (int i = 0; i < z; ++i) { if (q[i] < 0 || q[i] >= z || iq[i] < 0 || iq[i] >= z) fail("permutation", "%sPerm[%d]=%d %sInversePerm[%d]=%d for %s", w, i, q[i], w, i, iq[i], show(a).c_str()); h = h * 31 + iq[i]; }
    for (int i = 0; i < z; ++i) if (iq[q[i]] != i || q[iq[i]] != i) fail("permutation", "%s permutations are not inverse at %d for %s", w, i, show(a).c_str());
  }
  outcome(h);
  s.same(*A, "bfsBipartite"); st.same(*AT, "bfsBipartite (transpose)");
  // components of the bipartite graph: rows 0..m-1, columns m..m+n-1
  std::vector<std::vector<int>> g(m + n);
  for (int i = 0; i < m; ++i) for (auto &e : a.r[i]) { g[i].push_back(m + e.first); g[m + e.first].push_back(i); }
  std::vector<int> comp(m + n, -1); std::vector<int> cnt[2]; int nc = 0;
  for (int i = 0; i < m + n; ++i) if (comp[i] < 0) {
    std::vector<int> s1{i}; comp[i] = nc; cnt[0].push_back(0); cnt[1].push_back(0);
    while (!s1.empty()) { int u = s1.back(); s1.pop_back(); cnt[u >= m][nc]++; for (int v : g[u]) if (comp[v] < 0) { comp[v] = nc; s1.push_back(v); } }
    ++nc;
  }
  std::vector<int> ord[2];
  for (int i = 0; i < m; ++i) ord[0].push_back(p[1][i]);
  for (int i = 0; i < n; ++i) ord[1].push_back(m + p[3][i]);
  std::vector<int> root(nc, -1);
  for (int i : ord[0]) if (root[comp[i]] < 0) root[comp[i]] = i;
  std::vector<int> dist(m + n, 0);
  for (int c = 0; c < nc; ++c) if (root[c] >= 0) {
    std::vector<char> seen(m + n, 0); std::queue<int> q; q.push(root[c]); seen[root[c]] = 1; dist[root[c]] = 0;
    while (!q.empty()) { int u = q.front(); q.pop(); for (int v : g[u]) if (!seen[v]) { seen[v] = 1; dist[v] = dist[u] + 1; q.push(v); } }
  }
  for (int side = 0; side < 2; ++side) {
    std::vector<int> &o = ord[side];
    std::vector<char> done(nc, 0);
    for (size_t b = 0; b < o.size();) {
      int c = comp[o[b]]; size_t e = b;
      while (e < o.size() && comp[o[e]] == c) ++e;
      if ((int)(e - b) != cnt[side][c]) fail("component", "a component is not contiguous in the %s order%s of %s", side ? "column" : "row", order_str(o).c_str(), show(a).c_str());
      for (size_t k = b + 1; k < e; ++k) if (dist[o[k]] < dist[o[k - 1]]) fail("levels", "%s order%s is not by distance from the first row of the component, %s", side ? "column" : "row", order_str(o).c_str(), show(a).c_str());
      b = e;
    }
  }
  if (apply) {
    freeze(true);
    CSR *B = A->permute(p[2], p[1]);
    Ref e(m, n);
    for (int i = 0; i < m; ++i) for (auto &x : a.r[p[1][i]]) e.r[i].push_back({p[2][x.first], x.second});
    expect(*B, e, base, false, "permuted by the result", values);
  }
}
// further shapes of m x n
static const int NRECT = 8;
static Ref rect(int m, int n, int kind) {
  Ref a(m, n);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
    bool on = false;
    switch (kind) {
    case 0: on = true; break;
    case 1: on = j == i || j == i + 1; break;             // staircase: long path
    case 2: on = i == 0 || j == n - 1; break;             // one row to all columns, one column from all rows
    case 3: on = j % 3 == i % 3; break;                   // three dense components
    case 4: on = j == (i * 2) % n; break;                 // one entry per row
    case 5: on = i >= m / 2 && j <= n / 2; break;         // empty rows first
    case 6: on = i == m - 1; break;                       // only the last row
    case 7: on = (i == 0 && j < 2) || (i > 0 && (j == 1 || j > 2)); break;
    }
    if (on) a.r[i].push_back({j, val_of(i, j)});
  }
  return a;
}
void mc_enumerate() {
  bool th = tier();
  bound("shapes up to 40x33 on teams of 5, 7, 8, 13 and 16, one interleaving");
  bound(th ? "every 0/1 matrix up to 4x4, 3x5 and 2x6 on 1 thread, every interleaving up to 3x3 and 2x5 on 2 threads and 2x3 on 3, delay bound 3 beyond up to 12 cells" : "every 0/1 matrix up to 3x4 and 2x5 on 1 thread, every interleaving up to 3x3 and 2x5 on 2 threads and 2x2 on 3, delay bound 2 beyond up to 9 cells on 3 threads");
  bound("structured shapes up to 8x8 (thorough 16x16) on 1-4 threads with delay bound 1 (thorough 2); both bases");
  bound(th ? "one stretch between two barriers at a time, every interleaving of it: all matrices of 6 to 12 cells, structured shapes from 3x3 to 8x8 on 2 threads and below 15 cells on 3 (delay bound 3 beyond)" : "one stretch between two barriers at a time, every interleaving of it: all matrices of 6 to 9 cells on 2 and 3 threads, structured shapes from 3x3 to 6x6 on 2 and 3 threads (dense ones from 15 cells on 3 threads: delay bound 3)");
  bound("synk::Barrier taken as one step (C04 decides it), except in the cases marked `real barrier'; the matrix is permuted by the result in one interleaving");
  static const int SH[][2] = {{0, 0}, {0, 2}, {1, 0}, {1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {1, 5}, {2, 4}, {4, 2}, {3, 3}, {2, 5}, {5, 2}, {3, 4}, {4, 3}, {2, 6}, {3, 5}, {4, 4}};
  Options o; o.max_exec = 400000000;
  for (auto &sh : SH) for (int t = 1; t <= 3; ++t) for (int base = 0; base < 2; ++base) {
    int m = sh[0], n = sh[1], z = m * n;
    if (z > (t == 1 ? (th ? 16 : 12) : t == 2 ? (th ? 12 : 10) : th ? 12 : 9)) continue;
    o.threads = t; o.delay = -1;
    if (t == 2 && z > 10) o.delay = 3;
    if (t == 3 && z > (th ? 6 : 4)) o.delay = th ? 3 : 2;
    MC_RUN(o, S("all %dx%d base=%d threads=%d", m, n, base, t), ([=] {
      Ref a = ref_from_bits(m, n, choose(1 << z));
      check(a, base, n & 1, t == 1, false);
    }));
    if (t == 2 && z && z <= 4) {
      Options q = o; q.delay = 1; q.isolate = true;
      MC_RUN(q, S("real barrier %dx%d base=%d", m, n, base), ([=] { check(ref_from_bits(m, n, choose(1 << z)), base, true, false, true); }));
    }
  }
  for (int t = 1; t <= 4; ++t) for (int m = 1; m <= (th ? 16 : 8); m += 1 + m / 3) for (int n = 1; n <= (th ? 16 : 8); n += 1 + n / 3) for (int kind = 0; kind < NRECT; ++kind) {
    o.threads = t; o.delay = t == 1 ? -1 : th && m * n <= 30 ? 2 : 1;
    MC_RUN(o, S("shape %dx%d kind=%d threads=%d", m, n, kind, t), ([=] { check(rect(m, n, kind), (m + n) & 1, true, true, false); }));
  }
  // one stretch between barriers at a time
  for (int t = 2; t <= 3; ++t) for (auto &sh : SH) for (int base = 0; base < 2; ++base) {
    int m = sh[0], n = sh[1], z = m * n;
    if (z < 6 || z > (th ? 12 : t == 2 ? 10 : 9)) continue;
    o.threads = t; o.delay = -1;
    if (z > 9 && (base || t == 3)) continue;
    MC_RUN(o, S("phases all %dx%d base=%d threads=%d", m, n, base, t), ([=] {
      Ref a = ref_from_bits(m, n, choose(1 << z));
      each_phase([&] { check(a, base, n & 1, false, false); });
    }));
  }
  for (int t = 2; t <= 3; ++t) for (int m = 3; m <= (th ? 8 : 6); ++m) for (int n = 3; n <= (th ? 8 : 6); ++n) for (int kind = 0; kind < NRECT; ++kind) {
    o.threads = t; o.delay = t == 3 && m * n >= 15 && (kind == 0 || th) ? 3 : -1;
    MC_RUN(o, S("phases shape %dx%d kind=%d threads=%d", m, n, kind, t), ([=] {
      each_phase([&] { check(rect(m, n, kind), (m + n) & 1, true, false, false); });
    }));
  }
  static const int LG[][2] = {{9, 9}, {5, 17}, {17, 5}, {16, 16}, {40, 33}};
  for (int t : {5, 7, 8, 13, 16}) for (auto &sh : LG) for (int kind = 0; kind < NRECT; ++kind) {
    int m = sh[0], n = sh[1];
    o.threads = t; o.delay = 0; o.max_events = 1000000;
    MC_RUN(o, S("wide %dx%d kind=%d threads=%d", m, n, kind, t), ([=] { check(rect(m, n, kind), (m + n + kind) & 1, true, true, false); }));
  }
}
