// R04: connected components
#include "matutil.hpp"
#include "reordering/BitVector.hpp"
using namespace SpMP;
namespace SpMP {
void findConnectedComponents(const CSR *A, int *numOfComponents, int **compToRoot, int **compSizes, int **compSizePrefixSum, int **nodesSortedByComp);
void findConnectedComponentsWithBitVector(const CSR *A, int *numOfComponents, int **compToRoot, int **compSizes, int **compSizePrefixSum, int **nodesSortedByComp, const BitVector *bv);
}
// exclude: bit per component (in order of their smallest row) left out through the bit vector; -1: plain search
static void check(const Ref &a, int base, long exclude, bool values) {
  int n = a.m;
  std::vector<int> comp(n, -1); std::vector<std::vector<int>> members;
  for (int i = 0; i < n; ++i) if (comp[i] < 0) {
    std::vector<int> st{i}; comp[i] = (int)members.size(); members.push_back({});
    while (!st.empty()) { int u = st.back(); st.pop_back(); members.back().push_back(u); for (auto &p : a.r[u]) if (comp[p.first] < 0) { comp[p.first] = comp[i]; st.push_back(p.first); } }
    std::sort(members.back().begin(), members.back().end());
  }
  CSR *A = build(a, base, values ? W_VALUES : 0);
  Saved s(*A);
  BitVector bv(n);
  std::vector<std::vector<int>> want;
  for (size_t c = 0; c < members.size(); ++c) if (exclude >= 0 && (exclude >> c & 1)) { for (int i : members[c]) bv.set(i); } else want.push_back(members[c]);
  if (want.empty()) return; // never asked for by the library
  int k = -1, *root = nullptr, *size = nullptr, *ps = nullptr, *nodes = nullptr;
  long live = live_blocks();
  if (exclude < 0) findConnectedComponents(A, &k, &root, &size, &ps, &nodes);
  else findConnectedComponentsWithBitVector(A, &k, &root, &size, &ps, &nodes, &bv);
  if (k != (int)want.size()) fail("count", "%d components found, %d expected in %s", k, (int)want.size(), show(a).c_str());
  readable(root, k * sizeof(int), "compToRoot"); readable(size, k * sizeof(int), "compSizes"); readable(ps, k * sizeof(int), "compSizePrefixSum");
  int total = 0; for (auto &w : want) total += (int)w.size();
  readable(nodes, total * sizeof(int), "nodesSortedByComp");
  uint64_t h = 1; int pos = 0;
  for (int c = 0; c < k; ++c) {
    if (root[c] < 0 || root[c] >= n ) fail("root", "compToRoot[%d]=%d", c, root[c]);
    std::vector<int> &w = members[comp[root[c]]];
    if (exclude >= 0 && (exclude >> comp[root[c]] & 1)) fail("root", "compToRoot[%d]=%d belongs to a component that was excluded", c, root[c]);
    if (w[0] != root[c]) fail("root", "compToRoot[%d]=%d is not the smallest row of its component in %s", c, root[c], show(a).c_str());
    if (c && root[c] <= root[c - 1]) fail("order", "components are not ordered by their roots");
    if (size[c] != (int)w.size()) fail("size", "compSizes[%d]=%d, the component has %d rows: %s", c, size[c], (int)w.size(), show(a).c_str());
    if (ps[c] != pos) fail("offset", "compSizePrefixSum[%d]=%d, expected %d in %s", c, ps[c], pos, show(a).c_str());
    for (size_t i = 0; i < w.size(); ++i) if (nodes[pos + i] != w[i]) fail("nodes", "nodesSortedByComp[%d]=%d, expected %d in %s", pos + (int)i, nodes[pos + i], w[i], show(a).c_str());
    pos += size[c]; h = h * 31 + root[c];
  }
  outcome(h);
  s.same(*A, "the component search");
  delete[] root; delete[] size; delete[] ps; delete[] nodes;
  if (live_blocks() != live) fail("leak", "the component search left %ld blocks: %s", live_blocks() - live, live_summary().c_str());
}
static Ref shape(int n, int kind) {
  if (kind < NSTRUCT) return ref_struct(n, kind);
  Ref a(n, n); std::vector<std::vector<char>> p(n, std::vector<char>(n, 0));
  auto e = [&](int i, int j) { if (i >= 0 && j >= 0 && i < n && j < n && i != j) p[i][j] = p[j][i] = 1; };
  for (int i = 0; i < n; ++i) switch (kind - NSTRUCT) {
  case 0: e(i, i + 2); break;
  case 1: if (i % 3 != 2) e(i, i + 1); break;
  case 2: e(i, n - 1 - i); break;
  case 3: if (i >= n / 2) e(i, i + 1); break;
  case 4: if (i % 2) e(i, n - 1); break;
  }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (p[i][j] || (i == j && i % 3)) a.r[i].push_back({j, 1});
  return a;
}
void mc_enumerate() {
  bool th = tier();
  bound("structured graphs of up to 40 rows on teams of 5, 7, 8, 13 and 16, one interleaving (thorough: at most one deviation from round robin)");
  bound(th ? "every graph up to 5 vertices (1-2 threads), 4 (3 threads), 3 (4 threads), every interleaving; 6 vertices one interleaving" : "every graph up to 4 vertices (5 on one thread) for 1-2 threads and 3 for 3-4 threads, every interleaving; 4 vertices on 3 threads with delay bound 2");
  bound("with and without diagonal, both bases, plain search and search leaving out every proper subset of the components through a bit vector");
  bound("structured graphs up to 12 (thorough 24) rows on 1-4 threads, all schedules with at most 1 (thorough 2) deviations from round robin");
  Options o; o.max_exec = 400000000;
  for (int n = 1; n <= (th ? 6 : 5); ++n) for (int t = 1; t <= 4; ++t) for (int base = 0; base < 2; ++base) for (int dg = 0; dg < 2; ++dg) {
    int cap = t == 1 ? 6 : t == 2 ? (th ? 5 : 4) : t == 3 ? 4 : 3;
    if (n > cap) continue;
    o.threads = t; o.delay = -1;
    if (t == 3 && n == 4 && !th) o.delay = 2;
    if (t == 2 && n == 5 && base) o.delay = 3;
    int e = n * (n - 1) / 2, split = n >= 4 && t > 1 ? 8 : 1;
    for (int part = 0; part < split; ++part)
      MC_RUN(o, S("all graphs n=%d threads=%d base=%d diag=%d part=%d", n, t, base, dg, part), ([=] {
        unsigned long bits = choose((1 << e) / split) * split + part;
        Ref a = ref_sym(n, bits, dg ? ~0u : n > 1 ? 0 : choose(2));
        // number of components: at most n; exclusions beyond it are repetitions and skipped
        int k = 0; { std::vector<int> c(n, -1); for (int i = 0; i < n; ++i) if (c[i] < 0) { ++k; std::vector<int> st{i}; c[i] = k; while (!st.empty()) { int u = st.back(); st.pop_back(); for (auto &p : a.r[u]) if (c[p.first] < 0) { c[p.first] = k; st.push_back(p.first); } } } }
        long ex = choose(1 << k); // all components excluded stands for the plain search
        check(a, base, ex == (1 << k) - 1 ? -1 : ex, n & 1);
      }));
  }
  for (int t = 1; t <= 4; ++t) for (int n = 5; n <= (th ? 24 : 12); n += 1 + n / 6) for (int kind = 0; kind < NSTRUCT + 5; ++kind) {
    o.threads = t; o.delay = t == 1 ? -1 : th && n <= 10 ? 2 : 1;
    MC_RUN(o, S("structured n=%d kind=%d threads=%d", n, kind, t), ([=] {
      int x = choose(4);
      check(shape(n, kind), (n + kind) & 1, x == 0 ? -1 : x == 1 ? 0 : x == 2 ? 1 : 0x5555, true);
    }));
  }
  for (int t : {5, 7, 8, 13, 16}) for (int n : {5, 9, 16, 33, 40}) for (int kind = 0; kind < NSTRUCT + 5; ++kind) {
    o.threads = t; o.delay = th && n <= 16 ? 1 : 0; o.max_events = 400000;
    MC_RUN(o, S("wide n=%d kind=%d threads=%d", n, kind, t), ([=] {
      int x = choose(4);
      check(shape(n, kind), (n + kind) & 1, x == 0 ? -1 : x == 1 ? 0 : x == 2 ? 1 : 0x5555, true);
    }));
  }
}
