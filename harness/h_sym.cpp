// M03: symmetry test and structural symmetrisation
#include "matutil.hpp"
using namespace SpMP;
namespace SpMP { bool getSymmetricNnzPattern(const CSR *A, int **symRowPtr, int **symDiagPtr, int **symExtPtr, int **symColIdx); }
// local part m x m from bits, plus non-local tails: kind 0 none, 1 one per row, 2 alternating with repeated columns in falling order
static Ref mk(int m, unsigned long bits, int tail, bool fulldiag) {
  Ref a(m, m);
  if (fulldiag) { int k = 0; for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { bool on = i == j; if (i != j) { on = bits >> k & 1; ++k; } if (on) a.r[i].push_back({j, val_of(i, j)}); } }
  else a = ref_from_bits(m, m, bits);
  a.n = m + (tail ? 2 : 0);
  for (int i = 0; i < m; ++i) {
    if (tail == 1) a.r[i].push_back({m + i % 2, 500 + i});
    if (tail == 2 && i % 2 == 0) { a.r[i].push_back({m + 1, 600 + i}); a.r[i].push_back({m, 700 + i}); }
  }
  return a;
}
static bool symmetric(const Ref &a, bool values) {
  for (int i = 0; i < a.m; ++i) for (auto &p : a.r[i]) if (p.first < a.m && p.first != i) {
    if (!a.has(p.first, i)) return false;
    if (values && a.at(p.first, i) != p.second) return false;
  }
  return true;
}
static void pattern(const Ref &a, int base, int flags) {
  CSR *A = build(a, base, flags);
  Saved s(*A);
  int *rp = NULL, *dp = NULL, *ep = NULL, *ci = NULL;
  bool is = getSymmetricNnzPattern(A, &rp, &dp, &ep, &ci);
  s.same(*A, "getSymmetricNnzPattern");
  if (is != symmetric(a, false)) fail("answer", "getSymmetricNnzPattern answers %d for %s", is, show(a).c_str());
  if (is) { if (rp || ci || dp || ep) fail("answer", "arrays returned for a symmetric matrix"); return; }
  int m = a.m;
  readable(rp, (m + 1) * 4, "symRowPtr");
  if (rp[0] != base) fail("base", "symRowPtr[0]=%d", rp[0]);
  for (int i = 0; i < m; ++i) if (rp[i + 1] < rp[i]) fail("rowptr", "symRowPtr[%d]=%d symRowPtr[%d]=%d", i, rp[i], i + 1, rp[i + 1]);
  readable(ci, (rp[m] - base) * 4, "symColIdx"); readable(dp, m * 4, "symDiagPtr");
  if (flags & W_EXTPTR) readable(ep, m * 4, "symExtPtr");
  for (int i = 0; i < m; ++i) {
    std::vector<int> e, g; int d = -1;
    for (int j = 0; j < m; ++j) if (a.has(i, j) || a.has(j, i)) { if (j == i) d = (int)e.size(); e.push_back(j); }
    int nl = (int)e.size();
    for (auto &p : a.r[i]) if (p.first >= m) e.push_back(p.first);
    for (int k = rp[i] - base; k < rp[i + 1] - base; ++k) g.push_back(ci[k] - base);
    if (g != e) { std::string x, y; for (int q : g) x += S(" %d", q); for (int q : e) y += S(" %d", q); fail("pattern", "row %d of the symmetrised pattern is {%s }, expected {%s }", i, x.c_str(), y.c_str()); }
    if (d >= 0 && dp[i] != rp[i] + d) fail("diagptr", "symDiagPtr[%d]=%d, diagonal is at %d", i, dp[i], rp[i] + d);
    if ((flags & W_EXTPTR) && ep[i] != rp[i] + nl) fail("extptr", "symExtPtr[%d]=%d, non-local part starts at %d", i, ep[i], rp[i] + nl);
  }
}
static void query(const Ref &a, int base, int flags) {
  CSR *A = build(a, base, flags);
  bool sq = a.m == a.n || (flags & W_EXTPTR);
  for (int cv = 0; cv < 2; ++cv) for (int pr = 0; pr < 2; ++pr) {
    if (cv && !(flags & W_VALUES)) continue;
    bool e = sq && symmetric(a, cv), g = A->isSymmetric(cv, pr);
    if (g != e) fail("answer", "isSymmetric(%d,%d)=%d for %s", cv, pr, g, show(a).c_str());
  }
}
void mc_enumerate() {
  bool th = tier();
  bound("larger matrices (9 patterns, up to 65x65, rows of up to 70 entries) on teams of 1-3, 5, 7, 8, 13 and 16, one interleaving");
  bound("symmetrisation: all square patterns up to 3x3, all 4x4 with full diagonal (thorough: all 4x4, and 5x5 with full diagonal one interleaving), three kinds of non-local tails, both bases, teams of 1-3 (thorough 4)");
  bound("every interleaving for teams of 2 up to 3x3 and of 3 up to 2x2; one interleaving for the rest");
  bound("symmetry test: all patterns up to 3x3 with every assignment of equal/unequal values to mirrored pairs, rectangular shapes up to 3, unsorted rows, both bases, with/without non-local tails");
  for (int m = 0; m <= (th ? 5 : 4); ++m) for (int base = 0; base < 2; ++base) for (int tail = 0; tail < 3; ++tail) for (int t = 1; t <= (th ? 4 : 3); ++t) {
    bool fd = m >= (th ? 5 : 4);
    if (m == 5 && (t > 2 || tail == 1)) continue;
    Options o; o.threads = t; o.max_exec = 100000000;
    for (int vals = 0; vals < 2; ++vals) {
      int fl = (vals ? W_VALUES : 0) | (tail ? W_EXTPTR : 0);
      if (m >= 4 && vals) continue;
      MC_RUN(o, S("symmetrise %dx%d base=%d tail=%d threads=%d values=%d", m, m, base, tail, t, vals), ([=] {
        unsigned long bits = choose(1 << (fd ? m * m - m : m * m));
        freeze(!(t == 1 || (t == 2 && m <= 3 && !vals) || (t == 3 && m <= 2 && (th || (tail == 0 && !vals)))));
        pattern(mk(m, bits, tail, fd), base, fl);
      }));
    }
  }
  for (int t = 1; t <= 3; ++t) for (int base = 0; base < 2; ++base) for (int k = 0; k < NSTRUCT; ++k) {
    Options o; o.threads = t; o.max_exec = 100000000;
    MC_RUN(o, S("symmetrise structured 7x7 lower/upper kind=%d base=%d threads=%d", k, base, t), ([=] {
      freeze(true);
      int up = choose(3);
      Ref f = ref_struct(7, k), a(7, 7);
      for (int i = 0; i < 7; ++i) for (auto &p : f.r[i]) if (p.first == i || (up == 0 ? p.first > i : up == 1 ? p.first < i : (p.first + i) % 2 == 1)) a.r[i].push_back(p);
      pattern(a, base, W_VALUES);
    }));
  }
  for (int m = 0; m <= 3; ++m) for (int n = 0; n <= 3; ++n) for (int base = 0; base < 2; ++base) for (int t = 1; t <= 3; ++t) for (int vals = 0; vals < 2; ++vals) for (int tail = 0; tail < (m == n ? 3 : 1); ++tail) {
    Options o; o.threads = t; o.max_exec = 100000000;
    MC_RUN(o, S("isSymmetric %dx%d base=%d threads=%d values=%d tail=%d", m, n, base, t, vals, tail), ([=] {
      unsigned long bits = choose(1 << (m * n));
      Ref a = m == n ? mk(m, bits, tail, false) : ref_from_bits(m, n, bits);
      if (vals && m == n) {
        int np = m * (m - 1) / 2; unsigned eq = choose(1 << np), k = 0;
        for (int i = 0; i < m; ++i) for (int j = i + 1; j < m; ++j, ++k) if (eq >> k & 1)
          for (auto &p : a.r[j]) if (p.first == i) p.second = val_of(i, j);
      }
      if (choose(2) && !tail) for (auto &r : a.r) std::reverse(r.begin(), r.end());
      freeze(!(t == 1 || (t == 2 && m <= 2)));
      query(a, base, (vals ? W_VALUES : 0) | (tail ? W_EXTPTR : 0));
    }));
  }
  for (int t : TEAMS) for (int n : SQUARES) for (int base = 0; base < 2; ++base) {
    Options o; o.threads = t;
    MC_RUN(o, S("large %dx%d base=%d threads=%d", n, n, base, t), ([=] {
      freeze(true);
      int kind = choose(NBIG), sym = choose(2), v = choose(2), tail = choose(2);
      Ref a = ref_big(n, n + (tail ? 7 : 0), kind, choose(2), sym);
      if (sym && tail) for (int i = 0; i < n; ++i) for (auto &e : a.r[i]) if (e.first < n) e.second = 1 + 100. * std::min(i, e.first) + std::max(i, e.first);
      int how = choose(3); // one mirrored entry missing or different
      if (how) { int i = n - 1, k = 0; for (i = n - 1; i >= 0; --i) { k = -1; for (size_t q = 0; q < a.r[i].size(); ++q) if (a.r[i][q].first < i) k = (int)q; if (k >= 0) break; } if (i < 0) return; if (how == 1) a.r[i].erase(a.r[i].begin() + k); else a.r[i][k].second += 0.5; }
      pattern(a, base, (v ? W_VALUES : 0) | (tail ? W_EXTPTR : 0));
      query(a, base, (v ? W_VALUES : 0) | (tail ? W_EXTPTR : 0));
    }));
  }
}
