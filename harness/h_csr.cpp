// M08: base switches, copies, queries, equality and derived diagonals
#include "matutil.hpp"
#include <climits>
using namespace SpMP;
static bool fulldiag(const Ref &a) { for (int i = 0; i < a.m; ++i) if (!a.has(i, i)) return false; return true; }
static Ref shuffled(Ref a, int how) { // order of the entries inside the rows
  for (auto &r : a.r) { if (how == 1) std::reverse(r.begin(), r.end()); if (how == 2 && r.size() > 1) std::rotate(r.begin(), r.begin() + 1, r.end()); }
  return a;
}
static void same_raw(const CSR &A, const Ref &a, int base, int flags, const char *what) {
  expect(A, a, base, true, what, flags & W_VALUES);
  if (!(flags & W_VALUES) && A.values) fail("values", "%s: a pattern-only matrix has values", what);
  int k = 0;
  for (int i = 0; i < a.m; ++i) {
    int b = k;
    for (auto &p : a.r[i]) {
      if (p.first == i) {
        if (A.diagptr && (flags & W_DIAGPTR) && A.diagptr[i] != k + base) fail("diagptr", "%s: diagptr[%d]=%d, diagonal is at %d", what, i, A.diagptr[i], k + base);
        if (A.diag && (flags & W_DIAG) && A.diag[i] != p.second) fail("diag", "%s: diag[%d]=%g", what, i, A.diag[i]);
        if (A.idiag && (flags & W_IDIAG) && A.idiag[i] != 1 / p.second) fail("idiag", "%s: idiag[%d]=%g", what, i, A.idiag[i]);
      }
      ++k;
    }
    if ((flags & W_EXTPTR) && A.extptr) {
      int e = b; while (e < k && a.r[i][e - b].first < a.m) ++e;
      if (A.extptr[i] != e + base) fail("extptr", "%s: extptr[%d]=%d, non-local part starts at %d", what, i, A.extptr[i], e + base);
    }
  }
  if (A.getNnz() != k || A.getBase() != base) fail("nnz", "%s: getNnz()=%d getBase()=%d", what, A.getNnz(), A.getBase());
}
static void switches(const Ref &a, int base, int flags, int len) {
  CSR *A = build(a, base, flags);
  const int *rp = A->rowptr, *ci = A->colidx;
  long live = live_blocks();
  for (int k = 0; k < len; ++k) {
    int to = choose(2);
    if (to) A->make1BasedIndexing(); else A->make0BasedIndexing();
    same_raw(*A, a, to, flags, to ? "make1BasedIndexing" : "make0BasedIndexing");
  }
  if (A->rowptr != rp || A->colidx != ci || live_blocks() != live) fail("reallocated", "switching the base replaced arrays");
}
static void queries(const Ref &a, int base, int flags, bool sorted) {
  CSR *A = build(a, base, flags);
  Saved s(*A);
  int bw = INT_MIN, deg = 0; unsigned long long wid = 0; bool zd = false;
  for (int i = 0; i < a.m; ++i) {
    int lo = INT_MAX, hi = INT_MIN; bool d = false;
    for (auto &p : a.r[i]) { bw = std::max(bw, std::abs(p.first - i)); lo = std::min(lo, p.first); hi = std::max(hi, p.first); d |= p.first == i && p.second != 0; }
    if (!a.r[i].empty()) wid += hi - lo;
    deg = std::max(deg, (int)a.r[i].size());
    zd |= !d;
  }
  if (bw != INT_MIN && A->getBandwidth() != bw) fail("bandwidth", "getBandwidth()=%d, expected %d for %s base %d", A->getBandwidth(), bw, show(a).c_str(), base);
  if (a.m) for (int so = 0; so <= (sorted ? 1 : 0); ++so) {
    double w = so ? A->getAverageWidth(true) : A->getAverageWidth();
    if (w != (double)wid / a.m) fail("width", "getAverageWidth(%d)=%g, expected %g for %s base %d", so, w, (double)wid / a.m, show(a).c_str(), base);
  }
  if (A->getMaxDegree() != deg) fail("degree", "getMaxDegree()=%d, expected %d for %s", A->getMaxDegree(), deg, show(a).c_str());
  if ((flags & W_VALUES) && A->hasZeroDiag() != zd) fail("zero-diagonal", "hasZeroDiag()=%d for %s base %d", !zd, show(a).c_str(), base);
  if (A->getNnz() != a.nnz() || A->getBase() != base) fail("nnz", "getNnz()=%d getBase()=%d", A->getNnz(), A->getBase());
  s.same(*A, "queries");
}
static void copies(const Ref &a, int base, int flags) {
  CSR *A = build(a, base, flags);
  long before = live_blocks();
  {
    CSR *B = new CSR(*A);
    if (B->m != a.m || B->n != a.n) fail("shape", "the copy is %dx%d", B->m, B->n);
    same_raw(*B, a, base, flags, "copy");
    const void *x[7] = {A->rowptr, A->colidx, A->values, A->idiag, A->diag, A->diagptr, A->extptr}, *y[7] = {B->rowptr, B->colidx, B->values, B->idiag, B->diag, B->diagptr, B->extptr};
    static const char *N[7] = {"rowptr", "colidx", "values", "idiag", "diag", "diagptr", "extptr"};
    for (int k = 0; k < 7; ++k) { if (!x[k] != !y[k]) fail("missing", "the copy %s %s", x[k] ? "lost" : "has an extra", N[k]); if (x[k] && x[k] == y[k]) fail("shared", "the copy shares %s", N[k]); }
    if (!A->equals(*B) && (flags & W_VALUES)) fail("equality", "a copy differs from its original");
    if (base) B->make0BasedIndexing(); else B->make1BasedIndexing();
    same_raw(*A, a, base, flags, "original after changing the copy");
    same_raw(*B, a, !base, flags, "copy in the other base");
    CSR *C = new CSR(*B);
    if (flags & W_VALUES) for (int k = 0; k < a.nnz(); ++k) B->values[k] = -1;
    delete B;
    same_raw(*C, a, !base, flags, "copy of a copy");
    delete C;
  }
  if (live_blocks() != before) fail("leak", "%ld blocks of a destroyed copy are left: %s", live_blocks() - before, live_summary().c_str());
  same_raw(*A, a, base, flags, "original after destroying the copies");
}
static void equality(int m, int n, int bbits) {
  Ref a = ref_from_bits(m, n, choose(1 << bbits)), b = ref_from_bits(m, n, choose(1 << bbits));
  int change = choose(6);
  bool e = true;
  int ba = choose(2), bb = ba, fa = W_VALUES, fb = W_VALUES;
  if (change == 1) bb = !ba;
  if (change == 2) { b.n++; }
  if (change == 3) { b.m++; b.r.push_back({}); }
  if (change == 4) for (auto &r : b.r) if (!r.empty()) { r.back().second += 0.5; break; }
  if (change == 5) for (auto &r : b.r) if (r.size() > 1) { std::swap(r[0], r[1]); break; }
  int pat = change == 0 ? choose(4) : 0;
  if (pat & 1) fa = 0;
  if (pat & 2) fb = 0;
  e = a.m == b.m && a.n == b.n && ba == bb;
  if (e) for (int i = 0; i < a.m; ++i) { if (a.r[i].size() != b.r[i].size()) { e = false; break; } for (size_t k = 0; k < a.r[i].size(); ++k) if (a.r[i][k].first != b.r[i][k].first || (!pat && a.r[i][k].second != b.r[i][k].second)) e = false; }
  if ((pat == 1 || pat == 2) && e) { if (!a.nnz()) return; e = false; } // one has values, the other none
  CSR *A = build(a, ba, fa), *B = build(b, bb, fb);
  for (int pr = 0; pr < 2; ++pr) {
    if (A->equals(*B, pr) != e || B->equals(*A, pr) != e) fail("equality", "equals(print=%d) is %d for %s (base %d%s) and %s (base %d%s)", pr, !e, show(a).c_str(), ba, fa ? "" : ", pattern", show(b).c_str(), bb, fb ? "" : ", pattern");
  }
}
static void diagonals(const Ref &a, int base, int how) {
  CSR *A = build(a, base, W_VALUES);
  A->constructDiagPtr();
  readable(A->diagptr, 4 * a.m, "diagptr");
  same_raw(*A, a, base, W_VALUES | W_DIAGPTR, "constructDiagPtr");
  const int *dp = A->diagptr;
  if (how) { if (base) A->make0BasedIndexing(); else A->make1BasedIndexing(); base = !base; }
  A->constructDiagPtr();
  if (A->diagptr != dp) fail("diagptr", "constructDiagPtr replaced existing pointers");
  if (how == 2) { A->diagptr = NULL; } // the inverse diagonal constructs them itself
  A->computeInverseDiag();
  readable(A->idiag, 8 * a.m, "idiag"); readable(A->diagptr, 4 * a.m, "diagptr");
  same_raw(*A, a, base, W_VALUES | W_DIAGPTR | W_IDIAG, "computeInverseDiag");
  const double *id = A->idiag;
  A->computeInverseDiag();
  if (A->idiag != id) fail("idiag", "computeInverseDiag replaced an existing diagonal");
}
void mc_enumerate() {
  bool th = tier();
  bound("larger matrices (9 patterns, up to 65x65, rows of up to 70 entries) on teams of 1-3, 5, 7, 8, 13 and 16, one interleaving");
  bound(th ? "every pattern up to 3x3 and 2x5, 4x4 for base switches; structured matrices up to 24 rows" : "every pattern up to 3x3 (queries also 2x4); structured matrices up to 16 rows");
  bound("both bases, every subset of values/diagptr/diag/idiag/extptr, up to 3 (thorough 4) base switches in every order, teams of 1-3 with every interleaving");
  bound("equality on every pair of patterns up to 2x3 with six kinds of difference and missing values on either side");
  static const int SH[][2] = {{0, 0}, {0, 2}, {1, 0}, {1, 1}, {1, 3}, {2, 2}, {3, 1}, {2, 3}, {3, 2}, {3, 3}, {2, 4}, {2, 5}, {4, 4}};
  Options o; o.max_exec = 200000000;
  for (auto &sh : SH) {
    int m = sh[0], n = sh[1];
    if (m * n > 9 && !th) continue;
    for (int t = 1; t <= 3; ++t) {
      o.threads = t;
      for (int base = 0; base < 2; ++base) {
        MC_RUN(o, S("base switches %dx%d base=%d threads=%d", m, n, base, t), ([=] {
          int flags = choose(4), bits = choose(1 << (m * n));
          Ref a = ref_from_bits(m, n, bits);
          int f = (flags & 1 ? W_VALUES : 0) | (flags & 2 ? W_DIAGPTR | W_EXTPTR : 0);
          switches(a, base, f, m * n <= 6 ? (th ? 4 : 3) : 2);
        }));
        MC_RUN(o, S("queries %dx%d base=%d threads=%d", m, n, base, t), ([=] {
          Ref a = ref_from_bits(m, n, choose(1 << (m * n)));
          int how = choose(3);
          Ref b = shuffled(a, how);
          int z = m == n ? choose(m + 1) : 0; // an explicit zero on the diagonal
          if (z) for (auto &p : b.r[z - 1]) if (p.first == z - 1) p.second = 0;
          queries(b, base, choose(2) ? W_VALUES : W_VALUES | W_DIAGPTR, how == 0);
        }));
        if (m * n <= 9) MC_RUN(o, S("copies %dx%d base=%d threads=%d", m, n, base, t), ([=] {
          int flags = choose(32);
          Ref a = ref_from_bits(m, n, m * n > 6 ? choose(1 << (m * n - 3)) * 8 + 5 : choose(1 << (m * n)));
          copies(a, base, flags); // bit i of flags is exactly one of the W_ flags
        }));
        if (m == n && m <= (th ? 4 : 3)) MC_RUN(o, S("diagonals %dx%d base=%d threads=%d", m, n, base, t), ([=] {
          int off = m * n - m, bits = choose(1 << off), how = choose(3);
          Ref a(m, m); int k = 0;
          for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { bool on = i == j; if (i != j) { on = bits >> k & 1; ++k; } if (on) a.r[i].push_back({j, val_of(i, j)}); }
          diagonals(a, base, how);
        }));
      }
    }
  }
  o.threads = 1;
  for (int m = 0; m <= 2; ++m) for (int n = 0; n <= 3; ++n) MC_RUN(o, S("equality %dx%d", m, n), ([=] { equality(m, n, m * n); }));
  for (int t = 1; t <= 4; ++t) for (int n = 5; n <= (th ? 24 : 16); n += 1 + n / 8) for (int kind = 0; kind < NSTRUCT; ++kind) {
    o.threads = t; o.delay = t <= 3 ? -1 : 1;
    MC_RUN(o, S("structured n=%d kind=%d threads=%d", n, kind, t), ([=] {
      int base = choose(2), what = choose(4);
      Ref a = ref_struct(n, kind);
      if (what == 0) switches(a, base, W_VALUES | W_DIAGPTR, 2);
      else if (what == 1) queries(a, base, W_VALUES, true);
      else if (what == 2) copies(a, base, 31);
      else if (fulldiag(a)) diagonals(a, base, choose(3));
    }));
  }
  for (int t : TEAMS) for (int z = 0; z < NSIZE; ++z) for (int base = 0; base < 2; ++base) {
    Options o; o.threads = t;
    int m = SIZES[z][0], n = SIZES[z][1];
    MC_RUN(o, S("large %dx%d base=%d threads=%d", m, n, base, t), ([=] {
      freeze(true);
      int kind = choose(NBIG), what = choose(6);
      Ref a = ref_big(m, n, kind, what == 3);
      if (what == 0) switches(a, base, W_VALUES | W_EXTPTR, 2);
      else if (what == 1) queries(a, base, W_VALUES, true);
      else if (what == 2) copies(a, base, 31);
      else if (what == 3) { if (m == n) diagonals(a, base, choose(3)); }
      else { // equality with one late difference
        Ref b = a; int k = choose(4); int i = m - 1; while (i >= 0 && b.r[i].empty()) --i;
        if (i < 0) return;
        bool e = k == 0;
        if (k == 1) b.r[i].back().second += 0.5;
        if (k == 2) { if (b.r[i].size() > 1) std::swap(b.r[i][0], b.r[i].back()); else e = true; }
        if (k == 3) b.r[i].pop_back();
        CSR *A = build(a, base), *B = build(b, base);
        if (A->equals(*B, what == 5) != e || B->equals(*A, what == 5) != e) fail("equality", "equals is %d for large matrices (difference %d in row %d)", !e, k, i);
      }
    }));
  }
}
