// reference representation of matrices and comparisons against the library's CSR
#pragma once
#include "util.hpp"
#include "../mc/rt.hpp"
#include "CSR.hpp"
#include "COO.hpp"
#include "Utils.hpp"
#include <xmmintrin.h>
using namespace mc;
typedef std::vector<std::pair<int, double>> Row; // 0-based columns
struct Ref {
  int m = 0, n = 0;
  std::vector<Row> r;
  Ref(int m_ = 0, int n_ = 0) : m(m_), n(n_), r(m_) {}
  int nnz() const { int k = 0; for (auto &x : r) k += (int)x.size(); return k; }
  double at(int i, int j) const { double s = 0; for (auto &p : r[i]) if (p.first == j) s += p.second; return s; }
  bool has(int i, int j) const { for (auto &p : r[i]) if (p.first == j) return true; return false; }
};
template <class T> static T *lib_alloc(size_t n) { return (T *)_mm_malloc(n * sizeof(T), 64); }

static inline double val_of(int i, int j) { return 1 + 10 * i + j; }
// pattern from bits, row-major
static inline Ref ref_from_bits(int m, int n, unsigned long bits, bool symvals = false) {
  Ref a(m, n);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j)
    if (bits >> (i * n + j) & 1) a.r[i].push_back({j, symvals ? (i < j ? val_of(i, j) : val_of(j, i)) : val_of(i, j)});
  return a;
}
// symmetric pattern: bits over the strict upper triangle, full (or chosen) diagonal
static inline Ref ref_sym(int n, unsigned long bits, unsigned diagbits = ~0u) {
  Ref a(n, n); int k = 0;
  std::vector<std::vector<char>> p(n, std::vector<char>(n, 0));
  for (int i = 0; i < n; ++i) { if (diagbits >> i & 1) p[i][i] = 1; for (int j = i + 1; j < n; ++j, ++k) if (bits >> k & 1) p[i][j] = p[j][i] = 1; }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (p[i][j]) a.r[i].push_back({j, i < j ? val_of(i, j) : val_of(j, i)});
  return a;
}
static const int W_VALUES = 1, W_DIAGPTR = 2, W_DIAG = 4, W_IDIAG = 8, W_EXTPTR = 16, W_OWN = 32;
// build a CSR; diagptr only when every row has a diagonal entry or -1 otherwise
static inline SpMP::CSR *build(const Ref &a, int base, int flags = W_VALUES) {
  SpMP::CSR *A;
  int nnz = a.nnz();
  if (flags & W_OWN) { A = new SpMP::CSR(a.m, a.n, nnz); }
  else {
    A = new SpMP::CSR();
    A->m = a.m; A->n = a.n;
    A->rowptr = lib_alloc<int>(a.m + 1);
    A->colidx = lib_alloc<int>(nnz);
    if (flags & W_VALUES) A->values = lib_alloc<double>(nnz);
    if (flags & W_DIAGPTR) A->diagptr = lib_alloc<int>(a.m);
    if (flags & W_DIAG) A->diag = lib_alloc<double>(a.m);
    if (flags & W_IDIAG) A->idiag = lib_alloc<double>(a.m);
  }
  if (flags & W_EXTPTR) A->extptr = lib_alloc<int>(a.m);
  int k = 0;
  for (int i = 0; i < a.m; ++i) {
    A->rowptr[i] = k + base;
    if (A->diagptr) A->diagptr[i] = -7;
    if (A->extptr) A->extptr[i] = -1;
    for (auto &p : a.r[i]) {
      A->colidx[k] = p.first + base;
      if (A->values) A->values[k] = p.second;
      if (p.first == i) {
        if (A->diagptr) A->diagptr[i] = k + base;
        if (A->diag) A->diag[i] = p.second;
        if (A->idiag) A->idiag[i] = 1 / p.second;
      }
      if (A->extptr && A->extptr[i] < 0 && p.first >= a.m) A->extptr[i] = k + base;
      ++k;
    }
    if (A->extptr && A->extptr[i] < 0) A->extptr[i] = k + base;
  }
  A->rowptr[a.m] = k + base;
  return A;
}
static inline std::string show(const Ref &a) {
  std::string s = S("%dx%d", a.m, a.n);
  for (int i = 0; i < a.m; ++i) for (auto &p : a.r[i]) s += S(" (%d,%d)=%g", i, p.first, p.second);
  return s;
}
// read back, with checks of the structural invariants
static inline Ref readback(const SpMP::CSR &A, int base, const char *what) {
  if (A.m < 0 || A.m > 100000) fail("shape", "%s: m=%d", what, A.m);
  readable(A.rowptr, (A.m + 1) * sizeof(int), S("%s.rowptr", what).c_str());
  if (A.rowptr[0] != base) fail("base", "%s: rowptr[0]=%d, expected base %d", what, A.rowptr[0], base);
  Ref r(A.m, A.n);
  for (int i = 0; i < A.m; ++i) if (A.rowptr[i + 1] < A.rowptr[i] || A.rowptr[i + 1] - base > 1000000) fail("rowptr", "%s: rowptr[%d]=%d rowptr[%d]=%d", what, i, A.rowptr[i], i + 1, A.rowptr[i + 1]);
  int nnz = A.rowptr[A.m] - base;
  readable(A.colidx, nnz * sizeof(int), S("%s.colidx", what).c_str());
  if (A.values) readable(A.values, nnz * sizeof(double), S("%s.values", what).c_str());
  for (int i = 0; i < A.m; ++i) for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; ++j) {
    int c = A.colidx[j] - base;
    if (c < 0 || c >= A.n) fail("column-range", "%s: row %d has column %d outside 0..%d (base %d)", what, i, c, A.n - 1, base);
    r.r[i].push_back({c, A.values ? A.values[j] : 0});
  }
  return r;
}
static inline void expect(const SpMP::CSR &A, const Ref &e, int base, bool ordered, const char *what, bool values = true) {
  if (A.m != e.m || A.n != e.n) fail("shape", "%s: is %dx%d, expected %dx%d", what, A.m, A.n, e.m, e.n);
  if (values && !A.values && e.nnz()) fail("values-missing", "%s: no values", what);
  Ref g = readback(A, base, what);
  for (int i = 0; i < e.m; ++i) {
    Row x = g.r[i], y = e.r[i];
    if (!values) { for (auto &p : x) p.second = 0; for (auto &p : y) p.second = 0; }
    if (!ordered) { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); }
    if (x != y) {
      Ref a(1, e.n), b(1, e.n); a.r[0] = x; b.r[0] = y;
      fail("entries", "%s: row %d is%s, expected%s", what, i, show(a).c_str() + 2, show(b).c_str() + 2);
    }
  }
}
// diagptr/diag/idiag/extptr describe the matrix itself
static inline void expect_aux(const SpMP::CSR &A, int base, const char *what, bool diagvals = true) {
  for (int i = 0; i < A.m; ++i) {
    int d = -1, ext = A.rowptr[i + 1];
    for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; ++j) if (A.colidx[j] - base == i) d = j;
    for (int j = A.rowptr[i + 1] - base - 1; j >= A.rowptr[i] - base; --j) if (A.colidx[j] - base >= A.m) ext = j + base; else break;
    if (d >= 0) {
      if (A.diagptr && A.diagptr[i] != d + base) fail("diagptr", "%s: diagptr[%d]=%d, diagonal is at %d", what, i, A.diagptr[i], d + base);
      if (diagvals && A.diag && A.values && A.diag[i] != A.values[d]) fail("diag", "%s: diag[%d]=%g, diagonal value is %g", what, i, A.diag[i], A.values[d]);
      if (diagvals && A.idiag && A.values && A.idiag[i] != 1 / A.values[d]) fail("idiag", "%s: idiag[%d]=%g, diagonal value is %g", what, i, A.idiag[i], A.values[d]);
    }
    if (A.extptr && A.extptr[i] != ext) fail("extptr", "%s: extptr[%d]=%d, non-local part starts at %d", what, i, A.extptr[i], ext);
  }
}
static inline Ref transposed(const Ref &a) {
  Ref t(a.n, a.m);
  for (int i = 0; i < a.m; ++i) for (auto &p : a.r[i]) t.r[p.first].push_back({i, p.second});
  return t;
}
static inline std::vector<int> nth_perm(int n, int k) {
  std::vector<int> p(n), q; for (int i = 0; i < n; ++i) p[i] = i;
  int f = 1; for (int i = 2; i < n; ++i) f *= i;
  for (int i = n - 1; i >= 0; --i) { int d = k / f; k %= f; q.push_back(p[d]); p.erase(p.begin() + d); if (i) f /= i; }
  return q;
}
static inline int fact(int n) { int f = 1; for (int i = 2; i <= n; ++i) f *= i; return f; }
static inline int *to_lib(const std::vector<int> &v) { int *p = lib_alloc<int>(v.size()); for (size_t i = 0; i < v.size(); ++i) p[i] = v[i]; return p; }
// unchanged input
struct Saved {
  int m, n; std::vector<int> rp, ci, dp, ep; std::vector<double> v, d, id;
  Saved(const SpMP::CSR &A) : m(A.m), n(A.n), rp(A.rowptr, A.rowptr + A.m + 1) {
    int z = rp[m] - rp[0];
    ci.assign(A.colidx, A.colidx + z);
    if (A.values) v.assign(A.values, A.values + z);
    if (A.diagptr) dp.assign(A.diagptr, A.diagptr + m);
    if (A.extptr) ep.assign(A.extptr, A.extptr + m);
    if (A.diag) d.assign(A.diag, A.diag + m);
    if (A.idiag) id.assign(A.idiag, A.idiag + m);
  }
  void same(const SpMP::CSR &A, const char *what) const {
    Saved b(A);
    if (m != b.m || n != b.n || rp != b.rp || ci != b.ci || v != b.v || dp != b.dp || ep != b.ep || d != b.d || id != b.id)
      fail("input-changed", "%s changed its input (or a stored array of it)", what);
  }
};
// larger structured patterns (symmetric, full diagonal)
static const int NSTRUCT = 8;
static inline Ref ref_struct(int n, int kind) {
  Ref a(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    int d = i > j ? i - j : j - i, lo = i < j ? i : j, hi = i < j ? j : i;
    bool on = d == 0;
    switch (kind) {
    case 0: on = true; break;                       // dense
    case 1: on |= d == 1; break;                    // chain
    case 2: on |= lo == 0; break;                   // star on the first row
    case 3: on |= hi == n - 1; break;               // star on the last row
    case 4: on |= (i < n / 2) == (j < n / 2); break; // two dense blocks
    case 5: break;                                  // diagonal
    case 6: on |= d == 2 || d == 3; break;          // bands off the diagonal
    case 7: on |= hi == 2 * lo + 1 || hi == 2 * lo + 2; break; // binary tree
    }
    if (on) a.r[i].push_back({j, lo == i ? val_of(i, j) : val_of(j, i)});
  }
  return a;
}
static inline std::vector<int> struct_perm(int n, int kind) {
  std::vector<int> p(n);
  for (int i = 0; i < n; ++i) switch (kind) {
    case 0: p[i] = i; break;
    case 1: p[i] = n - 1 - i; break;
    case 2: p[i] = (i + 1) % n; break;
    case 3: p[i] = (i + n - 1) % n; break;
    case 4: p[i] = i % 2 ? i / 2 : (n) / 2 + i / 2; break; // interleave
    case 5: p[i] = i ^ 1; if (p[i] >= n) p[i] = i; break;
    default: p[i] = (i * (kind - 3) + 1) % n;
  }
  std::vector<int> c(n, 0); bool ok = true;
  for (int x : p) if (x < 0 || x >= n || c[x]++) ok = false;
  if (!ok) for (int i = 0; i < n; ++i) p[i] = i;
  return p;
}
// one stretch between two barriers after the other: its interleavings are explored, the others take one fixed interleaving
template <class F> static void each_phase(const F &check) {
  freeze(true); int p = phase();
  check();
  int k = phase() - p; freeze(false);
  if (k < 1) return;
  focus(phase() + 1 + choose(k), 1);
  check();
}

// larger matrices, for unrolled loops, partitions with several rows per thread and wide teams
static const int NTEAM = 8, TEAMS[NTEAM] = {1, 2, 3, 5, 7, 8, 13, 16};
static const int NSIZE = 8, SIZES[NSIZE][2] = {{9, 9}, {16, 16}, {17, 31}, {33, 20}, {40, 40}, {1, 70}, {70, 1}, {65, 65}};
static const int NSQ = 7, SQUARES[NSQ] = {9, 10, 16, 17, 33, 40, 65};
static const int NBIG = 9;
static inline Ref ref_big(int m, int n, int kind, bool diag = false, bool sym = false) {
  Ref a(m, n);
  auto in = [=](int i, int j) {
    switch (kind) {
    case 0: return true;
    case 1: return std::abs(i - j) <= 2;
    case 2: return (i * 7 + j * 3) % 5 == 0;
    case 3: return j % 19 < i % 19;                         // rows of 0 to 18 of every 19 columns
    case 4: return i == 0 || i == m - 1;
    case 5: return i % 3 == 2 && j % 2 == 0;                // many empty rows
    case 6: return j == (i * 5 + 1) % n;
    case 7: return j == 0 || j == n - 1 || i == m / 2;
    default: return i >= m - 2 || (i * i + j * 11) % 13 == 4; // heavy last rows
    }
  };
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j)
    if ((diag && i == j) || in(i, j) || (sym && in(j, i))) a.r[i].push_back({j, sym ? 1 + 100. * std::min(i, j) + std::max(i, j) : 1 + 100. * i + j});
  return a;
}
