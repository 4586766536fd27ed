// F02: storing and re-reading
#include "matutil.hpp"
#include <cmath>
#include <cfloat>
using namespace SpMP;
static double hard(int k) { static const double v[10] = {1. / 3, 2.2250738585072014e-308, 1.3407807929942597e308, 4.9e-324, -0.1, 123456789012345678., 1e22 / 7, -7e-10 / 3, 1, 0}; return v[k % 10]; }
static void near(const CSR &A, const Ref &e, int base, bool ordered, const char *what) {
  expect(A, e, base, ordered, what, false);
  Ref g = readback(A, base, what);
  for (int i = 0; i < e.m; ++i) {
    Row x = g.r[i], y = e.r[i];
    std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    for (size_t k = 0; k < y.size(); ++k) if (std::fabs(x[k].second - y[k].second) > std::max(6e-16 * std::fabs(y[k].second), 5e-324)) fail("value", "%s: (%d,%d) is %.17g, stored %.17g", what, i, y[k].first, x[k].second, y[k].second);
  }
}
static void diagonals(const CSR &A, int base, const char *what) {
  for (int i = 0; i < A.m; ++i) for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; ++j) if (A.colidx[j] - base == i && A.diagptr) {
    if (A.diagptr[i] != j + base || (A.diag && A.diag[i] != A.values[j]) || (A.idiag && A.idiag[i] != 1 / A.values[j])) fail("diag", "%s: diagptr/diag/idiag of row %d wrong", what, i);
  }
}
static const char *FMT[3] = {"text", "binary", "triplets as text"};
static void one(const Ref &a, int sbase, int lbase, int fmt, int flags, bool exact, bool unwritable) {
  const char *fn = fmt == 1 ? "mc:m.bin" : "mc:m.mtx";
  if (unwritable) vfile_unwritable(fn);
  if (fmt < 2) {
    CSR *A = build(a, sbase, flags);
    Saved s(*A);
    if (fmt == 0) A->storeMatrixMarket(fn); else A->storeBin(fn);
    s.same(*A, "storing");
    if (open_files()) fail("file-left-open", "the file is still open after storing");
    if (unwritable) return;
    int how = choose(fmt == 1 ? 3 : 1);
    if (how == 0) { CSR B(fn, lbase); exact ? expect(B, a, lbase, fmt == 1, "re-read matrix") : near(B, a, lbase, fmt == 1, "re-read matrix"); diagonals(B, lbase, "re-read matrix"); }
    else { CSR B; CSR C(2, 3, 4); CSR &T = how == 1 ? B : C; if (how == 2) { T.rowptr[0] = 0; T.rowptr[1] = 1; T.rowptr[2] = 4; } T.loadBin(fn, lbase); expect(T, a, lbase, true, "loadBin"); diagonals(T, lbase, "loadBin"); }
    if (fmt == 0) { COO c; if (!loadMatrixMarket(fn, c)) fail("rejected", "a stored matrix was rejected"); if (c.m != a.m || c.n != a.n || c.nnz != a.nnz()) fail("shape", "re-read as %dx%d with %d entries", c.m, c.n, c.nnz); }
  } else {
    COO c; int z = a.nnz(); c.m = a.m; c.n = a.n; c.nnz = z; c.rowidx = lib_alloc<int>(z); c.colidx = lib_alloc<int>(z); c.values = lib_alloc<double>(z);
    std::vector<int> ri, ci; std::vector<double> v;
    for (int i = a.m - 1; i >= 0; --i) for (auto &p : a.r[i]) { ri.push_back(i + 1); ci.push_back(p.first + 1); v.push_back(p.second); }
    for (int k = 0; k < z; ++k) { c.rowidx[k] = ri[k]; c.colidx[k] = ci[k]; c.values[k] = v[k]; }
    c.storeMatrixMarket(fn);
    if (c.m != a.m || c.n != a.n || c.nnz != z || memcmp(c.rowidx, ri.data(), z * 4) || memcmp(c.colidx, ci.data(), z * 4) || memcmp(c.values, v.data(), z * 8)) fail("input-changed", "storing changed the triplets");
    if (open_files()) fail("file-left-open", "the file is still open after storing");
    if (unwritable) return;
    COO d; if (!loadMatrixMarket(fn, d)) fail("rejected", "a stored matrix was rejected");
    if (d.m != c.m || d.n != c.n || d.nnz != z) fail("shape", "re-read as %dx%d with %d entries", d.m, d.n, d.nnz);
    for (int k = 0; k < z; ++k) if (d.rowidx[k] != ri[k] || d.colidx[k] != ci[k] || (exact && d.values[k] != v[k])) fail("entries", "entry %d re-read as (%d,%d)=%g", k, d.rowidx[k], d.colidx[k], d.values[k]);
    CSR B(fn, lbase); exact ? expect(B, a, lbase, false, "re-read matrix") : near(B, a, lbase, false, "re-read matrix"); diagonals(B, lbase, "re-read matrix");
  }
  if (open_files()) fail("file-left-open", "the file is still open after loading");
}
void mc_enumerate() {
  bool th = tier();
  bound("larger matrices (9 patterns, up to 65x65, rows of up to 70 entries) on teams of 1-3, 5, 7, 8, 13 and 16, one interleaving");
  bound("every pattern of every shape m,n in 0..3 (thorough also 2x4, 4x2), rows sorted or reversed, stored from 0- and 1-based objects with and without diagonal arrays / non-local pointers, as text, binary and triplet text; loaded in both bases, into fresh and used objects; values with at most 16 digits exactly, others to 16 digits");
  bound("paths that cannot be written; teams of 1-3, every interleaving for 1-2");
  for (int m = 0; m <= 4; ++m) for (int n = 0; n <= 4; ++n) {
    if (m * n > 9 || ((m == 4 || n == 4) && !th)) continue;
    for (int fmt = 0; fmt < 3; ++fmt) for (int sb = 0; sb < (fmt == 2 ? 1 : 2); ++sb) for (int lb = 0; lb < 2; ++lb) for (int t = 1; t <= 3; ++t) for (int un = 0; un < 2; ++un) {
      Options o; o.threads = t; o.max_exec = 100000000;
      MC_RUN(o, S("%s %dx%d stored base=%d loaded base=%d threads=%d%s", FMT[fmt], m, n, sb, lb, t, un ? " unwritable" : ""), ([=] {
        freeze(!(t == 1 || (t == 2 && m <= 2)));
        unsigned bits = choose(1 << (m * n));
        if (t > 1 && m * n == 9 && bits % 9 && !th) return;
        Ref a = ref_from_bits(m, n, bits);
        int fl = choose(3);
        bool hv = m * n <= 4 && fl == 0 && choose(2);
        bool rev = m * n <= 6 && choose(2);
        int k = bits;
        for (auto &r : a.r) { for (auto &p : r) { if (hv) p.second = hard(k++); else p.second = p.second / 8 + 1e5; } if (rev) std::reverse(r.begin(), r.end()); }
        static const int F[3] = {W_VALUES, W_VALUES | W_DIAGPTR | W_DIAG | W_IDIAG, W_VALUES | W_EXTPTR};
        if (fmt == 2 && fl) return;
        one(a, sb, lb, fmt, F[fl], !hv || fmt == 1, un);
      }));
    }
  }
  for (int n : {7, 10}) for (int k = 0; k < NSTRUCT; ++k) for (int fmt = 0; fmt < 3; ++fmt) for (int t = 1; t <= 4; ++t) {
    Options o; o.threads = t;
    MC_RUN(o, S("%s structured %dx%d kind=%d threads=%d", FMT[fmt], n, n, k, t), ([=] {
      freeze(true);
      Ref a = ref_struct(n, k);
      one(a, fmt == 2 ? 0 : choose(2), choose(2), fmt, W_VALUES, true, false);
    }));
  }
  for (int t : TEAMS) for (int z = 0; z < NSIZE; ++z) for (int fmt = 0; fmt < 3; ++fmt) {
    Options o; o.threads = t;
    int m = SIZES[z][0], n = SIZES[z][1];
    if (!th && t % 4 == 1 && z >= 4) continue;
    MC_RUN(o, S("%s large %dx%d threads=%d", FMT[fmt], m, n, t), ([=] {
      freeze(true);
      Ref a = ref_big(m, n, choose(NBIG));
      int sb = fmt == 2 ? 0 : choose(2), lb = choose(2);
      one(a, sb, lb, fmt, W_VALUES, true, false);
    }));
  }
}
