// M02: permutation routines
#include "matutil.hpp"
using namespace SpMP;
enum { PERMUTE, PERMUTE_SORT, ROWS, COLS, SPLIT };
static const char *NM[] = {"permute", "permute sorted", "permuteRows", "permuteColsInPlace", "permuteRowptr+permuteMain"};
// every row entry as it must appear after the operation
static void check(const CSR &P, const Ref &a, const std::vector<int> *cperm, const std::vector<int> *rinv, int base, int flags, int op, const CSR &orig) {
  const char *w = NM[op];
  bool ext = flags & W_EXTPTR, vals = flags & (W_VALUES | W_OWN);
  if (P.m != a.m || P.n != a.n) fail("shape", "%s: is %dx%d, expected %dx%d", w, P.m, P.n, a.m, a.n);
  Ref e(a.m, a.n);
  auto nc = [&](int c) { return !cperm || (ext && c >= a.m) ? c : (*cperm)[c]; };
  for (int i = 0; i < a.m; ++i) for (auto &p : a.r[rinv ? (*rinv)[i] : i]) e.r[i].push_back({nc(p.first), p.second});
  expect(P, e, base, false, w, vals);
  for (int i = 0; i < a.m; ++i) {
    int row = rinv ? (*rinv)[i] : i;
    int b = P.rowptr[i] - base, en = P.rowptr[i + 1] - base, le = en;
    if (ext) {
      if (!P.extptr) fail("extptr", "%s: extptr lost", w);
      int nl = 0; for (auto &p : a.r[row]) nl += p.first < a.m;
      le = b + nl;
      if (P.extptr[i] != le + base) fail("extptr", "%s: extptr[%d]=%d, expected %d", w, i, P.extptr[i], le + base);
      for (int j = b; j < en; ++j) if ((P.colidx[j] - base >= a.m) != (j >= le)) fail("extptr", "%s: row %d mixes local and non-local columns", w, i);
    }
    if (flags & (W_DIAGPTR | W_OWN)) {
      if (!P.diagptr) fail("diagptr", "%s: diagptr lost", w);
      bool has = a.has(row, row);
      if (has) {
        int d = P.diagptr[i] - base;
        if (d < b || d >= le || P.colidx[d] - base != nc(row)) fail("diagptr", "%s: diagptr[%d]=%d does not point to the moved diagonal entry", w, i, P.diagptr[i]);
      }
    }
    if (orig.idiag && (flags & (W_IDIAG | W_OWN)) && a.has(row, row)) {
      if (!P.idiag) fail("idiag", "%s: inverse diagonal lost", w);
      if (P.idiag[i] != 1 / a.at(row, row)) fail("idiag", "%s: idiag[%d]=%g, expected 1/%g", w, i, P.idiag[i], a.at(row, row));
    }
    if (P.diag && (flags & (W_DIAG | W_OWN)) && a.has(row, row) && P.diag[i] != a.at(row, row)) fail("diag", "%s: diag[%d]=%g, expected %g", w, i, P.diag[i], a.at(row, row));
    auto sorted = [&](int x, int y) { for (int j = x + 1; j < y; ++j) if (P.colidx[j - 1] > P.colidx[j]) fail("order", "%s: row %d is not sorted", w, i); };
    if (op == PERMUTE_SORT) sorted(b, le);
    if (op == COLS) {
      if (P.diagptr) { if (a.has(row, row)) { sorted(b, P.diagptr[i] - base); sorted(P.diagptr[i] - base + 1, le); } }
      else sorted(b, le);
    }
  }
}
static void one(const Ref &a, int base, int flags, int op, bool nullrow, std::vector<int> cperm, std::vector<int> rinv) {
  CSR *A = build(a, base, flags);
  int *cp = to_lib(cperm), *ri = nullrow ? NULL : to_lib(rinv);
  std::vector<int> *rv = nullrow ? NULL : &rinv;
  Saved s(*A);
  if (op == PERMUTE || op == PERMUTE_SORT) { CSR *P = A->permute(cp, ri, op == PERMUTE_SORT); check(*P, a, &cperm, rv, base, flags, op, *A); }
  else if (op == ROWS) { CSR *P = A->permuteRows(ri); check(*P, a, NULL, rv, base, flags, op, *A); }
  else if (op == SPLIT) { CSR *P = A->permuteRowptr(ri); A->permuteMain(P, cp, ri); check(*P, a, &cperm, rv, base, flags, op, *A); }
  else if (op == COLS) { A->permuteColsInPlace(cp); check(*A, a, &cperm, NULL, base, flags & ~(W_IDIAG | W_DIAG | W_OWN) | (flags & W_OWN ? W_DIAGPTR | W_VALUES : 0), op, *A); return; }
  s.same(*A, NM[op]);
  for (size_t i = 0; i < cperm.size(); ++i) if (cp[i] != cperm[i]) fail("input-changed", "column permutation changed");
  if (ri) for (size_t i = 0; i < rinv.size(); ++i) if (ri[i] != rinv[i]) fail("input-changed", "row permutation changed");
}
void mc_enumerate() {
  bool th = tier();
  bound("larger matrices (9 patterns, up to 65x65, rows of up to 70 entries) on teams of 1-3, 5, 7, 8, 13 and 16, one interleaving");
  bound("all patterns of shapes m,n in 0..3 with all row permutations x all column permutations (independent); (3x3 with larger teams: two column permutations); 4x4: full diagonal, all strict-triangle symmetric sets, all 24 permutations applied symmetrically and every 5th independent pair");
  bound("each subset of the optional arrays used by callers; non-local tail of 1-2 columns on 2x(2+k), 3x(3+k); sorted and unsorted (rotated) input rows; both bases; teams 1-4; every interleaving for teams up to 3");
  std::vector<int> fls = {W_VALUES, 0, W_VALUES | W_DIAGPTR, W_DIAGPTR, W_VALUES | W_IDIAG, W_VALUES | W_DIAGPTR | W_IDIAG | W_DIAG, W_OWN};
  Options o; o.max_exec = 50000000;
  for (int base = 0; base < 2; ++base) for (int t = 1; t <= 4; ++t) for (int op = 0; op <= SPLIT; ++op) for (int fl : fls) {
    o.threads = t;
    // rectangular and small square
    for (int m = 0; m <= 3; ++m) for (int n = 0; n <= 3; ++n) for (int nr = 0; nr < (op == COLS ? 1 : 2); ++nr) {
      bool dp = fl & (W_DIAGPTR | W_OWN | W_IDIAG);
      if (dp && m != n) continue;
      if (t == 4 && m * n > 6) continue;
      bool big = m * n == 9;
      if (big && nr && t > 2) continue;
      MC_RUN(o, S("%s %dx%d base=%d threads=%d arrays=%d rowperm=%s", NM[op], m, n, base, t, fl, nr ? "NULL" : "all"), ([=] {
        freeze(t > 3);
        // diagonal required where diagonal pointers are kept
        Ref a;
        int free_ = dp ? m * n - m : m * n;
        unsigned bits = choose(1 << free_), full = 0;
        if (big && !th) { // one representative order
          }
        for (int i = 0, k = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (dp && i == j) full |= 1u << (i * n + j); else full |= (bits >> k++ & 1) << (i * n + j);
        a = ref_from_bits(m, n, full);
        if (choose(2)) { bool any = false; for (auto &r : a.r) if (r.size() > 1) { any = true; if (!(op == COLS && dp)) std::rotate(r.begin(), r.begin() + 1, r.end()); } if (!any) return; if (op == COLS && dp) return; }
        std::vector<int> ri = nth_perm(m, nr ? 0 : op == COLS ? 0 : choose(fact(m)));
        std::vector<int> cp = nth_perm(n, op == ROWS ? 0 : big && !th && t > 1 && op != COLS ? (choose(2) ? 5 : 3) : choose(fact(n)));
        one(a, base, fl, op, nr, cp, ri);
      }));
    }
    // 4x4, symmetric application
    if (fl == 0 || fl == (W_VALUES | W_IDIAG)) continue;
    
    MC_RUN(o, S("%s 4x4 base=%d threads=%d arrays=%d", NM[op], base, t, fl), ([=] {
      freeze(t > 2);
      Ref a = ref_sym(4, choose(64));
      int k = choose(24 + 24);
      std::vector<int> ri, cp;
      if (k < 24) { ri = nth_perm(4, k); cp.resize(4); for (int i = 0; i < 4; ++i) cp[ri[i]] = i; }
      else { ri = nth_perm(4, (k * 5) % 24); cp = nth_perm(4, (k * 7 + 3) % 24); }
      one(a, base, fl, op, false, cp, ri);
    }));
  }
  // non-local columns
  for (int base = 0; base < 2; ++base) for (int t = 1; t <= 3; ++t) for (int op = 0; op <= SPLIT; ++op) for (int fl : {W_VALUES, W_VALUES | W_DIAGPTR, 0, W_DIAGPTR, W_VALUES | W_DIAGPTR | W_IDIAG})
    for (int m = 1; m <= 3; ++m) for (int ex = 1; ex <= 2; ++ex) {
      o.threads = t;
      MC_RUN(o, S("%s %dx(%d+%d) non-local base=%d threads=%d arrays=%d", NM[op], m, m, ex, base, t, fl), ([=] {
        freeze(m > 2 && t > 2);
        unsigned lb = choose(m == 3 && !th ? 16 : 1 << (m * m - m)); if (m == 3 && !th) lb = lb * 4 + 1;
        unsigned eb = choose(1 << (m * ex) > 16 ? 16 : 1 << (m * ex)); if (m * ex > 4) eb = eb * 3 + 1;
        Ref a(m, m + ex);
        for (int i = 0, k = 0; i < m; ++i) {
          for (int j = 0; j < m; ++j) if (i == j || (lb >> k++ & 1)) a.r[i].push_back({j, val_of(i, j)});
          for (int j = 0; j < ex; ++j) if (eb >> (i * ex + j) & 1) a.r[i].push_back({m + j, val_of(i, m + j)});
        }
        std::vector<int> ri = nth_perm(m, op == COLS ? 0 : choose(fact(m))), cp = nth_perm(m, op == ROWS ? 0 : m == 3 && op != COLS ? (choose(2) ? 3 : 5) : choose(fact(m)));
        one(a, base, fl | W_EXTPTR, op, false, cp, ri);
      }));
    }
  // larger structured matrices
  bound("structured matrices (dense, chain, stars, blocks, bands, tree) of 5-9 rows with 8 structured row and column permutations, teams 1-5, one interleaving for teams above 2");
  for (int base = 0; base < 2; ++base) for (int t = 1; t <= 5; ++t) for (int op = 0; op <= SPLIT; ++op) for (int fl : fls) for (int n = 5; n <= 9; ++n) {
    o.threads = t;
    MC_RUN(o, S("%s structured %dx%d base=%d threads=%d arrays=%d", NM[op], n, n, base, t, fl), ([=] {
      freeze(t > 2);
      Ref a = ref_struct(n, choose(NSTRUCT));
      std::vector<int> ri = struct_perm(n, op == COLS ? 0 : choose(8)), cp = struct_perm(n, op == ROWS ? 0 : choose(8));
      one(a, base, fl, op, false, cp, ri);
    }));
  }
  for (int t : TEAMS) for (int n : SQUARES) for (int base = 0; base < 2; ++base) for (int op = 0; op <= SPLIT; ++op) {
    o.threads = t;
    MC_RUN(o, S("%s large %dx%d base=%d threads=%d", NM[op], n, n, base, t), ([=] {
      freeze(true);
      int kind = choose(NBIG), f = choose(4), pp = choose(3), ex = f == 3 ? 9 : 0;
      static const int F[4] = {W_VALUES, 0, W_VALUES | W_DIAGPTR | W_IDIAG, W_VALUES | W_EXTPTR};
      Ref a = ref_big(n, n + ex, kind, f >= 2);
      std::vector<int> ri = struct_perm(n, op == COLS ? 0 : 3 + pp), cp = struct_perm(n, op == ROWS ? 0 : 5 - pp);
      one(a, base, F[f], op, false, cp, ri);
    }));
  }
}
