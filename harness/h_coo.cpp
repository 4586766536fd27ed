// M06: triplets to CSR
#include "matutil.hpp"
using namespace SpMP;
struct Trip { int x, y; double v; };
static void one(int m, int n, const std::vector<Trip> &t, int outBase, int how) {
  int z = (int)t.size();
  COO coo; coo.m = m; coo.n = n; coo.nnz = z;
  coo.rowidx = lib_alloc<int>(z); coo.colidx = lib_alloc<int>(z); coo.values = lib_alloc<double>(z);
  for (int k = 0; k < z; ++k) { coo.rowidx[k] = t[k].x + 1; coo.colidx[k] = t[k].y + 1; coo.values[k] = t[k].v; }
  Ref inorder(m, n), sorted;
  for (auto &p : t) inorder.r[p.x].push_back({p.y, p.v});
  sorted = inorder;
  for (auto &r : sorted.r) std::stable_sort(r.begin(), r.end(), [](const std::pair<int, double> &a, const std::pair<int, double> &b) { return a.first < b.first; });
  bool dup = false;
  for (auto &r : sorted.r) for (size_t i = 1; i < r.size(); ++i) dup |= r[i].first == r[i - 1].first;
  CSR A; CSR *R = &A;
  if (how <= 1) { A.alloc(m, z, how == 0); A.m = A.n = -1; dcoo2csr(&A, &coo, outBase, how == 0); }
  else if (how == 2) { A.alloc(m, z); A.m = A.n = -1; dcoo2csr(&A, &coo, outBase, false); }
  else {
    A.m = m; A.n = n; A.rowptr = lib_alloc<int>(m + 1); A.colidx = lib_alloc<int>(z); A.values = lib_alloc<double>(z);
    dcoo2csr(m, z, A.rowptr, A.colidx, A.values, coo.rowidx, coo.colidx, coo.values, how == 4, outBase);
  }
  if (how == 3) expect(*R, inorder, outBase, true, "unsorted conversion");
  else {
    expect(*R, sorted, outBase, !dup, "conversion");
    for (int i = 0; i < m; ++i) for (int j = A.rowptr[i] - outBase + 1; j < A.rowptr[i + 1] - outBase; ++j) if (A.colidx[j] < A.colidx[j - 1]) fail("unsorted", "row %d is not sorted", i);
  }
  if (how <= 2 && !dup) {
    for (int i = 0; i < m; ++i) for (int j = 0; j < (int)sorted.r[i].size(); ++j) if (sorted.r[i][j].first == i) {
      if (A.diagptr[i] != A.rowptr[i] + j) fail("diagptr", "diagptr[%d]=%d, diagonal is at %d", i, A.diagptr[i], A.rowptr[i] + j);
      if (how == 0 && (A.diag[i] != sorted.r[i][j].second || A.idiag[i] != 1 / sorted.r[i][j].second)) fail("diag", "diag/idiag of row %d are %g/%g for %g", i, A.diag[i], A.idiag[i], sorted.r[i][j].second);
    }
  }
  for (int k = 0; k < z; ++k) if (coo.rowidx[k] != t[k].x + 1 || coo.colidx[k] != t[k].y + 1 || coo.values[k] != t[k].v) fail("input-changed", "triplet %d changed", k);
}
void mc_enumerate() {
  bool th = tier();
  static const char *H[5] = {"object with diagonals", "object without diagonals", "object, diagonals off", "arrays unsorted", "arrays sorted"};
  bound("larger matrices (9 patterns, up to 65x65, rows of up to 70 entries) on teams of 1-3, 5, 7, 8, 13 and 16, one interleaving");
  bound("every sequence of up to 4 (thorough 5) triplets, repeats included, over every shape m,n in 0..2 and of up to 3 (thorough 4) over shapes up to 3x3; single rows of 6 (thorough 7) entries in every order and of 10 in every order of 2 interleaved runs; both bases, teams of 1-3");
  bound("every interleaving for teams of 1-2; one for 3");
  for (int m = 0; m <= 3; ++m) for (int n = 0; n <= 3; ++n) for (int base = 0; base < 2; ++base) for (int t = 1; t <= 3; ++t) for (int how = 0; how < 5; ++how) {
    int L = m <= 2 && n <= 2 ? (th ? 5 : 4) : (th ? 4 : 3), cells = m * n;
    if (!cells) L = 0;
    if (t == 3 && L > 3 && !th) L = 3;
    Options o; o.threads = t; o.max_exec = 100000000;
    MC_RUN(o, S("triplets %dx%d base=%d threads=%d %s", m, n, base, t, H[how]), ([=] {
      freeze(t > 2);
      int z = choose(L + 1);
      std::vector<Trip> v;
      for (int k = 0; k < z; ++k) { int c = choose(cells); v.push_back({c / n, c % n, 2.0 + k}); }
      one(m, n, v, base, how);
    }));
  }
  for (int len = 4; len <= (th ? 7 : 6); ++len) for (int base = 0; base < 2; ++base) for (int how : {0, 4}) for (int row = 0; row < 2; ++row) {
    Options o; o.max_exec = 100000000;
    MC_RUN(o, S("row %d of %d entries in every order base=%d %s", row, len, base, H[how]), ([=] {
      auto p = nth_perm(len, choose(fact(len)));
      std::vector<Trip> v; for (int q : p) v.push_back({row, q, 3.0 + q});
      one(2, len, v, base, how);
    }));
  }
  for (int base = 0; base < 2; ++base) for (int t = 1; t <= 3; ++t) {
    Options o; o.threads = t;
    MC_RUN(o, S("10 entries as two interleaved runs base=%d threads=%d", base, t), ([=] {
      freeze(true);
      unsigned bits = choose(1 << 10); bool rev = choose(2);
      std::vector<int> a, b; for (int i = 0; i < 10; ++i) (bits >> i & 1 ? a : b).push_back(i);
      if (rev) std::reverse(b.begin(), b.end());
      a.insert(a.end(), b.begin(), b.end());
      std::vector<Trip> v; for (int q : a) { v.push_back({1, q, 3.0 + q}); v.push_back({q % 3, q, 50.0 + q}); if (q % 3 == 1) v.pop_back(); }
      one(3, 10, v, base, 0);
    }));
  }
  for (int t : TEAMS) for (int z = 0; z < NSIZE; ++z) for (int base = 0; base < 2; ++base) {
    Options o; o.threads = t;
    int m = SIZES[z][0], n = SIZES[z][1];
    MC_RUN(o, S("large %dx%d base=%d threads=%d", m, n, base, t), ([=] {
      freeze(true);
      Ref a = ref_big(m, n, choose(NBIG));
      int how = choose(5), ord = choose(5);
      std::vector<Trip> v;
      for (int i = 0; i < m; ++i) for (auto &e : a.r[i]) v.push_back({i, e.first, e.second});
      if (ord == 1) std::reverse(v.begin(), v.end());
      if (ord == 2) std::stable_sort(v.begin(), v.end(), [](const Trip &x, const Trip &y) { return x.y < y.y; });
      if (ord >= 3 && v.size() > 1) { // a stride coprime to the number of entries; 4: some entries twice
        size_t q = v.size(), st = q * 5 / 8 | 1; while (std::__gcd(st, q) != 1) st += 2;
        std::vector<Trip> w; for (size_t k = 0; k < q; ++k) w.push_back(v[k * st % q]);
        if (ord == 4) for (size_t k = 0; k < q; k += 3) { w.push_back(v[k]); w.back().v += 0.25; }
        v = w;
      }
      one(m, n, v, base, how);
    }));
  }
}
