// M04: splitLU
#include "matutil.hpp"
using namespace SpMP;
static void one(const Ref &a, int base, int flags, bool reuse) {
  CSR *A = build(a, base, flags | W_VALUES | W_IDIAG);
  for (int i = 0; i < a.m; ++i) A->idiag[i] = 0.5 + i;
  Saved s(*A);
  CSR L0, U0, L1(2, 2, 3), U1(a.m, a.n, a.nnz() + 1);
  CSR &L = reuse ? L1 : L0, &U = reuse ? U1 : U0; // results may be fresh objects or ones that own earlier contents
  splitLU(*A, &L, &U);
  s.same(*A, "splitLU");
  Ref l(a.m, a.n), u(a.m, a.n);
  for (int i = 0; i < a.m; ++i) for (auto &p : a.r[i]) { if (p.first < i) l.r[i].push_back(p); if (p.first > i) u.r[i].push_back(p); }
  expect(L, l, base, true, "lower part"); expect(U, u, base, true, "upper part");
  readable(L.idiag, a.m * 8, "L.idiag"); readable(U.idiag, a.m * 8, "U.idiag");
  for (int i = 0; i < a.m; ++i) if (L.idiag[i] != 0.5 + i || U.idiag[i] != 0.5 + i) fail("idiag", "inverse diagonal of row %d not copied", i);
  if (flags & W_EXTPTR) {
    if (!U.extptr) fail("extptr", "non-local pointers of the upper part missing");
    expect_aux(U, base, "upper part");
  }
}

void mc_enumerate() {
  bool th = tier();
  bound("larger matrices (9 patterns, up to 65x65, rows of up to 70 entries) on teams of 1-3, 5, 7, 8, 13 and 16, one interleaving");
  bound("all patterns up to 3x3 (thorough: all 4x4), rows sorted or reversed, with none, one, or alternately two and none non-local columns per row, both bases, fresh or previously used result objects, teams of 1-4; structured 6x6 and 9x9 for teams up to 6");
  bound("every interleaving for teams of 1-2 and of 3 up to 2x2; one interleaving for the rest");
  for (int m = 0; m <= (th ? 4 : 3); ++m) for (int base = 0; base < 2; ++base) for (int tail = 0; tail < 3; ++tail) for (int rev = 0; rev < 2; ++rev) for (int reuse = 0; reuse < 2; ++reuse) for (int t = 1; t <= 4; ++t) {
    Options o; o.threads = t; o.max_exec = 100000000;
    if (m == 4 && (reuse || t == 4)) continue;
    MC_RUN(o, S("splitLU %dx%d base=%d tail=%d reversed=%d reuse=%d threads=%d", m, m, base, tail, rev, reuse, t), ([=] {
      unsigned bits = choose(1 << (m * m));
      freeze(!(t == 1 || (t == 2 && (m <= 2 || bits % (th ? 1 : 7) == 0)) || (t == 3 && m <= 2)));
      Ref a = ref_from_bits(m, m, bits);
      if (rev) for (auto &r : a.r) std::reverse(r.begin(), r.end());
      if (tail) { a.n = m + 2; for (int i = 0; i < m; ++i) { if (tail == 1 || i % 2) a.r[i].push_back({m + 1, 400 + i}); if (tail == 2 && i % 2 == 1) a.r[i].push_back({m, 300 + i}); } }
      one(a, base, tail ? W_EXTPTR : 0, reuse);
    }));
  }
  for (int n : {6, 9}) for (int k = 0; k < NSTRUCT; ++k) for (int base = 0; base < 2; ++base) for (int t = 1; t <= 6; ++t) {
    Options o; o.threads = t;
    MC_RUN(o, S("splitLU structured %dx%d kind=%d base=%d threads=%d", n, n, k, base, t), ([=] {
      freeze(true);
      Ref a = ref_struct(n, k);
      if (choose(2)) { int sh = choose(n); for (auto &r : a.r) std::rotate(r.begin(), r.begin() + sh % r.size(), r.end()); }
      one(a, base, 0, false);
    }));
  }
  for (int t : TEAMS) for (int n : SQUARES) for (int base = 0; base < 2; ++base) {
    Options o; o.threads = t;
    MC_RUN(o, S("large %dx%d base=%d threads=%d", n, n, base, t), ([=] {
      freeze(true);
      int kind = choose(NBIG), tail = choose(2);
      Ref a = ref_big(n, n + (tail ? 7 : 0), kind, choose(2));
      if (!tail && choose(2)) for (auto &r : a.r) if (r.size() > 1) std::rotate(r.begin(), r.begin() + r.size() / 3, r.end());
      one(a, base, tail ? W_EXTPTR : 0, choose(2));
    }));
  }
}
