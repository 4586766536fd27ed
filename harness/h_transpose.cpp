// M01: transpose
#include "matutil.hpp"
using namespace SpMP;
static void one(Ref a, int base, int flags, bool sorted) {
  CSR *A = build(a, base, flags);
  Saved s(*A);
  CSR *T = A->transpose();
  if (!T) fail("null-result", "transpose returned NULL");
  bool v = flags & (W_VALUES | W_OWN);
  Ref e = transposed(a);
  expect(*T, e, base, true, "transpose", v);
  if ((flags & (W_DIAGPTR | W_OWN))) { if (!T->diagptr && a.n) fail("diagptr", "diagonal pointers lost"); expect_aux(*T, base, "transpose"); }
  s.same(*A, "transpose");
  CSR *B = T->transpose();
  if (!B) fail("null-result", "transpose returned NULL");
  expect(*B, a, base, sorted, "double transpose", v);
  if (flags & (W_DIAGPTR | W_OWN)) expect_aux(*B, base, "double transpose");
}
void mc_enumerate() {
  bool th = tier();
  bound("larger matrices (9 patterns, up to 65x65, rows of up to 70 entries) on teams of 1-3, 5, 7, 8, 13 and 16, one interleaving");
  bound("all patterns of every shape m,n in 0..3, plus 2x4, 4x2, 1x5, 5x1 (thorough: all 4x4, 3x4, 4x3), sorted, plus rotated (unsorted) rows for 3x3; both bases; with/without values, diagonal pointers; teams of 1-4 (thorough 1-6)");
  bound("every interleaving for teams of 1-2, of 3 for shapes up to 4 cells (thorough 6), of 4 for shapes up to 2 cells (thorough 4) and (thorough) full matrices; one interleaving for the rest");
  for (int m = 0; m <= 5; ++m) for (int n = 0; n <= 5; ++n) {
    bool ok = (m <= 3 && n <= 3) || (m * n == 8) || (m * n == 5) || (th && m <= 4 && n <= 4);
    if (!ok) continue;
    for (int base = 0; base < 2; ++base) for (int t = 1; t <= (th ? 6 : 4); ++t) for (int fl : {(int)W_VALUES, 0, W_VALUES | W_DIAGPTR, W_DIAGPTR, (int)W_OWN}) {
      if (m * n == 16 && fl != W_VALUES && fl != (W_VALUES | W_DIAGPTR)) continue;
      Options o; o.threads = t; o.max_exec = 10000000;
      for (int rot = 0; rot < ((m == 3 && n == 3) || m * n == 8 ? 3 : 1); ++rot)
      MC_RUN(o, S("transpose %dx%d base=%d threads=%d arrays=%d rot=%d all patterns", m, n, base, t, fl, rot), ([=] {
        unsigned bits = choose(1 << (m * n));
        bool all = bits == (1u << (m * n)) - 1;
        freeze(!(t <= 2 || (t == 3 && m * n <= (th ? 6 : 4)) || (t == 4 && (m * n <= (th ? 4 : 2) || (th && all && m * n <= 9)))));
        Ref a = ref_from_bits(m, n, bits);
        if (rot) for (auto &r : a.r) if (r.size() > 1) std::rotate(r.begin(), r.begin() + rot % r.size(), r.end());
        one(a, base, fl, rot == 0);
      }));
    }
  }
  for (int t : TEAMS) for (int z = 0; z < NSIZE; ++z) for (int base = 0; base < 2; ++base) {
    Options o; o.threads = t;
    MC_RUN(o, S("large %dx%d base=%d threads=%d", SIZES[z][0], SIZES[z][1], base, t), ([=] {
      freeze(true);
      int kind = choose(NBIG), fl = choose(3), m = SIZES[z][0], n = SIZES[z][1];
      bool un = choose(2);
      Ref a = ref_big(m, n, kind, fl == 2);
      if (un) for (auto &r : a.r) if (r.size() > 1) std::rotate(r.begin(), r.begin() + r.size() / 3, r.end());
      one(a, base, fl == 0 ? W_VALUES : fl == 1 ? 0 : W_VALUES | W_DIAGPTR, !un);
    }));
  }
}
