// M05: products
#include "matutil.hpp"
using namespace SpMP;
static double *dvec(int n, double f) { double *p = lib_alloc<double>(n); for (int i = 0; i < n; ++i) p[i] = f + 2 * i; return p; }
static const double AL[4] = {1, -1, 0, 2}, BE[4] = {0, 1, -1, 3}, GA[3] = {0, 1, 5};
static const char *ALIAS[5] = {"none", "w==x", "w==y", "w==x==y", "x==y"};
static void mv(const Ref &a, int base, bool values, int ai, int bi, int gi, int alias, bool two) {
  CSR *A = build(a, base, values ? W_VALUES : 0);
  Saved s(*A);
  int m = a.m, n = a.n, big = std::max(m, n);
  double *w, *x, *y;
  int nx = n, ny = m, nw = m;
  if (alias == 1 || alias == 3) nx = nw = big;
  if (alias == 3) ny = big;
  if (alias == 4) nx = ny = big;
  x = dvec(nx, 1);
  w = alias == 1 || alias == 3 ? x : dvec(nw, 1000);
  y = alias == 2 ? w : alias == 3 || alias == 4 ? x : dvec(ny, 100);
  std::vector<double> x0(x, x + nx), y0(y, y + (alias == 2 ? nw : ny)), w0(w, w + nw);
  double al = AL[ai], be = BE[bi], ga = GA[gi];
  if (two) { A->multiplyWithVector(w, x); al = 1; be = ga = 0; }
  else A->multiplyWithVector(w, al, x, be, y, ga);
  for (int i = 0; i < m; ++i) {
    double e = 0; for (auto &p : a.r[i]) e += (values ? p.second : 1) * x0[p.first];
    e = al * e + be * (y0.size() > (size_t)i ? y0[i] : 0) + ga;
    if (w[i] != e) fail("product", "w[%d]=%g, expected %g (alpha=%g beta=%g gamma=%g, %s, %s)", i, w[i], e, al, be, ga, ALIAS[alias], show(a).c_str());
  }
  for (int i = m; i < nw; ++i) if (w[i] != w0[i]) fail("neighbour", "w[%d] beyond the result changed", i);
  if (x != w) for (int i = 0; i < nx; ++i) if (x[i] != x0[i]) fail("input-changed", "x[%d] changed", i);
  if (y != w) for (int i = 0; i < ny; ++i) if (y[i] != y0[i]) fail("input-changed", "y[%d] changed", i);
  s.same(*A, "multiplyWithVector");
}
struct Lay { int rs, cs, size; };
// layouts of an r x k block: 0 column major, 1 row major, 2 column major with gap, 3 row major with gap, 4 both strides > 1
static Lay lay(int kind, int r, int k) {
  Lay l;
  switch (kind) {
  case 0: l = {1, std::max(r, 1), 0}; break;
  case 1: l = {k, 1, 0}; break;
  case 2: l = {1, r + 2, 0}; break;
  case 3: l = {k + 1, 1, 0}; break;
  default: l = {2, 2 * std::max(r, 1) + 1, 0};
  }
  l.size = r ? (r - 1) * l.rs + (k - 1) * l.cs + 1 : 0;
  return l;
}
static void mm(const Ref &a, int base, int k, int lw, int lx, int ly, int ai, int bi, int gi, bool wy, bool two) {
  CSR *A = build(a, base, W_VALUES);
  Saved s(*A);
  if (two) lw = lx = ly = 0;
  Lay W = lay(lw, a.m, k), X = lay(lx, a.n, k), Y = wy ? W : lay(ly, a.m, k);
  if (two) { W.cs = a.m; X.cs = a.n; }
  double *w = dvec(W.size, 5000), *x = dvec(X.size, 1), *y = wy ? w : dvec(Y.size, 100);
  std::vector<double> w0(w, w + W.size), x0(x, x + X.size), y0(y, y + Y.size);
  double al = AL[ai], be = BE[bi], ga = GA[gi];
  if (two) { A->multiplyWithDenseMatrix(w, k, x); al = 1; be = ga = 0; }
  else A->multiplyWithDenseMatrix(w, k, W.rs, W.cs, al, x, X.rs, X.cs, be, y, Y.rs, Y.cs, ga);
  std::vector<double> e = w0;
  for (int i = 0; i < a.m; ++i) for (int c = 0; c < k; ++c) {
    double v = 0; for (auto &p : a.r[i]) v += p.second * x0[p.first * X.rs + c * X.cs];
    v = al * v + (two ? 0 : be * y0[i * Y.rs + c * Y.cs]) + ga;
    e[i * W.rs + c * W.cs] = v;
  }
  for (int i = 0; i < W.size; ++i) if (w[i] != e[i]) fail("product", "W element %d is %g, expected %g (k=%d strides W %d/%d X %d/%d Y %d/%d, alpha=%g beta=%g gamma=%g)", i, w[i], e[i], k, W.rs, W.cs, X.rs, X.cs, Y.rs, Y.cs, al, be, ga);
  for (int i = 0; i < X.size; ++i) if (x[i] != x0[i]) fail("input-changed", "X changed");
  if (!wy) for (int i = 0; i < Y.size; ++i) if (y[i] != y0[i]) fail("input-changed", "Y changed");
  s.same(*A, "multiplyWithDenseMatrix");
}
void mc_enumerate() {
  bool th = tier();
  bound("larger matrices (9 patterns, up to 65x65, rows of up to 70 entries) on teams of 1-3, 5, 7, 8, 13 and 16, one interleaving, up to 33 columns of the block");
  bound("matrix-vector: all patterns of every shape m,n in 0..3 (quick: for 3x3 and 2x4/4x2 every 5th), with and without values, both bases, alpha in {1,-1,0,2} x beta in {0,1,-1,3} x gamma in {0,1,5} and the two-argument form, 5 aliasing modes, teams of 1-4 (thorough 6)");
  bound("matrix-block: same shapes (patterns: all up to 4 cells, every 37th (thorough 7th) above), k in 1..3, 5 layouts each for W, X and Y incl. gaps and two-sided strides, W==Y, all scalars");
  bound("every interleaving for teams of 1-2 (and of 3 for up to 2 rows); one interleaving for the rest; integer-valued data so that sums are exact");
  for (int m = 0; m <= 4; ++m) for (int n = 0; n <= 4; ++n) for (int base = 0; base < 2; ++base) for (int t = 1; t <= (th ? 6 : 4); ++t) {
    if (m * n > 9 || (m * n == 8 && t > 2 && !th) || (m == 4 && n == 0) || (m == 0 && n == 4)) continue;
    Options o; o.threads = t; o.max_exec = 100000000;
    for (int values = 0; values < 2; ++values) for (int alias = 0; alias < 5; ++alias)
    MC_RUN(o, S("A*x %dx%d base=%d threads=%d values=%d alias=%s", m, n, base, t, values, ALIAS[alias]), ([=] {
      int step = th || m * n < 8 ? 1 : 5, np = 1 << (m * n);
      unsigned bits = choose((np + step - 1) / step) * step;
      int ai = 0, bi = 0, gi = 0; bool two = choose(2);
      if (!two) {
        ai = choose(4);
        bi = choose(4); gi = choose(3);
        if (t > 2 && m * n > 4 && !th && (ai + bi + gi) % 3) return;
      }
      if (two && (alias == 2 || alias == 3 || alias == 4)) return;
      freeze(!(t == 1 || (t == 2 && (two || (ai + bi + gi) % 4 == 0)) || (t == 3 && m <= 2 && two)));
      mv(ref_from_bits(m, n, bits), base, values, ai, bi, gi, alias, two);
    }));
    if (m * n <= 9 && t <= 3) for (int k = 1; k <= 3; ++k)
    MC_RUN(o, S("A*X %dx%d base=%d threads=%d k=%d", m, n, base, t, k), ([=] {
      int step = m * n <= 4 ? 1 : th ? 7 : 37, np = 1 << (m * n);
      unsigned bits = choose((np + step - 1) / step) * step;
      bool two = choose(2); int lw = 0, lx = 0, ly = 0, sc = 0; bool wy = false;
      if (!two) { lw = choose(5); lx = choose(5); wy = choose(2); ly = wy ? 0 : choose(5); sc = choose(t == 1 && (th || k == 2) ? 7 : 3); }
      static const int SC[7][3] = {{0, 0, 0}, {3, 3, 2}, {1, 1, 0}, {0, 0, 1}, {2, 1, 0}, {1, 1, 2}, {0, 2, 0}};
      freeze(!(t <= 2 && two));
      mm(ref_from_bits(m, n, bits), base, k, lw, lx, ly, SC[sc][0], SC[sc][1], SC[sc][2], wy, two);
    }));
  }
  for (int n : {7, 12}) for (int k = 0; k < NSTRUCT; ++k) for (int base = 0; base < 2; ++base) for (int t = 1; t <= 6; ++t) {
    Options o; o.threads = t;
    MC_RUN(o, S("structured %dx%d kind=%d base=%d threads=%d", n, n, k, base, t), ([=] {
      freeze(true);
      Ref a = ref_struct(n, k);
      int c = choose(6);
      if (c < 4) mv(a, base, c % 2, c / 2 * 3, c / 2 * 3, c / 2, c % 3, false); else mm(a, base, 2, c, 3, 1, 3, 3, 2, false, false);
    }));
  }
  for (int t : TEAMS) for (int z = 0; z < NSIZE; ++z) for (int base = 0; base < 2; ++base) {
    Options o; o.threads = t; o.max_exec = 10000000;
    int m = SIZES[z][0], n = SIZES[z][1];
    MC_RUN(o, S("large A*x %dx%d base=%d threads=%d", m, n, base, t), ([=] {
      freeze(true);
      Ref a = ref_big(m, n, choose(NBIG));
      int al = choose(5); bool two = choose(2), v = choose(2); if (two && al > 1) return;
      int ai = two ? 0 : choose(4), bi = two ? 0 : choose(4), gi = two ? 0 : choose(3);
      if (al && (ai + bi + gi) % 3) return;
      mv(a, base, v, ai, bi, gi, al, two);
    }));
    MC_RUN(o, S("large A*X %dx%d base=%d threads=%d", m, n, base, t), ([=] {
      freeze(true);
      Ref a = ref_big(m, n, choose(NBIG));
      static const int K[] = {1, 2, 4, 5, 7, 8, 9, 15, 16, 17, 33};
      int ki = choose(11), k = K[ki]; bool two = choose(2);
      int L = two ? 0 : choose(5), sc = two ? 0 : choose(3);
      static const int SC[3][3] = {{0, 0, 0}, {3, 3, 2}, {1, 1, 0}};
      if (m * n > 1000 && !th && (ki + L + sc + t) % 4) return;
      mm(a, base, k, L, (L * 3 + 1) % 5, (L * 2 + 3) % 5, SC[sc][0], SC[sc][1], SC[sc][2], !two && (L + ki) % 4 == 0, two);
    }));
  }
}
