// M07: 27-point operator
#include "matutil.hpp"
using namespace SpMP;
static Ref lap(int nx, int ny, int nz) {
  Ref a(nx * ny * nz, nx * ny * nz);
  for (int p = 0; p < a.m; ++p) for (int q = 0; q < a.m; ++q) {
    int px = p % nx, py = p / nx % ny, pz = p / nx / ny, qx = q % nx, qy = q / nx % ny, qz = q / nx / ny;
    if (abs(px - qx) <= 1 && abs(py - qy) <= 1 && abs(pz - qz) <= 1) a.r[p].push_back({q, p == q ? 26. : -1.});
  }
  return a;
}
static void checkit(const CSR &A, int nx, int ny, int nz, int base) {
  expect(A, lap(nx, ny, nz), base, true, "Laplacian");
  readable(A.diagptr, A.m * 4, "diagptr"); readable(A.diag, A.m * 8, "diag"); readable(A.idiag, A.m * 8, "idiag");
  expect_aux(A, base, "Laplacian");
}
void mc_enumerate() {
  bool th = tier();
  int M = th ? 6 : 5;
  bound(th ? "every grid with dimensions 1..6, cubes from a number 1..7, both bases, teams of 1-6" : "every grid with dimensions 1..5, cubes from a number 1..5, both bases, teams of 1-4");
  bound("fresh objects and objects that held another matrix; every interleaving for teams of 2 on grids of up to 8 points; one interleaving for the rest");
  for (int nx = 1; nx <= M; ++nx) for (int ny = 1; ny <= M; ++ny) for (int nz = 1; nz <= M; ++nz) for (int base = 0; base < 2; ++base) for (int t = 1; t <= (th ? 6 : 4); ++t) {
    Options o; o.threads = t; o.max_exec = 100000000;
    MC_RUN(o, S("grid %dx%dx%d base=%d threads=%d", nx, ny, nz, base, t), ([=] {
      int how = choose(3);
      freeze(!(t == 1 || (t == 2 && nx * ny * nz <= 8)));
      if (how == 0) { CSR A; generate3D27PtLaplacian(&A, nx, ny, nz, base); checkit(A, nx, ny, nz, base); }
      else if (how == 1) { CSR A(3, 2, 5); generate3D27PtLaplacian(&A, nx, ny, nz, base); checkit(A, nx, ny, nz, base); }
      else { CSR A; generate3D27PtLaplacian(&A, 2, 1, 3, 1); generate3D27PtLaplacian(&A, nx, ny, nz, base); checkit(A, nx, ny, nz, base); }
    }));
  }
  for (int n = 1; n <= (th ? 7 : 5); ++n) for (int base = 0; base < 2; ++base) for (int t = 1; t <= (th ? 6 : 4); ++t) {
    Options o; o.threads = t;
    MC_RUN(o, S("cube %d base=%d threads=%d", n, base, t), ([=] {
      freeze(true);
      if (choose(2)) { CSR A(S("%d", n).c_str(), base); checkit(A, n, n, n, base); }
      else { CSR A; generate3D27PtLaplacian(&A, n, base); checkit(A, n, n, n, base); }
    }));
  }
  bound("larger grids (7x5x6, 1x1x40, 40x1x1, 1x40x1, 9x8x2, 3x11x5) on teams of 1-3, 5, 7, 8, 13 and 16, one interleaving");
  static const int G[6][3] = {{7, 5, 6}, {1, 1, 40}, {40, 1, 1}, {1, 40, 1}, {9, 8, 2}, {3, 11, 5}};
  for (auto &g : G) for (int t : TEAMS) for (int base = 0; base < 2; ++base) {
    Options o; o.threads = t;
    int x = g[0], y = g[1], z = g[2];
    MC_RUN(o, S("large grid %dx%dx%d base=%d threads=%d", x, y, z, base, t), ([=] { freeze(true); CSR A; generate3D27PtLaplacian(&A, x, y, z, base); checkit(A, x, y, z, base); }));
  }
}
