// F01: loading well-formed Matrix Market files
#include "matutil.hpp"
using namespace SpMP;
typedef std::vector<std::pair<std::pair<int, int>, double>> Ents; // 0-based, in file order
enum { REAL, INTEGER, PATTERN };
static const char *FN[3] = {"real", "integer", "pattern"};
static double fval(int field, int i, int j) {
  int k = 3 * i + j;
  if (field == PATTERN) return 1;
  if (field == INTEGER) return k % 4 == 2 ? -(double)(k + 4000000000LL) : k + 2;
  static const double v[8] = {1.5, -2.25, 1e-300, 3e200, -0.125, 7, 123456789.0625, -1e-5};
  return v[k % 8];
}
// decoration: 0 plain, 1 upper case banner and comments, 2 blank line before the size and odd spacing, 3 no final newline
static std::string text(int m, int n, const Ents &e, int field, bool sym, int fbase, int deco) {
  std::string s = deco == 1 ? S("%%%%MatrixMarket MATRIX Coordinate %s %s\n%%\n%% 9 9 9\n%%%%x\n", field == REAL ? "REAL" : field == INTEGER ? "Integer" : "Pattern", sym ? "SYMMETRIC" : "General")
                              : S("%%%%MatrixMarket matrix coordinate %s %s\n", FN[field], sym ? "symmetric" : "general");
  if (deco == 2) s += "% c\n\n";
  s += S("%d %d %d\n", m, n, (int)e.size());
  for (auto &p : e) {
    s += S(deco == 2 ? "  %d   %d" : "%d %d", p.first.first + fbase, p.first.second + fbase);
    if (field == REAL) s += S(deco == 2 ? "\t%.17g  " : " %.17g", p.second);
    if (field == INTEGER) s += S(" %.0f", p.second);
    s += "\n";
  }
  if (deco == 3 && !e.empty()) s.pop_back();
  return s;
}
struct Cfg { int field; bool sym, force, transposed; int fbase, pad, deco; };
static Ref expected(int m, int n, const Ents &e, const Cfg &c) {
  if (c.transposed) std::swap(m, n);
  int pm = (m + c.pad - 1) / c.pad * c.pad, pn = (n + c.pad - 1) / c.pad * c.pad;
  Ref a(pm, pn);
  std::set<std::pair<int, int>> have;
  for (auto &p : e) { int i = p.first.first, j = p.first.second; if (c.transposed) std::swap(i, j); a.r[i].push_back({j, p.second}); have.insert({i, j}); }
  if (c.sym || c.force) for (auto &p : e) { int i = p.first.first, j = p.first.second; if (c.transposed) std::swap(i, j); if (i != j && !have.count({j, i})) a.r[j].push_back({i, p.second}); }
  for (int i = std::min(m, n); i < std::min(pm, pn); ++i) a.r[i].push_back({i, 1});
  for (auto &r : a.r) std::sort(r.begin(), r.end());
  return a;
}
static void check_coo(const COO &c, const Ref &e, bool sym) {
  if (c.m != e.m || c.n != e.n) fail("shape", "loaded %dx%d, expected %dx%d", c.m, c.n, e.m, e.n);
  if (c.nnz != e.nnz()) fail("nnz", "loaded %d entries, expected %d", c.nnz, e.nnz());
  readable(c.rowidx, c.nnz * 4, "rowidx"); readable(c.colidx, c.nnz * 4, "colidx"); readable(c.values, c.nnz * 8, "values");
  Ref g(e.m, e.n);
  for (int k = 0; k < c.nnz; ++k) {
    if (c.rowidx[k] < 1 || c.rowidx[k] > e.m || c.colidx[k] < 1 || c.colidx[k] > e.n) fail("coordinate", "entry %d is at (%d,%d) of a %dx%d matrix", k, c.rowidx[k], c.colidx[k], e.m, e.n);
    g.r[c.rowidx[k] - 1].push_back({c.colidx[k] - 1, c.values[k]});
  }
  for (int i = 0; i < e.m; ++i) { std::sort(g.r[i].begin(), g.r[i].end()); if (g.r[i] != e.r[i]) fail("entries", "loaded %s, expected %s", show(g).c_str(), show(e).c_str()); }
  if (c.isSymmetric != sym) fail("symmetric-flag", "isSymmetric=%d", c.isSymmetric);
}
static void load(int m, int n, const Ents &e, const Cfg &c, int target) {
  std::string t = text(m, n, e, c.field, c.sym, c.fbase, c.deco);
  vfile_set("mc:a.mtx", t);
  Ref x = expected(m, n, e, c);
  if (target == 0 || target == 3) {
    COO coo;
    if (target == 3) { // an object that held another (symmetric) matrix before
      vfile_set("mc:b.mtx", "%%MatrixMarket matrix coordinate real symmetric\n2 2 2\n1 1 4\n2 1 5\n");
      if (!loadMatrixMarket("mc:b.mtx", coo)) fail("rejected", "a well-formed file was rejected");
    }
    bool ok = c.transposed ? loadMatrixMarketTransposed("mc:a.mtx", coo, c.pad) : loadMatrixMarket("mc:a.mtx", coo, c.force, c.pad);
    if (!ok) fail("rejected", "a well-formed file was rejected: %s", t.c_str());
    check_coo(coo, x, c.sym || c.force);
  } else {
    int base = target - 1;
    CSR A("mc:a.mtx", base, c.force, c.pad);
    expect(A, x, base, true, "loaded matrix");
    for (int i = 0; i < A.m; ++i) for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; ++j) if (A.colidx[j] - base == i) {
      if (A.diagptr[i] != j + base || A.diag[i] != A.values[j] || A.idiag[i] != 1 / A.values[j]) fail("diag", "diagptr/diag/idiag of row %d are %d/%g/%g", i, A.diagptr[i], A.diag[i], A.idiag[i]);
    }
  }
  if (open_files()) fail("file-left-open", "the file is still open");
}
static Ents ents_of(int m, int n, unsigned bits, int field, bool lower) {
  Ents e;
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
    if (!(bits >> (i * n + j) & 1)) continue;
    if (lower && j > i) continue;
    e.push_back({{i, j}, fval(field, i, j)});
  }
  return e;
}
static const char *TG[4] = {"COO", "CSR0", "CSR1", "reused COO"};
void mc_enumerate() {
  bool th = tier();
  bound("every pattern of every shape m,n in 0..3 (thorough also 2x4, 4x2, 3x4 by steps); real, integer and pattern fields; general, symmetric, forced-symmetric (also with both triangles stored) and transposed loading; 0- and 1-based files; padding 1, 2, 4 (thorough 3, 8); 4 textual layouts; loaded as triplets (fresh or reused object) and as CSR in both bases");
  bound("every order of the entries for up to 4 (thorough 5) entries; teams of 1-3, every interleaving for teams of 1-2, one for 3");
  for (int m = 0; m <= 4; ++m) for (int n = 0; n <= 4; ++n) {
    if (m * n > (th ? 12 : 9) || ((m == 4 || n == 4) && !th)) continue;
    for (int mode = 0; mode < 4; ++mode) for (int target = 0; target < 4; ++target) for (int pad : {1, 2, 4, 3, 8}) for (int fbase = 0; fbase < 2; ++fbase) {
      bool sym = mode == 1, force = mode == 2, tr = mode == 3;
      if ((sym || force) && m != n) continue;
      if (tr && (target == 1 || target == 2)) continue;
      if (!th && (pad == 3 || pad == 8)) continue;
      for (int t = 1; t <= 3; ++t) {
        if (t == 3 && m * n > 4 && !th) continue;
        Options o; o.threads = t; o.max_exec = 100000000;
        MC_RUN(o, S("load %dx%d %s as %s pad=%d file-base=%d threads=%d", m, n, mode == 0 ? "general" : sym ? "symmetric" : force ? "forced" : "transposed", TG[target], pad, fbase, t), ([=] {
          freeze(!(t == 1 || (t == 2 && m <= 2)));
          int step = m * n > 9 ? 11 : (m * n == 9 && !th) ? (t == 1 ? 3 : 7) : 1;
          unsigned bits = step * choose(((1 << (m * n)) + step - 1) / step);
          Cfg c = {0, sym, force, tr, fbase, pad, 0};
          c.field = choose(3);
          Ents e = ents_of(m, n, bits, c.field, sym);
          if (sym && e.size() != (size_t)__builtin_popcount(bits)) return; // each lower triangle once
          if (fbase == 0) { bool z = false; for (auto &p : e) z |= !p.first.first || !p.first.second; if (!z) return; } // indistinguishable from a 1-based file
          c.deco = m * n <= 4 || th ? choose(4) : bits % 4;
          load(m, n, e, c, target);
        }));
      }
    }
  }
  // file order
  for (int mode = 0; mode < 3; ++mode) for (int target = 0; target < 3; ++target) for (int fbase = 0; fbase < 2; ++fbase) for (int pad = 1; pad <= 2; ++pad) {
    Options o; o.max_exec = 100000000;
    int maxe = th ? 5 : 4;
    MC_RUN(o, S("entry order 3x3 mode=%d as %s file-base=%d pad=%d", mode, TG[target], fbase, pad), ([=] {
      unsigned bits = choose(1 << 9);
      Ents e = ents_of(3, 3, bits, REAL, mode == 1);
      if ((int)e.size() > maxe || e.empty() || (mode == 1 && e.size() != (size_t)__builtin_popcount(bits))) return;
      if (fbase == 0) { bool z = false; for (auto &p : e) z |= !p.first.first || !p.first.second; if (!z) return; }
      auto p = nth_perm((int)e.size(), choose(fact((int)e.size())));
      Ents f; for (int q : p) f.push_back(e[q]);
      Cfg c = {REAL, mode == 1, mode == 2, false, fbase, pad, 0};
      load(3, 3, f, c, target);
    }));
  }
  // more rows than one digit, several entries per row
  for (int n : {6, 11}) for (int k = 0; k < NSTRUCT; ++k) for (int target = 0; target < 3; ++target) for (int t = 1; t <= 4; ++t) {
    Options o; o.threads = t;
    MC_RUN(o, S("load structured %dx%d kind=%d as %s threads=%d", n, n, k, TG[target], t), ([=] {
      freeze(true);
      int mode = choose(3), ord = choose(3), pad = 1 << choose(3);
      Ref a = ref_struct(n, k); Ents e;
      for (int i = 0; i < n; ++i) for (auto &p : a.r[i]) if (mode == 0 || p.first <= i) e.push_back({{i, p.first}, fval(REAL, std::min(i, p.first), std::max(i, p.first))});
      if (ord == 1) std::reverse(e.begin(), e.end());
      if (ord == 2) std::stable_sort(e.begin(), e.end(), [](const std::pair<std::pair<int, int>, double> &x, const std::pair<std::pair<int, int>, double> &y) { return x.first.second < y.first.second; });
      Cfg c = {REAL, mode == 1, mode == 2, false, choose(2), pad, 0};
      load(n, n, e, c, target);
    }));
  }
  bound("larger matrices (9 patterns up to 65x65) on teams of 1, 3, 8 and 16, one interleaving");
  for (int z = 0; z < NSIZE; ++z) for (int target = 0; target < 3; ++target) for (int t : {1, 3, 8, 16}) {
    Options o; o.threads = t;
    int m = SIZES[z][0], n = SIZES[z][1];
    MC_RUN(o, S("load large %dx%d as %s threads=%d", m, n, TG[target], t), ([=] {
      freeze(true);
      int mode = m == n ? choose(3) : 0, ord = choose(3), pad = 1 << choose(3);
      Ref a = ref_big(m, n, choose(NBIG)); Ents e;
      for (int i = 0; i < m; ++i) for (auto &p : a.r[i]) if (mode == 0 || p.first <= i) e.push_back({{i, p.first}, fval(REAL, std::min(i, p.first), std::max(i, p.first))});
      if (ord == 1) std::reverse(e.begin(), e.end());
      if (ord == 2) std::stable_sort(e.begin(), e.end(), [](const std::pair<std::pair<int, int>, double> &x, const std::pair<std::pair<int, int>, double> &y) { return x.first.second < y.first.second; });
      bool zero = false; for (auto &p : e) zero |= !p.first.first || !p.first.second;
      Cfg c = {REAL, mode == 1, mode == 2, false, zero ? choose(2) : 1, pad, 0};
      load(m, n, e, c, target);
    }));
  }
}
