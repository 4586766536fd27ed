// C01: sweeps over a level schedule equal the sequential sweep in every interleaving
#include "schedutil.hpp"
typedef uint64_t V;
void ks_sweeps(const CSR &A, int base, V *y, const V *b, const LevelSchedule &s, const int *perm, int nsweeps, int dirs, bool p2p);
void ks_sweeps_one_region(const CSR &A, int base, V *y, const V *b, const LevelSchedule &s, const int *perm, int nsweeps, int dirs, bool p2p);
void ks_reference(const CSR &A, int base, V *y, const V *b, int nsweeps, int dirs);
struct Cfg { int threads, opts, nsweeps, dirs, base, thresh; bool reorder, one_region, halo; };
static void one(Ref a, const Cfg &c) {
  freeze(true);
  mcSerialLevelThresh = c.thresh;
  int m = a.m;
  if (c.halo) { for (int i = 0; i < m; ++i) if (i % 2 == 0) a.r[i].push_back({m, 3}); a.n = m + 1; }
  CSR *A = build(a, c.base, W_VALUES | W_DIAGPTR | (c.halo ? W_EXTPTR : 0));
  V *y = lib_alloc<V>(m), *b = lib_alloc<V>(m);
  std::vector<V> y0(m), b0(m), want(m);
  for (int i = 0; i < m; ++i) { y0[i] = 1000003ull * (i + 1); b0[i] = 77777ull * (i * i + 3); }
  want = y0;
  ks_reference(*A, c.base, want.data(), b0.data(), c.nsweeps, c.dirs);
  {
    LevelSchedule s; set_opts(s, c.opts);
    construct(s, *A, 0, 0);
    CSR *M = A; const int *perm = s.threadContToOrigPerm;
    if (c.reorder) { M = A->permute(s.origToThreadContPerm, s.threadContToOrigPerm, true); }
    for (int i = 0; i < m; ++i) { int k = c.reorder ? s.origToThreadContPerm[i] : i; y[k] = y0[i]; b[k] = b0[i]; }
    freeze(false);
    (c.one_region ? ks_sweeps_one_region : ks_sweeps)(*M, c.base, y, b, s, c.reorder ? nullptr : perm, c.nsweeps, c.dirs, !(c.opts & O_BARRIER));
    freeze(true);
    for (int i = 0; i < m; ++i) {
      V g = y[c.reorder ? s.origToThreadContPerm[i] : i];
      if (g != want[i]) fail("result", "row %d of the parallel sweep differs from the sequential one (%s, %d sweeps, directions %x)", i, show(a).c_str(), c.nsweeps, c.dirs);
    }
  }
}
static std::string name(const Cfg &c) {
  return S("threads=%d %s%s%ssweeps=%d dirs=%x base=%d thresh=%d%s%s%s", c.threads, c.opts & O_BARRIER ? "barrier " : "p2p ", c.opts & O_TR ? "tr " : "", c.opts & O_AGG ? "agg " : "", c.nsweeps, c.dirs, c.base, c.thresh,
           c.reorder ? " reordered" : "", c.one_region ? " one-region" : "", c.halo ? " halo" : "");
}
void mc_enumerate() {
  bool th = tier();
  Options o;
  bound("wide teams of 5 to 8 (thorough 12): rows that wait for up to 7 (11) other threads (arrows, stars, dense blocks, arrow pointing both ways), every interleaving for the smaller ones, at most 1 deviation from round robin for the others");
  bound("all interleavings of the sweeps; all structurally symmetric patterns with full diagonal of 1 to 4 (thorough: 5) rows for teams 1-3 (thorough: 4), 1-2 sweeps in every direction; 8 structured patterns of 5-8 (thorough: 6-10) rows, teams 2-4, up to 4 sweeps");
  bound("point-to-point with and without transitive reduction, level barriers, aggregated tasks; original and reordered matrix; sweeps in separate parallel regions or in one; both bases; non-local columns; sequential/parallel level search");
  static const int OPTS[] = {O_TR, 0, O_BARRIER, O_TR | O_AGG, O_BARRIER | O_TR};
  for (int n = 1; n <= (th ? 5 : 4); ++n) for (int t = 1; t <= (th ? 4 : 3); ++t) for (int q = 0; q < 5; ++q) for (int k = 0; k < 6; ++k) for (int bits = 0; bits < 1 << n * (n - 1) / 2; ++bits) {
    int opts = OPTS[q];
    if (n == 5 && t == 4 && k > 3) continue;
    o.threads = t;
    // k: 0 F, 1 B, 2 FB, 3 BF, 4 FF, 5 BB
    Cfg c = {t, opts, k < 2 ? 1 : 2, k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 2 : k == 3 ? 1 : k == 4 ? 0 : 3, (k + q) & 1, (bits + k) % 3 ? 1 : 64, (bool)((k >> 1 ^ q ^ t) & 1), (bool)((bits ^ k ^ k >> 1) & 1), (bool)(bits % 5 == 1)};
    MC_RUN(o, S("all patterns n=%d bits=%d %s", n, bits, name(c).c_str()), ([=] { one(ref_sym(n, bits), c); }));
  }
  for (int n = (th ? 6 : 5); n <= (th ? 10 : 8); ++n) for (int t = 2; t <= 4; ++t) for (int kind = 0; kind < NSTRUCT; ++kind) for (int q = 0; q < 5; ++q) for (int k = 0; k < 4; ++k) for (int z = 0; z < 2; ++z) {
    int opts = OPTS[q];
    if (!th && t == 4 && n > 5) continue;
    o.threads = t; o.max_exec = th ? 400000 : 20000;
    Cfg c = {t, opts, k + 1, k == 0 ? z : k == 1 ? (z ? 1 : 2) : k == 2 ? (z ? 5 : 2) : (z ? 5 : 10), (k + n) & 1, 1, (bool)((k ^ z) & 1), (bool)z, (bool)(kind == 1 && k == 2)};
    MC_RUN(o, S("structured kind=%d n=%d %s", kind, n, name(c).c_str()), ([=] {
      Ref a = ref_struct(n, kind);
      if (z) { std::vector<int> p = struct_perm(n, n & 1 ? 6 : 4); Ref b(n, n); for (int i = 0; i < n; ++i) for (auto &e : a.r[i]) b.r[p[i]].push_back({p[e.first], e.second}); for (auto &r : b.r) std::sort(r.begin(), r.end()); a = b; }
      one(a, c);
    }));
  }
  // one row waiting for many threads, many rows waiting for one
  for (int t = 5; t <= (th ? 12 : 8); ++t) for (int kind = 0; kind < 4; ++kind) for (int q = 0; q < 3; ++q) for (int k = 0; k < 3; ++k) for (int re = 0; re < 2; ++re) {
    o.threads = t; o.delay = 1; o.max_exec = 400000;
    int n = t + (kind > 1) + q % 2;
    Cfg c = {t, OPTS[q], k == 2 ? 2 : 1, k == 0 ? 0 : k == 1 ? 1 : 2, (k + q) & 1, 1, (bool)re, (bool)(k & 1), false};
    MC_RUN(o, S("wide kind=%d n=%d %s", kind, n, name(c).c_str()), ([=] {
      Ref a(n, n);
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        bool on = i == j;
        if (kind == 0) on |= i == n - 1 || j == n - 1;          // the last row needs all others
        if (kind == 1) on |= i == 0 || j == 0;                  // all rows need the first
        if (kind == 2) on |= i == 0 || j == 0 || i == n - 1 || j == n - 1;
        if (kind == 3) on |= (i < n / 2) != (j < n / 2);        // two dense levels
        if (on) a.r[i].push_back({j, i == j ? n + 1. : val_of(std::min(i, j), std::max(i, j))});
      }
      one(a, c);
    }));
  }
}
