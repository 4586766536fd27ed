// C03: the fused backward-sweep-then-multiply schedule
#include "schedutil.hpp"
typedef uint64_t V;
void ks_reference(const CSR &A, int base, V *y, const V *b, int nsweeps, int dirs);
void ks_fused(const CSR &A, int base, V *y, const V *b, V *w, const LevelSchedule &schedule, const FusedGSAndSpMVSchedule &f, const int *perm);
static std::string opt_name(int o) { return S("%s%s%s%s", o & O_BARRIER ? "barrier " : "p2p ", o & O_TR ? "tr " : "", o & O_AGG ? "agg " : "", o & O_POOL ? "pool " : ""); }
static void check_fused(const LevelSchedule &s, const Ref &a, int threads) {
  const FusedGSAndSpMVSchedule *f = s.fusedSchedule;
  if (!f) fail("missing", "no fused schedule although it was asked for");
  readable(f, sizeof *f, "fusedSchedule");
  int n = s.ntasks, m = a.m;
  check_lists(s, f->nparents, f->parents, f->parentsBuf, "Fused");
  for (int t = 0; t < n; ++t) for (int u = 0; u < t; ++u)
    if (f->nparents[t] && f->nparents[u] && f->parents[t] < f->parents[u] + f->nparents[u] && f->parents[u] < f->parents[t] + f->nparents[t])
      fail("overlap", "the waits of multiply tasks %d (%d entries) and %d (%d entries) share memory", u, f->nparents[u], t, f->nparents[t]);
  Order b = order_of(s, true);
  std::vector<int> t = task_of(s, m);
  for (int i = 0; i < m; ++i) for (auto &e : a.r[i]) {
    int j = e.first; if (j >= m) continue;
    bool ok = false;
    int k = t[i];
    for (int q = 0; q < f->nparents[k]; ++q) { int p = f->parents[k][q]; if (p == t[j] || b.before[p][t[j]]) ok = true; }
    if (!ok) fail("unordered", "multiply task %d (row %d) reads row %d without waiting for task %d", k, i, j, t[j]);
  }
}
static void lists(const Ref &a, int threads, int opts, int how, int base, int flags) {
  freeze(true);
  mcSerialLevelThresh = 1;
  if (opts & O_POOL) MemoryPool::getSingleton()->initialize(1 << 19);
  CSR *A = build(a, base, W_VALUES | W_DIAGPTR | flags);
  LevelSchedule s; set_opts(s, opts | O_FUSE);
  construct(s, *A, 0, how);
  check_fused(s, a, threads);
}
static void exec(const Ref &a, int opts, int base, bool reorder) {
  freeze(true);
  mcSerialLevelThresh = 1;
  int m = a.m;
  CSR *A = build(a, base, W_VALUES | W_DIAGPTR);
  V *y = lib_alloc<V>(m), *b = lib_alloc<V>(m), *w = lib_alloc<V>(m);
  std::vector<V> y0(m), b0(m), yw(m);
  for (int i = 0; i < m; ++i) { y0[i] = 1000003ull * (i + 1); b0[i] = 77777ull * (i * i + 3); }
  yw = y0;
  ks_reference(*A, base, yw.data(), b0.data(), 1, 1);
  LevelSchedule s; set_opts(s, opts | O_FUSE);
  construct(s, *A, 0, 0);
  if (!s.fusedSchedule) fail("missing", "no fused schedule although it was asked for");
  CSR *M = reorder ? A->permute(s.origToThreadContPerm, s.threadContToOrigPerm, true) : A;
  for (int i = 0; i < m; ++i) { int k = reorder ? s.origToThreadContPerm[i] : i; y[k] = y0[i]; b[k] = b0[i]; w[k] = 0; }
  freeze(false);
  ks_fused(*M, base, y, b, w, s, *s.fusedSchedule, reorder ? nullptr : s.threadContToOrigPerm);
  freeze(true);
  for (int i = 0; i < m; ++i) {
    int k = reorder ? s.origToThreadContPerm[i] : i;
    V e = 0; for (auto &p : a.r[i]) e += (V)p.second * yw[p.first];
    if (y[k] != yw[i]) fail("sweep", "row %d of the sweep differs from the sequential one (%s)", i, show(a).c_str());
    if (w[k] != e) fail("product", "row %d of the fused product was computed from unfinished rows (%s)", i, show(a).c_str());
  }
}
static Ref shuffled(const Ref &a, int k) {
  int n = a.n; std::vector<int> p = struct_perm(n, k); Ref b(n, n);
  for (int i = 0; i < n; ++i) for (auto &e : a.r[i]) b.r[p[i]].push_back({p[e.first], e.second});
  for (auto &r : b.r) std::sort(r.begin(), r.end());
  return b;
}
void mc_enumerate() {
  bool th = tier();
  Options o;
  bound("teams of 7, 8, 13 and 16 on structured patterns of up to 40 rows, one interleaving; execution by teams of 5 to 8 with at most one deviation from round robin");
  bound("wait lists: all structurally symmetric patterns with full diagonal of 0 to 4 (thorough: 5) rows and 8 structured families of 5 to 20 rows in 4 numberings; teams 1-6; with/without barriers, transitive reduction, aggregation, memory pool; both bases; non-local columns");
  bound("execution of backward sweep and multiply: all interleavings, all patterns of 1 to 4 rows and 8 structured ones of 5-7 (thorough: 9) rows, teams 2-4");
  for (int n = 0; n <= (th ? 5 : 4); ++n) for (int t = 1; t <= 6; ++t) for (int q = 0; q < 16; ++q) {
    int opts = (q & 3) | (q & 4 ? O_AGG : 0) | (q & 8 ? O_POOL : 0);
    if ((opts & O_POOL) && (n < 3 || t > 3)) continue;
    o.threads = t;
    MC_RUN(o, S("lists all patterns n=%d threads=%d %s", n, t, opt_name(opts).c_str()), ([=] {
      lists(ref_sym(n, choose(1 << n * (n - 1) / 2)), t, opts, t % 4, t / 2 % 2, 0);
    }));
  }
  for (int kind = 0; kind < NSTRUCT; ++kind) for (int t = 1; t <= 6; ++t) for (int q = 0; q < 8; ++q) {
    int opts = (q & 3) | (q & 4 ? O_AGG : 0);
    o.threads = t;
    MC_RUN(o, S("lists structured kind=%d threads=%d %s", kind, t, opt_name(opts).c_str()), ([=] {
      static const int N[] = {5, 6, 8, 9, 12, 14, 17, 20};
      int n = N[choose(8)], z = choose(4);
      Ref a = ref_struct(n, kind); int fl = 0;
      if (z) a = shuffled(a, 3 + z);
      if (z == 2) { for (int i = 0; i < n; i += 2) a.r[i].push_back({n, 1}); a.n = n + 1; fl = W_EXTPTR; }
      lists(a, t, opts, z == 2 ? 0 : n % 4, z & 1, fl);
    }));
  }
  for (int n = 1; n <= 4; ++n) for (int t = 1; t <= (th ? 4 : 3); ++t) for (int opts : {O_TR, 0, O_TR | O_AGG}) for (int bits = 0; bits < 1 << n * (n - 1) / 2; ++bits) {
    o.threads = t;
    MC_RUN(o, S("execution all patterns n=%d bits=%d threads=%d %s", n, bits, t, opt_name(opts).c_str()), ([=] { exec(ref_sym(n, bits), opts, bits % 3 == 1, bits & 1); }));
  }
  for (int n = 5; n <= (th ? 9 : 7); ++n) for (int t = 2; t <= (th ? 4 : 3); ++t) for (int kind = 0; kind < NSTRUCT; ++kind) for (int opts : {O_TR, 0}) for (int z = 0; z < 2; ++z) {
    o.threads = t;
    MC_RUN(o, S("execution structured kind=%d n=%d threads=%d %snumbering=%d", kind, n, t, opt_name(opts).c_str(), z), ([=] {
      Ref a = ref_struct(n, kind); if (z) a = shuffled(a, n & 1 ? 6 : 4);
      exec(a, opts, n & 1, z);
    }));
  }
  for (int t : {7, 8, 13, 16}) for (int kind = 0; kind < NSTRUCT; ++kind) for (int q = 0; q < 8; ++q) {
    int opts = (q & 3) | (q & 4 ? O_AGG : 0);
    o.threads = t; o.max_events = 1000000;
    MC_RUN(o, S("lists wide kind=%d threads=%d %s", kind, t, opt_name(opts).c_str()), ([=] {
      static const int N[] = {9, 17, 26, 40};
      int n = N[choose(4)], z = choose(3);
      Ref a = ref_struct(n, kind);
      if (z) a = shuffled(a, 3 + z);
      lists(a, t, opts, n % 4, z & 1, 0);
    }));
  }
  for (int t = 5; t <= (th ? 12 : 8); ++t) for (int kind = 0; kind < NSTRUCT; ++kind) for (int opts : {O_TR, 0}) for (int z = 0; z < 2; ++z) {
    o.threads = t; o.delay = 1; o.max_events = 20000;
    MC_RUN(o, S("execution wide kind=%d threads=%d %snumbering=%d", kind, t, opt_name(opts).c_str(), z), ([=] {
      Ref a = ref_struct(t + 3, kind); if (z) a = shuffled(a, 4);
      exec(a, opts, t & 1, z);
    }));
  }
}
