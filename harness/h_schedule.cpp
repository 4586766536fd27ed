// C02: structure of level schedules
#include "schedutil.hpp"
static std::string opt_name(int o) { return S("%s%s%s%s%s", o & O_BARRIER ? "barrier " : "p2p ", o & O_TR ? "tr " : "", o & O_FUSE ? "fuse " : "", o & O_AGG ? "agg " : "", o & O_POOL ? "pool " : ""); }
static void one(const Ref &a, int threads, int opts, int cost, int how, int base, int thresh, int flags) {
  mcSerialLevelThresh = thresh;
  CSR *A = build(a, base, flags | W_DIAGPTR);
  {
    LevelSchedule s; set_opts(s, opts);
    construct(s, *A, cost, how);
    check_schedule(s, a, threads);
  }
}
// h hubs (rows 0..h-1) with c[i] leaves each; shape 1: every leaf also has a leaf of its own
static Ref hubs(const std::vector<int> &c, int shape) {
  int h = (int)c.size(), n = h; for (int x : c) n += x;
  int leaves = n - h;
  if (shape) n += leaves;
  std::vector<std::pair<int, int>> e; int k = h;
  for (int i = 0; i < h; ++i) for (int q = 0; q < c[i]; ++q, ++k) { e.push_back({i, k}); if (shape) e.push_back({k, k + leaves}); }
  std::vector<std::vector<char>> p(n, std::vector<char>(n, 0));
  for (int i = 0; i < n; ++i) p[i][i] = 1;
  for (auto &x : e) p[x.first][x.second] = p[x.second][x.first] = 1;
  Ref a(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (p[i][j]) a.r[i].push_back({j, 1});
  return a;
}
// columns beyond the rows (a distributed matrix); bit per row and halo column
static Ref halo(Ref a, unsigned bits, int h) {
  for (int i = 0; i < a.m; ++i) for (int k = 0; k < h; ++k) if (bits >> (i * h + k) & 1) a.r[i].push_back({a.m + k, 3});
  a.n = a.m + h; return a;
}
// lower and upper parts in descending order: only partially sorted
static Ref partial(Ref a) {
  for (int i = 0; i < a.m; ++i) std::sort(a.r[i].begin(), a.r[i].end(), [=](const std::pair<int, double> &x, const std::pair<int, double> &y) {
    auto part = [=](int c) { return c < i ? 0 : c == i ? 1 : c < a.m ? 2 : 3; };
    int p = part(x.first), q = part(y.first);
    return p != q ? p < q : x.first > y.first;
  });
  return a;
}
void mc_enumerate() {
  bool th = tier();
  Options o;
  static const uint8_t FILL[3] = {0xCD, 0, 0x7f}; // contents of fresh memory
  bound("teams of 7, 8, 13 and 16 on structured graphs of up to 40 rows and hub graphs, one interleaving");
  bound("sequential parts, one interleaving each: all symmetric patterns with full diagonal up to 4 (thorough: 5) rows and 8 structured families of 5 to 20 rows and hub graphs up to 76 rows; teams 1-6; every combination of useBarrier/transitiveReduction/fuseSpMV/aggregateForVectorization; 5 cost functions; 4 entry points; both bases; serial level thresholds 1, 2, 64; non-local columns; partially sorted rows");
  bound(th ? "one stretch between two barriers of the construction at a time, every interleaving of it: all patterns of 3 and 4 rows on 2 and 3 threads; structured patterns of 5 to 10 rows on 2, 3 and 4 threads (with a level of n/2 rows: up to 8 rows on 3 threads, 7 on 4); hub graphs on 2 and 3 threads" : "one stretch between two barriers of the construction at a time, every interleaving of it: all patterns of 3 and 4 rows on 2 and 3 threads; structured patterns of 5 to 8 rows on 2, 3 and 4 threads (with a level of n/2 rows: up to 6 rows on 3 threads, 5 on 4); hub graphs on 2 and 3 threads");
  bound("all schedules of the construction that deviate at most once (thorough: twice) from round robin, for all patterns of 3 rows and 8 structured ones of 5 (thorough: 6), teams 2 and 3");
  // all patterns, one interleaving
  for (int n = 0; n <= (th ? 5 : 4); ++n)
    for (int t = 1; t <= 6; ++t) for (int opts = 0; opts < 16; ++opts) for (int thresh : {1, 64}) for (int cost = 0; cost < NCOST; ++cost) {
      if (n >= 4 && cost != 0 && cost != 3 && cost != 2 - (opts & 1)) continue;
      o.threads = t;
      int bits = n * (n - 1) / 2;
      int v = t + opts + (thresh > 1) + cost; // the remaining dimensions vary along
      MC_RUN(o, S("all patterns n=%d threads=%d %sthresh=%d cost=%d base=%d entry=%d", n, t, opt_name(opts).c_str(), thresh, cost, v % 2, v / 2 % 4), ([=] {
        freeze(true);
        one(ref_sym(n, choose(1 << bits)), t, opts, cost, v / 2 % 4, v % 2, thresh, W_VALUES);
      }));
    }
  // entry points and bases, with non-local columns and partially sorted rows
  for (int n = 1; n <= 3; ++n) for (int t = 1; t <= 4; ++t) for (int how : {0, 3}) for (int base = 0; base < 2; ++base) for (int opts : {O_TR, 0, O_BARRIER, O_TR | O_FUSE}) {
    o.threads = t;
    MC_RUN(o, S("halo n=%d threads=%d %sentry=%d base=%d", n, t, opt_name(opts).c_str(), how, base), ([=] {
      freeze(true);
      Ref a = halo(ref_sym(n, choose(1 << n * (n - 1) / 2)), choose(1 << n), 1);
      one(a, t, opts, 0, how, base, 1, W_VALUES | W_EXTPTR);
    }));
  }
  for (int n = 3; n <= 5; ++n) for (int t = 1; t <= 4; ++t) for (int how = 0; how < 4; ++how) for (int base = 0; base < 2; ++base) {
    if (!th && n == 5) continue;
    o.threads = t;
    MC_RUN(o, S("partially sorted n=%d threads=%d entry=%d base=%d", n, t, how, base), ([=] {
      freeze(true);
      Ref a = ref_sym(n, choose(1 << n * (n - 1) / 2));
      int opts = choose(16), h = choose(2);
      if (h && how != 0 && how != 3) h = 0;
      if (h) a = halo(a, 0x2d6 >> (n & 1), 2);
      // the array entry points without diagptr look for the first entry at or behind the diagonal
      a = partial(a);
      one(a, t, opts, 0, how == 1 ? 2 : how, base, 1, W_VALUES | (h ? W_EXTPTR : 0));
    }));
  }
  for (int kind = 0; kind < NSTRUCT; ++kind) for (int t = 1; t <= 6; ++t) for (int opts = 0; opts < 16; ++opts) {
    o.threads = t; o.fill = FILL[(kind + opts) % 3];
    MC_RUN(o, S("structured kind=%d threads=%d %s", kind, t, opt_name(opts).c_str()), ([=] {
      freeze(true);
      static const int N[] = {5, 6, 7, 8, 9, 12, 17, 20};
      int n = N[choose(8)]; if (!th && n > 12 && (n == 17) != (kind & 1)) return;
      int thresh = choose(2) ? 2 : 1;
      int cost = choose(th ? NCOST : 2);
      Ref a = ref_struct(n, kind);
      if (n & 1) { // numbering that does not follow the levels
        std::vector<int> p = struct_perm(n, 6); Ref b(n, n);
        for (int i = 0; i < n; ++i) for (auto &e : a.r[i]) b.r[p[i]].push_back({p[e.first], e.second});
        for (auto &r : b.r) std::sort(r.begin(), r.end());
        a = b;
      }
      one(a, t, opts, cost, n % 4, n / 2 % 2, thresh, W_VALUES);
    }));
  }
  // two- and three-level graphs with hubs: one thread discovers many rows of a level
  static const int C[] = {0, 1, 4, 9};
  for (int t = 1; t <= 6; ++t) for (int h = 1; h <= 4; ++h) for (int shape = 0; shape < 2; ++shape) for (int thresh : {1, 3, 64}) {
    o.threads = t;
    if (!th && thresh == 64 && h > 2) continue;
    o.fill = FILL[(h + thresh + t) % 3];
    MC_RUN(o, S("hubs=%d shape=%d threads=%d thresh=%d", h, shape, t, thresh), ([=] {
      freeze(true);
      std::vector<int> c(h); for (int &x : c) x = C[choose(h == 4 && !th ? 2 : 4) * (h == 4 && !th ? 3 : 1)];
      one(hubs(c, shape), t, (shape + h) % 2 ? O_TR : O_BARRIER, h % 2, 0, 0, thresh, W_VALUES);
    }));
  }
  // several graphs in the same object, and with its arrays in the memory pool
  for (int t = 1; t <= 4; ++t) for (int opts = 0; opts < 32; ++opts) {
    o.threads = t;
    MC_RUN(o, S("rebuild threads=%d %s", t, opt_name(opts).c_str()), ([=] {
      freeze(true);
      if (opts & O_POOL) MemoryPool::getSingleton()->initialize(1 << 19);
      int n1 = choose(4), n2 = choose(4);
      int k1 = n1 * (n1 - 1) / 2, k2 = n2 * (n2 - 1) / 2;
      Ref a = ref_sym(n1, (1 << k1) - 1 - (n1 > 2)), b = ref_sym(n2, choose(1 << k2));
      mcSerialLevelThresh = 1;
      CSR *A = build(a, 0), *B = build(b, choose(2));
      LevelSchedule s; set_opts(s, opts);
      construct(s, *A, 0, 0); check_schedule(s, a, t);
      construct(s, *B, 1, 0); check_schedule(s, b, t);
    }));
  }
  for (int t = 1; t <= 4; ++t) for (int opts = 0; opts < 16; ++opts) {
    o.threads = t;
    MC_RUN(o, S("pool threads=%d %s", t, opt_name(opts | O_POOL).c_str()), ([=] {
      freeze(true);
      MemoryPool::getSingleton()->initialize(1 << 19);
      if (choose(2)) MemoryPool::getSingleton()->allocate(1000);
      int n = 4, kind = choose(3);
      Ref a = kind == 0 ? ref_sym(n, choose(1 << n * (n - 1) / 2)) : ref_struct(9 + kind, choose(NSTRUCT));
      one(a, t, opts | O_POOL, 0, 0, 0, choose(2) ? 64 : 1, W_VALUES);
    }));
  }
  // interleavings of the construction
  for (int t = 2; t <= 3; ++t) for (int opts : {O_TR, 0, O_BARRIER, O_TR | O_FUSE}) for (int thresh : {1, 2}) for (int bits = 0; bits < 8; ++bits) {
    o.threads = t; o.delay = th ? 2 : 1;
    if (!th && thresh == 2 && (bits & 1)) continue;
    MC_RUN(o, S("interleavings of patterns n=3 bits=%d threads=%d %sthresh=%d", bits, t, opt_name(opts).c_str(), thresh), ([=] {
      one(ref_sym(3, bits), t, opts, 0, 0, 0, thresh, W_VALUES);
    }));
  }
  for (int t = 2; t <= 3; ++t) for (int kind = 0; kind < NSTRUCT; ++kind) for (int opts : {O_TR, O_TR | O_FUSE, O_BARRIER}) {
    o.threads = t; o.delay = th ? 2 : 1;
    if (!th && opts != O_TR) continue;
    MC_RUN(o, S("interleavings of structured kind=%d threads=%d %s", kind, t, opt_name(opts).c_str()), ([=] {
      one(ref_struct(th ? 6 : 5, kind), t, opts, 0, 0, 0, 1, W_VALUES);
    }));
  }
  // one stretch between barriers at a time
  for (int t = 2; t <= 3; ++t) for (int n = 3; n <= 4; ++n) for (int opts : {O_TR, 0, O_BARRIER, O_TR | O_FUSE}) for (int thresh : {1, 2}) {
    o.threads = t; o.delay = -1;
    for (int part = 0; part < 8; ++part) MC_RUN(o, S("phases patterns n=%d threads=%d %sthresh=%d part=%d", n, t, opt_name(opts).c_str(), thresh, part), ([=] {
      Ref a = ref_sym(n, (n == 3 ? 0 : choose(8)) * 8 + part);
      each_phase([&] { one(a, t, opts, 0, 0, 0, thresh, W_VALUES); });
    }));
  }
  for (int t = 2; t <= 4; ++t) for (int n = 5; n <= (th ? 10 : 8); ++n) for (int kind = 0; kind < NSTRUCT; ++kind) for (int opts : {O_TR, O_TR | O_FUSE, O_BARRIER}) {
    o.threads = t; o.delay = -1;
    if (!th && (n > 6 || t == 4) && opts != O_TR) continue;
    if (kind == 3 && t >= 3 && n > (th ? 11 - t : 9 - t)) continue; // many rows in one level
    MC_RUN(o, S("phases structured n=%d kind=%d threads=%d %s", n, kind, t, opt_name(opts).c_str()), ([=] {
      each_phase([&] { one(ref_struct(n, kind), t, opts, 0, 0, 0, 1, W_VALUES); });
    }));
  }
  for (int t = 2; t <= 3; ++t) for (int h = 1; h <= 3; ++h) for (int shape = 0; shape < 2; ++shape) {
    o.threads = t; o.delay = -1;
    MC_RUN(o, S("phases hubs=%d shape=%d threads=%d", h, shape, t), ([=] {
      std::vector<int> c(h); for (int &x : c) x = choose(2) * 3 + 1;
      each_phase([&] { one(hubs(c, shape), t, O_TR, 0, 0, 0, 1, W_VALUES); });
    }));
  }
  for (int t : {7, 8, 13, 16}) for (int kind = 0; kind < NSTRUCT; ++kind) for (int opts = 0; opts < 16; ++opts) {
    o.threads = t; o.delay = -1; o.fill = FILL[(kind + opts + t) % 3]; o.max_events = 400000;
    MC_RUN(o, S("wide structured kind=%d threads=%d %s", kind, t, opt_name(opts).c_str()), ([=] {
      freeze(true);
      static const int N[] = {9, 17, 26, 40};
      int n = N[choose(th || opts % 3 == 0 ? 4 : 2)], thresh = choose(2) ? 3 : 1, z = choose(3);
      Ref a = ref_struct(n, kind);
      if (z) { std::vector<int> p = struct_perm(n, z == 1 ? 6 : 4); Ref b(n, n); for (int i = 0; i < n; ++i) for (auto &e : a.r[i]) b.r[p[i]].push_back({p[e.first], e.second}); for (auto &r : b.r) std::sort(r.begin(), r.end()); a = b; }
      one(a, t, opts, z, n % 4, kind % 2, thresh, W_VALUES);
    }));
    if (opts == O_TR || opts == O_BARRIER) MC_RUN(o, S("wide hubs kind=%d threads=%d %s", kind, t, opt_name(opts).c_str()), ([=] {
      freeze(true);
      std::vector<int> c(1 + kind); for (int &x : c) x = 2 + 7 * choose(2);
      if (kind > 4) return;
      one(hubs(c, kind & 1), t, opts, 0, 0, 0, choose(2) ? 3 : 1, W_VALUES);
    }));
  }
}
