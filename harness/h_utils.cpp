// U03: permutation and vector utilities
#include <sys/mman.h>
#include "matutil.hpp"
#include <cmath>
#include <climits>
using namespace SpMP;
void ku_parmemset_inside(void *p, int c, size_t n, void *q);
void ku_copy(double *out, const double *in, int len);
void ku_copyi(int *out, const int *in, int len);
bool ku_check(const double *e, const double *a, int n, double tol, double ign);
bool ku_check_default(const double *e, const double *a, int n);
extern "C" void ku_bad(int tid, int k, int i, int got, int want, const char *what) { fail("prefix-sum", "%d %d %d %d %d %s", tid, k, i, got, want, what); }
static bool perm_def(const std::vector<int> &v) {
  std::vector<int> seen(v.size(), 0);
  for (int x : v) { if (x < 0 || x >= (int)v.size() || seen[x]) return false; seen[x] = 1; }
  return true;
}
static std::string str(const std::vector<int> &v) { std::string s; for (int x : v) s += S(" %d", x); return s; }
template <class T> static T *blk(int n) { return (T *)malloc(sizeof(T) * n); }
static void is_perm(const std::vector<int> &v) {
  int *p = to_lib(v);
  bool want = perm_def(v);
  if (!want) assertion_is_answer(true);
  long live = live_blocks();
  bool got = isPerm(p, (int)v.size());
  assertion_is_answer(false);
  if (got != want) fail(want ? "perm-rejected" : "perm-accepted", "isPerm says %d for%s", got, str(v).c_str());
  if (live_blocks() != live) fail("leak", "isPerm leaks for%s", str(v).c_str());
  for (size_t i = 0; i < v.size(); ++i) if (p[i] != v[i]) fail("input-changed", "isPerm changed entry %zu", i);
}
static void reorder(const std::vector<int> &pv, bool null) {
  int n = (int)pv.size();
  std::vector<int> inv(n);
  for (int i = 0; i < n; ++i) inv[pv[i]] = i;
  int *p = null ? NULL : to_lib(pv), *gi = blk<int>(n);
  if (!null) {
    getInversePerm(gi, p, n);
    for (int i = 0; i < n; ++i) if (gi[i] != inv[i]) fail("inverse", "getInversePerm[%d]=%d for%s", i, gi[i], str(pv).c_str());
    if (!isInversePerm(p, gi, n) || !isInversePerm(gi, p, n)) fail("inverse", "isInversePerm denies the inverse of%s", str(pv).c_str());
  }
  double *d = blk<double>(n), *o = blk<double>(n), *o2 = blk<double>(n), *ip = blk<double>(n), *t = blk<double>(n);
  int *di = blk<int>(n), *oi = blk<int>(n), *oi2 = blk<int>(n);
  for (int i = 0; i < n; ++i) d[i] = di[i] = 100 + 7 * i;
  auto at = [&](int i) { return null ? d[i] : d[inv[i]]; }; // dst = perm(src)
  long live = live_blocks();
  reorderVectorOutOfPlace(o, d, p, n);
  reorderVectorOutOfPlaceWithInversePerm(o2, d, null ? NULL : gi, n);
  reorderVectorOutOfPlace(oi, di, p, n);
  reorderVectorOutOfPlaceWithInversePerm(oi2, di, null ? NULL : gi, n);
  for (int i = 0; i < n; ++i) {
    if (o[i] != at(i) || o2[i] != at(i)) fail("reorder", "entry %d is %g / %g, expected %g for%s", i, o[i], o2[i], at(i), str(pv).c_str());
    if (oi[i] != at(i) || oi2[i] != at(i)) fail("reorder", "int entry %d is %d / %d, expected %g for%s", i, oi[i], oi2[i], at(i), str(pv).c_str());
    if (d[i] != 100 + 7 * i || di[i] != 100 + 7 * i) fail("input-changed", "the source changed at %d", i);
  }
  for (int how = 0; how < 4; ++how) {
    for (int i = 0; i < n; ++i) { ip[i] = d[i]; t[i] = -1; }
    if (how == 0) reorderVector(ip, t, p, n);
    else if (how == 1) reorderVectorWithInversePerm(ip, t, null ? NULL : gi, n);
    else if (how == 2) reorderVector(ip, p, n);
    else reorderVectorWithInversePerm(ip, null ? NULL : gi, n);
    for (int i = 0; i < n; ++i) if (ip[i] != at(i)) fail("reorder-in-place", "entry %d is %g, expected %g (way %d) for%s", i, ip[i], at(i), how, str(pv).c_str());
  }
  if (live_blocks() != live) fail("leak", "in-place reordering leaks");
  double *r1 = getReorderVector(d, p, n), *r2 = getReorderVectorWithInversePerm(d, null ? NULL : gi, n);
  readable(r1, n * 8, "getReorderVector"); readable(r2, n * 8, "getReorderVectorWithInversePerm");
  for (int i = 0; i < n; ++i) if (r1[i] != at(i) || r2[i] != at(i)) fail("reorder", "returned entry %d is %g / %g, expected %g", i, r1[i], r2[i], at(i));
  if (!null) for (int i = 0; i < n; ++i) if (p[i] != pv[i] || gi[i] != inv[i]) fail("input-changed", "the permutation changed at %d", i);
}
static void fillcopy(int n, int off, int c, bool inside) {
  unsigned char *a = blk<unsigned char>(n + off), *b = blk<unsigned char>(n + off);
  for (int i = 0; i < n + off; ++i) { a[i] = (unsigned char)(i * 7 + 3); b[i] = (unsigned char)(i * 5 + 1); }
  if (inside) {
    ku_parmemset_inside(a + off, c, n, b + off);
  } else {
    parMemset(a + off, c, n);
    for (int i = 0; i < n; ++i) if (a[off + i] != (unsigned char)c) fail("fill", "byte %d of %d is %d after filling with %d", i, n, a[off + i], c);
    for (int i = 0; i < n; ++i) a[off + i] = (unsigned char)(i * 11 + i / 256 + 2);
    parMemcpy(b + off, a + off, n);
  }
  for (int i = 0; i < n; ++i) {
    unsigned char w = inside ? (unsigned char)c : (unsigned char)(i * 11 + i / 256 + 2);
    if (a[off + i] != w) fail(inside ? "fill" : "input-changed", "byte %d of %d is %d, expected %d", i, n, a[off + i], w);
    if (b[off + i] != w) fail("copy", "byte %d of %d is %d, expected %d", i, n, b[off + i], w);
  }
  for (int i = 0; i < off; ++i) if (a[i] != (unsigned char)(i * 7 + 3) || b[i] != (unsigned char)(i * 5 + 1)) fail("neighbour", "byte %d before the range changed", i);
}
// more bytes than an int can count
static void fillcopy_big(size_t n, bool copy) {
  const size_t G = 4096, len = (n + G - 1) / G * G;
  auto map = [&] { return (unsigned char *)mmap(NULL, len + 2 * G, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, 0, 0); };
  unsigned char *a = map() + G, *b = copy ? map() + G : NULL;
  if (!copy) {
    parMemset(a, 0x5A, n);
    unsigned char w[8]; for (auto &x : w) x = 0x5A; uint64_t w8; __builtin_memcpy(&w8, w, 8);
    for (size_t i = 0; i < n / 8; ++i) if (((uint64_t *)a)[i] != w8) fail("fill", "byte %zu of %zu was not filled", i * 8, n);
    for (size_t i = n / 8 * 8; i < n; ++i) if (a[i] != 0x5A) fail("fill", "byte %zu of %zu was not filled", i, n);
  } else {
    for (size_t i = 0; i < n; i += 4096) *(uint32_t *)(a + i) = (uint32_t)(i / 4096 + 1);
    for (size_t i = n - 100; i < n; ++i) a[i] = (unsigned char)(i + 1);
    parMemcpy(b, a, n);
    for (size_t i = 0; i + 104 < n; i += 4096) if (*(uint32_t *)(b + i) != (uint32_t)(i / 4096 + 1)) fail("copy", "byte %zu of %zu was not copied", i, n);
    for (size_t i = n - 100; i < n; ++i) if (b[i] != (unsigned char)(i + 1)) fail("copy", "byte %zu of %zu was not copied", i, n);
  }
  for (unsigned char *p : {a, b}) if (p) {
    for (size_t i = 1; i <= 64; ++i) if (p[-i]) fail("neighbour", "byte %zu before the range changed", i);
    for (size_t i = n; i < len + 64; ++i) if ((!copy || p == b) && p[i]) fail("neighbour", "byte %zu after the range changed", i - n);
    munmap(p - G, len + 2 * G);
  }
}
static void check(int n, const double *V, int nv, double tol, double ign, bool dflt) {
  double e[4], a[4];
  for (int i = 0; i < n; ++i) { e[i] = V[choose(nv)]; a[i] = V[choose(nv)]; }
  bool ok = true, border = false;
  for (int i = 0; i < n; ++i) {
    double E = fabs(e[i]), A = fabs(a[i]);
    if (std::isnan(e[i]) && std::isnan(a[i])) { border = true; continue; } // unspecified
    if (e[i] == a[i]) continue;
    bool close = fabs(e[i] - a[i]) < tol * E, small = E < ign && A < ign;
    if (fabs(fabs(e[i] - a[i]) / E - tol) < 1e-12) border = true; // exactly at the margin: rounding decides
    if (!close && !small) ok = false;
  }
  if (border) return;
  if (!ok) assertion_is_answer(true);
  bool got = dflt ? ku_check_default(e, a, n) : ku_check(e, a, n, tol, ign);
  assertion_is_answer(false);
  if (got != ok) fail(ok ? "mismatch-reported" : "mismatch-missed", "comparison of (%g,%g,%g) with (%g,%g,%g) tol %g ignore %g says %d", e[0], n > 1 ? e[1] : 0, n > 2 ? e[2] : 0, a[0], n > 1 ? a[1] : 0, n > 2 ? a[2] : 0, tol, ign, got);
}
void mc_enumerate() {
  bool th = tier();
  bound("reordering, copying and filling with teams of 7, 8, 13 and 16");
  bound(th ? "isPerm on every array of length 0-6 over -1..n+1 and on disturbed permutations of length up to 9; isInversePerm on every pair of arrays of length up to 4" : "isPerm on every array of length 0-5 over -1..n+1 and on disturbed permutations of length up to 8; isInversePerm on every pair of arrays of length up to 3");
  bound("reordering and inverting under every permutation of length 0-5 (thorough 6) and structured ones up to length 130, teams of 1-4, NULL permutation included; fill and copy of every length 0-300 (thorough 0-900) at every alignment 0-3, teams of 1-6, inside and outside parallel regions");
  bound("fill and copy of 2^31+327 bytes by one thread (thorough: also 2^32+327 bytes by 3)");
  bound("tolerance comparison over every pair of vectors of length up to 2 (thorough 3 on fewer values) from 13 values with NaN, infinities, zero and tiny numbers, 4 margins");
  Options o; o.max_exec = 200000000;
  for (int n = 0; n <= (th ? 6 : 5); ++n)
    MC_RUN(o, S("isPerm every array n=%d", n), ([=] { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(choose(n + 3) - 1); is_perm(v); }));
  for (int n = 1; n <= (th ? 9 : 8); ++n)
    MC_RUN(o, S("isPerm disturbed n=%d", n), ([=] {
      auto v = struct_perm(n, choose(3));
      static const int X[6] = {-1, INT_MIN, INT_MAX, 0, 1, 1000};
      int k = choose(n), x = choose(n + 7);
      v[k] = x < n ? x : x == n ? n : X[x - n - 1];
      int k2 = choose(n), x2 = choose(n + 2);
      v[k2] = x2;
      is_perm(v);
    }));
  for (int n = 0; n <= (th ? 4 : 3); ++n)
    MC_RUN(o, S("isInversePerm n=%d", n), ([=] {
      std::vector<int> a, b; for (int i = 0; i < n; ++i) { a.push_back(choose(n)); }
      for (int i = 0; i < n; ++i) b.push_back(choose(n + 2) - 1);
      int *p = to_lib(a), *q = to_lib(b);
      bool want = true; for (int i = 0; i < n; ++i) want &= b[a[i]] == i;
      if (isInversePerm(p, q, n) != want) fail("inverse", "isInversePerm(%s,%s) is %d", str(a).c_str(), str(b).c_str(), !want);
    }));
  for (int t = 1; t <= 4; ++t) {
    o.threads = t;
    for (int n = 0; n <= (th ? 6 : 5); ++n) MC_RUN(o, S("reorder n=%d threads=%d", n, t), ([=] { reorder(nth_perm(n, choose(fact(n))), false); }));
    MC_RUN(o, S("reorder large threads=%d", t), ([=] { static const int N[] = {6, 7, 8, 13, 16, 31, 64, 65, 130}; int n = N[choose(9)]; reorder(struct_perm(n, choose(3)), false); }));
    MC_RUN(o, S("reorder without permutation threads=%d", t), ([=] { int n = choose(20); std::vector<int> id(n); for (int i = 0; i < n; ++i) id[i] = i; reorder(id, true); }));
    MC_RUN(o, S("copyVector threads=%d", t), ([=] {
      int n = choose(40);
      double *a = blk<double>(n), *b = blk<double>(n); int *ai = blk<int>(n), *bi = blk<int>(n);
      for (int i = 0; i < n; ++i) { a[i] = 3 * i + .5; ai[i] = -i; }
      ku_copy(b, a, n); ku_copyi(bi, ai, n);
      for (int i = 0; i < n; ++i) if (b[i] != 3 * i + .5 || bi[i] != -i || a[i] != b[i] || ai[i] != -i) fail("copy", "entry %d is %g / %d", i, b[i], bi[i]);
    }));
  }
  for (int t = 1; t <= 6; ++t) for (int inside = 0; inside < 2; ++inside) {
    o.threads = t;
    MC_RUN(o, S("fill and copy threads=%d inside=%d", t, inside), ([=] {
      static const int C[3] = {0, 0xAB, -1};
      int n = choose((th ? 900 : 300) + 1), off = choose(4) * 7 % 16, c = C[choose(3)];
      fillcopy(n, off, c, inside);
    }));
    MC_RUN(o, S("fill and copy large threads=%d inside=%d", t, inside), ([=] {
      static const int N[] = {1023, 1024, 4096, 4097, 65535, 65536 + 63, 100000};
      fillcopy(N[choose(7)], choose(2), 300, inside);
    }));
  }
  o.threads = 1;
  static const double V[] = {1, 1 + 1e-6, 1.05, 0.97, -1, 0, NAN, INFINITY, 1e-9, 5e-9, -INFINITY, 1000, 1001};
  static const double W[] = {1, 1 + 1e-6, 1.05, 0, NAN, INFINITY, 1e-9};
  for (int m = 0; m < 4; ++m) for (int n = 0; n <= (th ? 3 : 2); ++n) {
    static const double T[4] = {1e-5, 1e-5, 0.04, 2}, G[4] = {0, 1e-8, 0, 0.5};
    MC_RUN(o, S("tolerance comparison n=%d tol=%g ignore=%g", n, T[m], G[m]), ([=] { check(n, n <= 2 ? V : W, n <= 2 ? 13 : 7, T[m], G[m], m == 0); }));
  }
  for (int t : {7, 8, 13, 16}) {
    o.threads = t;
    MC_RUN(o, S("wide reorder threads=%d", t), ([=] { static const int N[] = {1, 6, 13, 16, 17, 64, 65, 130}; int n = N[choose(8)]; reorder(struct_perm(n, choose(3)), false); }));
    MC_RUN(o, S("wide reorder without permutation threads=%d", t), ([=] { int n = choose(20); std::vector<int> id(n); for (int i = 0; i < n; ++i) id[i] = i; reorder(id, true); }));
    MC_RUN(o, S("wide copyVector threads=%d", t), ([=] {
      int n = choose(130);
      double *a = blk<double>(n), *b = blk<double>(n); int *ai = blk<int>(n), *bi = blk<int>(n);
      for (int i = 0; i < n; ++i) { a[i] = 3 * i + .5; ai[i] = -i; }
      ku_copy(b, a, n); ku_copyi(bi, ai, n);
      for (int i = 0; i < n; ++i) if (b[i] != 3 * i + .5 || bi[i] != -i || a[i] != b[i] || ai[i] != -i) fail("copy", "entry %d is %g / %d", i, b[i], bi[i]);
    }));
    for (int inside = 0; inside < 2; ++inside) MC_RUN(o, S("wide fill and copy threads=%d inside=%d", t, inside), ([=] {
      static const int N[] = {1023, 1024, 4096, 4097, 65535, 65536 + 63};
      int k = choose(307), n = k <= 300 ? k : N[k - 301];
      fillcopy(n, choose(2) * 5, 0x5c, inside);
    }));
  }
  for (int copy = 0; copy < 2; ++copy) for (size_t n : {(1ul << 31) + 327, (1ul << 32) + 327}) {
    if (n >> 32 && !th) continue;
    o.threads = n >> 32 ? 3 : 1;
    MC_RUN(o, S("%s of %zu bytes", copy ? "copy" : "fill", n), ([=] { fillcopy_big(n, copy); }));
  }
}
