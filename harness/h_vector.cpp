// F04: dense vector files
#include "matutil.hpp"
#include "Vector.hpp"
using namespace SpMP;
static const double VAL[5] = {1.5, -3, 1e-200, 0, 2.5e17};
static void good(int m, int n, int kind, int deco) {
  static const char *H[4] = {"real general", "integer general", "REAL GENERAL", "complex general"};
  (void)H;
  std::string s = S("%%%%MatrixMarket %s array %s general\n", deco == 1 ? "MATRIX" : "matrix", kind ? "integer" : "real");
  if (deco == 1) s += "% x\n%\n";
  if (deco == 2) s += "%\n\n";
  s += S("%d %d\n", m, n);
  std::vector<double> e;
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
    double v = VAL[(i * n + j) % 5]; if (kind) v = 7 * (i * n + j) - 3;
    e.push_back(v);
    s += S("%.17g", v); s += deco == 3 ? (j + 1 < n ? " " : "\n") : "\n";
  }
  if (deco == 3 && !s.empty()) s.pop_back();
  vfile_set("mc:v.mtx", s);
  double *v = NULL; int gm = -5, gn = -5;
  if (!loadVectorMatrixMarket("mc:v.mtx", &v, &gm, &gn)) fail("rejected", "a well-formed file was rejected: %s", s.c_str());
  if (gm != m || gn != n) fail("shape", "loaded %dx%d, expected %dx%d", gm, gn, m, n);
  readable(v, e.size() * 8, "v");
  for (size_t k = 0; k < e.size(); ++k) if (v[k] != e[k]) fail("value", "number %zu is %g, expected %g", k, v[k], e[k]);
  if (open_files()) fail("file-left-open", "the file is still open");
}
// verdict: 1 accept, 0 reject, -1 either
static void attempt(const std::string &s, int verdict, int count) {
  vfile_set("mc:v.mtx", s);
  double *v = NULL; int m = -5, n = -5;
  long before = live_blocks();
  bool ok = loadVectorMatrixMarket("mc:v.mtx", &v, &m, &n);
  if (open_files()) fail("file-left-open", "the file is still open: %s", s.c_str());
  if (verdict >= 0 && ok != verdict) fail(ok ? "accepted" : "rejected", "%s: %s", ok ? "a malformed file was accepted" : "a well-formed file was rejected", s.c_str());
  if (ok) { if (m < 0 || n < 0) fail("not-well-formed", "accepted with size %dx%d", m, n); readable(v, (long)m * n * 8, "v"); if (count >= 0 && m * n != count) fail("shape", "%dx%d", m, n); }
  else if (live_blocks() != before) fail("leak", "a rejected file left blocks allocated");
}
static const char *BASE[3] = {"%%MatrixMarket matrix array real general\n% c\n3 1\n1.5\n-2\n3\n", "%%MatrixMarket matrix array integer general\n\n2 2\n1\n2\n3\n4", "%%MatrixMarket matrix array real general\n0 0\n"};
struct Tok { size_t pos, len; };
static std::vector<Tok> tokens(const std::string &s) {
  std::vector<Tok> v; size_t i = 0;
  while (i < s.size()) { if (isspace((unsigned char)s[i])) { ++i; continue; } size_t j = i; while (j < s.size() && !isspace((unsigned char)s[j])) ++j; v.push_back({i, j - i}); i = j; }
  return v;
}
static std::string alt(int k) {
  switch (k) { case 0: return "0"; case 1: return "-1"; case 2: return "4"; case 3: return "x"; case 4: return ""; case 5: return "1.5"; case 6: return "99999999999"; case 7: return "2 2"; case 8: return "%"; case 9: return "\n";
  case 10: return std::string(70, 'a'); case 11: return std::string(1100, '7'); case 12: return "2147483647"; case 13: return "65536"; default: return "-65536"; }
}
void mc_enumerate() {
  bool th = tier();
  bound("every size m in 0..6, n in 0..4 for real and integer arrays in 4 textual layouts; missing files");
  bound("3 well-formed files x {truncation at every byte, every token by 15 alternatives, every pair of tokens by 15x15, every byte by 9, every line dropped/doubled}; every file with sizes in {-1,0,1,2,3}^2 and 0..7 numbers");
  Options o; o.max_exec = 100000000;
  for (int m = 0; m <= (th ? 12 : 6); ++m) for (int n = 0; n <= 4; ++n) MC_RUN(o, S("array %dx%d", m, n), ([=] { int k = choose(2), d = choose(4); good(m, n, k, d); }));
  for (int n : {17, 64, 300}) for (int w : {1, 3, 9}) for (int t : {1, 8}) { Options q = o; q.threads = t; MC_RUN(q, S("array %dx%d threads=%d", n, w, t), ([=] { int k = choose(2), d = choose(4); good(n, w, k, d); })); }
  MC_RUN(o, S("missing file"), ([] { double *v = NULL; int m = 3, n = 4; if (loadVectorMatrixMarket("mc:none", &v, &m, &n)) fail("accepted", "a missing file was accepted"); }));
  MC_RUN(o, S("other kinds of files"), ([] {
    static const char *F[6] = {"%%MatrixMarket matrix coordinate real general\n2 1 1\n1 1 4\n", "%%MatrixMarket matrix array pattern general\n1 1\n", "%%MatrixMarket vector array real general\n1 1\n3\n", "%%MatrixMarket matrix array real\n1 1\n3\n", "", "hello\n"};
    attempt(F[choose(6)], 0, -1);
  }));
  for (int b = 0; b < 3; ++b) MC_RUN(o, S("mutated file %d", b), ([=] {
    std::string s = BASE[b]; int kind = choose(5);
    auto t = tokens(s);
    if (kind == 0) s.resize(choose((int)s.size() + 1));
    else if (kind == 1) { Tok k = t[choose((int)t.size())]; s.replace(k.pos, k.len, alt(choose(15))); }
    else if (kind == 2) { int n = (int)t.size(), i = choose(n), j = choose(n); if (i >= j) return; std::string x = alt(choose(15)), y = alt(choose(15)); s.replace(t[j].pos, t[j].len, y); s.replace(t[i].pos, t[i].len, x); }
    else if (kind == 3) { static const char C[9] = {'x', '-', '0', '9', ' ', '\n', '%', '\0', '.'}; s[choose((int)s.size())] = C[choose(9)]; }
    else { std::vector<std::string> l; size_t p = 0; while (p < s.size()) { size_t q = s.find('\n', p); if (q == std::string::npos) q = s.size() - 1; l.push_back(s.substr(p, q - p + 1)); p = q + 1; }
      int i = choose((int)l.size()); if (choose(2)) l.erase(l.begin() + i); else l.insert(l.begin() + i, l[i]); s.clear(); for (auto &x : l) s += x; }
    attempt(s, -1, -1);
  }));
  MC_RUN(o, S("sizes and counts"), ([] {
    int m = choose(5) - 1, n = choose(5) - 1, k = choose(8);
    std::string s = S("%%%%MatrixMarket matrix array real general\n%d %d\n", m, n);
    for (int i = 0; i < k; ++i) s += S("%d\n", i + 1);
    bool tail = choose(2); if (tail) s += "zz\n";
    if (m >= 0 && n >= 0 && k >= m * n) attempt(s, k == m * n && !tail ? 1 : -1, m * n); else attempt(s, 0, -1);
  }));
}
