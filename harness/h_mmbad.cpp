// F03: malformed Matrix Market files
#include "matutil.hpp"
#include <cctype>
using namespace SpMP;
static const char *BASE[6] = {
  "%%MatrixMarket matrix coordinate real general\n%c\n2 3 3\n1 1 1.5\n2 3 -2\n1 2 4\n",
  "%%MatrixMarket matrix coordinate pattern symmetric\n3 3 4\n1 1\n2 1\n3 2\n3 3\n",
  "%%MatrixMarket matrix coordinate integer general\n2 2 3\n0 0 7\n1 0 8\n1 1 9\n",
  "%%MatrixMarket matrix coordinate real symmetric\n\n3 3 3\n3 1 1\n2 2 2\n3 2 3",
  "%%MatrixMarket matrix coordinate complex general\n2 2 2\n1 1 1 0\n2 2 2 1\n",
  "%%MatrixMarket matrix coordinate real general\n1 1 0\n",
};
static const int NBASE = 6;
static const char *MODE[6] = {"plain", "forced symmetric", "transposed", "padded", "CSR", "reused object"};
static void wellformed(const COO &c) {
  if (c.nnz < 0 || c.m < 0 || c.n < 0) fail("not-well-formed", "accepted with m=%d n=%d nnz=%d", c.m, c.n, c.nnz);
  readable(c.rowidx, c.nnz * 4L, "rowidx"); readable(c.colidx, c.nnz * 4L, "colidx"); readable(c.values, c.nnz * 8L, "values");
  for (int k = 0; k < c.nnz; ++k) if (c.rowidx[k] < 1 || c.rowidx[k] > c.m || c.colidx[k] < 1 || c.colidx[k] > c.n) fail("not-well-formed", "accepted with entry (%d,%d) in a %dx%d matrix", c.rowidx[k], c.colidx[k], c.m, c.n);
}
// verdict: 1 the file is well-formed, 0 it must be rejected, -1 either
static void attempt(const std::string &t, int mode, int base, int verdict = -1) {
  vfile_set("mc:a.mtx", t);
  long before = live_blocks();
  if (mode == 4) {
    CSR A("mc:a.mtx", base);
    if (A.m < 0 || A.n < 0) fail("not-well-formed", "CSR with m=%d n=%d", A.m, A.n);
    readback(A, base, "loaded CSR");
    if (!verdict && A.m + A.n) fail("accepted", "a malformed file was loaded as a %dx%d matrix: %s", A.m, A.n, t.c_str());
  } else {
    COO c; bool ok;
    if (mode == 5) { vfile_set("mc:b.mtx", BASE[1]); if (!loadMatrixMarket("mc:b.mtx", c)) fail("rejected", "a well-formed file was rejected"); }
    if (mode == 2) ok = loadMatrixMarketTransposed("mc:a.mtx", c);
    else ok = loadMatrixMarket("mc:a.mtx", c, mode == 1, mode == 3 ? 4 : 1);
    if (ok || mode == 5) wellformed(c); // a failed load leaves the earlier contents of the object
    if (verdict >= 0 && ok != verdict) fail(ok ? "accepted" : "rejected", "%s: %s", ok ? "a malformed file was accepted" : "a well-formed file was rejected", t.c_str());
    c.dealloc();
    // what the user can observe of a complete failure
    outcome(ok);
    if (!ok && mode != 5 && live_blocks() != before) fail("leak", "a rejected file left blocks allocated: %s", live_summary().c_str());
  }
  if (open_files()) fail("file-left-open", "the file is still open");
}
struct Tok { size_t pos, len; };
static std::vector<Tok> tokens(const std::string &s) {
  std::vector<Tok> v; size_t i = 0;
  while (i < s.size()) { if (isspace((unsigned char)s[i])) { ++i; continue; } size_t j = i; while (j < s.size() && !isspace((unsigned char)s[j])) ++j; v.push_back({i, j - i}); i = j; }
  return v;
}
static const int NALT = 18;
static std::string alt(int k, bool csr) {
  if (csr && (k == 8 || k == 9 || k == 14 || k == 17)) return "999"; // a CSR with billions of rows does not fit the arena
  switch (k) {
  case 17: return "2147483647";
  case 0: return "0"; case 1: return "-1"; case 2: return "4"; case 3: return "1"; case 4: return "99"; case 5: return "x"; case 6: return ""; case 7: return "1.5";
  case 8: return "99999999999"; case 9: return "-99999999999"; case 10: return "2 2"; case 11: return "\n"; case 12: return "%"; case 13: return std::string(70, 'a');
  case 14: return std::string(1100, '7'); case 15: return std::string(300, 'b'); default: return "nan";
  }
}
static void mutate_and_load(int b, int mode) {
  std::string s = BASE[b];
  int kind = choose(6);
  if (kind == 0) { s.resize(choose((int)s.size() + 1)); }                                       // truncation
  else if (kind == 1) { auto t = tokens(s); Tok k = t[choose((int)t.size())]; s.replace(k.pos, k.len, alt(choose(NALT), mode == 4)); }  // one token
  else if (kind == 2) {                                                                          // line dropped, doubled or swapped with the next
    std::vector<std::string> l; size_t p = 0; while (p < s.size()) { size_t q = s.find('\n', p); if (q == std::string::npos) q = s.size() - 1; l.push_back(s.substr(p, q - p + 1)); p = q + 1; }
    int i = choose((int)l.size()), w = choose(4);
    if (w == 0) l.erase(l.begin() + i); else if (w == 1) l.insert(l.begin() + i, l[i]); else if (w == 2 && i + 1 < (int)l.size()) std::swap(l[i], l[i + 1]); else l.insert(l.begin() + i, "\n");
    s.clear(); for (auto &x : l) s += x;
  } else if (kind == 3) { static const char C[9] = {'x', '-', '0', '9', ' ', '\n', '%', '\0', '.'}; s[choose((int)s.size())] = C[choose(9)]; } // one byte
  else if (kind == 4) {                                                                          // two tokens
    auto t = tokens(s); int n = (int)t.size(), i = choose(n), j = choose(n);
    if (i >= j) return;
    static const int few[8] = {0, 1, 2, 5, 6, 8, 10, 3};
    int nf = tier() ? 8 : 5;
    std::string x = alt(few[choose(nf)], mode == 4), y = alt(few[choose(nf)], mode == 4);
    s.replace(t[j].pos, t[j].len, y); s.replace(t[i].pos, t[i].len, x);
  } else { // extra entries or text at the end
    static const char *E[8] = {"1 1 1\n", "1 1\n", "9 9 9\n", "zzz\n", "\n\n\n", "-1 -1 -1\n", "0 0 0\n", "1 1 1 1\n1 1 1 1\n1 1 1 1\n1 1 1 1\n1 1 1 1\n"};
    int n = 1 + choose(2);
    if (!s.empty() && s.back() != '\n') s += "\n";
    for (int i = 0; i < n; ++i) s += E[choose(8)];
  }
  attempt(s, mode, mode == 4 ? choose(2) : 0);
}
// all small files over a grammar of size lines and entries
static void grammar(int mode) {
  static const char *H[5] = {"real general", "pattern general", "integer symmetric", "real symmetric", "complex general"};
  static const char *NUM[6] = {"0", "1", "2", "3", "-1", "x"};
  int h = choose(5);
  std::string s = S("%%%%MatrixMarket matrix coordinate %s\n", H[h]);
  int num[3]; bool junk = false;
  for (int i = 0; i < 3; ++i) { int k = choose(tier() ? 6 : 5); junk |= k == 5; num[i] = k == 4 ? -1 : k; s += std::string(NUM[k]) + (i < 2 ? " " : "\n"); }
  int ne = choose(tier() ? 4 : 3);
  bool good = num[0] >= 0 && num[1] >= 0 && num[2] == ne, zero = false;
  if ((h == 2 || h == 3 || mode == 1) && num[0] != num[1]) good = false;
  std::vector<std::pair<int, int>> e;
  for (int i = 0; i < ne; ++i) {
    int x = choose(4), y = choose(4);
    if (!tier() && (x == 3 || y == 3)) { if (x != y) return; }
    s += S("%d %d", x, y); if (h != 1) s += h == 4 ? " 5 6" : " 5"; s += "\n";
    e.push_back({x, y}); zero |= !x || !y;
  }
  for (auto &p : e) if (p.first > num[0] - zero || p.second > num[1] - zero) good = false;
  attempt(s, mode, mode == 4 ? choose(2) : 0, junk ? -1 : good);
}
// every header line of the format with every kind of body
static void header(int mode) {
  static const char *BAN[4] = {"%%MatrixMarket", "%MatrixMarket", "%%MatrixMarketing", "MatrixMarket"}, *OBJ[4] = {"matrix", "MATRIX", "vector", "matrixx"}, *FMT[5] = {"coordinate", "Coordinate", "array", "dense", "sparse"};
  static const char *FLD[7] = {"real", "REAL", "integer", "pattern", "double", "boolean", "complex"}, *SYM[5] = {"general", "Symmetric", "symmetry", "hermitian", "skew-symmetric"};
  static const char *BODY[7][2] = { // each fits one format; the words of the array bodies also read as sizes and entries
    {"2 2 2\n1 1\n2 2\n", "2 2 2\n1 1 5\n2 2 5\n"}, {"2 2 0\n", "2 2 0\n"}, {"2 2\n1\n2\n3\n4\n", "2 2\n1\n2\n3\n4\n"}, {"3 1\n1\n1\n0\n", "3 1\n1\n1\n0\n"}, {"6 1\n1\n1\n1\n1\n1\n3\n", "6 1\n1\n1\n1\n1\n1\n3\n"}, {"1 1\n0\n", "1 1\n0\n"}, {"3 3\n0\n", "3 3\n0\n"}};
  int b = choose(4), o = choose(4), f = choose(5), d = choose(7), y = choose(5), k = choose(7), lines = choose(3);
  int odd = (b > 0) + (o > 0) + (f > 0) + (d > 0) + (y > 0);
  if (odd > 3 && !tier()) return;
  if (mode == 1 && y == 1 && lines) return;
  std::string s = std::string(BAN[b]) + " " + OBJ[o] + " " + FMT[f] + " " + FLD[d] + " " + SYM[y] + "\n" + (lines == 1 ? "%\n" : lines == 2 ? "\n" : "") + BODY[k][d != 3];
  if (d == 6 && k == 0) s = s.substr(0, s.size() - 8) + "1 1 5 6\n2 2 5 6\n";
  int verdict;
  if (b == 1 || b == 3 || o > 1 || f > 1 || d == 4 || d == 5 || y == 2) verdict = 0;
  else if (b || d == 6 || y > 2 || (k > 2 && k != 5)) verdict = -1; // a longer first word, fields outside the specification, sizes over two lines
  else if (k < 2) verdict = 1;
  else verdict = -1;
  attempt(s, mode, mode == 4 ? k & 1 : 0, verdict);
}
void mc_enumerate() {
  bound("every header of 4 banners x 4 objects x 5 formats (coordinate, array, ...) x 7 fields x 5 symmetries with 7 bodies of coordinate and array files, with and without comment or blank lines");
  bound("6 well-formed files x {truncation at every byte, every token replaced by each of 18 alternatives incl. empty, negative, huge, over-long, every byte replaced by each of 9, every line dropped/doubled/swapped, every pair of tokens replaced by 5x5 (thorough 8x8) alternatives, 1-2 extra lines of 8 kinds}, loaded plain, forced symmetric, transposed, padded, into a used object, and as CSR in both bases");
  bound("every file of 5 headers x 5^3 (thorough 6^3) size lines x up to 2 (thorough 3) entries with coordinates in 0..3");
  for (int mode = 0; mode < 6; ++mode) {
    for (int b = 0; b < NBASE; ++b) { Options o; o.max_exec = 100000000; MC_RUN(o, S("mutated file %d, %s", b, MODE[mode]), ([=] { mutate_and_load(b, mode); })); }
    { Options o; o.max_exec = 100000000; MC_RUN(o, S("header, %s", MODE[mode]), ([=] { header(mode); })); }
    Options o; o.max_exec = 100000000; MC_RUN(o, S("small file, %s", MODE[mode]), ([=] { grammar(mode); }));
  }
}
