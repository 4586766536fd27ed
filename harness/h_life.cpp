// L01: histories of creating, rebuilding, copying, deallocating and destroying objects
#include "schedutil.hpp"
#include "synk/loadimba.hpp"
using namespace SpMP;
static const int SLOTS = 2;
static std::vector<void *> *callers; // arrays that belong to the caller
static void caller(const CSR *A) { // results whose arrays the caller has to release
  for (void *p : {(void *)A->rowptr, (void *)A->colidx, (void *)A->values, (void *)A->extptr}) if (p) callers->push_back(p);
}
static void release_callers() {
  MemoryPool *pool = MemoryPool::getSingleton();
  std::set<void *> s(callers->begin(), callers->end());
  for (void *p : s) if (!pool->contains(p) && is_block(p)) _mm_free(p);
  delete callers; callers = nullptr;
}
static void files() {
  vfile_set("mc:s.mtx", "%%MatrixMarket matrix coordinate real symmetric\n3 3 4\n1 1 2\n2 2 3\n3 3 4\n3 1 5\n");
  vfile_set("mc:g.mtx", "%%MatrixMarket matrix coordinate real general\n3 3 5\n1 1 2\n2 2 3\n3 3 4\n3 1 5\n1 2 7\n");
  vfile_set("mc:p.mtx", "%%MatrixMarket matrix coordinate pattern general\n2 3 2\n1 1\n2 2\n");
  vfile_set("mc:bad.mtx", "%%MatrixMarket matrix coordinate real symmetric\n3 3 4\n1 1 2\n2 2 3\n3 9 4\n3 1 5\n");
  vfile_set("mc:short.mtx", "%%MatrixMarket matrix coordinate real general\n3 3 4\n1 1 2\n");
  vfile_set("mc:sz.mtx", "%%MatrixMarket matrix coordinate real general\nx\n");
  vfile_set("mc:hd.mtx", "%%MatrixMarket matrix\n");
  vfile_set("mc:arr.mtx", "%%MatrixMarket matrix array real general\n2 2\n1\n2\n3\n4\n");
  vfile_unwritable("mc:ro");
  std::string b; auto put = [&](const void *p, size_t n) { b.append((const char *)p, n); };
  int h[] = {1211216, 3, 3, 4, 1, 2, 1, 0, 0, 1, 2}; double v[] = {1, 2, 3, 4};
  put(h, sizeof h); put(v, sizeof v);
  vfile_set("mc:b.bin", b);
}
static void end(long start) {
  release_callers();
  synk::Barrier::deleteInstance(); // the shared one, made by the traversals
  if (open_files()) fail("file-left-open", "%d files are still open after everything was destroyed", open_files());
  if (live_blocks() != start) fail("leak", "%ld blocks are left after everything was destroyed: %s", live_blocks() - start, live_summary().c_str());
}
static void all_live(const CSR *A) { // a populated matrix still has all of its arrays
  if (!A->rowptr) return;
  readable(A->rowptr, (A->m + 1) * sizeof(int), "rowptr");
  int z = A->rowptr[A->m] - A->rowptr[0];
  if (A->colidx) readable(A->colidx, z * sizeof(int), "colidx");
  if (A->values) readable(A->values, z * sizeof(double), "values");
  if (A->diagptr) readable(A->diagptr, A->m * sizeof(int), "diagptr");
  if (A->extptr) readable(A->extptr, A->m * sizeof(int), "extptr");
  if (A->diag) readable(A->diag, A->m * sizeof(double), "diag");
  if (A->idiag) readable(A->idiag, A->m * sizeof(double), "idiag");
}
static void fill(CSR *A) { // 3x3 with full diagonal
  static const int rp[] = {0, 2, 3, 5}, ci[] = {0, 2, 1, 0, 2}, dp[] = {0, 2, 4};
  for (int i = 0; i < 4; ++i) A->rowptr[i] = rp[i];
  for (int i = 0; i < 5; ++i) { A->colidx[i] = ci[i]; A->values[i] = i + 1; }
  for (int i = 0; i < 3; ++i) { if (A->diagptr) A->diagptr[i] = dp[i]; if (A->diag) A->diag[i] = A->values[dp[i]]; if (A->idiag) A->idiag[i] = 1 / A->values[dp[i]]; }
}
// what several operations assume: every row has its diagonal entry where diagptr says; rows sorted
static bool diagonal(const CSR *A) {
  int b = A->rowptr[0];
  for (int i = 0; i < A->m; ++i) {
    int d = -1; for (int j = A->rowptr[i] - b; j < (A->extptr ? A->extptr[i] : A->rowptr[i + 1]) - b; ++j) if (A->colidx[j] - b == i) d = j;
    if (d < 0 || (A->diagptr && A->diagptr[i] != d + b)) return false;
  }
  return true;
}
static bool sorted(const CSR *A) {
  int b = A->rowptr[0];
  for (int i = 0; i < A->m; ++i) for (int j = A->rowptr[i] - b + 1; j < A->rowptr[i + 1] - b; ++j) if (A->colidx[j - 1] >= A->colidx[j]) return false;
  return true;
}
// ---- matrices
enum { C_DEFAULT, C_SIZED, C_MTX, C_FORCED, C_BIN, C_LAP, C_LAPGEN, C_ARRAYS, C_POOL, NCREATE };
static CSR *create(int how, bool pool) {
  CSR *A = nullptr;
  switch (how) {
  case C_DEFAULT: A = new CSR(); break;
  case C_SIZED: A = new CSR(3, 3, 5); fill(A); break;
  case C_MTX: A = new CSR("mc:s.mtx", 1); break;
  case C_FORCED: A = new CSR("mc:g.mtx", 0, true, 4); break;
  case C_BIN: A = new CSR("mc:b.bin", 1); break;
  case C_LAP: A = new CSR("2"); break;
  case C_LAPGEN: A = new CSR(); generate3D27PtLaplacian(A, 2, 1, 1, 1); caller(A); break;
  case C_POOL:
    if (pool) {
      MemoryPool *p = MemoryPool::getSingleton();
      A = new CSR(3, 3, 0 == 1 ? nullptr : [&] { int *r = p->allocate<int>(4); r[0] = 0; return r; }(), p->allocate<int>(5), p->allocate<double>(5));
      fill(A); break;
    } // fall through
  case C_ARRAYS: {
    int *r = lib_alloc<int>(4); r[0] = 0;
    A = new CSR(3, 3, r, lib_alloc<int>(5), lib_alloc<double>(5));
    fill(A); caller(A); break;
  }
  }
  return A;
}
static const char *OPS[] = {"delete", "dealloc", "loadBin", "inverse diagonal", "diagonal pointers", "switch base", "copy", "transpose", "permute", "permute rows", "permute rowptr", "permute in place", "queries", "symmetric pattern", "RCM", "BFS", "store", "split", "in-place product", "realloc", "schedule", "Laplacian again"};
static const int NOPS = sizeof OPS / sizeof *OPS;
// two slots; the result of copy, transpose and permute replaces the other slot
struct World {
  CSR *a[SLOTS] = {nullptr, nullptr}; int cur = 0; bool pool;
  bool full(CSR *A) { return A && A->rowptr; }
  void drop(int i) { delete a[i]; a[i] = nullptr; }
  void put(CSR *R, bool callers_) { if (callers_) caller(R); drop(1 - cur); a[1 - cur] = R; }
  bool op(int k) { // false: not applicable in this state
    CSR *&A = a[cur];
    if (k == 0) { if (!A) return false; drop(cur); return true; }
    if (!A) return false;
    if (k == 1) { A->dealloc(); if (!pool && 0) all_live(A); return true; }
    if (k == 2) { A->loadBin("mc:b.bin", cur); return true; }
    if (k == 19) { A->dealloc(); A->n = 3; A->alloc(3, 5); fill(A); return true; }
    if (k == 21) { generate3D27PtLaplacian(A, 1, 2, 1, 0); caller(A); return true; }
    if (!full(A)) return false;
    int m = A->m;
    if (k >= 8 && k <= 11 && (A->m != A->n || !diagonal(A))) return false;
    std::vector<int> pv(m); for (int i = 0; i < m; ++i) pv[i] = (i + 1) % m;
    std::vector<int> iv(m); for (int i = 0; i < m; ++i) iv[pv[i]] = i;
    switch (k) {
    case 3: if (!A->values || !diagonal(A)) return false; if (!A->diagptr) A->constructDiagPtr(); A->computeInverseDiag(); break;
    case 4: if (!sorted(A) || !diagonal(A)) return false; A->constructDiagPtr(); break;
    case 5: if (A->getBase()) A->make0BasedIndexing(); else A->make1BasedIndexing(); break;
    case 6: put(new CSR(*A), false); break;
    case 7: put(A->transpose(), true); break;
    case 8: put(A->permute(pv.data(), iv.data(), cur), true); break;
    case 9: put(A->permuteRows(iv.data()), true); break;
    case 10: {
      CSR *R = A->permuteRowptr(iv.data());
      A->permuteMain(R, pv.data(), iv.data()); put(R, true); break;
    }
    case 11:
      if (!diagonal(A)) return false;
      A->permuteColsInPlace(pv.data()); break;
    case 12: if (!A->values) return false; A->isSymmetric(true, false); A->hasZeroDiag(); A->getBandwidth(); A->getMaxDegree(); A->equals(*A); break;
    case 13: {
      int *r = nullptr, *d = nullptr, *e = nullptr, *c = nullptr;
      MemoryPool *mp = MemoryPool::getSingleton();
      if (!getSymmetricNnzPattern(A, &r, &d, &e, &c)) for (int *p : {r, d, e, c}) { if (p && !mp->contains(p)) _mm_free(p); }
      break;
    }
    case 14: case 15: {
      if (!A->isSymmetric(false)) return false;
      bool one = A->getBase(); if (one) A->make0BasedIndexing();
      std::vector<int> p(m), q(m);
      if (k == 14) A->getRCMPermutation(p.data(), q.data(), cur); else A->getBFSPermutation(p.data(), q.data());
      if (one) A->make1BasedIndexing();
      break;
    }
    case 16: if (!A->values) return false; A->storeBin("mc:x.bin"); A->storeMatrixMarket("mc:x.mtx"); A->storeBin("mc:ro"); A->storeMatrixMarket("mc:ro"); break;
    case 17: {
      if (!A->values || A->m != A->n || !sorted(A) || !diagonal(A)) return false;
      if (!A->diagptr) A->constructDiagPtr();
      if (!A->idiag) A->computeInverseDiag();
      CSR *L = new CSR(), *U = new CSR();
      splitLU(*A, L, U);
      if (cur) { caller(L); caller(U); all_live(U); delete U; put(L, false); }
      else { caller(L); caller(U); all_live(L); delete L; put(U, false); }
      break;
    }
    case 18: {
      if (!A->values || A->m != A->n) return false;
      std::vector<double> x(m, 1);
      A->multiplyWithVector(x.data(), x.data()); break;
    }
    case 20: {
      if (!sorted(A) || !diagonal(A) || !A->isSymmetric(false)) return false;
      LevelSchedule s; s.useMemoryPool = pool; s.fuseSpMV = cur;
      s.constructTaskGraph(*A); s.constructTaskGraph(*A); break;
    }
    }
    return true;
  }
};
static void matrices(int how, bool pool, int first, int second, int depth) {
  freeze(true); mcSerialLevelThresh = 1;
  files();
  if (pool) MemoryPool::getSingleton()->initialize(1 << 20);
  long start = live_blocks();
  callers = new std::vector<void *>;
  World w; w.pool = pool;
  w.a[0] = create(how, pool);
  for (int k = 0; k < depth; ++k) {
    int c = k == 0 ? first : k == 1 ? second : choose(w.a[1] ? NOPS * 2 : NOPS);
    w.cur = c / NOPS;
    bool ok = w.op(c % NOPS);
    if (!ok) break; // the history without this operation is enumerated elsewhere
    for (int s = 0; s < SLOTS; ++s) if (w.a[s]) all_live(w.a[s]);
  }
  int order = w.a[0] && w.a[1] ? choose(2) : 0;
  for (int s = 0; s < SLOTS; ++s) if (w.a[s ^ order]) { w.drop(s ^ order); if (s == 0 && w.a[1 - order]) all_live(w.a[1 - order]); }
  end(start);
}
// ---- triplet lists
static void triplets(int depth, bool transposedFirst) {
  freeze(true); files();
  long start = live_blocks();
  callers = new std::vector<void *>;
  {
    COO *c = new COO(); CSR *A = nullptr;
    for (int k = 0; k < depth; ++k) {
      static const char *F[] = {"mc:s.mtx", "mc:g.mtx", "mc:p.mtx", "mc:bad.mtx", "mc:short.mtx", "mc:sz.mtx", "mc:hd.mtx", "mc:arr.mtx"};
      int o = choose(16); bool sym = false, full = c->rowidx;
      if (o < 8) { sym = false; if (transposedFirst && o != 0 && o != 3) loadMatrixMarketTransposed(F[o], *c); else loadMatrixMarket(F[o], *c, sym, 1 + k); }
      else if (o < 10) { if (transposedFirst) break; loadMatrixMarket(F[o - 8 ? 1 : 4], *c, true); }
      else if (o == 10) c->dealloc();
      else if (o == 11) { delete c; c = new COO(); }
      else if (!full) break;
      else if (o == 12) c->storeMatrixMarket("mc:y.mtx");
      else if (o == 13) c->storeMatrixMarket("mc:ro");
      else if (o == 14) { delete A; A = new CSR(c->m, c->n, c->nnz); dcoo2csr(A, c, k & 1); }
      else { delete A; A = new CSR(); A->n = c->n; A->alloc(c->m, c->nnz, false); dcoo2csr(A, c, k & 1, false); }
      if (c->rowidx) { readable(c->rowidx, c->nnz * sizeof(int), "rowidx"); readable(c->colidx, c->nnz * sizeof(int), "colidx"); readable(c->values, c->nnz * sizeof(double), "values"); }
      if (A) all_live(A);
    }
    if (choose(2)) { delete A; delete c; } else { delete c; if (A) all_live(A); delete A; }
  }
  end(start);
}
// ---- schedules
static void schedules(int opts, int depth) {
  freeze(true); mcSerialLevelThresh = 1;
  if (opts & O_POOL) MemoryPool::getSingleton()->initialize(1 << 20);
  long start = live_blocks();
  callers = new std::vector<void *>;
  {
    LevelSchedule *s = new LevelSchedule(), *t = nullptr; set_opts(*s, opts);
    for (int k = 0; k < depth; ++k) {
      int o = choose(9);
      if (o == 8) { delete s; s = t ? t : new LevelSchedule(); t = nullptr; set_opts(*s, opts); continue; }
      if (o == 7) { if (t) break; t = s; s = new LevelSchedule(); set_opts(*s, opts ^ O_TR); continue; }
      static const int N[] = {0, 1, 3, 4, 4, 6, 9};
      Ref a = o == 3 ? ref_struct(4, 0) : o == 4 ? ref_struct(4, 5) : o == 5 ? ref_struct(6, 2) : ref_struct(N[o], 1);
      CSR *A = build(a, o & 1, W_VALUES | W_DIAGPTR); caller(A);
      construct(*s, *A, o % NCOST, o & 3 ? o % 3 : 0);
      delete A;
      if (s->ntasks) { readable(s->origToThreadContPerm, a.m * sizeof(int), "permutation"); readable((void *)s->taskFinished, s->ntasks * sizeof(int), "taskFinished"); }
    }
    delete t; delete s;
  }
  end(start);
}
// ---- barriers
static void barriers(int first, int depth) {
  freeze(true);
  long start = live_blocks();
  callers = new std::vector<void *>;
  synk::Barrier *own = nullptr; bool inst = false, imba = false;
  for (int k = 0; k < depth; ++k) {
    int o = k ? choose(12) : first;
    static const int C[][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 1}, {2, 3}};
    if (o < 6) { // an own barrier, initialised by its threads or not at all
      delete own; own = new synk::Barrier(C[o][0], C[o][1]);
      for (int t = 0; t < C[o][0] * C[o][1]; ++t) (void)t;
    }
    else if (o == 6) { if (!own) break; delete own; own = nullptr; }
    else if (o == 7) { synk::Barrier::initializeInstance(1, 1); inst = true; }
    else if (o == 8) { if (!synk::Barrier::getInstance()) fail("instance", "no instance"); inst = true; }
    else if (o == 9) { synk::Barrier::deleteInstance(); inst = false; }
    else if (o == 10) { synk::LoadImba::initializeInstance(1, 1); imba = true; }
    else { synk::LoadImba::deleteInstance(); imba = false; }
  }
  (void)inst; (void)imba;
  delete own;
  synk::Barrier::deleteInstance(); synk::LoadImba::deleteInstance();
  end(start);
}
void mc_enumerate() {
  bool th = tier();
  Options o; o.max_exec = 20000000; o.max_events = 100000;
  bound("every history of up to 3 (thorough: 4 from three of the origins) of 22 matrix operations on two matrices from 9 origins, with and without memory pool; of 3 (4) operations on triplet lists, 3 (4) schedule constructions under every option and 4 (5) barrier operations; every order of destruction; one interleaving");
  for (int t = 0; t < 2; ++t) for (int d = 1; d <= (th ? 4 : 3); ++d) { o.threads = 1; MC_RUN(o, S("triplets transposed=%d depth=%d", t, d), ([=] { triplets(d, t); })); }
  for (int t = 1; t <= (th ? 4 : 2); ++t) for (int opts = 0; opts < 32; ++opts) { o.threads = t; MC_RUN(o, S("schedules threads=%d opts=%d", t, opts), ([=] { schedules(opts, th ? 4 : variant() ? 2 : 3); })); }
  for (int f = 0; f < 12; ++f) { o.threads = 1; MC_RUN(o, S("barriers first=%d", f), ([=] { barriers(f, th ? 5 : 4); })); }
  for (int how = 0; how < NCREATE; ++how) for (int pool = 0; pool < 2; ++pool) for (int f = 0; f < NOPS; ++f) for (int g = 0; g < 2 * NOPS; ++g) {
    o.threads = how & 1 ? 2 : 1;
    if (pool == 0 && how == C_POOL) continue;
    int depth = th ? (variant() == 0 && (how == C_SIZED || (how == C_ARRAYS && !pool) || how == C_POOL) ? 4 : 3) : variant() ? 2 : 3;
    MC_RUN(o, S("matrix from %d, pool=%d: %s, %s/%d", how, pool, OPS[f], OPS[g % NOPS], g / NOPS), ([=] { matrices(how, pool, f, g, depth); }));
  }
}
