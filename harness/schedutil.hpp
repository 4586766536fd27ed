#pragma once
#include "matutil.hpp"
#include "LevelSchedule.hpp"
#include "MemoryPool.hpp"
#include "synk/barrier.hpp"
namespace SpMP { extern int mcSerialLevelThresh; }
using namespace SpMP;

// option bits
static const int O_BARRIER = 1, O_TR = 2, O_FUSE = 4, O_AGG = 8, O_POOL = 16;
struct Unit : CostFunction { int getCostOf(int) const { return 1; } };
struct Skew : CostFunction { int getCostOf(int r) const { return r == 0 ? 100 : 1 + r % 2 * 7; } };
struct Zero : CostFunction { int getCostOf(int r) const { return r % 2; } };
struct AllZero : CostFunction { int getCostOf(int) const { return 0; } };
static const int NCOST = 5; // 0: the library's default, by non-zeros
static inline void set_opts(LevelSchedule &s, int o) {
  s.useBarrier = o & O_BARRIER; s.transitiveReduction = o & O_TR; s.fuseSpMV = o & O_FUSE;
  s.aggregateForVectorization = o & O_AGG; s.useMemoryPool = o & O_POOL;
}
// how: 0 CSR, 1 arrays, 2 arrays+diagptr, 3 arrays+diagptr+extptr
static inline void construct(LevelSchedule &s, CSR &A, int cost, int how) {
  Unit u; Skew k; Zero z; AllZero az; PrefixSumCostFunction p(A.rowptr);
  const CostFunction *c[] = {&p, &u, &k, &z, &az};
  switch (how) {
  case 0: if (cost == 0) s.constructTaskGraph(A); else s.constructTaskGraph(A, *c[cost]); break;
  case 1: s.constructTaskGraph(A.m, A.rowptr, A.colidx, *c[cost]); break;
  case 2: A.constructDiagPtr(); s.constructTaskGraph(A.m, A.rowptr, A.diagptr, A.colidx, *c[cost]); break;
  case 3: A.constructDiagPtr(); s.constructTaskGraph(A.m, A.rowptr, A.diagptr, A.extptr, A.colidx, *c[cost]); break;
  }
}
// which tasks are known to be finished once the given ones are: closure under thread order and waits
struct Order {
  int n; std::vector<std::vector<char>> before; // before[v][u]: u is finished when v may start
};
static inline void check_lists(const LevelSchedule &s, const short *np, int **par, const int *buf, const char *dir) {
  int n = s.ntasks;
  if (!n) return;
  readable(np, n * sizeof(short), S("nparents%s", dir).c_str());
  readable(par, n * sizeof(int *), S("parents%s", dir).c_str());
  for (int t = 0; t < n; ++t) {
    if (np[t] < 0) fail("nparents", "%s: nparents[%d]=%d", dir, t, np[t]);
    if (!np[t]) continue;
    readable(par[t], np[t] * sizeof(int), S("parents%s[%d]", dir, t).c_str());
    for (int k = 0; k < np[t]; ++k) if (par[t][k] < 0 || par[t][k] >= n) fail("parent-range", "%s: task %d waits for task %d of %d", dir, t, par[t][k], n);
  }
}
static inline Order order_of(const LevelSchedule &s, bool backward) {
  Order o; int n = o.n = s.ntasks;
  const short *np = backward ? s.nparentsBackward : s.nparentsForward;
  int **par = backward ? s.parentsBackward : s.parentsForward;
  std::vector<std::vector<int>> pred(n);
  int nt = (int)s.threadBoundaries.size() - 1;
  for (int t = 0; t < nt; ++t) for (int k = s.threadBoundaries[t]; k < s.threadBoundaries[t + 1]; ++k) {
    if (!backward && k > s.threadBoundaries[t]) pred[k].push_back(k - 1);
    if (backward && k + 1 < s.threadBoundaries[t + 1]) pred[k].push_back(k + 1);
  }
  for (int k = 0; k < n; ++k) for (int q = 0; q < np[k]; ++q) pred[k].push_back(par[k][q]);
  // Kahn; a cycle means deadlock
  std::vector<int> left(n), ord; std::vector<std::vector<int>> succ(n);
  for (int k = 0; k < n; ++k) { left[k] = (int)pred[k].size(); for (int q : pred[k]) succ[q].push_back(k); }
  for (int k = 0; k < n; ++k) if (!left[k]) ord.push_back(k);
  for (size_t i = 0; i < ord.size(); ++i) for (int q : succ[ord[i]]) if (!--left[q]) ord.push_back(q);
  if ((int)ord.size() != n) fail("wait-cycle", "%s waits together with the thread order contain a cycle: the sweep deadlocks", backward ? "backward" : "forward");
  o.before.assign(n, std::vector<char>(n, 0));
  for (int k : ord) for (int q : pred[k]) { o.before[k][q] = 1; for (int z = 0; z < n; ++z) if (o.before[q][z]) o.before[k][z] = 1; }
  return o;
}
static inline std::vector<int> task_of(const LevelSchedule &s, int m) {
  std::vector<int> t(m, -1);
  for (int k = 0; k < s.ntasks; ++k) for (int i = s.taskBoundaries[k]; i < s.taskBoundaries[k + 1]; ++i) t[s.threadContToOrigPerm[i]] = k;
  return t;
}
static inline void check_schedule(const LevelSchedule &s, const Ref &a, int nthreads) {
  int m = a.m;
  const std::vector<int> &tb = s.threadBoundaries, &kb = s.taskBoundaries, &lv = s.levIndices;
  if ((int)tb.size() != nthreads + 1 || tb[0] != 0 || tb[nthreads] != s.ntasks) fail("thread-boundaries", "threadBoundaries do not cover %d tasks with %d threads", s.ntasks, nthreads);
  for (int t = 0; t < nthreads; ++t) if (tb[t] > tb[t + 1]) fail("thread-boundaries", "threadBoundaries[%d]=%d > threadBoundaries[%d]=%d", t, tb[t], t + 1, tb[t + 1]);
  if ((int)kb.size() != s.ntasks + 1 || kb[0] != 0 || kb[s.ntasks] != m) fail("task-boundaries", "taskBoundaries do not cover %d rows with %d tasks (size %d, from %d to %d)", m, s.ntasks, (int)kb.size(), kb.empty() ? -1 : kb[0], kb.empty() ? -1 : kb.back());
  for (int t = 0; t < s.ntasks; ++t) if (kb[t] > kb[t + 1]) fail("task-boundaries", "taskBoundaries[%d]=%d > taskBoundaries[%d]=%d", t, kb[t], t + 1, kb[t + 1]);
  if (lv.empty() || lv[0] != 0 || lv.back() != m) fail("levels", "levIndices do not cover the rows (last %d of %d)", lv.empty() ? -1 : lv.back(), m);
  for (size_t l = 0; l + 1 < lv.size(); ++l) if (lv[l] >= lv[l + 1]) fail("levels", "level %d is empty", (int)l);
  readable(s.origToThreadContPerm, m * sizeof(int), "origToThreadContPerm");
  readable(s.threadContToOrigPerm, m * sizeof(int), "threadContToOrigPerm");
  for (int i = 0; i < m; ++i) {
    int p = s.origToThreadContPerm[i];
    if (p < 0 || p >= m || s.threadContToOrigPerm[p] != i) fail("permutations", "origToThreadContPerm[%d]=%d does not invert threadContToOrigPerm", i, p);
  }
  std::vector<int> t = task_of(s, m);
  int nlev = (int)lv.size() - 1;
  std::vector<int> level(m, -1);
  if (s.useBarrier) {
    for (int q = 0; q < nthreads; ++q) if (tb[q + 1] - tb[q] != nlev) fail("barrier-levels", "thread %d has %d tasks for %d levels: barrier sweeps hang", q, tb[q + 1] - tb[q], nlev);
    std::vector<int> cnt(nlev, 0);
    for (int q = 0; q < nthreads; ++q) for (int k = tb[q]; k < tb[q + 1]; ++k) for (int i = kb[k]; i < kb[k + 1]; ++i) { level[s.threadContToOrigPerm[i]] = k - tb[q]; cnt[k - tb[q]]++; }
    for (int l = 0; l < nlev; ++l) if (cnt[l] != lv[l + 1] - lv[l]) fail("levels", "level %d holds %d rows, levIndices say %d", l, cnt[l], lv[l + 1] - lv[l]);
    for (int i = 0; i < m; ++i) for (auto &p : a.r[i]) if (p.first < i && level[p.first] >= level[i]) fail("level-dependence", "row %d (level %d) depends on row %d (level %d)", i, level[i], p.first, level[p.first]);
  }
  check_lists(s, s.nparentsForward, s.parentsForward, s.parentsBuf[0], "Forward");
  check_lists(s, s.nparentsBackward, s.parentsBackward, s.parentsBuf[1], "Backward");
  Order f = order_of(s, false), b = order_of(s, true);
  for (int i = 0; i < m; ++i) for (auto &p : a.r[i]) {
    int j = p.first;
    if (j >= i || j >= m) continue;
    if (t[i] == t[j]) fail("task-dependence", "rows %d and %d depend on each other but are in one task", j, i);
    if (!f.before[t[i]][t[j]]) fail("forward-order", "task %d with row %d is not ordered before task %d with row %d, which needs it (forward)", t[j], j, t[i], i);
    if (!b.before[t[j]][t[i]]) fail("backward-order", "task %d with row %d is not ordered before task %d with row %d, which needs it (backward)", t[i], i, t[j], j);
  }
  if (s.ntasks) readable((const void *)s.taskFinished, s.ntasks * sizeof(int), "taskFinished");
}
