#include <stdio.h>
#include <stdlib.h>
#include <vector>
#include <omp.h>
#include "CSR.hpp"
#include "LevelSchedule.hpp"
#include "synk/barrier.hpp"
using namespace SpMP;
using namespace std;
// task a runs before task b: closure of the program order of every thread and the waits
static vector<vector<char> > closure(LevelSchedule &s, bool backward)
{
  int n = s.ntasks;
  vector<vector<char> > r(n, vector<char>(n, 0));
  for (size_t t = 0; t + 1 < s.threadBoundaries.size(); ++t)
    for (int k = s.threadBoundaries[t]; k + 1 < s.threadBoundaries[t + 1]; ++k)
      backward ? r[k + 1][k] = 1 : r[k][k + 1] = 1;
  for (int k = 0; k < n; ++k)
    for (int j = 0; j < (backward ? s.nparentsBackward : s.nparentsForward)[k]; ++j)
      r[(backward ? s.parentsBackward : s.parentsForward)[k][j]][k] = 1;
  for (int m = 0; m < n; ++m) for (int a = 0; a < n; ++a) if (r[a][m]) for (int b = 0; b < n; ++b) if (r[m][b]) r[a][b] = 1;
  return r;
}
static int run(bool fused)
{
  srand(1);
  for (int it = 0; it < 400; ++it) {
    int n = 6 + rand()%30, dens = 1 + rand()%12;
    vector<vector<char> > p(n, vector<char>(n, 0));
    for (int i = 0; i < n; ++i) { p[i][i] = 1; for (int j = 0; j < i; ++j) if (rand()%(n/2 + 3) < dens/2) p[i][j] = p[j][i] = 1; }
    int nnz = 0;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) nnz += p[i][j];
    vector<int> rp(n + 1), ci(nnz); vector<double> va(nnz, 1);
    CSR A(n, n, &rp[0], &ci[0], &va[0]);
    int k = 0;
    for (int i = 0; i < n; ++i) { A.rowptr[i] = k; for (int j = 0; j < n; ++j) if (p[i][j]) { A.colidx[k] = j; ++k; } }
    A.rowptr[n] = k;
    A.constructDiagPtr();
    LevelSchedule s;
    s.fuseSpMV = fused;
    s.constructTaskGraph(A);
    vector<int> task(n), thr(s.ntasks);
    for (int t = 0; t < s.ntasks; ++t) for (int r = s.taskBoundaries[t]; r < s.taskBoundaries[t + 1]; ++r) task[s.threadContToOrigPerm[r]] = t;
    vector<vector<char> > f = closure(s, false), b = closure(s, true);
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (p[i][j]) {
      int a = task[j], c = task[i];
      if (a != c && (!f[a][c] || !b[c][a])) { printf("row %d does not wait for row %d (%d rows)\n", i, j, n); return 1; }
    }
    if (fused) { // SpMV task u is run after GS tasks of a backward sweep: all that its rows read
      FusedGSAndSpMVSchedule *g = s.fusedSchedule;
      for (int u = 0; u < s.ntasks; ++u) {
        vector<char> done(s.ntasks, 0);
        for (int j = 0; j < g->nparents[u]; ++j) { int v = g->parents[u][j]; done[v] = 1; for (int a = 0; a < s.ntasks; ++a) if (b[a][v]) done[a] = 1; }
        for (int i = 0; i < n; ++i) if (task[i] == u) for (int j = 0; j < n; ++j) if (p[i][j] && !done[task[j]]) { printf("product of row %d does not wait for row %d (%d rows)\n", i, j, n); return 1; }
      }
    }
  }
  printf("ok\n");
  return 0;
}
