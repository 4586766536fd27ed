// U04: concurrent bit vector
#include "../mc/rt.hpp"
#include "util.hpp"
using namespace mc;
void kbits_run(int n, int preset, int len, const int *prog, int *final);
struct H { int tid, op, bit, ret; long call, end; };
static H hist[16]; static int nh, curlen; static long now; static const int *curprog;
extern "C" void ku_call(int tid, int k) { hist[tid * curlen + k].call = ++now; }
extern "C" void ku_ret(int tid, int k, int r) { H &h = hist[tid * curlen + k]; h.ret = r; h.end = ++now; h.tid = tid; h.op = curprog[tid * curlen + k] & 7; h.bit = curprog[tid * curlen + k] >> 3; }
// is there an order of the calls, respecting real time, that a set of bits could have answered this way?
static bool lin(unsigned done, unsigned bits, unsigned want) {
  if (done == (1u << nh) - 1) return bits == want;
  for (int i = 0; i < nh; ++i) if (!(done >> i & 1)) {
    bool first = true;
    for (int j = 0; j < nh; ++j) if (!(done >> j & 1) && hist[j].end < hist[i].call) first = false;
    if (!first) continue;
    const H &h = hist[i]; unsigned b = bits; int r = 0;
    switch (h.op) { case 0: r = b >> h.bit & 1; break; case 1: r = !(b >> h.bit & 1); b |= 1u << h.bit; break; case 2: b &= ~(1u << h.bit); break; case 3: b |= 1u << h.bit; break; }
    if (r == h.ret && lin(done | 1u << i, b, want)) return true;
  }
  return false;
}
static void run_prog(int n, int preset, int t, int len, const std::vector<int> &prog) {
  int *p = (int *)malloc(sizeof(int) * (prog.size() + 1)), *f = (int *)malloc(sizeof(int) * (n + 1));
  for (size_t i = 0; i < prog.size(); ++i) p[i] = prog[i];
  curprog = p; curlen = len; nh = t * len; now = 0;
  long live = live_blocks();
  kbits_run(n, preset, len, p, f);
  if (live_blocks() != live) fail("leak", "the bit vector left %ld blocks", live_blocks() - live);
  unsigned want = 0; for (int i = 0; i < n; ++i) want |= (unsigned)f[i] << i;
  uint64_t o = want; for (int i = 0; i < nh; ++i) o = o * 3 + hist[i].ret;
  outcome(o);
  if (!lin(0, preset, want)) {
    std::string s; static const char *N[] = {"get", "testAndSet", "atomicClear", "set"};
    for (int i = 0; i < nh; ++i) s += S(" thread %d: %s(%d)=%d;", hist[i].tid, N[hist[i].op], hist[i].bit, hist[i].ret);
    fail("not-linearizable", "start %x,%s final %x", preset, s.c_str(), want);
  }
  free(p); free(f);
}
void mc_enumerate() {
  bool th = tier();
  bound(th ? "every interleaving of every program of 2 threads x up to 3 operations, 3 x 1-2 and 4 x 1 over 2 adjacent bits of vectors of 2-20" : "every interleaving of every program of 2 threads x up to 2 operations (3 for testAndSet and get) and 3 x 1, over 2 adjacent bits of vectors of 2-20 bits");
  bound("operations get, testAndSet, atomicClear, and set on bits no other thread touches (it is not meant to be atomic); results judged by linearizability against a set of bits");
  bound("vectors of every length 0-70 (thorough 0-300): every bit set and cleared on its own, one thread");
  Options o; o.max_exec = 20000000;
  for (int t = 2; t <= 4; ++t) for (int len = 1; len <= 3; ++len) for (int n : {2, 9, 20}) {
    if (t * len > (th ? 6 : 6) || (t == 3 && len > (th ? 2 : 1)) || (t == 4 && (len > 1 || !th))) continue;
    bool few = !th && t * len == 6; // testAndSet and get only
    o.threads = t;
    int ops = 7; // get/tas/clear on two bits, set of the own bit
    for (int first = 0; first < ops * ops; ++first)
      MC_RUN(o, S("threads=%d len=%d n=%d first=%d", t, len, n, first), ([=] {
        std::vector<int> prog(t * len);
        int lo = n == 2 ? 0 : n == 9 ? 7 : 15;
        for (int i = 0; i < t * len; ++i) {
          int c = i == 0 ? first / ops : i == len ? first % ops : choose(few ? 4 : ops);
          if (few && c >= 4) return;
          // c: 0..1 get, 2..3 testAndSet, 4..5 clear, 6 set of a bit that only this thread uses
          if (c < 6) prog[i] = (lo + c % 2) << 3 | c / 2; else { int own = lo + 2 + i / len; if (own >= n) own = lo > 3 ? lo - 1 - i / len : -1; if (own < 0) return; prog[i] = own << 3 | 3; }
        }
        run_prog(n, choose(2) ? 1 << lo : 0, t, len, prog);
      }));
  }
  for (int n = 0; n <= (th ? 300 : 70); ++n) for (int t = 1; t <= 2; ++t) {
    o.threads = t;
    MC_RUN(o, S("each bit n=%d threads=%d", n, t), ([=] {
      freeze(true);
      int i = n ? choose(n) : 0, *f = (int *)malloc(sizeof(int) * (n + 1));
      int p[8] = {i << 3 | 1, i << 3 | 0, i << 3 | 0, i << 3 | 0};
      curprog = p; curlen = n ? 2 : 0; nh = 0;
      kbits_run(n, 0, curlen, p, f);
      for (int k = 0; k < n; ++k) if (f[k] != (k == i)) fail("bit", "bit %d is %d after setting bit %d of %d", k, f[k], i, n);
      p[1] = i << 3 | 2; if (t > 1) { p[2] = p[1]; p[3] = p[1]; }
      kbits_run(n, 0, curlen, p, f);
      for (int k = 0; k < n; ++k) if (f[k]) fail("bit", "bit %d is set after clearing bit %d of %d", k, i, n);
      if (n >= 2) { // a neighbour keeps its value
        int j = (i + 1) % n; int q[4] = {j << 3 | 3, i << 3 | 3, j << 3 | 2, j << 3 | 2};
        curprog = q; curlen = t == 1 ? 3 : 2; if (t > 1) { q[1] = q[0]; q[2] = i << 3 | 3; q[3] = q[2]; }
        kbits_run(n, 0, curlen, q, f);
        for (int k = 0; k < n; ++k) if (f[k] != (k == i || (t > 1 && k == j))) fail("bit", "bit %d is %d after operations on bits %d and %d of %d", k, f[k], i, j, n);
      }
      free(f);
    }));
  }
}
