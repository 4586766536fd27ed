// Model-checking runtime: controlled scheduler + DPOR explorer + checked heap +
// OpenMP runtime + __tsan access hooks.  See DESIGN.md for the method.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <new>
#include <pthread.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#define NOSNAP __attribute__((section("mc_nosnap")))
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define PC() ((uint32_t)(uintptr_t)__builtin_return_address(0))

extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
void *__real_memset(void *, int, size_t);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);
size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
void __real_exit(int) __attribute__((noreturn));
void __real_abort() __attribute__((noreturn));
void mc_switch(void **save_sp, void *new_sp);
extern char __data_start[], _end[], __executable_start[], etext[];
extern char __start_mc_nosnap[], __stop_mc_nosnap[];
}

// ------------------------------------------------------------ real allocator
template <class T> struct RealAlloc {
  typedef T value_type;
  RealAlloc() {}
  template <class U> RealAlloc(const RealAlloc<U> &) {}
  T *allocate(size_t n) { return (T *)__real_malloc(n * sizeof(T)); }
  void deallocate(T *p, size_t) { __real_free(p); }
  template <class U> bool operator==(const RealAlloc<U> &) const { return true; }
  template <class U> bool operator!=(const RealAlloc<U> &) const { return false; }
};
template <class T> using rvec = std::vector<T, RealAlloc<T>>;

// ------------------------------------------------------------ layout
#ifndef MC_MAXT
#define MC_MAXT 6
#endif
static const int MAXT = MC_MAXT;
static const uintptr_t ARENA = 0x100000000000ull;
static const uintptr_t ARENA_PER_T = 32ull << 20;
static const uintptr_t ARENA_SIZE = ARENA_PER_T * MAXT;
static const uintptr_t STACKS = 0x110000000000ull;
static const uintptr_t STACK_SZ = 512 << 10;
static const uintptr_t STACKS_SIZE = STACK_SZ * MAXT;
static const uintptr_t SHADOW = 0x120000000000ull;
static const uintptr_t CELLS_A = 0x130000000000ull; // arena race cells
static const uintptr_t CELLS_S = 0x140000000000ull; // stack race cells
static const uintptr_t CELLS_G = 0x150000000000ull; // globals race cells

struct Cell { // race-detection state of one accessed unit, indexed by its first byte
  uint32_t epoch, wtid, wclk, wpc;
  uint32_t rclk[MAXT], rpc[MAXT];
};

enum OpKind : uint8_t { OP_NONE, OP_ACC, OP_LOCK, OP_SINGLE, OP_LOOP };
struct Op {
  uint8_t kind, write, read, await;
  uint8_t sync; // 1: volatile/atomic (creates happens-before), 0: promoted plain access
  uint32_t size;
  uintptr_t addr;
  uint32_t pc;
};
enum FStat : uint8_t { F_NONE, F_READY, F_PENDING, F_BARRIER, F_JOIN, F_DONE };
struct Fiber {
  void *sp;
  FStat st;
  Op op;
  int tid;
  // program-visible OpenMP position
  int btype; // 0 OpenMP barrier, 1 the library's barrier taken as one step
  int singles, loops, nested; // constructs entered in the current team; nested serialised levels
  // spin learning
  bool last_was_read; Op last_op; uint64_t last_val; int rep; bool wrote_since;
  bool spinning; uint64_t spin_stamp;
  uint64_t ring[16], ring_stamp; int ring_n, cyc; bool wrote_cyc;
  bool fail_valid; uint64_t fail_val; // await: value known to fail
  int ncomp; uintptr_t comp[8];       // other locations read by the failing wait loop, assumed stable
  void (*fn)(void *); void *data;
};
struct VC { uint32_t c[MAXT]; };
struct Event {
  uint8_t tid, write, kind, await, multi;
  uint32_t seq, size, pc;
  uintptr_t addr;
  VC clk;
  int prev0, prev1; // chain per word
  int node;         // index into the schedule stack
};
struct Node {
  uint8_t kind; // 0 schedule, 1 data choice
  uint8_t frozen; // inside a phase whose interleavings another case explores
  int chosen, nopts;
  uint32_t enabled, backtrack, done, sleep;
  int lastrun, preempts, dflt; // preempts: preemptions or deviations so far
  Op ops[MAXT];
};

// ------------------------------------------------------------ state (never restored by snapshots)
struct Rt {
  bool in_exec = false;     // a fiber is running program code
  bool exec_active = false; // between start and end of one execution
  bool multi = false;       // inside a parallel region with more than one thread
  int cur = -1;             // running fiber
  int spec = -1;            // fiber being run speculatively
  bool reject_ok, huge_ok, step_barriers;
  Op spec_op; bool spec_same; int spec_steps; int spec_ncomp; uintptr_t spec_comp[8]; uintptr_t spec_prev[8]; uint32_t spec_cpc[8], spec_ppc[8]; int spec_nprev;
  void *sched_sp;
  Fiber f[MAXT];
  int team = 1;             // threads of the active team
  int nthreads = 1;         // omp_set_num_threads
  int level = 0;            // active nesting (0 or 1)
  int arrived = 0;
  uint64_t singles_taken;   // bitmask window
  rvec<uint8_t> single_slots;
  struct Loop { long next, end, incr, chunk; bool init; };
  rvec<Loop> loops;
  // arena
  uintptr_t bump[MAXT];
  uintptr_t live = 0;
  rvec<uintptr_t> blocks;
  uint8_t fill = 0xCD;
  // race detection
  uint32_t epoch = 1;
  VC vc[MAXT];
  // execution / exploration
  rvec<Event> ev;
  int ev_floor = 0;
  VC dc[MAXT];
  rvec<Node> stack;
  size_t depth = 0;
  int lastrun = 0;
  uint64_t write_stamp = 0;
  int wakeups = 0;
  bool aborted = false, pruned = false, need_restart = false, failed = false, overflow = false, timed_out = false;
  char fkey[128], fmsg[1024];
  const mc::Options *opt = nullptr;
  const std::function<void()> *body = nullptr;
  long accesses = 0;
  bool frozen = false;
  int order = 0; // 0: the running thread goes on, then round robin; 1, 2: the highest, lowest one first
  int phase = 0, focus_lo = 0, focus_hi = 1 << 30; // phases: stretches between barriers
  // learned program points
  rvec<uint8_t> visible_pc, spin_pc;
  // locks
  // snapshot
  char *snap = nullptr; size_t snap_n = 0;
  // stats
  long n_exec = 0, n_pruned = 0, n_events = 0, n_nodes = 0, n_cases = 0, n_trunc = 0, n_inconcl = 0, n_term = 0;
};
static NOSNAP Rt *R = nullptr;
struct LockEnt { uintptr_t addr; int owner; VC sync, dclk; };
struct SyncEnt { uintptr_t addr; uint32_t stamp; VC vc; };
static const int NSYNC = 8192;
static NOSNAP SyncEnt *g_sync = nullptr;
static NOSNAP uint32_t g_sync_stamp = 1;
struct WordEnt { uintptr_t word; uint32_t stamp; int last; };
static const int NWORD = 1 << 16;
static NOSNAP WordEnt *g_word = nullptr;
static NOSNAP uint32_t g_word_stamp = 1;
static NOSNAP rvec<LockEnt> *g_locks = nullptr;
static NOSNAP rvec<int> *g_multi_ev = nullptr;

static inline void vjoin(VC &a, const VC &b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

// ------------------------------------------------------------ context switch
asm(R"(
.text
.globl mc_switch
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.globl mc_tramp
mc_tramp:
  xorl %ebp,%ebp
  pushq $0
  call mc_fiber_entry
  ud2
)");
extern "C" void mc_tramp();

static void to_sched() {
  Rt *r = R;
  int me = r->cur;
  r->in_exec = false;
  mc_switch(&r->f[me].sp, r->sched_sp);
}
extern "C" void mc_fiber_entry() {
  Fiber &f = R->f[R->cur];
  f.fn(f.data);
  f.st = F_DONE;
  to_sched();
  __builtin_trap();
}
static void fiber_init(int t, void (*fn)(void *), void *data) {
  Fiber &f = R->f[t];
  __real_memset(&f, 0, sizeof f);
  f.tid = t; f.fn = fn; f.data = data; f.st = F_READY;
  uintptr_t top = STACKS + (t + 1) * STACK_SZ - 128;
  top &= ~(uintptr_t)63;
  uintptr_t *sp = (uintptr_t *)top;
  *--sp = 0;
  *--sp = (uintptr_t)&mc_tramp;
  for (int i = 0; i < 6; ++i) *--sp = 0;
  f.sp = sp;
}
static void resume(int t) {
  Rt *r = R;
  r->cur = t;
  r->in_exec = true;
  mc_switch(&r->sched_sp, r->f[t].sp);
  r->in_exec = false;
}

// ------------------------------------------------------------ failure
namespace mc {
void fail(const char *key, const char *fmt, ...) {
  Rt *r = R;
  bool was = r->in_exec;
  r->in_exec = false;
  va_list ap; va_start(ap, fmt);
  char buf[1024];
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (!was && !r->exec_active) { fprintf(stderr, "mc: fail() outside execution: %s: %s\n", key, buf); _exit(3); }
  if (!r->failed) {
    r->failed = true;
    snprintf(r->fkey, sizeof r->fkey, "%s", key);
    snprintf(r->fmsg, sizeof r->fmsg, "%s", buf);
  }
  r->aborted = true;
  void *dummy;
  mc_switch(&dummy, r->sched_sp);
  __builtin_trap();
}
} // namespace mc
// ------------------------------------------------------------ speculation
// called at the head of every runtime entry that is observable; returns only if not speculating
static void spec_leave(bool same) {
  Rt *r = R;
  r->spec_same = same;
  r->in_exec = false;
  void *dummy;
  mc_switch(&dummy, r->sched_sp);
  __builtin_trap();
}
#define SPEC() do { if (UNLIKELY(R->spec >= 0 && R->in_exec)) spec_leave(false); } while (0)

// ------------------------------------------------------------ heap
static const size_t HDR = 64, TAIL = 64;
struct Hdr { uint64_t magic; size_t size; int idx; uint8_t st; };
static const uint64_t MAGIC = 0x5350504d43484452ull;
static inline uint8_t *shadow(uintptr_t a) { return (uint8_t *)(SHADOW + (a - ARENA)); }
static inline bool inarena(uintptr_t a) { return a - ARENA < ARENA_SIZE; }

static void *arena_alloc(size_t n, size_t align) {
  Rt *r = R;
  int t = r->cur < 0 ? 0 : r->cur;
  if (align < 64) align = 64;
  uintptr_t base = ARENA + t * ARENA_PER_T;
  uintptr_t p = base + r->bump[t] + HDR;
  p = (p + align - 1) & ~(uintptr_t)(align - 1);
  if (n > ARENA_PER_T || p + n + TAIL > base + ARENA_PER_T - (1 << 16)) return nullptr;
  r->bump[t] = p + n + TAIL - base;
  Hdr *h = (Hdr *)(p - HDR);
  h->magic = MAGIC; h->size = n; h->st = 1; h->idx = (int)r->blocks.size();
  r->blocks.push_back(p);
  __real_memset((void *)p, r->fill, n);
  __real_memset(shadow(p), 1, n);
  r->live++;
  return (void *)p;
}
static void arena_free(void *q) {
  Rt *r = R;
  uintptr_t p = (uintptr_t)q;
  Hdr *h = (Hdr *)(p - HDR);
  if (p % 64 || h->magic != MAGIC) mc::fail("bad-free", "free of an address inside or next to a block");
  if (h->st != 1) mc::fail("double-free", "block of %zu bytes released twice", h->size);
  h->st = 2;
  __real_memset(shadow(p), 2, h->size);
  __real_memset(q, 0xDD, h->size);
  r->live--;
}
static void arena_reset() {
  Rt *r = R;
  for (int t = 0; t < MAXT; ++t) if (r->bump[t]) {
    __real_memset((void *)(SHADOW + t * ARENA_PER_T), 0, r->bump[t] + 64);
    // headers must not survive
    r->bump[t] = 0;
  }
  for (uintptr_t p : r->blocks) ((Hdr *)(p - HDR))->magic = 0;
  r->blocks.clear();
  r->live = 0;
}
static inline bool use_arena() { return R && R->in_exec; }

extern "C" {
void *__wrap_malloc(size_t n) { if (use_arena()) { SPEC(); return arena_alloc(n, 64); } return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) {
  if (use_arena()) { SPEC(); void *p = (b && a > (size_t)-1 / b) ? nullptr : arena_alloc(a * b, 64); if (p) __real_memset(p, 0, a * b); return p; }
  return __real_calloc(a, b);
}
void __wrap_free(void *p) {
  if (!p) return;
  if (inarena((uintptr_t)p)) { if (R->in_exec) { SPEC(); arena_free(p); } return; }
  __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
  if (use_arena() && (!p || inarena((uintptr_t)p))) {
    SPEC();
    void *q = arena_alloc(n, 64);
    if (p && q) { size_t o = ((Hdr *)((uintptr_t)p - HDR))->size; __real_memcpy(q, p, std::min(o, n)); arena_free(p); }
    return q;
  }
  return __real_realloc(p, n);
}
int __wrap_posix_memalign(void **out, size_t al, size_t n) {
  if (use_arena()) { SPEC(); void *p = arena_alloc(n, al); if (!p) return ENOMEM; *out = p; return 0; }
  return __real_posix_memalign(out, al, n);
}
void *__wrap_aligned_alloc(size_t al, size_t n) { if (use_arena()) { SPEC(); return arena_alloc(n, al); } return __real_aligned_alloc(al, n); }
}
static void *op_new(size_t n, size_t al = 64) {
  void *p;
  if (use_arena()) { SPEC(); p = arena_alloc(n, al); }
  else if (al <= 16) p = __real_malloc(n);
  else { p = nullptr; if (__real_posix_memalign(&p, al, n)) p = nullptr; }
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return op_new(n, 16); }
void *operator new[](size_t n) { return op_new(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return use_arena() ? arena_alloc(n, 64) : __real_malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return use_arena() ? arena_alloc(n, 64) : __real_malloc(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { __wrap_free(p); }

static void __attribute__((noreturn, noinline)) mem_fail(uintptr_t a, size_t n, bool w, uint32_t pc) {
  uint8_t s = 0;
  for (size_t i = 0; i < n; ++i) if (*shadow(a + i) != 1) { s = *shadow(a + i); a += i; break; }
  // locate nearest block
  const char *what = s == 2 ? "released memory" : "memory outside every block";
  long best = -1; size_t bsz = 0; long off = 0;
  for (uintptr_t p : R->blocks) {
    size_t sz = ((Hdr *)(p - HDR))->size;
    long d = a < p ? (long)(p - a) : (a >= p + sz ? (long)(a - p - sz) : 0);
    if (best < 0 || d < best) { best = d; bsz = sz; off = (long)a - (long)p; }
  }
  mc::fail(s == 2 ? "use-after-free" : "out-of-bounds", "%s of %zu byte(s) in %s (offset %ld of a %zu-byte block) @pc:0x%x",
           w ? "write" : "read", n, what, off, bsz, pc);
}
static inline void check_mem(uintptr_t a, size_t n, bool w, uint32_t pc) {
  if (inarena(a)) {
    const uint8_t *s = shadow(a);
    bool ok;
    switch (n) {
    case 1: ok = *s == 1; break;
    case 2: ok = *(const uint16_t *)s == 0x0101; break;
    case 4: ok = *(const uint32_t *)s == 0x01010101u; break;
    case 8: ok = *(const uint64_t *)s == 0x0101010101010101ull; break;
    default: ok = true; for (size_t i = 0; i < n; ++i) if (s[i] != 1) { ok = false; break; }
    }
    if (UNLIKELY(!ok)) mem_fail(a, n, w, pc);
  }
}

// ------------------------------------------------------------ race detection (to find visible plain accesses)
static inline Cell *cell_of(uintptr_t a) {
  if (a - ARENA < ARENA_SIZE) return (Cell *)CELLS_A + (a - ARENA);
  if (a - STACKS < STACKS_SIZE) return (Cell *)CELLS_S + (a - STACKS);
  uintptr_t g = (uintptr_t)__data_start;
  if (a >= g && a < (uintptr_t)_end) return (Cell *)CELLS_G + (a - g);
  return nullptr;
}
static inline uint32_t pcidx(uint32_t pc) { return pc - (uint32_t)(uintptr_t)__executable_start; }
static inline bool is_visible(uint32_t pc) { uint32_t i = pcidx(pc); return i < R->visible_pc.size() && R->visible_pc[i]; }
static void promote(uint32_t pc) {
  uint32_t i = pcidx(pc);
  if (i < R->visible_pc.size() && !R->visible_pc[i]) { R->visible_pc[i] = 1; R->need_restart = true; }
}
static void race_cell(Cell *c, int t, bool w, bool sync, uint32_t pc) {
  Rt *r = R;
  if (c->epoch != r->epoch) { __real_memset(c, 0, sizeof *c); c->epoch = r->epoch; }
  const VC &v = r->vc[t];
  if (c->wclk && (int)c->wtid != t && c->wclk > v.c[c->wtid]) {
    // conflicting with an unordered write; volatile/atomic accesses are visible already
    if (c->wpc) promote(c->wpc);
    if (!sync) promote(pc);
  }
  if (w) {
    for (int u = 0; u < MAXT; ++u)
      if (u != t && c->rclk[u] > v.c[u]) { if (c->rpc[u]) promote(c->rpc[u]); if (!sync) promote(pc); }
    bool keep = c->wclk && (int)c->wtid == t && c->wpc && !is_visible(c->wpc); // prefer a not yet visible program point
    c->wtid = t; c->wclk = v.c[t];
    if (!keep) c->wpc = sync ? 0 : pc;
  } else {
    bool keep = c->rclk[t] && c->rpc[t] && !is_visible(c->rpc[t]);
    c->rclk[t] = v.c[t];
    if (!keep) c->rpc[t] = sync ? 0 : pc;
  }
}
static void race_access(uintptr_t a, size_t n, bool w, bool sync, uint32_t pc) {
  int t = R->cur;
  Cell *c = cell_of(a);
  if (!c) return;
  if (n <= 4) race_cell(c, t, w, sync, pc);
  else if (n == 8) { race_cell(c, t, w, sync, pc); race_cell(c + 4, t, w, sync, pc); }
  else for (size_t i = 0; i < n; ++i) race_cell(c + i, t, w, sync, pc);
}

// ------------------------------------------------------------ scheduling points
static void yield_op(const Op &op) {
  Rt *r = R;
  Fiber &f = r->f[r->cur];
  f.op = op;
  f.st = F_PENDING;
  f.fail_valid = false;
  to_sched();
  // resumed: the scheduler chose us, or runs us speculatively
}
static void visible_access(uintptr_t a, size_t n, bool rd, bool wr, bool sync, uint32_t pc) {
  Op op; __real_memset(&op, 0, sizeof op);
  op.kind = OP_ACC; op.addr = a; op.size = (uint32_t)n; op.read = rd; op.write = wr; op.sync = sync; op.pc = pc;
  op.await = rd && !wr && R->spin_pc[pcidx(pc)] == 1 && n <= 8;
  yield_op(op);
}
static const long MAX_ACCESSES = 40000000;
static void __attribute__((noinline)) hook_slow(uintptr_t a, size_t n, bool rd, bool wr, bool sync, uint32_t pc) {
  Rt *r = R;
  if (r->spec >= 0) {
    bool vis = sync || is_visible(pc);
    if (vis) {
      if (rd && !wr && a == r->spec_op.addr && pc == r->spec_op.pc) {
        // back at the awaited read: the loop repeats once two consecutive rounds made the same reads
        // (one round is not enough: the code may have left one wait loop and entered the next at the same place)
        bool same = r->spec_nprev == r->spec_ncomp;
        for (int i = 0; same && i < r->spec_ncomp; ++i) same = r->spec_prev[i] == r->spec_comp[i] && r->spec_ppc[i] == r->spec_cpc[i];
        if (same) spec_leave(true);
        r->spec_nprev = r->spec_ncomp;
        __real_memcpy(r->spec_prev, r->spec_comp, sizeof r->spec_prev); __real_memcpy(r->spec_ppc, r->spec_cpc, sizeof r->spec_ppc);
        r->spec_ncomp = 0;
        if (++r->spec_steps > 2000) spec_leave(false);
        return;
      }
      if (wr || r->spec_ncomp >= 8) spec_leave(false);
      r->spec_cpc[r->spec_ncomp] = pc;
      r->spec_comp[r->spec_ncomp++] = a; // another read of the same loop: go on
      return;
    }
    if (wr) spec_leave(false);
    if (++r->spec_steps > 2000) spec_leave(false);
    return;
  }
  if (++r->accesses > MAX_ACCESSES) mc::fail("no-termination", "more than %ld memory accesses in one execution (endless loop) @pc:0x%x", MAX_ACCESSES, pc);
  check_mem(a, n, wr, pc);
  if (!r->multi) return;
  if (sync || is_visible(pc)) {
    visible_access(a, n, rd, wr, sync, pc);
    if (r->spec >= 0) return; // speculative run of a read: performs it and goes on to the next hook
  } else if (wr) r->f[r->cur].wrote_since = r->f[r->cur].wrote_cyc = true;
  race_access(a, n, wr, sync, pc);
}
static inline void hook(uintptr_t a, size_t n, bool rd, bool wr, bool sync, uint32_t pc) {
  Rt *r = R;
  if (!r || !r->in_exec) return;
  hook_slow(a, n, rd, wr, sync, pc);
}

#define HOOKS(N)                                                                                         \
  extern "C" void __tsan_read##N(void *p) { hook((uintptr_t)p, N, true, false, false, PC()); }           \
  extern "C" void __tsan_write##N(void *p) { hook((uintptr_t)p, N, false, true, false, PC()); }          \
  extern "C" void __tsan_unaligned_read##N(void *p) { hook((uintptr_t)p, N, true, false, false, PC()); } \
  extern "C" void __tsan_unaligned_write##N(void *p) { hook((uintptr_t)p, N, false, true, false, PC()); } \
  extern "C" void __tsan_volatile_read##N(void *p) { hook((uintptr_t)p, N, true, false, true, PC()); }   \
  extern "C" void __tsan_volatile_write##N(void *p) { hook((uintptr_t)p, N, false, true, true, PC()); }  \
  extern "C" void __tsan_unaligned_volatile_read##N(void *p) { hook((uintptr_t)p, N, true, false, true, PC()); } \
  extern "C" void __tsan_unaligned_volatile_write##N(void *p) { hook((uintptr_t)p, N, false, true, true, PC()); }
HOOKS(1) HOOKS(2) HOOKS(4) HOOKS(8) HOOKS(16)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { hook((uintptr_t)p, 8, false, true, false, PC()); }
void __tsan_vptr_read(void **p) { hook((uintptr_t)p, 8, true, false, false, PC()); }
void __tsan_read_range(void *p, size_t n) { if (n) hook((uintptr_t)p, n, true, false, false, PC()); }
void __tsan_write_range(void *p, size_t n) { if (n) hook((uintptr_t)p, n, false, true, false, PC()); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
}
// atomics: hook, then perform
#define ATOMICS(B, T)                                                                                     \
  extern "C" T __tsan_atomic##B##_load(const volatile T *p, int) { hook((uintptr_t)p, sizeof(T), true, false, true, PC()); return *p; } \
  extern "C" void __tsan_atomic##B##_store(volatile T *p, T v, int) { hook((uintptr_t)p, sizeof(T), false, true, true, PC()); *p = v; } \
  extern "C" T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { hook((uintptr_t)p, sizeof(T), true, true, true, PC()); T o = *p; *p = v; return o; } \
  extern "C" T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { hook((uintptr_t)p, sizeof(T), true, true, true, PC()); T o = *p; *p = (T)(o + v); return o; } \
  extern "C" T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { hook((uintptr_t)p, sizeof(T), true, true, true, PC()); T o = *p; *p = (T)(o - v); return o; } \
  extern "C" T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { hook((uintptr_t)p, sizeof(T), true, true, true, PC()); T o = *p; *p = (T)(o & v); return o; } \
  extern "C" T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { hook((uintptr_t)p, sizeof(T), true, true, true, PC()); T o = *p; *p = (T)(o | v); return o; } \
  extern "C" T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) { hook((uintptr_t)p, sizeof(T), true, true, true, PC()); T o = *p; *p = (T)(o ^ v); return o; } \
  extern "C" T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int) { hook((uintptr_t)p, sizeof(T), true, true, true, PC()); T o = *p; *p = (T)~(o & v); return o; } \
  extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { hook((uintptr_t)p, sizeof(T), true, true, true, PC()); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { hook((uintptr_t)p, sizeof(T), true, true, true, PC()); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  extern "C" T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int, int) { hook((uintptr_t)p, sizeof(T), true, true, true, PC()); T o = *p; if (o == e) *p = v; return o; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

extern "C" {
void *__wrap_memset(void *p, int c, size_t n) { if (n) hook((uintptr_t)p, n, false, true, false, PC()); return __real_memset(p, c, n); }
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (n) { hook((uintptr_t)s, n, true, false, false, PC()); hook((uintptr_t)d, n, false, true, false, PC()); }
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (n) { hook((uintptr_t)s, n, true, false, false, PC()); hook((uintptr_t)d, n, false, true, false, PC()); }
  return __real_memmove(d, s, n);
}
}

// ------------------------------------------------------------ OpenMP runtime
static inline bool omp_active() { return R && R->exec_active; }
static inline int cur_fiber() { return R->cur < 0 ? 0 : R->cur; }
static inline bool serial_ctx() { return !omp_active() || R->level == 0 || R->f[cur_fiber()].nested > 0; }

static void barrier_common(int type = 0) {
  Rt *r = R;
  if (serial_ctx() || r->team == 1) return;
  Fiber &f = r->f[r->cur];
  f.st = F_BARRIER;
  f.btype = type;
  r->arrived++;
  to_sched();
}
extern "C" {
int omp_get_thread_num() { if (serial_ctx()) return 0; return R->f[R->cur].tid; }
int omp_get_num_threads() { if (serial_ctx()) return 1; return R->team; }
int omp_get_max_threads() { return R ? R->nthreads : 1; }
int omp_get_num_procs() { return R ? R->nthreads : 1; }
int omp_get_thread_limit() { return MAXT; }
int omp_in_parallel() { return omp_active() && R->level > 0 && R->team > 1; }
int omp_get_level() { return omp_active() ? R->level + R->f[cur_fiber()].nested : 0; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_dynamic() { return 0; }
int omp_get_nested() { return 0; }
int omp_get_max_active_levels() { return 1; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_max_active_levels(int) {}
void omp_set_num_threads(int n) { if (R) { SPEC(); R->nthreads = n < 1 ? 1 : (n > MAXT ? MAXT : n); } }
static NOSNAP double g_fake_time = 1.0;
double omp_get_wtime() { g_fake_time += 1e-6; return g_fake_time; }
double omp_get_wtick() { return 1e-9; }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nthr, unsigned) {
  Rt *r = R;
  if (!omp_active()) { fn(data); return; } // harness set-up outside executions
  SPEC();
  if (r->level > 0) { // nested region: serialised
    Fiber &f = r->f[r->cur];
    f.nested++;
    fn(data);
    f.nested--;
    return;
  }
  int n = nthr ? (int)nthr : r->nthreads;
  if (n > MAXT) n = MAXT;
  r->level = 1; r->team = n;
  r->single_slots.clear(); r->loops.clear(); r->arrived = 0;
  Fiber &m = r->f[0];
  m.singles = m.loops = 0;
  if (n == 1) {
    fn(data);
  } else {
    r->epoch++; g_sync_stamp++; r->phase++;
    r->ev_floor = (int)r->ev.size();
    for (int t = 0; t < MAXT; ++t) { r->vc[0].c[t]++; }
    for (int t = 1; t < n; ++t) { r->vc[t] = r->vc[0]; r->dc[t] = r->dc[0]; fiber_init(t, fn, data); }
    for (int t = 0; t < n; ++t) r->vc[t].c[t]++;
    r->multi = true;
    fn(data);
    m.st = F_JOIN;
    to_sched();
    r->multi = false;
    r->epoch++; g_sync_stamp++;
    r->ev_floor = (int)r->ev.size();
  }
  r->level = 0; r->team = 1;
}
void GOMP_barrier() { SPEC(); barrier_common(); }
int GOMP_barrier_cancel() { SPEC(); barrier_common(); return 0; }
bool GOMP_single_start() {
  SPEC();
  Rt *r = R;
  if (serial_ctx()) return true;
  Fiber &f = r->f[r->cur];
  int i = f.singles++;
  while ((int)r->single_slots.size() <= i) r->single_slots.push_back(0);
  if (r->team > 1) {
    Op op; __real_memset(&op, 0, sizeof op);
    op.kind = OP_SINGLE; op.addr = 16 + i; op.read = op.write = 1; op.pc = PC();
    yield_op(op);
  }
  if (r->single_slots[i]) return false;
  r->single_slots[i] = 1;
  return true;
}
static NOSNAP void *g_copy_data = nullptr;
void *GOMP_single_copy_start() { if (GOMP_single_start()) return nullptr; barrier_common(); return g_copy_data; }
void GOMP_single_copy_end(void *d) { g_copy_data = d; barrier_common(); }

// ---- locks
static LockEnt *lock_of(uintptr_t a) {
  for (auto &l : *g_locks) if (l.addr == a) return &l;
  LockEnt l; __real_memset(&l, 0, sizeof l); l.addr = a; l.owner = -1;
  g_locks->push_back(l);
  return &g_locks->back();
}
static void lock_acquire(uintptr_t a, uint32_t pc) {
  SPEC();
  Rt *r = R;
  if (!omp_active() || !r->multi) return;
  Op op; __real_memset(&op, 0, sizeof op);
  op.kind = OP_LOCK; op.addr = a; op.read = op.write = 1; op.pc = pc; op.size = 1;
  yield_op(op);
  LockEnt *l = lock_of(a);
  l->owner = r->cur;
  vjoin(r->vc[r->cur], l->sync);
}
static void lock_release(uintptr_t a) {
  SPEC();
  Rt *r = R;
  if (!omp_active() || !r->multi) return;
  LockEnt *l = lock_of(a);
  l->owner = -1;
  vjoin(l->sync, r->vc[r->cur]);
  r->vc[r->cur].c[r->cur]++;
  vjoin(l->dclk, r->dc[r->cur]);
}
void GOMP_atomic_start() { lock_acquire(1, PC()); }
void GOMP_atomic_end() { lock_release(1); }
void GOMP_critical_start() { lock_acquire(2, PC()); }
void GOMP_critical_end() { lock_release(2); }
void GOMP_critical_name_start(void **p) { lock_acquire((uintptr_t)p, PC()); }
void GOMP_critical_name_end(void **p) { lock_release((uintptr_t)p); }
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *p) { lock_acquire((uintptr_t)p, PC()); }
void omp_unset_lock(void *p) { lock_release((uintptr_t)p); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *p) { if (R && R->in_exec) lock_acquire((uintptr_t)p, PC()); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *p) { if (R && R->in_exec) lock_release((uintptr_t)p); return 0; }
int __wrap_sched_yield() { return 0; }

// ---- work sharing loops
static bool loop_next_impl(int i, long *s, long *e) {
  Rt *r = R;
  if (!serial_ctx() && r->team > 1) {
    Op op; __real_memset(&op, 0, sizeof op);
    op.kind = OP_LOOP; op.addr = 1024 + i; op.read = op.write = 1; op.pc = 0;
    yield_op(op);
  }
  Rt::Loop &l = r->loops[i];
  long left = l.incr > 0 ? (l.end - l.next + l.incr - 1) / l.incr : (l.end - l.next + l.incr + 1) / l.incr;
  if (left <= 0) return false;
  long c = std::min(left, l.chunk < 1 ? 1 : l.chunk);
  *s = l.next; *e = l.next + c * l.incr;
  if (c == left) *e = l.end;
  l.next = *e;
  return true;
}
static bool loop_start(long a, long b, long inc, long chunk, long *s, long *e) {
  SPEC();
  Rt *r = R;
  Fiber &f = r->f[cur_fiber()];
  int i = f.loops++;
  if (f.nested > 0 || r->level == 0) { i = (int)r->loops.size(); f.loops = i + 1; }
  while ((int)r->loops.size() <= i) { Rt::Loop l; __real_memset(&l, 0, sizeof l); r->loops.push_back(l); }
  Rt::Loop &l = r->loops[i];
  if (!l.init) { l.init = true; l.next = a; l.end = b; l.incr = inc; l.chunk = chunk; }
  return loop_next_impl(i, s, e);
}
static bool loop_next(long *s, long *e) { SPEC(); return loop_next_impl(R->f[cur_fiber()].loops - 1, s, e); }
#define LOOP(NAME) \
  bool GOMP_loop_##NAME##_start(long a, long b, long i, long c, long *s, long *e) { return loop_start(a, b, i, c, s, e); } \
  bool GOMP_loop_##NAME##_next(long *s, long *e) { return loop_next(s, e); }
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e); }
bool GOMP_loop_runtime_next(long *s, long *e) { return loop_next(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *s, long *e) { return loop_next(s, e); }
void GOMP_loop_end() { SPEC(); barrier_common(); }
void GOMP_loop_end_nowait() {}
struct PLoop { void (*fn)(void *); void *data; long a, b, i, c; };
static void ploop_body(void *p) { PLoop *l = (PLoop *)p; // GCC's outlined body calls *_next itself
  Rt *r = R; Fiber &f = r->f[cur_fiber()]; int k = f.loops++;
  while ((int)r->loops.size() <= k) { Rt::Loop x; __real_memset(&x, 0, sizeof x); r->loops.push_back(x); }
  if (!r->loops[k].init) { r->loops[k].init = true; r->loops[k].next = l->a; r->loops[k].end = l->b; r->loops[k].incr = l->i; r->loops[k].chunk = l->c; }
  l->fn(l->data); }
#define PLOOP(NAME) void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned fl) { PLoop l = {fn, d, a, b, i, c}; GOMP_parallel(ploop_body, &l, n, fl); }
PLOOP(dynamic) PLOOP(guided) PLOOP(static) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned fl) { PLoop l = {fn, d, a, b, i, 1}; GOMP_parallel(ploop_body, &l, n, fl); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned fl) { PLoop l = {fn, d, a, b, i, 1}; GOMP_parallel(ploop_body, &l, n, fl); }
unsigned GOMP_sections_start(unsigned n) { long s, e; return loop_start(1, (long)n + 1, 1, 1, &s, &e) ? (unsigned)s : 0; }
unsigned GOMP_sections_next() { long s, e; return loop_next(&s, &e) ? (unsigned)s : 0; }
void GOMP_sections_end() { SPEC(); barrier_common(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned c, unsigned fl) { PLoop l = {fn, d, 1, (long)c + 1, 1, 1}; GOMP_parallel(ploop_body, &l, n, fl); }
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) {
  SPEC();
  if (cpyfn) { char *buf = (char *)__real_malloc(sz + al); char *p = (char *)(((uintptr_t)buf + al - 1) & ~(uintptr_t)(al - 1)); cpyfn(p, data); fn(p); }
  else fn(data);
}
}

// ------------------------------------------------------------ process-level wraps
extern "C" {
// synk::Barrier, optionally as a single step (property C04 decides the barrier itself)
void __real__ZN4synk7Barrier4waitEi(void *, int) __attribute__((weak));
void *__real__ZN4synk7Barrier11getInstanceEv() __attribute__((weak));
static NOSNAP char g_step_barrier[256];
void __wrap__ZN4synk7Barrier4waitEi(void *b, int tid) {
  if (!R || !R->step_barriers) return __real__ZN4synk7Barrier4waitEi(b, tid);
  SPEC();
  if (b != g_step_barrier) mc::fail("barrier", "wait on an object that is not the barrier instance");
  if (tid != omp_get_thread_num()) mc::fail("barrier", "thread %d waits as thread %d", omp_get_thread_num(), tid);
  barrier_common(1);
}
void *__wrap__ZN4synk7Barrier11getInstanceEv() {
  if (!R || !R->step_barriers) return __real__ZN4synk7Barrier11getInstanceEv();
  return g_step_barrier;
}
// anonymous mappings: refused (no huge pages configured) unless the harness grants them
void *__wrap_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
  if (!use_arena() || fd >= 0) return __real_mmap(a, n, prot, flags, fd, off);
  SPEC();
  if (!R->huge_ok) return MAP_FAILED;
  void *p = arena_alloc(n, 4096);
  if (!p) return MAP_FAILED;
  __real_memset(p, 0, n);
  return p;
}
int __wrap_munmap(void *a, size_t n) {
  if (!inarena((uintptr_t)a)) return __real_munmap(a, n);
  SPEC();
  Hdr *h = (Hdr *)((uintptr_t)a - HDR);
  if (h->magic == MAGIC && h->size != n) mc::fail("bad-unmap", "mapping of %zu bytes released with length %zu", h->size, n);
  arena_free(a);
  return 0;
}
void __assert_fail(const char *e, const char *file, unsigned line, const char *) {
  if (R && R->in_exec && R->reject_ok) { SPEC(); R->in_exec = false; R->aborted = true; void *dummy; mc_switch(&dummy, R->sched_sp); __builtin_trap(); }
  if (R && R->in_exec) { SPEC(); const char *b = strrchr(file, '/'); mc::fail("assertion", "assertion `%s' failed at %s:%u", e, b ? b + 1 : file, line); }
  fprintf(stderr, "assert %s at %s:%u\n", e, file, line); _exit(3);
}
void __wrap_exit(int c) { if (R && R->in_exec) { SPEC(); mc::fail("exit", "the library ended the process with exit(%d)", c); } __real_exit(c); }
void __wrap_abort() { if (R && R->in_exec) { SPEC(); mc::fail("abort", "the library called abort()"); } __real_abort(); }
void __wrap___stack_chk_fail() { if (R && R->in_exec) { mc::fail("stack-overwrite", "stack smashing detected @pc:0x%x", PC()); } __real_abort(); }
}
// virtual files
struct VF { std::basic_string<char, std::char_traits<char>, RealAlloc<char>> data; bool unwritable = false; };
typedef std::basic_string<char, std::char_traits<char>, RealAlloc<char>> rstr;
static NOSNAP std::map<rstr, VF, std::less<rstr>, RealAlloc<std::pair<const rstr, VF>>> *g_vf = nullptr;
struct VH { VF *f; size_t pos; bool wr; };
static NOSNAP rvec<FILE *> *g_open = nullptr;
static ssize_t vh_read(void *c, char *buf, size_t n) { VH *h = (VH *)c; size_t l = h->f->data.size(); size_t k = h->pos < l ? std::min(n, l - h->pos) : 0; __real_memcpy(buf, h->f->data.data() + h->pos, k); h->pos += k; return (ssize_t)k; }
static ssize_t vh_write(void *c, const char *buf, size_t n) { VH *h = (VH *)c; if (h->pos > h->f->data.size()) h->f->data.resize(h->pos); h->f->data.replace(h->pos, std::min(n, h->f->data.size() - h->pos), rstr(buf, n)); h->pos += n; return (ssize_t)n; }
static int vh_seek(void *c, off64_t *o, int w) { VH *h = (VH *)c; long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (long)h->pos : (long)h->f->data.size(); if (b + *o < 0) return -1; h->pos = b + *o; *o = h->pos; return 0; }
static int vh_close(void *c) { __real_free(c); return 0; }
struct InRt { bool s; InRt() : s(R && R->in_exec) { if (R) R->in_exec = false; } ~InRt() { if (R) R->in_exec = s; } };
extern "C" {
FILE *__wrap_fopen(const char *name, const char *mode) {
  if (!(R && R->in_exec)) return __real_fopen(name, mode);
  SPEC();
  InRt g;
  if (strncmp(name, "mc:", 3)) {
    if (mode[0] != 'r') { errno = EACCES; if (strcmp(name, "/dev/null")) return nullptr; }
    FILE *f = __real_fopen(name, mode);
    if (f) g_open->push_back(f);
    return f;
  }
  rstr n(name);
  auto it = g_vf->find(n);
  bool wr = mode[0] != 'r' || strchr(mode, '+');
  if (mode[0] == 'r' && it == g_vf->end()) { errno = ENOENT; return nullptr; }
  if (mode[0] != 'r') {
    if (it != g_vf->end() && it->second.unwritable) { errno = EACCES; return nullptr; }
    if (it == g_vf->end()) it = g_vf->insert(std::make_pair(n, VF())).first;
    if (mode[0] == 'w') it->second.data.clear();
  }
  VH *h = (VH *)__real_malloc(sizeof(VH)); h->f = &it->second; h->pos = mode[0] == 'a' ? it->second.data.size() : 0; h->wr = wr;
  cookie_io_functions_t io = {vh_read, vh_write, vh_seek, vh_close};
  FILE *f = fopencookie(h, mode, io);
  g_open->push_back(f);
  return f;
}
int __wrap_fclose(FILE *f) {
  if (!(R && R->in_exec)) return __real_fclose(f);
  SPEC();
  InRt g;
  auto it = std::find(g_open->begin(), g_open->end(), f);
  if (it == g_open->end()) { g.s = true; R->in_exec = true; mc::fail("bad-fclose", "fclose of a stream that is not open (closed twice?)"); }
  g_open->erase(it);
  return __real_fclose(f);
}
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) { if (R && R->in_exec) { SPEC(); if (s && n) hook((uintptr_t)p, s * n, false, true, false, PC()); } InRt g; return __real_fread(p, s, n, f); }
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (R && R->in_exec) { SPEC(); if (s && n) hook((uintptr_t)p, s * n, true, false, false, PC()); } InRt g; return __real_fwrite(p, s, n, f); }
char *__real_fgets(char *, int, FILE *);
char *__wrap_fgets(char *p, int n, FILE *f) {
  if (R && R->in_exec) SPEC();
  char *q;
  { InRt g; q = __real_fgets(p, n, f); }
  if (R && R->in_exec) { if (q) check_mem((uintptr_t)q, strlen(q) + 1, true, PC());
    if ((R->accesses += 1000) > MAX_ACCESSES) mc::fail("no-termination", "endless fgets loop @pc:0x%x", PC()); }
  return q;
}
int __real___isoc23_fscanf(FILE *, const char *, ...);
int __real___isoc23_sscanf(const char *, const char *, ...);
}
// scanf family: conversions go to scratch memory first, so that every store into the program's
// memory is checked like an access of the program itself
static int scan(FILE *f, const char *str, const char *fmt, va_list ap, uint32_t pc) {
  SPEC();
  if ((R->accesses += 1000) > MAX_ACCESSES) mc::fail("no-termination", "endless scanf loop @pc:0x%x", pc);
  static NOSNAP char buf[12][8192];
  void *dst[12]; int size[12], n = 0;
  for (const char *p = fmt; *p; ++p) {
    if (*p != '%') continue;
    ++p;
    if (*p == '%') continue;
    if (*p == '*') { while (*p && !strchr("diouxXeEfgGaAscp[n", *p)) ++p; continue; }
    int lng = 0;
    while (*p && (isdigit((unsigned char)*p) || *p == 'l' || *p == 'h' || *p == 'z')) { if (*p == 'l' || *p == 'z') ++lng; if (*p == 'h') --lng; ++p; }
    int sz = 0;
    switch (*p) {
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'n': sz = lng > 0 ? 8 : lng == 0 ? 4 : lng == -1 ? 2 : 1; break;
    case 'f': case 'g': case 'e': case 'E': case 'G': case 'a': sz = lng ? 8 : 4; break;
    case 'c': sz = 1; break;
    default: sz = 0; // string
    }
    if (n == 12) break;
    dst[n] = va_arg(ap, void *); size[n] = sz; ++n;
    if (!*p) break;
  }
  int ret;
  { InRt g;
    ret = f ? __real___isoc23_fscanf(f, fmt, buf[0], buf[1], buf[2], buf[3], buf[4], buf[5], buf[6], buf[7], buf[8], buf[9], buf[10], buf[11])
            : __real___isoc23_sscanf(str, fmt, buf[0], buf[1], buf[2], buf[3], buf[4], buf[5], buf[6], buf[7], buf[8], buf[9], buf[10], buf[11]); }
  for (int i = 0; i < ret && i < n; ++i) {
    size_t k = size[i] ? size[i] : strlen(buf[i]) + 1;
    hook((uintptr_t)dst[i], k, false, true, false, pc);
    __real_memcpy(dst[i], buf[i], k);
  }
  return ret;
}
extern "C" {
#define SCANW(N) \
  int __real_##N(FILE *, const char *, ...); int __wrap_##N(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r; if (R && R->in_exec) r = scan(f, nullptr, fmt, ap, PC()); else r = vfscanf(f, fmt, ap); va_end(ap); return r; }
#define SSCANW(N) \
  int __real_##N(const char *, const char *, ...); int __wrap_##N(const char *s, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r; if (R && R->in_exec) r = scan(nullptr, s, fmt, ap, PC()); else r = vsscanf(s, fmt, ap); va_end(ap); return r; }
SCANW(__isoc23_fscanf) SCANW(__isoc99_fscanf) SCANW(fscanf)
SSCANW(__isoc23_sscanf) SSCANW(__isoc99_sscanf) SSCANW(sscanf)
}
namespace mc {
void vfile_set(const char *name, const std::string &c) { InRt g; VF &v = (*g_vf)[rstr(name)]; v.data.assign(c.data(), c.size()); v.unwritable = false; }
bool vfile_get(const char *name, std::string *out) { VF *v; { InRt g; auto it = g_vf->find(rstr(name)); if (it == g_vf->end()) return false; v = &it->second; } out->assign(v->data.data(), v->data.size()); return true; }
void vfile_unwritable(const char *name) { InRt g; (*g_vf)[rstr(name)].unwritable = true; }
int open_files() { return (int)g_open->size(); }
}

// ------------------------------------------------------------ explorer
static inline bool overlap(const Op &a, const Op &b) {
  if (a.kind != b.kind) return false;
  if (a.kind == OP_ACC) return a.addr < b.addr + b.size && b.addr < a.addr + a.size;
  return a.addr == b.addr;
}
static inline bool dependent(const Op &a, const Op &b) { return overlap(a, b) && (a.write || b.write); }

static uint64_t peek(uintptr_t a, size_t n) { uint64_t v = 0; __real_memcpy(&v, (void *)a, n); return v; }

static NOSNAP char *g_spec_buf = nullptr;
// would the pending await read of fiber t leave its loop with the current memory?
static bool await_passes(int t) {
  Rt *r = R;
  Fiber &f = r->f[t];
  uint64_t v = peek(f.op.addr, f.op.size);
  if (f.fail_valid && f.fail_val == v) return false;
  uintptr_t top = STACKS + (t + 1) * STACK_SZ;
  uintptr_t lo = (uintptr_t)f.sp - 4096;
  if (lo < STACKS + t * STACK_SZ) lo = STACKS + t * STACK_SZ;
  // save the stack part in use (red zone below sp is not used across calls) and run
  size_t n = top - (uintptr_t)f.sp;
  __real_memcpy(g_spec_buf, f.sp, n);
  Fiber save = f;
  r->spec = t; r->spec_op = f.op; r->spec_same = false; r->spec_steps = 0; r->spec_ncomp = 0; r->spec_nprev = -1;
  int oc = r->cur;
  r->cur = t; r->in_exec = true;
  void *sp = f.sp;
  mc_switch(&r->sched_sp, sp);
  r->in_exec = false;
  r->spec = -1; r->cur = oc;
  f = save;
  __real_memcpy(f.sp, g_spec_buf, n);
  if (r->spec_same) { f.fail_valid = true; f.fail_val = v; f.ncomp = r->spec_ncomp; for (int i = 0; i < f.ncomp; ++i) f.comp[i] = r->spec_comp[i]; return false; }
  return true;
}

static WordEnt *word_ent(uintptr_t w) {
  uint32_t h = (uint32_t)((w * 0x9E3779B97F4A7C15ull) >> 48);
  for (;; ++h) {
    WordEnt *e = &g_word[h & (NWORD - 1)];
    if (e->stamp != g_word_stamp) { e->stamp = g_word_stamp; e->word = w; e->last = -1; return e; }
    if (e->word == w) return e;
  }
}
static SyncEnt *sync_ent(uintptr_t a) {
  uint32_t h = (uint32_t)((a * 0x9E3779B97F4A7C15ull) >> 40);
  for (int k = 0; k < NSYNC; ++k, ++h) {
    SyncEnt *e = &g_sync[h & (NSYNC - 1)];
    if (e->stamp != g_sync_stamp) { e->stamp = g_sync_stamp; e->addr = a; __real_memset(&e->vc, 0, sizeof e->vc); return e; }
    if (e->addr == a) return e;
  }
  fprintf(stderr, "mc: sync table full\n"); _exit(3);
}
static bool key_conflict(const Event &e, const Op &o) {
  if (e.kind != o.kind) return false;
  if (!(e.write || o.write)) return false;
  if (o.kind == OP_ACC) return e.addr < o.addr + o.size && o.addr < e.addr + e.size;
  return e.addr == o.addr;
}
static uintptr_t word_key(uint8_t kind, uintptr_t a) { return kind == OP_ACC ? (a >> 3) << 3 | 1 : (a << 4) | (kind << 1); }

static void add_backtrack(const Event &e, int ei, int p, const VC &pclk) {
  Rt *r = R;
  Node &nd = r->stack[e.node];
  uint32_t I = 0;
  const Event *first[MAXT] = {0};
  int n = (int)r->ev.size();
  for (int k = ei + 1; k < n; ++k) {
    const Event &x = r->ev[k];
    if (x.clk.c[e.tid] >= e.seq) continue; // happens after e
    if (first[x.tid]) continue;
    bool init = true;
    for (int t = 0; t < MAXT; ++t) if (t != x.tid && first[t] && x.clk.c[t] >= first[t]->seq) { init = false; break; }
    first[x.tid] = &x;
    if (init) I |= 1u << x.tid;
  }
  if (!first[p]) {
    bool init = true;
    for (int t = 0; t < MAXT; ++t) if (t != p && first[t] && pclk.c[t] >= first[t]->seq) { init = false; break; }
    if (init) I |= 1u << p;
  }
  if (nd.frozen || (nd.backtrack & I)) return;
  uint32_t c = I & nd.enabled;
  if (!c) { nd.backtrack |= nd.enabled; return; }
  if (c & (1u << p)) nd.backtrack |= 1u << p;
  else nd.backtrack |= c & -c;
}

static NOSNAP rvec<int> *g_cand = nullptr;
// record the event of fiber t executing its pending op; do race analysis
static void record_event(int t, int node) {
  Rt *r = R;
  Fiber &f = r->f[t];
  Op op = f.op;
  VC &clk = r->dc[t];
  bool dpor = r->opt->preempt < 0 && r->opt->delay < 0;
  uintptr_t w0 = word_key(op.kind, op.addr), w1 = op.kind == OP_ACC ? word_key(op.kind, op.addr + op.size - 1) : w0;
  bool multi = op.kind == OP_ACC && w1 > w0 + 8;
  if (dpor) {
    rvec<int> &cand = *g_cand;
    cand.clear();
    if (multi) { for (int i = (int)r->ev.size() - 1; i >= r->ev_floor; --i) cand.push_back(i); }
    else {
      WordEnt *e = word_ent(w0);
      for (int i = e->last; i >= r->ev_floor;) { cand.push_back(i); Event &x = r->ev[i]; i = word_key(x.kind, x.addr) == w0 ? x.prev0 : x.prev1; }
      bool srt = false;
      if (w1 != w0) { e = word_ent(w1); for (int i = e->last; i >= r->ev_floor;) { cand.push_back(i); Event &x = r->ev[i]; i = word_key(x.kind, x.addr) == w1 ? x.prev0 : x.prev1; } srt = true; }
      for (int i : *g_multi_ev) if (i >= r->ev_floor) { cand.push_back(i); srt = true; }
      if (srt) { std::sort(cand.begin(), cand.end(), [](int a, int b) { return a > b; }); cand.erase(std::unique(cand.begin(), cand.end()), cand.end()); }
    }
    VC pre = clk;
    for (int i : cand) {
      Event &e = r->ev[i];
      if (e.tid == t) continue;
      if (!key_conflict(e, op)) continue;
      if (op.await) { if (pre.c[e.tid] < e.seq) add_backtrack(e, i, t, pre); vjoin(clk, e.clk); continue; }
      if (clk.c[e.tid] < e.seq) { add_backtrack(e, i, t, clk); vjoin(clk, e.clk); }
    }
    if (op.kind == OP_LOCK) vjoin(clk, lock_of(op.addr)->dclk);
  }
  Event e; __real_memset(&e, 0, sizeof e);
  clk.c[t]++;
  e.tid = t; e.write = op.write; e.kind = op.kind; e.await = op.await; e.multi = multi;
  e.seq = clk.c[t]; e.size = op.size; e.addr = op.addr; e.clk = clk; e.node = node; e.pc = op.pc; e.prev0 = e.prev1 = -1;
  int idx = (int)r->ev.size();
  if (dpor) {
    if (multi) g_multi_ev->push_back(idx);
    else {
      WordEnt *w = word_ent(w0); e.prev0 = w->last; w->last = idx;
      if (w1 != w0) { w = word_ent(w1); e.prev1 = w->last; w->last = idx; }
    }
  }
  r->ev.push_back(e);
  r->n_events++;
  // synchronisation clocks for the plain race detector
  if (op.kind == OP_ACC && op.sync) {
    SyncEnt *s = sync_ent(op.addr);
    if (op.read) vjoin(r->vc[t], s->vc);
    if (op.write) { vjoin(s->vc, r->vc[t]); r->vc[t].c[t]++; }
  } else if (op.kind == OP_SINGLE || op.kind == OP_LOOP) {
    // no happens-before from losing/winning a single (only its barrier orders)
  }
  if (op.write) {
    r->write_stamp++;
    // a wait loop was skipped on the assumption that nobody else writes its other locations
    if (op.kind == OP_ACC) for (int u = 0; u < r->team; ++u) {
      Fiber &g = r->f[u];
      if (u == t || g.st != F_PENDING || !g.op.await || !g.fail_valid) continue;
      for (int i = 0; i < g.ncomp; ++i)
        if (g.comp[i] != g.op.addr && g.comp[i] >= op.addr && g.comp[i] < op.addr + op.size) { r->spin_pc[pcidx(g.op.pc)] = 2; r->need_restart = true; }
    }
  }
  // spin learning
  if (op.kind == OP_ACC && op.read && !op.write && op.size <= 8) {
    uint64_t v = peek(op.addr, op.size);
    if (f.last_was_read && f.last_op.addr == op.addr && f.last_op.pc == op.pc && f.last_val == v) {
      ++f.rep;
      if (op.sync && f.rep >= 2 && !f.wrote_since && !op.await) {
        uint32_t i = pcidx(op.pc);
        if (!r->spin_pc[i]) { r->spin_pc[i] = 1; r->need_restart = true; }
      }
      if (f.rep >= 4) { f.spinning = true; f.spin_stamp = r->write_stamp; }
    } else f.rep = 0;
    f.last_was_read = true; f.last_op = op; f.last_val = v; f.wrote_since = false;
    // longer read-only cycles
    if (f.ring_stamp != r->write_stamp) { f.ring_stamp = r->write_stamp; f.ring_n = 0; f.cyc = 0; f.wrote_cyc = false; }
    uint64_t h = (op.addr * 0x9E3779B97F4A7C15ull) ^ ((uint64_t)op.pc << 17) ^ v * 1099511628211ull;
    bool hit = false;
    for (int i = 0; i < f.ring_n && i < 16; ++i) if (f.ring[i] == h) hit = true;
    if (hit && op.sync && !op.await && f.cyc >= 5 && f.cyc >= 2 * f.ring_n && !f.wrote_cyc) {
      uint32_t i = pcidx(op.pc);
      if (!r->spin_pc[i]) { r->spin_pc[i] = 1; r->need_restart = true; }
    }
    if (hit) { if (++f.cyc >= 60) { f.spinning = true; f.spin_stamp = r->write_stamp; } }
    else { f.ring[f.ring_n & 15] = h; f.ring_n++; f.cyc = 0; f.wrote_cyc = false; }
  } else { f.last_was_read = false; f.rep = 0; f.cyc = 0; f.ring_n = 0; f.spinning = false; }
}

static void body_entry(void *) { (*R->body)(); }

static void sched_fail(const char *key, const char *msg) {
  Rt *r = R;
  if (!r->failed) { r->failed = true; snprintf(r->fkey, sizeof r->fkey, "%s", key); snprintf(r->fmsg, sizeof r->fmsg, "%s", msg); }
  r->aborted = true;
}

static NOSNAP volatile sig_atomic_t g_tick = 0;

static void run_execution() {
  Rt *r = R;
  // reset

  {
    char *a = __data_start, *b = __start_mc_nosnap, *c = __stop_mc_nosnap, *d = _end;
    if (b >= a && c <= d) { __real_memcpy(a, r->snap, b - a); __real_memcpy(c, r->snap + (c - a), d - c); }
    else __real_memcpy(a, r->snap, d - a);
  }
  arena_reset();
  r->fill = r->opt->fill;
  r->nthreads = r->opt->threads; r->team = 1; r->level = 0; r->multi = false; r->arrived = 0;
  r->single_slots.clear(); r->loops.clear();
  r->ev.clear(); r->ev_floor = 0; g_word_stamp++; g_sync_stamp++; g_multi_ev->clear(); g_locks->clear();
  r->epoch++;
  __real_memset(r->vc, 0, sizeof r->vc); __real_memset(r->dc, 0, sizeof r->dc);
  r->depth = 0; r->lastrun = 0; r->write_stamp = 1; r->wakeups = 0; r->accesses = 0; r->frozen = false; r->phase = 0; r->focus_lo = 0; r->focus_hi = 1 << 30;
  r->aborted = r->pruned = r->failed = r->overflow = r->reject_ok = r->huge_ok = r->step_barriers = false;
  for (int t = 0; t < MAXT; ++t) r->f[t].st = F_NONE;
  g_vf->clear();
  g_fake_time = 1.0;
  fiber_init(0, body_entry, nullptr);
  r->exec_active = true;
  g_tick = 0;
  srand(1);
  for (;;) {
    // run everything that is ready up to its next visible operation
    bool again = true;
    while (again && !r->aborted) {
      again = false;
      for (int t = 0; t < MAXT && !r->aborted; ++t)
        if (r->f[t].st == F_READY) { resume(t); again = true; }
      if (r->aborted) break;
      if (r->multi) {
        int done = 0;
        for (int t = 1; t < r->team; ++t) done += r->f[t].st == F_DONE;
        if (r->f[0].st == F_JOIN && done == r->team - 1) {
          for (int t = 1; t < r->team; ++t) { vjoin(r->vc[0], r->vc[t]); vjoin(r->dc[0], r->dc[t]); r->f[t].st = F_NONE; }
          for (int t = 0; t < MAXT; ++t) { r->vc[t] = r->vc[0]; }
          r->f[0].st = F_READY; again = true;
        } else if (r->arrived == r->team) {
          r->arrived = 0;
          for (int t = 1; t < r->team; ++t) if (r->f[t].btype != r->f[0].btype) { sched_fail("barrier-mismatch", "threads meet at different kinds of barrier"); break; }
          if (r->aborted || r->failed) break;
          VC a = r->vc[0], b = r->dc[0];
          for (int t = 1; t < r->team; ++t) { vjoin(a, r->vc[t]); vjoin(b, r->dc[t]); }
          for (int t = 0; t < r->team; ++t) { r->vc[t] = a; r->vc[t].c[t]++; r->dc[t] = b; r->f[t].st = F_READY; r->f[t].last_was_read = false; r->f[t].spinning = false; }
          r->epoch++; g_sync_stamp++; r->phase++;
          r->ev_floor = (int)r->ev.size();
          again = true;
        }
      }
    }
    if (r->aborted || r->need_restart || r->f[0].st == F_DONE) break;
    // scheduling decision
    uint32_t pend = 0, en = 0, spin = 0; bool woken = false;
    for (int t = 0; t < r->team; ++t) {
      Fiber &f = r->f[t];
      if (f.st != F_PENDING) continue;
      pend |= 1u << t;
      if (f.op.kind == OP_LOCK) { if (lock_of(f.op.addr)->owner >= 0) continue; }
      else if (f.op.kind == OP_SINGLE) f.op.write = !r->single_slots[f.op.addr - 16];
      else if (f.op.await && !await_passes(t)) continue;
      if (f.spinning && f.spin_stamp == r->write_stamp) { spin |= 1u << t; continue; }
      en |= 1u << t;
    }
    if (!en) {
      // nobody can make progress: let waiting readers go on (they may be bounded loops), then give a verdict
      uint32_t w = spin;
      if (!w) for (int t = 0; t < r->team; ++t) if ((pend >> t & 1) && r->f[t].op.kind == OP_ACC && r->f[t].op.await) w |= 1u << t;
      bool plain = false; // reads of ordinary variables: rather a long loop over the same element than a wait
      for (int t = 0; t < r->team; ++t) if ((w >> t & 1) && !r->f[t].op.sync) plain = true;
      if (!w || ++r->wakeups > (plain ? 10000 : 400)) {
        char st[256]; int o = 0;
        for (int t = 0; t < r->team; ++t) {
          Fiber &f = r->f[t];
          o += snprintf(st + o, sizeof st - o, " t%d:%s", t, f.st == F_BARRIER ? "barrier" : f.st == F_JOIN || f.st == F_DONE ? "finished" : f.op.kind == OP_LOCK ? "lock" : "wait-loop");
          if (f.st == F_PENDING) o += snprintf(st + o, sizeof st - o, "@pc:0x%x", f.op.pc);
        }
        char msg[400]; snprintf(msg, sizeof msg, "no thread can make progress:%s", st);
        sched_fail("deadlock", msg);
        break;
      }
      en = w; woken = true;
    }
    if ((long)r->ev.size() > r->opt->max_events) { r->overflow = true; r->aborted = true; break; }
    Node *nd;
    if (r->depth < r->stack.size()) {
      nd = &r->stack[r->depth];
      if (nd->kind != 0 || nd->enabled != en) { fprintf(stderr, "mc: replay diverged (depth %zu, enabled %x vs %x)\n", r->depth, en, nd->enabled); _exit(4); }
    } else {
      Node x; __real_memset(&x, 0, sizeof x);
      x.enabled = en; x.lastrun = r->lastrun;
      for (int t = 0; t < r->team; ++t) x.ops[t] = r->f[t].op;
      x.dflt = en >> r->lastrun & 1 ? r->lastrun : en >> (r->lastrun + 1) ? __builtin_ctz(en >> (r->lastrun + 1)) + r->lastrun + 1 : __builtin_ctz(en);
      if (r->order == 1 && !woken) x.dflt = 31 - __builtin_clz(en);
      else if (r->order == 2 && !woken) x.dflt = __builtin_ctz(en);
      if (r->depth > 0) {
        Node &pr = r->stack[r->depth - 1];
        if (pr.kind != 0) x.preempts = pr.preempts;
        if (pr.kind == 0) {
          uint32_t s = (pr.sleep | pr.done) & ~(1u << pr.chosen);
          for (int q = 0; q < MAXT; ++q) if ((s >> q & 1) && (pend >> q & 1) && !dependent(pr.ops[q], pr.ops[pr.chosen])) x.sleep |= 1u << q;
          x.preempts = pr.preempts + (r->opt->delay >= 0 ? pr.chosen != pr.dflt : (pr.enabled >> pr.lastrun & 1) && pr.chosen != pr.lastrun);
        }
      }
      if (r->opt->preempt >= 0) {
        x.sleep = 0;
        bool keep = en >> r->lastrun & 1;
        x.backtrack = keep && x.preempts >= r->opt->preempt ? 1u << r->lastrun : en;
      }
      if (r->opt->delay >= 0) { x.sleep = 0; x.backtrack = x.preempts >= r->opt->delay ? 1u << x.dflt : en; }
      uint32_t av = en & ~x.sleep;
      if (!av) { r->pruned = true; r->aborted = true; break; }
      x.chosen = (av >> x.dflt & 1) ? x.dflt : __builtin_ctz(av);
      x.frozen = r->frozen || r->phase < r->focus_lo || r->phase >= r->focus_hi;
      if ((r->opt->preempt < 0 && r->opt->delay < 0) || x.frozen) x.backtrack = 1u << x.chosen;
      r->stack.push_back(x);
      r->n_nodes++;
      nd = &r->stack.back();
    }
    int t = nd->chosen;
    if (!(en >> t & 1)) { fprintf(stderr, "mc: chosen thread not enabled on replay\n"); _exit(4); }
    record_event(t, (int)r->depth);
    r->depth++;
    r->lastrun = t;
    if (r->need_restart) break; // a program point became visible or was recognised as a wait loop: start over
    resume(t);
    if (r->aborted) break;
  }
  r->exec_active = false; r->in_exec = false; r->multi = false; r->level = 0; r->spec = -1;
  for (FILE *f : *g_open) __real_fclose(f);
  g_open->clear();
}

namespace mc {
int choose(int n) {
  Rt *r = R;
  InRt g;
  if (r->multi) { fprintf(stderr, "mc::choose in parallel region\n"); _exit(3); }
  if (n <= 1) return 0;
  Node *nd;
  if (r->depth < r->stack.size()) {
    nd = &r->stack[r->depth];
    if (nd->kind != 1 || nd->nopts != n) { fprintf(stderr, "mc: replay diverged at choose\n"); _exit(4); }
  } else {
    Node x; __real_memset(&x, 0, sizeof x);
    x.kind = 1; x.nopts = n; x.chosen = 0;
    if (r->depth > 0) { Node &pr = r->stack[r->depth - 1]; x.preempts = pr.preempts + (pr.kind == 0 && (r->opt->delay >= 0 ? pr.chosen != pr.dflt : (pr.enabled >> pr.lastrun & 1) && pr.chosen != pr.lastrun)); }
    r->stack.push_back(x); r->n_nodes++;
    nd = &r->stack.back();
  }
  r->depth++;
  return nd->chosen;
}
void freeze(bool on) { R->frozen = on; }
int phase() { return R->phase; }
void focus(int first, int n) { R->focus_lo = first; R->focus_hi = first + n; }
void set_threads(int n) { R->nthreads = n; }
bool in_arena(const void *p) { return inarena((uintptr_t)p); }
void explored(long states, long transitions) { R->n_nodes += states; R->n_events += transitions; R->accesses = 0; }
void step_barriers(bool on) { R->step_barriers = on; }
void huge_pages(bool on) { R->huge_ok = on; }
void assertion_is_answer(bool on) { R->reject_ok = on; }
bool is_live(const void *p, size_t n) {
  uintptr_t a = (uintptr_t)p;
  if (!inarena(a)) return false;
  for (size_t i = 0; i < n; ++i) if (*shadow(a + i) != 1) return false;
  return true;
}
bool is_block(const void *p) {
  InRt g;
  for (uintptr_t q : R->blocks) if (q == (uintptr_t)p) return ((Hdr *)(q - HDR))->st == 1;
  return false;
}
void readable(const void *p, size_t n, const char *what) {
  if (n == 0) return;
  if (!p) fail("null-result", "%s is NULL", what);
  if (inarena((uintptr_t)p) && !is_live(p, n)) fail("short-result", "%s does not cover %zu bytes of live memory", what, n);
}
long live_blocks() { return (long)R->live; }
std::string live_summary() {
  rstr s;
  { InRt g; for (uintptr_t p : R->blocks) { Hdr *h = (Hdr *)(p - HDR); if (h->st == 1) { char b[32]; snprintf(b, 32, "%zu ", h->size); if (s.size() < 200) s += b; } } }
  return std::string(s.data(), s.size());
}
int tid() { return R->cur; }
}

// ------------------------------------------------------------ driver: workers, replay, reports
struct Shared {
  std::atomic<long> next;
  std::atomic<long> cases, execs, pruned, events, nodes, trunc, inconcl, restarts, skipped_time, outcomes, terms;
  std::atomic<int> nviol;
  std::atomic<long> maxdepth;
  struct V { char id[512]; char key[128]; char msg[1024]; char sched[4096]; long idx; } v[64];
  struct Cur { long idx; char id[512]; char sched[4096]; } cur[16];
  char samples[8][512];
  std::atomic<int> nsamples;
  char trunc_id[4][512];
  struct Top { long execs; float sec; char id[256]; } top[16][6];
  char bounds[8][256]; int nbounds;
};
static NOSNAP Shared *S = nullptr;
static NOSNAP long g_idx = -1, g_claim = -1, g_total = 0;
static NOSNAP int g_worker = 0, g_nworkers = 8, g_tier = 0, g_variant = 0;
static NOSNAP const char *g_prop = "P";
static NOSNAP double g_deadline = 0;
static NOSNAP bool g_replay = false, g_count_only = false, g_list = false;
static NOSNAP long g_only = -1;
static NOSNAP int g_max_viol = 40;
static NOSNAP std::set<uint64_t, std::less<uint64_t>, RealAlloc<uint64_t>> *g_outcomes = nullptr;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void sched_string(char *buf, size_t n) {
  Rt *r = R; size_t o = 0; buf[0] = 0;
  for (size_t i = 0; i < r->stack.size() && o + 8 < n; ++i)
    o += snprintf(buf + o, n - o, "%s%d", i ? "," : "", r->stack[i].chosen);
}
static void report(const char *id, const char *key, const char *msg, const char *sched) {
  int i = S->nviol.fetch_add(1);
  if (i >= 64) return;
  Shared::V &v = S->v[i];
  snprintf(v.id, sizeof v.id, "%s", id); snprintf(v.key, sizeof v.key, "%s", key);
  snprintf(v.msg, sizeof v.msg, "%s", msg); snprintf(v.sched, sizeof v.sched, "%s", sched);
  v.idx = g_idx;
}

namespace mc {
int tier() { return g_tier; }
int variant() { return g_variant; }
const char *prop() { return g_prop; }
void bound(const char *t) { if (g_worker == 0 && S && S->nbounds < 8) snprintf(S->bounds[S->nbounds++], 256, "%s", t); }
void outcome(uint64_t h) { InRt g; if (g_outcomes->size() < 2000000) g_outcomes->insert(h); }
bool mine() {
  ++g_idx; ++g_total;
  if (g_count_only) return false;
  if (g_only >= 0) return g_idx == g_only;
  if (g_claim < g_idx) { while (g_claim < g_idx) g_claim = S->next.fetch_add(1); }
  if (g_claim != g_idx) return false;
  if (now() > g_deadline) { S->skipped_time++; return false; }
  if (S->nviol.load() >= g_max_viol) { S->skipped_time++; return false; }
  return true;
}
void run(const std::string &id, const Options &o, const std::function<void()> &body) {
  Rt *r = R;
  if (g_list) { printf("%ld %s\n", g_idx, id.c_str()); return; }
  Shared::Cur &c = S->cur[g_worker];
  c.idx = g_idx; snprintf(c.id, sizeof c.id, "%s", id.c_str()); c.sched[0] = 0;
  r->opt = &o; r->body = &body;
  struct itimerval tv = {{1, 0}, {1, 0}};
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  long execs = 0;
  double case_t0 = now();
  bool failed = false;
  int restarts = 0;
  rvec<uint8_t> vis0, spin0;
  if (o.isolate) { vis0 = r->visible_pc; spin0 = r->spin_pc; }
  Options other = o; // after the bounded exploration: the two interleavings in which the highest (lowest) thread that can go on always does
  other.preempt = -1; other.delay = 0; other.max_events *= 25; // waiting threads are asked again after every write
  bool orders = o.threads > 1 && (o.delay >= 0 || o.preempt >= 0), trunc;
  int pass;
restart:
  pass = 0; execs = 0; trunc = false;
next_pass:
  r->opt = pass ? &other : &o; r->order = pass;
  r->stack.clear();
  r->need_restart = false;
  for (;;) {
    run_execution();
    ++execs; r->n_exec++;
    if (r->pruned) r->n_pruned++; else r->n_term++;
    if ((long)r->stack.size() > S->maxdepth) S->maxdepth = (long)r->stack.size();
    if (r->overflow) { r->n_inconcl++; trunc = true; }
    if (r->need_restart) { if (++restarts > 2000) { fprintf(stderr, "mc: too many restarts\n"); _exit(4); } goto restart; }
    if (r->failed) {
      char sched[4096]; sched_string(sched, sizeof sched);
      char key[128], msg[1024]; __real_memcpy(key, r->fkey, sizeof key); __real_memcpy(msg, r->fmsg, sizeof msg);
      // confirm by replaying exactly the same choices
      r->need_restart = false;
      run_execution();
      if (!r->failed || strcmp(key, r->fkey)) { fprintf(stderr, "mc: violation %s (%s) of case %s did not replay (%s %s)\n", key, msg, id.c_str(), r->failed ? r->fkey : "passed", r->failed ? r->fmsg : ""); _exit(4); }
      report(id.c_str(), key, msg, sched);
      if (g_only >= 0) for (Event &e : r->ev)
        fprintf(stderr, "  t%d %s%s addr=0x%lx size=%u @pc:0x%x\n", e.tid, e.kind == OP_ACC ? (e.await ? "await-" : "") : e.kind == OP_LOCK ? "lock-" : e.kind == OP_SINGLE ? "single-" : "loop-", e.write ? "write" : "read", (unsigned long)e.addr, e.size, e.pc);
      failed = true;
      break;
    }
    // next schedule
    bool more = false;
    while (!r->stack.empty()) {
      Node &n = r->stack.back();
      if (n.kind == 1) {
        if (n.chosen + 1 < n.nopts) { n.chosen++; more = true; break; }
        r->stack.pop_back();
        continue;
      }
      n.done |= 1u << n.chosen;
      uint32_t cand = n.backtrack & n.enabled & ~n.done & ~n.sleep;
      if (cand) { n.chosen = __builtin_ctz(cand); more = true; break; }
      r->stack.pop_back();
    }
    if (!more) break;
    if (execs >= o.max_exec || now() > g_deadline + 20) { trunc = true; break; }
  }
  if (orders && !failed && !trunc && pass < 2) { ++pass; goto next_pass; }
  r->opt = &o; r->order = 0;
  if (trunc) { r->n_trunc++; if (S->trunc < 4) snprintf(S->trunc_id[S->trunc.load() & 3], 512, "%s", id.c_str()); S->trunc++; }
  if (o.isolate) { r->visible_pc = vis0; r->spin_pc = spin0; }
  r->n_cases++;
  {
    Shared::Top *tp = S->top[g_worker], *mn = tp;
    for (int i = 1; i < 6; ++i) if (tp[i].sec < mn->sec) mn = tp + i;
    float d = (float)(now() - case_t0);
    if (d > mn->sec) { mn->sec = d; mn->execs = execs; snprintf(mn->id, sizeof mn->id, "%s", id.c_str()); }
  }
  S->restarts += restarts;
  (void)failed;
  if (g_worker == 0 || g_only >= 0) {
    long k = r->n_cases;
    if ((k & (k - 1)) == 0) { int i = S->nsamples.fetch_add(1); snprintf(S->samples[i & 7], 512, "%s [%ld schedules]", id.c_str(), execs); }
  }
}
}

static void on_sig(int sig, siginfo_t *si, void *uc) {
  Rt *r = R;
  if (sig == SIGVTALRM) {
    if (++g_tick < 12 || !r->exec_active) return;
    if (r->in_exec && r->spec < 0) mc::fail("no-termination", "no end after 12 s of CPU time (endless loop)");
    return;
  }
  if (r && r->in_exec) {
    if (r->spec >= 0) spec_leave(false);
    char m[128]; snprintf(m, sizeof m, "signal %d at address %p @pc:0x%lx", sig, si->si_addr, (unsigned long)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP]);
    const char *k = sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : sig == SIGILL ? "SIGILL" : "SIGBUS";
    mc::fail(k, "%s", m);
  }
  fprintf(stderr, "mc: internal signal %d at %p (case %s)\n", sig, si->si_addr, S ? S->cur[g_worker].id : "?");
  signal(sig, SIG_DFL); raise(sig);
}

static void *map_at(uintptr_t a, size_t n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return p;
}
static void rt_init() {
  R = new (__real_malloc(sizeof(Rt))) Rt();
  map_at(ARENA, ARENA_SIZE); map_at(STACKS, STACKS_SIZE); map_at(SHADOW, ARENA_SIZE);
  map_at(CELLS_A, ARENA_SIZE * sizeof(Cell)); map_at(CELLS_S, STACKS_SIZE * sizeof(Cell));
  map_at(CELLS_G, ((size_t)(_end - __data_start) + 16) * sizeof(Cell));
  for (int t = 0; t < MAXT; ++t) mprotect((void *)(STACKS + t * STACK_SZ), 4096, PROT_NONE);
  g_sync = (SyncEnt *)__real_calloc(NSYNC, sizeof(SyncEnt));
  g_word = (WordEnt *)__real_calloc(NWORD, sizeof(WordEnt));
  g_locks = new (__real_malloc(sizeof(*g_locks))) rvec<LockEnt>();
  g_multi_ev = new (__real_malloc(sizeof(*g_multi_ev))) rvec<int>();
  g_cand = new (__real_malloc(sizeof(*g_cand))) rvec<int>();
  g_open = new (__real_malloc(sizeof(*g_open))) rvec<FILE *>();
  g_vf = new (__real_malloc(sizeof(*g_vf))) std::remove_reference<decltype(*g_vf)>::type();
  g_outcomes = new (__real_malloc(sizeof(*g_outcomes))) std::remove_reference<decltype(*g_outcomes)>::type();
  g_spec_buf = (char *)__real_malloc(STACK_SZ);
  size_t text = (size_t)(etext - __executable_start) + 64;
  R->visible_pc.assign(text, 0); R->spin_pc.assign(text, 0);
  R->ev.reserve(1024); R->stack.reserve(1024);
  stack_t ss; ss.ss_sp = __real_malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa; __real_memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM};
  for (int s : sigs) sigaction(s, &sa, nullptr);
}
static void take_snapshot() {
  size_t n = _end - __data_start;
  R->snap = (char *)__real_malloc(n); R->snap_n = n;
  __real_memcpy(R->snap, __data_start, n);
}
static void jstr(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
  fputc('"', f);
}
int main(int argc, char **argv) {
  double budget = 60; const char *out = nullptr; const char *sched = nullptr;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return argv[++i]; };
    if (a == "--prop") g_prop = nx();
    else if (a == "--tier") g_tier = !strcmp(nx(), "thorough");
    else if (a == "--workers") g_nworkers = atoi(nx());
    else if (a == "--budget") budget = atof(nx());
    else if (a == "--variant") g_variant = atoi(nx());
    else if (a == "--out") out = nx();
    else if (a == "--case") g_only = atol(nx());
    else if (a == "--sched") sched = nx();
    else if (a == "--list") g_list = true;
    else if (a == "--max-viol") g_max_viol = atoi(nx());
    else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
  }
  (void)sched;
  if (g_nworkers > 16) g_nworkers = 16;
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (S) Shared();
  double t0 = now();
  g_deadline = t0 + budget;
  if (g_list) { rt_init(); take_snapshot(); g_only = -2; S->next = 0; g_only = -1; g_nworkers = 1; mc_enumerate(); return 0; }
  if (g_only >= 0) g_nworkers = 1;
  pid_t pid[16]; int alive = 0;
  auto spawn = [&](int w) {
    fflush(nullptr);
    pid[w] = fork();
    if (pid[w] == 0) {
      g_worker = w;
      int devnull = open("/dev/null", O_WRONLY);
      if (g_only < 0) { dup2(devnull, 1); if (!getenv("MC_VERBOSE")) { int keep = dup(2); (void)keep; } }
      rt_init();
      take_snapshot();
      mc_enumerate();
      Rt *r = R;
      S->cases += r->n_cases; S->execs += r->n_exec; S->pruned += r->n_pruned; S->events += r->n_events; S->nodes += r->n_nodes; S->inconcl += r->n_inconcl; S->terms += r->n_term;
      S->outcomes += (long)g_outcomes->size();
      _exit(0);
    }
    if (pid[w] < 0) { perror("fork"); _exit(3); }
    ++alive;
  };
  for (int w = 0; w < g_nworkers; ++w) spawn(w);
  int rc = 0, crashes = 0;
  while (alive > 0) {
    int st; pid_t p = wait(&st);
    if (p < 0) break;
    --alive;
    int w = -1;
    for (int i = 0; i < g_nworkers; ++i) if (pid[i] == p) w = i;
    if (w < 0) continue;
    if (WIFSIGNALED(st)) {
      g_idx = S->cur[w].idx;
      char m[128]; snprintf(m, sizeof m, "checker process died with signal %d while running this case", WTERMSIG(st));
      report(S->cur[w].id, "crash", m, "");
      if (++crashes < 20 && g_only < 0) spawn(w);
    } else if (WEXITSTATUS(st)) { rc = WEXITSTATUS(st); fprintf(stderr, "mc: worker failed with status %d in case %ld %s\n", rc, S->cur[w].idx, S->cur[w].id); }
  }
  FILE *f = out ? fopen(out, "w") : stdout;
  int nv = std::min(S->nviol.load(), 64);
  fprintf(f, "{\"rc\":%d,\"wall\":%.2f,\"cases\":%ld,\"schedules\":%ld,\"pruned\":%ld,\"events\":%ld,\"nodes\":%ld,\"terminals\":%ld,\"truncated\":%ld,\"inconclusive\":%ld,\"restarts\":%ld,\"skipped\":%ld,\"outcomes\":%ld,\"maxdepth\":%ld,\n\"violations\":[",
          rc, now() - t0, S->cases.load(), S->execs.load(), S->pruned.load(), S->events.load(), S->nodes.load(), S->terms.load(), S->trunc.load(), S->inconcl.load(), S->restarts.load(), S->skipped_time.load(), S->outcomes.load(), S->maxdepth.load());
  for (int i = 0; i < nv; ++i) {
    Shared::V &v = S->v[i];
    fprintf(f, "%s\n{\"idx\":%ld,\"case\":", i ? "," : "", v.idx); jstr(f, v.id);
    fprintf(f, ",\"key\":"); jstr(f, v.key); fprintf(f, ",\"msg\":"); jstr(f, v.msg); fprintf(f, ",\"schedule\":"); jstr(f, v.sched); fprintf(f, "}");
  }
  fprintf(f, "],\n\"samples\":[");
  for (int i = 0; i < std::min(8, S->nsamples.load()); ++i) { fprintf(f, "%s", i ? "," : ""); jstr(f, S->samples[i]); }
  fprintf(f, "],\n\"bounds\":[");
  for (int i = 0; i < S->nbounds; ++i) { fprintf(f, "%s", i ? "," : ""); jstr(f, S->bounds[i]); }
  fprintf(f, "],\n\"truncated_cases\":[");
  for (int i = 0; i < std::min(4L, S->trunc.load()); ++i) { fprintf(f, "%s", i ? "," : ""); jstr(f, S->trunc_id[i]); }
  fprintf(f, "],\n\"top\":[");
  { bool first = true; for (int w = 0; w < 16; ++w) for (int i = 0; i < 6; ++i) if (S->top[w][i].sec > 0.2) { fprintf(f, "%s\n[%.2f,%ld,", first ? "" : ",", S->top[w][i].sec, S->top[w][i].execs); jstr(f, S->top[w][i].id); fprintf(f, "]"); first = false; } }
  fprintf(f, "]}\n");
  if (out) fclose(f);
  return rc ? rc : nv ? 1 : 0;
}
