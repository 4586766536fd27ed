// U01: explicit-state exploration of the memory pool (the real object is the state)
#include "../mc/rt.hpp"
#include "util.hpp"
#include "MemoryPool.hpp"
#include <new>
using namespace mc;
using SpMP::MemoryPool;
extern "C" void *__real_malloc(size_t);
extern "C" void __real_free(void *);
struct Seen { // hash set outside the modelled heap
  uint64_t *t; size_t mask, n = 0;
  explicit Seen(int lg) { mask = ((size_t)1 << lg) - 1; t = (uint64_t *)__real_malloc(sizeof(uint64_t) << lg); for (size_t i = 0; i <= mask; ++i) t[i] = 0; }
  ~Seen() { __real_free(t); }
  bool add(uint64_t h) { // true if new
    if (!h) h = 1;
    size_t i = h & mask;
    while (t[i]) { if (t[i] == h) return false; i = (i + 1) & mask; }
    if (n > mask / 2) return true; // table full: go on without merging states
    t[i] = h; ++n; return true;
  }
};
struct Blk { size_t off, sz; int tag; };
struct Back { Blk b; size_t mark; };
struct Cfg { size_t size; int nreq; size_t req[4]; int align[4]; bool typed; };
struct State { int nb, nf; Back back[12]; Back front[12]; };
static const int MAXB = 12;
struct Walk {
  const Cfg &c; MemoryPool &p; char *base; Seen seen; int tags = 0; long states = 0, trans = 0; char path[256]; int plen = 0;
  Walk(const Cfg &c_, MemoryPool &p_, char *b) : c(c_), p(p_), base(b), seen(20) { path[0] = 0; }
  uint64_t hash(const State &s, int depth) {
    uint64_t h = 1469598103934665603ull;
    auto m = [&](uint64_t v) { h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; };
    m(depth); m(p.getHead()); m(p.getTail()); m(s.nb); m(s.nf);
    for (int i = 0; i < s.nb; ++i) { m(s.back[i].b.off); m(s.back[i].b.sz); m(s.back[i].mark); }
    for (int i = 0; i < s.nf; ++i) { m(s.front[i].b.off); m(s.front[i].b.sz); m(s.front[i].mark); }
    return h;
  }
  void paint(const Blk &b) { for (size_t i = 0; i < b.sz; ++i) base[b.off + i] = (char)(b.tag * 37 + i); }
  void verify(const State &s) {
    auto one = [&](const Blk &b, const char *side) {
      for (size_t i = 0; i < b.sz; ++i) {
        if (base[b.off + i] != (char)(b.tag * 37 + i)) fail("contents", "byte %zu of the live %s block [%zu,+%zu) changed after %s", i, side, b.off, b.sz, path);
        if ((i == 0 || i + 1 == b.sz) && !p.contains(base + b.off + i)) fail("contains", "contains() denies byte %zu of the live %s block [%zu,+%zu) after %s", i, side, b.off, b.sz, path);
      }
    };
    for (int i = 0; i < s.nb; ++i) one(s.back[i].b, "back");
    for (int i = 0; i < s.nf; ++i) one(s.front[i].b, "front");
    if (p.contains(base - 1) || p.contains(base + c.size) || p.contains(nullptr)) fail("contains", "contains() accepts an address outside the buffer after %s", path);
  }
  void gone(const State &s, const Blk &b) { // released blocks no longer belong to the pool
    if (b.sz && (p.contains(base + b.off) || p.contains(base + b.off + b.sz - 1))) fail("contains", "contains() still accepts the released block [%zu,+%zu) after %s", b.off, b.sz, path);
    (void)s;
  }
  void placed(const State &s, char *q, size_t sz, int align) {
    if (q < base || q + sz > base + c.size) fail("out-of-buffer", "block [%ld,+%zu) lies outside the %zu byte buffer after %s", (long)(q - base), sz, c.size, path);
    if ((uintptr_t)q % align) fail("misaligned", "block at offset %ld is not aligned to %d after %s", (long)(q - base), align, path);
    size_t o = q - base;
    auto one = [&](const Blk &b, const char *side) { if (o < b.off + b.sz && b.off < o + sz) fail("overlap", "new block [%zu,+%zu) overlaps the live %s block [%zu,+%zu) after %s", o, sz, side, b.off, b.sz, path); };
    for (int i = 0; i < s.nb; ++i) one(s.back[i].b, "back");
    for (int i = 0; i < s.nf; ++i) one(s.front[i].b, "front");
  }
  // does the request fit strictly inside the free part of the ring?
  bool fits(size_t sz, int align, bool front) {
    size_t h = p.getHead(), t = p.getTail(), a = align;
    sz = (sz + a - 1) / a * a;
    size_t tu = (t + a - 1) / a * a;
    if (!front) {
      if (t >= h) return tu + sz < c.size || sz < h;
      return tu + sz < h;
    }
    size_t hd = h / a * a;
    if (t >= h) return sz <= hd || (sz <= c.size && (c.size - sz) / a * a > t);
    return hd > t + sz;
  }
  void go(const State &s, int depth) {
    if (!depth) return;
    if (!seen.add(hash(s, depth))) return;
    explored(1, 0);
    char saved[sizeof(MemoryPool)];
    memcpy(saved, (void *)&p, sizeof saved);
    int pl = plen;
    auto step = [&](const State &n) { ++trans; verify(n); go(n, depth - 1); memcpy((void *)&p, saved, sizeof saved); plen = pl; path[pl] = 0;
      for (int i = 0; i < s.nb; ++i) paint(s.back[i].b);
      for (int i = 0; i < s.nf; ++i) paint(s.front[i].b); };
    auto note = [&](const char *f, long a, long b) { plen += snprintf(path + plen, sizeof path - plen, f, a, b); if (plen > (int)sizeof path - 1) plen = sizeof path - 1; };
    for (int r = 0; r < c.nreq; ++r) for (int front = 0; front < 2; ++front) {
      if ((front ? s.nf : s.nb) >= MAXB || !fits(c.req[r], c.align[r], front)) continue;
      State n = s;
      Back b; b.mark = front ? p.getHead() : p.getTail();
      note(front ? " F(%ld,%ld)" : " B(%ld,%ld)", (long)c.req[r], c.align[r]);
      char *q;
      if (c.typed && c.align[r] == 64) q = front ? (char *)p.allocateFront<char>(c.req[r]) : (char *)p.allocate<char>(c.req[r]);
      else if (c.align[r] == 64) q = (char *)(front ? p.allocateFront(c.req[r]) : p.allocate(c.req[r]));
      else q = (char *)(front ? p.allocateFront(c.req[r], c.align[r]) : p.allocate(c.req[r], c.align[r]));
      placed(s, q, c.req[r], c.align[r]);
      b.b = {(size_t)(q - base), c.req[r], ++tags & 0xff};
      paint(b.b);
      if (front) n.front[n.nf++] = b; else n.back[n.nb++] = b;
      step(n);
    }
    for (int k = 0; k < s.nb; ++k) { // release the last nb-k back blocks
      State n = s; n.nb = k;
      note(" setTail(%ld)", s.back[k].mark, 0);
      size_t h = p.getHead();
      p.setTail(s.back[k].mark);
      if (p.getTail() != s.back[k].mark || p.getHead() != h) fail("rewind", "rewinding the tail to %zu left head %zu tail %zu after %s", s.back[k].mark, p.getHead(), p.getTail(), path);
      for (int i = k; i < s.nb; ++i) gone(n, s.back[i].b);
      step(n);
    }
    for (int k = 0; k < s.nf; ++k) {
      State n = s; n.nf = k;
      note(" setHead(%ld)", s.front[k].mark, 0);
      size_t t = p.getTail();
      p.setHead(s.front[k].mark);
      if (p.getHead() != s.front[k].mark || p.getTail() != t) fail("rewind", "rewinding the head to %zu left head %zu tail %zu after %s", s.front[k].mark, p.getHead(), p.getTail(), path);
      for (int i = k; i < s.nf; ++i) gone(n, s.front[i].b);
      step(n);
    }
    if (!s.nf) for (int k = 1; k <= s.nb; ++k) { // queue use: drop the k oldest back blocks
      State n = s; n.nb = s.nb - k;
      for (int i = 0; i < n.nb; ++i) n.back[i] = s.back[i + k];
      size_t to = k == s.nb ? p.getTail() : s.back[k].mark;
      note(" drop(%ld)", k, 0);
      p.setHead(to);
      for (int i = 0; i < k; ++i) gone(n, s.back[i].b);
      step(n);
    }
    if (s.nb + s.nf) {
      State n; n.nb = n.nf = 0;
      note(" deallocateAll", 0, 0);
      p.deallocateAll();
      if (p.getHead() || p.getTail()) fail("rewind", "deallocateAll left head %zu tail %zu after %s", p.getHead(), p.getTail(), path);
      for (int i = 0; i < s.nb; ++i) gone(n, s.back[i].b);
      for (int i = 0; i < s.nf; ++i) gone(n, s.front[i].b);
      step(n);
    }
  }
};
void mc_enumerate() {
  bool th = tier();
  bound("every sequence of operations (allocate, allocateFront, setTail/setHead rewinds to any earlier mark, queue-style release, deallocateAll) on pools of 256-1000 bytes with 2-4 request sizes, alignments 16/64/128 alone and mixed; states (pool object, live blocks) visited once per remaining depth");
  bound(th ? "sequences of 13 operations with two kinds of request, 10 with three, 8 with four" : "sequences of 10 operations with two kinds of request, 8 with three, 7 with four");
  static const Cfg C[] = {
    {256, 2, {1, 64}, {64, 64}, false}, {256, 2, {0, 100}, {64, 64}, true}, {320, 2, {64, 128}, {64, 64}, false}, {448, 2, {60, 190}, {64, 64}, true},
    {300, 2, {10, 64}, {64, 64}, false}, {1000, 2, {128, 300}, {64, 64}, true}, {257, 2, {1, 60}, {64, 64}, true}, {511, 2, {64, 65}, {64, 64}, false},
    {256, 2, {8, 40}, {16, 16}, false}, {512, 2, {100, 128}, {128, 128}, false}, {520, 2, {1, 130}, {128, 128}, false},
    {256, 2, {8, 64}, {16, 64}, false}, {512, 3, {8, 64, 100}, {16, 64, 128}, false}, {300, 3, {4, 20, 64}, {4, 32, 64}, false}, {1000, 4, {1, 17, 64, 200}, {8, 16, 64, 128}, false},
    {1024, 3, {64, 192, 448}, {64, 64, 64}, true}, {640, 3, {0, 1, 320}, {64, 64, 64}, true},
  };
  Options o; o.max_exec = 1000000;
  int k = 0;
  for (const Cfg &c : C) for (int how = 0; how < 3; ++how) {
    int d = c.nreq == 2 ? (th ? 13 : 10) : c.nreq == 3 ? (th ? 10 : 8) : (th ? 8 : 7);
    const Cfg *cp = &c;
    MC_RUN(o, S("pool %d of %zu bytes, %d kinds of request, created by %s", k, c.size, c.nreq, how == 0 ? "constructor" : how == 1 ? "initialize" : "initialize on huge pages, reused"), ([=] {
      huge_pages(how == 2);
      char raw[sizeof(MemoryPool)] __attribute__((aligned(16)));
      memset(raw, 0xA5, sizeof raw);
      {
        MemoryPool *p;
        if (how == 0) p = new (raw) MemoryPool(cp->size); else { p = new (raw) MemoryPool; if (p->contains(raw)) fail("contains", "an empty pool contains something"); p->initialize(cp->size); }
        if (how == 2) { p->allocate(10); p->finalize(); if (live_blocks()) fail("leak", "finalize() kept the buffer"); p->initialize(cp->size); }
        if (p->getHead() || p->getTail()) fail("rewind", "a fresh pool has head %zu tail %zu", p->getHead(), p->getTail());
        char *base = (char *)p->allocate(0);
        p->deallocateAll();
        if (!is_live(base, cp->size)) fail("out-of-buffer", "the buffer is smaller than the %zu bytes asked for", cp->size);
        Walk w(*cp, *p, base);
        State s; s.nb = s.nf = 0;
        w.go(s, d);
        explored(0, w.trans);
        p->~MemoryPool();
      }
      if (live_blocks()) fail("leak", "the buffer was not released: %s", live_summary().c_str());
    }));
    ++k;
  }
}
