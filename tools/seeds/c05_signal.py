id='c05-signal-before-value'; prop='C05'
edits=[('synk/reduce.hpp','''    bar->threadRvals[coreTid] = redVal;
    sfence();
    bar->threadSenses[coreTid] = !bar->threadSenses[coreTid];
''','''    bar->threadSenses[coreTid] = !bar->threadSenses[coreTid];
    sfence();
    bar->threadRvals[coreTid] = redVal;
''')]
needs='two threads of one core; the first one has to read the value of the other between its arrival signal and the store of the value'
breaks='a thread announces its arrival before its contribution is stored, so the reduction can use the contribution of an earlier episode'
demo='''
#include <stdio.h>
#include <unistd.h>
#include <omp.h>
#include "synk/reduce.hpp"
// a value whose assignment into the barrier takes its time, as for a long one
struct Value {
  long v;
  Value() : v(0) {}
  Value(long v) : v(v) {}
  Value(const Value &o) : v(o.v) {}
  Value(const volatile Value &o) : v(o.v) {}
  Value &operator=(const Value &o) { v = o.v; return *this; }
  volatile Value &operator=(volatile Value &&o) volatile { v = o.v; return *this; }
  volatile Value &operator=(const volatile Value &o) volatile { if (o.v & 2) usleep(20000); v = o.v; return *this; }
};
static Value add(Value a, Value b) { return Value(a.v + b.v); }
int main()
{
  int bad = 0;
  omp_set_dynamic(0);
  alarm(60);
  synk::ReduceBarrier<Value> r(1, 2);
#pragma omp parallel num_threads(2)
  {
    int tid = omp_get_thread_num();
    r.init(tid);
    for (long e = 1; e < 6; ++e) {
      Value got = r.wait(tid, Value(0l), Value(4*e + (tid ? 2 : 0)), add);
      if (got.v != 8*e + 2) bad = e;
#pragma omp barrier
    }
  }
  if (bad) printf("wrong reduction in episode %d\\n", bad); else printf("ok\\n");
  return bad != 0;
}
'''
