// Public interface of the model-checking runtime (see DESIGN.md).
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Options {
  int threads = 1;          // OpenMP team size while the body runs
  uint8_t fill = 0xCD;      // initial contents of fresh heap memory
  long max_exec = 400000;   // executions after which the case counts as truncated
  int preempt = -1;         // -1: DPOR over all interleavings; k>=0: all schedules with <= k preemptions
  int delay = -1;           // k>=0: all schedules that deviate at most k times from the round-robin one
  bool isolate = false;     // program points found to race in this case stay invisible to later cases
  long max_events = 20000;  // visible events per execution
};

// ---- used by harness enumerators (outside executions)
int tier();                 // 0 quick, 1 thorough
const char *prop();         // property id being checked
int variant();              // 0 release-like build (NDEBUG), 1 assert build
bool mine();                // true if this worker must run the next case
void run(const std::string &id, const Options &o, const std::function<void()> &body);
void bound(const char *text);  // human readable statement of a bound, kept for the evidence file

// ---- used inside executions
void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
int choose(int n);          // explored exhaustively; only outside parallel regions
void set_threads(int n);
int phase();                // stretches between barriers (and region starts) passed so far in this execution
void focus(int first, int n); // from now on only the phases first..first+n-1 are explored, the others take one fixed interleaving
void freeze(bool on);       // one fixed interleaving while on (phase explored by other cases)
void readable(const void *p, size_t n, const char *what); // fails unless [p,p+n) is live memory
bool is_live(const void *p, size_t n);
bool is_block(const void *p);           // start of a heap block that is still allocated
void explored(long states, long transitions); // adds states the harness itself enumerated to the evidence
void step_barriers(bool on);       // synk::Barrier::wait of the singleton is one step while on (off at the start of an execution)
void huge_pages(bool on);          // anonymous mmap() succeeds while on (off at the start of an execution)
void assertion_is_answer(bool on); // a failing assert() ends the execution without a verdict while on
long live_blocks();         // heap blocks currently allocated in this execution
std::string live_summary();
bool in_arena(const void *p);
void outcome(uint64_t h);   // counts distinct observed results
int tid();

// virtual files seen by fopen() of the code under test; names start with "mc:"
void vfile_set(const char *name, const std::string &contents);
bool vfile_get(const char *name, std::string *out);
void vfile_unwritable(const char *name);
int open_files();           // FILE handles still open

} // namespace mc

// supplied by the harness
void mc_enumerate();

#define MC_RUN(opt, idexpr, body) do { if (mc::mine()) mc::run((idexpr), (opt), (body)); } while (0)
