// Deterministic schedule-controlled execution of real boost::thread code.
// Threads are fibers of one OS thread; every pthread call, atomic operation and clock read
// of instrumented code lands in sim.cpp.  See DESIGN.md.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>

namespace sim {

// ---- generator: draws from the program choice stream (0 is always the simplest choice) ----
unsigned pick(unsigned n);                      // uniform in [0,n)
inline int range(int lo, int hi) { return lo + (int)pick((unsigned)(hi - lo + 1)); }
inline bool flip() { return pick(2) != 0; }
bool chance(unsigned num, unsigned den);        // true with probability num/den; 0 = false
unsigned weighted(const unsigned* w, unsigned n); // index by weight
int64_t pick64(int64_t lo, int64_t hi);         // skewed to bounds / small magnitudes

// ---- reporting ----
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void nontrivial(bool b = true);                 // mark the case as non-trivial
void label(const char* l);                      // classify (counted per case)
void discard();                                 // mark case as discarded (does not stop it)

#define SIM_CHECK(c, ...) do { if (!(c)) { ::sim::fail(__VA_ARGS__); } } while (0)

// ---- scheduling ----
void point();                                   // a scheduling point
int  fid();                                     // current fiber id (0 = main)
void wait_quiescent();                          // block until every other fiber is blocked or done (no time passes)
bool blocked(int fid);                          // fiber is blocked (not runnable, not finished)
bool finished(int fid);
int  fiber_count();
size_t attr_stack(int fid);                     // stack size asked for when the thread was created (0: none)
void delay(int64_t ns);                         // block the fiber for virtual time
uint64_t steps();
void yield_other();                             // like sched_yield

// ---- what the environment may do in this case ----
void allow_spurious(int budget);                // spurious condition variable wakeups
void allow_early_time(bool on);                 // virtual time may pass while threads are runnable
void interrupt_sleeps(int n);                    // up to n nanosleep calls are cut short by a signal (EINTR)
void fail_thread_create(int nth);               // nth (1-based) pthread_create from now fails with EAGAIN; 0 = off
void fail_mutex_init(int nth);                  // in the calling fiber
void fail_cond_init(int nth);
void fail_alloc(int nth);                       // nth operator new from now throws bad_alloc (in any fiber); 0 = off
void fail_alloc_in_fiber(int nth, int fid);
int  alloc_failures();                          // how many injected failures actually fired
int  create_failures();
int  mutex_init_failures();
int  cond_init_failures();
void check_leaks(bool on);                      // report operator-new blocks alive at the end of the case
void expect_terminate(bool on);                 // std::terminate ends the case quietly
bool known(const char* key);                    // is this known finding enabled

// ---- time (ns) ----
int64_t mono_now();                             // without advancing
int64_t real_now();
void jump_real(int64_t delta);                  // step the system clock

// ---- race detector control ----
struct Ignore { Ignore(); ~Ignore(); };         // bookkeeping: no tracking, no scheduling, allocations from malloc
void ignore_range(const void* p, size_t n);     // deliberate races by design (epoch once_flag)
void hb_release(void* tag);                     // explicit happens-before for oracle bookkeeping
void hb_acquire(void* tag);
bool hb_before_me(int fid, uint32_t clk);       // did event (fid,clk) happen before the current point
uint32_t my_clock();                            // epoch of current fiber (event stamp)
uint64_t next_stamp();                          // global total order counter of the execution

// ---- scenarios ----
struct Scenario { const char* name; void (*fn)(); unsigned weight; Scenario* next; };
struct Reg { Reg(Scenario* s); };
#define SCENARIO(nm, w) \
  static void sc_##nm(); \
  static ::sim::Scenario scd_##nm = { #nm, sc_##nm, w, 0 }; \
  static ::sim::Reg scr_##nm(&scd_##nm); \
  static void sc_##nm()

int pbt_main(int argc, char** argv, const char* nontrivial_rule);
}
