#pragma once
#include <stdint.h>
#include <stddef.h>
namespace sim {
const int MAXF = 48;
const int MAXPROG = 1 << 14;
const int MAXSCHED = 1 << 17;
const int FAIR_AFTER = 20000;
const int STEP_LIMIT = 80000;
const int LIVE_TAB = 1 << 16;
const uintptr_t STACK_BASE = 0x610000000000ull;
const size_t STACK_TOTAL = (size_t)MAXF * 512 * 1024;
const int64_t MONO0 = 5000ll * 1000000000ll;

struct VC { uint32_t c[MAXF]; };
enum { F_FREE = 0, F_RUN, F_MUTEX, F_COND, F_JOIN, F_SLEEP, F_QUIESCE, F_GUARD, F_DONE };
enum { K_SYNC, K_ATOM, K_YIELD };
enum { M_GEN, M_REPLAY };
enum { S_RW, S_PCT, S_STARVE };
struct Fiber {
  void* sp; void* stack; int id; int st;
  uintptr_t obj; void* pc;
  bool timed, timedout; int dlclk; int64_t dl;
  uintptr_t cond; uint64_t condseq;
  void* (*start)(void*); void* arg; void* ret;
  bool joined, detached; size_t attr_stack;
  int ignore; int guard;
  void* eh_caught; unsigned eh_unc; int err;
  double prio;
  void* tss[64];
  VC vc, acqp, relf;
};
struct Exec {
  void (*body)();
  int mode; bool warm; int eintr;
  uint64_t prng, srng;
  const uint16_t* rprog; uint32_t rprog_n, rp;
  const uint16_t* rsched; uint32_t rsched_n, sp;
  int nf, ndone;
  uint64_t steps, yields, condseq, stamp, switches, contended, cwaits, sleeps, time_adv, early_used, spur_used;
  int64_t mono, real_off, tick;
  int spurious; bool early_time;
  int fail_init_fid, fail_create, fail_minit, fail_cinit, fail_alloc, fail_alloc_fid, alloc_failed, create_failed, minit_failed, cinit_failed;
  bool leaks, exp_term, terminated, nontriv, discarded;
  int strat; double p_sync, p_atom, p_time, p_spur, p_aux; int victim; int npct; uint64_t pct_at[8];
  uint64_t trace_hash;
  uint32_t alloc_seq; int live, live_sync; uint32_t nlive_tab; uint32_t live_tab[LIVE_TAB];
  int nign; struct { uintptr_t a, b; } ign[16];
  const char* lab[32]; int nlab;
};
struct Shm {
  volatile int failed; volatile int busy;
  char msg[2048]; char where[2048];
  size_t note_len; char notes[1 << 15];
  uint32_t nprog, nsched; uint16_t prog[MAXPROG]; uint16_t sched[MAXSCHED];
  int scenario; uint64_t case_no;
  uint64_t evals, nontriv, discards, steps, switches, contended, cwaits, tadv, early, spur, execs_pct, execs_starve, execs_rw;
  int nlab; char lab[128][40]; uint64_t labn[128];
  uint64_t sc_evals[64];
  int nsamp; char samp[8][3000];
};
extern Exec X; extern Shm* shm; extern Fiber* cur; extern bool active;
void rt_init();
void run_exec(void (*body)());
}
