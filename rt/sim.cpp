// Runtime: fibers, virtual time, pthread emulation, race / lifetime detector.  Compiled WITHOUT instrumentation.
#include "sim.h"
#include "sim_internal.h"
#include <pthread.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <sched.h>
#include <cxxabi.h>
#include <exception>
#include <new>
#include <typeinfo>

namespace sim {

Exec X;
Shm* shm = 0;
Fiber* cur = 0;
bool active = false;

static Fiber fibers[MAXF];
static void* host_sp;
static const size_t STACK = 512 * 1024;

// ------------------------------------------------------------------ context switch
asm(R"(
.text
.globl sim_switch_asm
.type sim_switch_asm,@function
sim_switch_asm:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch_asm,.-sim_switch_asm
)");
extern "C" void sim_switch_asm(void** save, void* to);

struct EH { void* caught; unsigned uncaught; };
static EH* ehg() { return (EH*)abi::__cxa_get_globals(); }

static void switch_to(Fiber* to) {
  Fiber* from = cur;
  if (to == from) return;
  EH* e = ehg();
  from->eh_caught = e->caught; from->eh_unc = e->uncaught; from->err = errno;
  cur = to;
  e->caught = to->eh_caught; e->uncaught = to->eh_unc; 
  int er = to->err;
  sim_switch_asm(&from->sp, to->sp);
  errno = cur->err; (void)er;
}
static void switch_to_host() {
  Fiber* from = cur;
  cur = 0;
  active = false;
  sim_switch_asm(&from->sp, host_sp);
  __builtin_unreachable();
}

// ------------------------------------------------------------------ small containers on malloc
template <class V> struct Map {  // open addressing, generation reset
  struct E { uintptr_t k; uint32_t gen; uint32_t v; };
  E* t; uint32_t mask; uint32_t gen; uint32_t used;
  V* pool; uint32_t cap, n;
  Map() : t(0), mask(0), gen(1), used(0), pool(0), cap(0), n(0) {}
  void init(uint32_t sz) { t = (E*)calloc(sz, sizeof(E)); mask = sz - 1; cap = 1024; pool = (V*)malloc(cap * sizeof(V)); }
  void reset() { gen++; used = 0; n = 0; }
  static uint32_t h(uintptr_t k) { k ^= k >> 17; k *= 0x9E3779B97F4A7C15ull; return (uint32_t)(k >> 32); }
  V* find(uintptr_t k) {
    uint32_t i = h(k) & mask;
    while (t[i].gen == gen) { if (t[i].k == k) return &pool[t[i].v]; i = (i + 1) & mask; }
    return 0;
  }
  V* get(uintptr_t k, bool& fresh) {
    uint32_t i = h(k) & mask;
    while (t[i].gen == gen) { if (t[i].k == k) { fresh = false; return &pool[t[i].v]; } i = (i + 1) & mask; }
    if (used * 2 > mask) { grow(); return get(k, fresh); }
    if (n == cap) { cap *= 2; pool = (V*)realloc(pool, cap * sizeof(V)); }
    t[i].k = k; t[i].gen = gen; t[i].v = n; used++;
    fresh = true;
    return &pool[n++];
  }
  void grow() {
    E* o = t; uint32_t om = mask;
    mask = mask * 2 + 1; t = (E*)calloc((size_t)mask + 1, sizeof(E));
    for (uint32_t j = 0; j <= om; j++) if (o[j].gen == gen) { uint32_t i = h(o[j].k) & mask; while (t[i].gen == gen) i = (i + 1) & mask; t[i] = o[j]; }
    free(o);
  }
};

struct Rec { uint32_t clk; uint8_t fid, mask, fl, pad; uint64_t pc; };  // fl: 1 write 2 atomic
struct Cell { uint8_t n; Rec r[6]; };
static Map<Cell> shadow;
struct MutexS { uintptr_t addr; int owner; int count; int type; bool destroyed, inited; VC vc; };
struct CondS { uintptr_t addr; int clk; bool destroyed, inited; };
struct AtomS { VC vc; };
static Map<MutexS> mutexes; static Map<CondS> conds; static Map<AtomS> atoms;
struct GuardS { int owner; };
static Map<GuardS> guards;

// persistent TSS keys
static const int MAXKEYS = 64;
static struct { bool used; void (*dtor)(void*); } keys[MAXKEYS];

// ------------------------------------------------------------------ reporting
static void die(int code) { _exit(code); }

static char* where(char* b, size_t n);

void vfail(const char* fmt, va_list ap) {
  if (!shm) { vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); _exit(9); }
  active = false;
  vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
  char b[2048]; where(b, sizeof b);
  strncpy(shm->where, b, sizeof shm->where - 1);
  shm->failed = 1;
  die(3);
}
void fail(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(fmt, ap); va_end(ap); __builtin_unreachable(); }
void note(const char* fmt, ...) {
  if (!shm) return;
  bool a = active; active = false;
  size_t l = shm->note_len;
  if (l < sizeof shm->notes - 8) {
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(shm->notes + l, sizeof shm->notes - l - 2, fmt, ap);
    va_end(ap);
    l += (size_t)k; if (l > sizeof shm->notes - 3) l = sizeof shm->notes - 3;
    shm->notes[l++] = '\n'; shm->notes[l] = 0; shm->note_len = l;
  }
  active = a;
}
void nontrivial(bool b) { if (b) X.nontriv = true; }
void discard() { X.discarded = true; }
void label(const char* l) {
  for (int i = 0; i < X.nlab; i++) if (!strcmp(X.lab[i], l)) return;
  if (X.nlab < 32) X.lab[X.nlab++] = l;
}
bool known(const char* key) { const char* e = getenv("SIM_KNOWN"); return e && strstr(e, key); }

static const char* stname(int s) { static const char* n[] = {"free", "runnable", "mutex", "cond", "join", "sleep", "quiesce", "guard", "done"}; return n[s]; }
static char* where(char* b, size_t n) {
  size_t l = 0; b[0] = 0;
  l += snprintf(b + l, n - l, "step %llu mono=%lldns; ", (unsigned long long)X.steps, (long long)(X.mono - MONO0));
  for (int i = 0; i < X.nf && l + 80 < n; i++) {
    Fiber& f = fibers[i];
    l += snprintf(b + l, n - l, "T%d%s:%s", i, &f == cur ? "*" : "", stname(f.st));
    if (f.st != F_DONE && f.st != F_RUN) {
      l += snprintf(b + l, n - l, "(%p pc=%p%s)", (void*)f.obj, f.pc, f.timed ? " timed" : "");
    }
    l += snprintf(b + l, n - l, " ");
  }
  return b;
}

// ------------------------------------------------------------------ choices
static uint64_t rng_next(uint64_t& s) { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint32_t rnd(uint64_t& s, uint32_t n) { return (uint32_t)(((rng_next(s) >> 32) * (uint64_t)n) >> 32); }
static double rnd01(uint64_t& s) { return (rng_next(s) >> 11) * (1.0 / 9007199254740992.0); }

unsigned pick(unsigned n) {
  if (n <= 1) return 0;
  if (n > 65535) n = 65535;
  uint16_t v;
  if (X.mode == M_REPLAY) { v = X.rp < X.rprog_n ? X.rprog[X.rp++] : 0; if (v >= n) v = (uint16_t)(v % n); }
  else if (X.rp < X.rprog_n) { v = X.rprog[X.rp++]; if (v >= n) v = (uint16_t)(v % n); }   // mutated prefix
  else v = (uint16_t)rnd(X.prng, n);
  if (shm->nprog < MAXPROG) shm->prog[shm->nprog++] = v;
  return v;
}
bool chance(unsigned num, unsigned den) { if (!num) return false; if (num >= den) return true; return pick(den) >= den - num; }
unsigned weighted(const unsigned* w, unsigned n) {
  unsigned t = 0; for (unsigned i = 0; i < n; i++) t += w[i];
  unsigned v = pick(t);
  for (unsigned i = 0; i < n; i++) { if (v < w[i]) return i; v -= w[i]; }
  return n - 1;
}
int64_t pick64(int64_t lo, int64_t hi) {
  unsigned k = pick(8);
  uint64_t span = (uint64_t)hi - (uint64_t)lo;
  uint64_t r = 0;
  switch (k) {
    case 0: r = pick(4); break;
    case 1: r = pick(1000); break;
    case 2: return (int64_t)((uint64_t)hi - (span ? pick(4) % (span + 1 ? span + 1 : 1) : 0));
    case 3: { unsigned b = pick(64); r = (1ull << b) + pick(3) - 1; break; }
    case 4: { int64_t d = (int64_t)pick(7) - 3; if (d >= lo && d <= hi) return d; r = pick(65535); break; }
    default: for (int i = 0; i < 5; i++) r = (r << 15) ^ pick(32768); break;
  }
  if (span != ~0ull) r %= span + 1;
  return (int64_t)((uint64_t)lo + r);
}

// ------------------------------------------------------------------ scheduling
static inline int64_t now_of(int clk) { return clk ? X.mono + X.real_off : X.mono; }

static void fire_timers() {
  for (int i = 0; i < X.nf; i++) {
    Fiber& f = fibers[i];
    if (f.timed && f.st > F_RUN && f.st < F_DONE && f.dl <= now_of(f.dlclk)) { f.st = F_RUN; f.timedout = true; f.timed = false; f.cond = 0; }
  }
}
static bool next_deadline(int64_t& m) {
  bool any = false;
  for (int i = 0; i < X.nf; i++) {
    Fiber& f = fibers[i];
    if (f.timed && f.st > F_RUN && f.st < F_DONE) {
      int64_t e = f.dlclk ? f.dl - X.real_off : f.dl;
      if (!any || e < m) m = e; any = true;
    }
  }
  return any;
}
static bool advance_time() {
  int64_t m; if (!next_deadline(m)) return false;
  if (m > X.mono) X.mono = m;
  X.time_adv++;
  fire_timers();
  return true;
}

static void record_sched(uint16_t v) {
  X.trace_hash = (X.trace_hash ^ v ^ (X.steps << 8)) * 0x100000001B3ull;
  if (shm->nsched < MAXSCHED) shm->sched[shm->nsched++] = v;
}

static int run_list[MAXF];
static int build_runnable(int from) {  // others in cyclic order after 'from'
  int n = 0;
  for (int k = 1; k <= X.nf; k++) { int i = (from + k) % X.nf; if (&fibers[i] != cur && fibers[i].st == F_RUN) run_list[n++] = i; }
  return n;
}

static void spurious_wake(int w) {
  for (int i = 0; i < X.nf; i++) if (fibers[i].st == F_COND && w-- == 0) { fibers[i].st = F_RUN; fibers[i].timed = false; fibers[i].timedout = false; fibers[i].cond = 0; X.spurious--; X.spur_used++; break; }
}
static void deadlock() {
  fail("deadlock: every live thread is blocked and no timed wait is pending");
}

// pick next fiber and switch to it; current is runnable iff cur_ok
static void reschedule(bool cur_ok, int kind) {
  int c = cur->id;
  for (;;) {
    int n = build_runnable(c);
    if (!cur_ok && cur->st == F_RUN) { cur_ok = true; }   // we were woken (e.g. by a timer) while looking
    if (n == 0 && !cur_ok) {
      // quiescence
      int q = -1; for (int i = 0; i < X.nf; i++) if (fibers[i].st == F_QUIESCE) { q = i; break; }
      if (q >= 0) {
        int64_t m; if (next_deadline(m) && m <= X.mono) { fire_timers(); continue; }
        int ns = 0; if (X.spurious > 0) for (int i = 0; i < X.nf; i++) if (fibers[i].st == F_COND) ns++;
        if (ns && X.steps <= FAIR_AFTER) {
          int v = 0;
          if (X.mode == M_REPLAY) { v = X.sp < X.rsched_n ? X.rsched[X.sp++] : 0; v = v >= 201 ? 201 + (v - 201) % ns : 0; }
          else if (rnd01(X.srng) < 0.1) v = 201 + (int)rnd(X.srng, ns);
          record_sched((uint16_t)v);
          if (v) { spurious_wake(v - 201); continue; }
        }
        fibers[q].st = F_RUN;
        if (&fibers[q] == cur) return;
        switch_to(&fibers[q]); return;      // nothing may run (and no time pass) before the waiter has looked
      }
      if (advance_time()) continue;
      deadlock();
    }
    bool spin = kind == K_YIELD && cur_ok;
    if (spin) {
      X.yields++;
      if ((n == 0 || X.yields > 12 + 2 * X.nf)) { X.yields = 0; if (advance_time()) { n = build_runnable(c); } else if (n == 0) { bool q = false; for (int i = 0; i < X.nf; i++) if (fibers[i].st == F_QUIESCE) { fibers[i].st = F_RUN; q = true; break; } if (q) { n = build_runnable(c); } } }
    } else if (kind != K_ATOM) X.yields = 0;
    if (X.steps > FAIR_AFTER) {        // fair, deterministic (a function of the step number)
      if (X.steps > STEP_LIMIT) fail("livelock: no progress after %d scheduling steps", STEP_LIMIT);
      if (X.steps % 64 == 0) advance_time();
      n = build_runnable(c);
      int opt = n + (cur_ok ? 1 : 0);
      if (opt) {
        uint64_t z = X.steps * 0x9E3779B97F4A7C15ull; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 32;
        int k = (int)(z % opt); if (k < n) switch_to(&fibers[run_list[k]]);
        return;
      }
      continue;
    }
    // options
    int ntimed = 0, nspur = 0;
    if (X.early_time) { for (int i = 0; i < X.nf; i++) if (fibers[i].timed && fibers[i].st > F_RUN && fibers[i].st < F_DONE) ntimed++; }
    if (X.spurious > 0) for (int i = 0; i < X.nf; i++) if (fibers[i].st == F_COND) nspur++;
    int options = n + (cur_ok && !(spin && n) ? 1 : 0);
    if (options <= 1 && !ntimed && !nspur) {
      if (cur_ok && !(spin && n)) return;
      switch_to(&fibers[run_list[0]]); return;
    }
    int v = 0;   // 0 = default, 1..n = run_list[v-1], 200 = time, 201+i spurious
    if (X.mode == M_REPLAY) {
      v = X.sp < X.rsched_n ? X.rsched[X.sp++] : 0;
      if (v >= 201) { if (!nspur) v = 0; else v = 201 + (v - 201) % nspur; }
      else if (v == 200) { if (!ntimed) v = 0; }
      else if (v > n) v = n ? v % (n + 1) : 0;
    } else {
      uint64_t& s = X.srng;
      if (ntimed && rnd01(s) < X.p_time) v = 200;
      else if (nspur && rnd01(s) < X.p_spur) v = 201 + (int)rnd(s, nspur);
      else switch (X.strat) {
        case S_PCT: {
          // highest priority runnable
          for (int k = 0; k < X.npct; k++) if (X.pct_at[k] == X.steps) { cur->prio = -(double)(k + 1); }
          if (spin) cur->prio = -1000.0 - (double)X.steps;
          int best = -1; double bp = -1e300;
          if (cur_ok && !(spin && n)) { best = 0; bp = cur->prio; }
          for (int k = 0; k < n; k++) if (fibers[run_list[k]].prio > bp) { bp = fibers[run_list[k]].prio; best = k + 1; }
          v = best;
          break;
        }
        case S_STARVE: {
          int m = 0, tmp[MAXF];
          for (int k = 0; k < n; k++) if (run_list[k] != X.victim) tmp[m++] = k + 1;
          if (cur_ok && c != X.victim && !(spin && n)) { if (m && rnd01(s) < X.p_sync) v = tmp[rnd(s, m)]; else v = 0; }
          else if (m && rnd01(s) >= 0.02) v = tmp[rnd(s, m)];
          else v = cur_ok && !(spin && n) ? 0 : 1 + (int)rnd(s, n);
          break;
        }
        default: {
          double p = kind == K_ATOM ? X.p_atom : X.p_sync;
          if (n && (!cur_ok || spin || rnd01(s) < p)) v = 1 + (int)rnd(s, n);
          else v = 0;
        }
      }
    }
    record_sched((uint16_t)v);
    if (v == 200) { advance_time(); X.early_used++; if (cur_ok) return; continue; }
    if (v >= 201) {
      spurious_wake(v - 201);
      if (cur_ok) return; continue;
    }
    if (v == 0) {
      if (cur_ok && !(spin && n)) return;
      v = 1;
    }
    if (v - 1 < n) { X.switches++; switch_to(&fibers[run_list[v - 1]]); return; }
    if (cur_ok) return;
  }
}

// auxiliary scheduler choice (which waiter a signal wakes...)
static int aux_choice(int n) {
  if (n <= 1) return 0;
  int v = 0;
  if (X.mode == M_REPLAY) { v = X.sp < X.rsched_n ? X.rsched[X.sp++] % n : 0; }
  else if (rnd01(X.srng) < X.p_aux) v = (int)rnd(X.srng, n);
  record_sched((uint16_t)v);
  return v;
}

static inline bool on() { return active && cur; }

static void spoint(int kind) {
  if (!on() || cur->ignore) return;
  X.steps++;
  reschedule(true, kind);
}
static void block(int st, uintptr_t obj, void* pc) {
  cur->st = st; cur->obj = obj; cur->pc = pc;
  if (cur->ignore) fail("harness: blocking operation inside an Ignore region");
  X.steps++;
  reschedule(false, K_SYNC);
  cur->obj = 0;
}

void point() { spoint(K_SYNC); }
void yield_other() { spoint(K_YIELD); }
int fid() { return cur ? cur->id : -1; }
int fiber_count() { return X.nf; }
bool blocked(int f) { return f < X.nf && fibers[f].st > F_RUN && fibers[f].st < F_DONE; }
bool finished(int f) { return f < X.nf && fibers[f].st == F_DONE; }
uint64_t steps() { return X.steps; }
void wait_quiescent() { if (!on()) return; block(F_QUIESCE, 0, __builtin_return_address(0)); }
static void sleep_until_clk(int clk, int64_t t, void* pc) {
  if (t <= now_of(clk)) { spoint(K_YIELD); return; }
  cur->timed = true; cur->dlclk = clk; cur->dl = t; cur->timedout = false;
  block(F_SLEEP, 0, pc);
}
void delay(int64_t ns) { if (on()) sleep_until_clk(0, X.mono + ns, __builtin_return_address(0)); }
size_t attr_stack(int f) { return fibers[f].attr_stack; }
void allow_spurious(int b) { X.spurious = b; }
void allow_early_time(bool b) { X.early_time = b; }
void fail_thread_create(int n) { X.fail_create = n; }
void fail_mutex_init(int n) { X.fail_init_fid = cur->id; X.fail_minit = n; }
void fail_cond_init(int n) { X.fail_init_fid = cur->id; X.fail_cinit = n; }
void fail_alloc(int n) { X.fail_alloc = n; X.fail_alloc_fid = -1; }
void fail_alloc_in_fiber(int n, int f) { X.fail_alloc = n; X.fail_alloc_fid = f; }
int alloc_failures() { return X.alloc_failed; }
int create_failures() { return X.create_failed; }
int mutex_init_failures() { return X.minit_failed; }
int cond_init_failures() { return X.cinit_failed; }
void check_leaks(bool b) { X.leaks = b; }
void expect_terminate(bool b) { X.exp_term = b; }
int64_t mono_now() { return X.mono; }
int64_t real_now() { return X.mono + X.real_off; }
void interrupt_sleeps(int n) { X.eintr = n; }
void jump_real(int64_t d) { X.real_off += d; fire_timers(); }

Ignore::Ignore() { if (cur) cur->ignore++; }
Ignore::~Ignore() { if (cur) cur->ignore--; }
void ignore_range(const void* p, size_t n) { if (X.nign < 16) { X.ign[X.nign].a = (uintptr_t)p; X.ign[X.nign].b = (uintptr_t)p + n; X.nign++; } }

// ------------------------------------------------------------------ vector clocks
static inline void vjoin(VC& a, const VC& b) { for (int i = 0; i < MAXF; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static inline void tick(Fiber* f) { f->vc.c[f->id]++; }
static AtomS* atom(uintptr_t a) { bool fr; AtomS* s = atoms.get(a, fr); if (fr) memset(s, 0, sizeof *s); return s; }
void hb_release(void* t) { if (!on()) return; AtomS* s = atom((uintptr_t)t); vjoin(s->vc, cur->vc); tick(cur); }
void hb_acquire(void* t) { if (!on()) return; AtomS* s = atom((uintptr_t)t); vjoin(cur->vc, s->vc); }
bool hb_before_me(int f, uint32_t c) { return cur->vc.c[f] >= c; }
uint32_t my_clock() { return cur->vc.c[cur->id]; }
uint64_t next_stamp() { return ++X.stamp; }

// ------------------------------------------------------------------ arena
static char* const ARENA = (char*)0x600000000000ull;
static const size_t ARENA_SZ = 256u << 20;
static uint8_t* poison;          // 1 bit per 8 bytes, 1 = poisoned
static size_t arena_top;
struct Hdr { uint64_t magic; uint32_t size; uint32_t seq; };  // 16 bytes
static const uint64_t LIVE = 0x4c4956454c495645ull, DEAD = 0x4445414444454144ull;
static inline bool in_arena(const void* p) { return (char*)p >= ARENA && (char*)p < ARENA + ARENA_SZ; }
static inline bool poisoned(uintptr_t a) { size_t o = (a - (uintptr_t)ARENA) >> 3; return poison[o >> 3] >> (o & 7) & 1; }
static void set_poison(size_t off, size_t n, bool v) {  // off,n multiple of 8
  for (size_t o = off >> 3, e = (off + n) >> 3; o < e;) {
    if ((o & 7) == 0 && o + 8 <= e) { poison[o >> 3] = v ? 0xff : 0; o += 8; }
    else { if (v) poison[o >> 3] |= 1 << (o & 7); else poison[o >> 3] &= ~(1 << (o & 7)); o++; }
  }
}
static void* arena_alloc(size_t n, size_t align) {
  size_t sz = (n + 7) & ~7ul; if (!sz) sz = 8;
  size_t h = arena_top + sizeof(Hdr);
  h = (h + align - 1) & ~(align - 1);
  if (h + sz + 16 > ARENA_SZ) fail("harness: arena exhausted");
  arena_top = (h + sz + 8 + 15) & ~15ul;
  Hdr* d = (Hdr*)(ARENA + h) - 1;
  d->magic = LIVE; d->size = (uint32_t)n; d->seq = ++X.alloc_seq;
  set_poison(h, sz, false);
  memset(ARENA + h, 0xCD, sz < 256 ? sz : 256);
  X.live++;
  if (X.nlive_tab < LIVE_TAB) X.live_tab[X.nlive_tab++] = (uint32_t)(h >> 3);
  return ARENA + h;
}
static void access_range(uintptr_t a, size_t n, bool w, void* pc);
static void arena_free(void* p, void* pc) {
  Hdr* d = (Hdr*)p - 1;
  size_t off = (char*)p - ARENA;
  if (off > arena_top) return;  // stale block of an abandoned execution
  if (d->magic == DEAD) fail("double free of heap block (size %u) pc=%p", d->size, pc);
  if (d->magic != LIVE) fail("invalid free pc=%p", pc);
  size_t sz = (d->size + 7) & ~7ul; if (!sz) sz = 8;
  if (active && cur && !cur->ignore) access_range((uintptr_t)p, sz < 256 ? sz : 256, true, pc);
  d->magic = DEAD;
  memset(p, 0xDD, sz < 256 ? sz : 256);
  set_poison(off, sz, true);
  X.live--;
}
static void arena_reset() {
  if (arena_top > (16u << 20)) madvise(ARENA, arena_top, MADV_DONTNEED);
  memset(poison, 0xff, (arena_top >> 6) + 64);
  arena_top = 64;
}
bool heap_alive(const void* p) { return in_arena(p) && !poisoned((uintptr_t)p); }

static inline bool use_arena() { return active && cur && !cur->ignore && !cur->guard && !X.warm; }
void* op_new(size_t n, size_t align, bool nothrow) {
  if (use_arena()) {
    if (X.fail_alloc > 0 && (X.fail_alloc_fid < 0 || X.fail_alloc_fid == cur->id) && --X.fail_alloc == 0) {
      X.alloc_failed++;
      if (nothrow) return 0;
      throw std::bad_alloc();
    }
    return arena_alloc(n, align < 16 ? 16 : align);
  }
  void* p = align <= 16 ? malloc(n ? n : 1) : aligned_alloc(align, (n + align - 1) & ~(align - 1));
  return p;
}
void op_delete(void* p, void* pc) {
  if (!p) return;
  if (in_arena(p)) arena_free(p, pc); else free(p);
}

// ------------------------------------------------------------------ race / lifetime detector
extern "C" char __data_start, _end;
static inline int region(uintptr_t a) {
  if (a - (uintptr_t)ARENA < ARENA_SZ) return 1;
  if (a - STACK_BASE < STACK_TOTAL) return 2;
  if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end) return 3;
  return 0;
}
static void race(uintptr_t a, const Rec& r, int fl, void* pc) {
  fail("data race: T%d %s%s vs earlier T%d %s%s on %p (pc=%p, earlier pc=%p) are not ordered by happens-before", cur->id, fl & 2 ? "atomic " : "", fl & 1 ? "write" : "read",
       r.fid, r.fl & 2 ? "atomic " : "", r.fl & 1 ? "write" : "read", (void*)a, pc, (void*)r.pc);
}
static void access_granule(uintptr_t g, uint8_t mask, int fl, void* pc) {
  bool fr; Cell* c = shadow.get(g, fr);
  if (fr) c->n = 0;
  int me = cur->id; 
  int j = 0;
  for (int i = 0; i < c->n; i++) {
    Rec& r = c->r[i];
    if (r.mask & mask) {
      if (r.fid != me && r.clk > cur->vc.c[r.fid]) {
        if (((r.fl | fl) & 1) && !((r.fl & 2) && (fl & 2))) race(g << 3, r, fl, pc);
      } else if ((r.mask & ~mask) == 0 && ((fl & 1) || !(r.fl & 1)) && (!(fl & 2) || (r.fl & 2))) {
        continue;  // dominated: ordered before us and any conflicting access conflicts with us too
      }
    }
    if (j != i) c->r[j] = r;
    j++;
  }
  c->n = (uint8_t)j;
  Rec nr; nr.clk = cur->vc.c[me]; nr.fid = (uint8_t)me; nr.mask = mask; nr.fl = (uint8_t)fl; nr.pad = 0; nr.pc = (uint64_t)pc;
  if (c->n == 6) { memmove(&c->r[0], &c->r[1], 5 * sizeof(Rec)); c->n = 5; }
  c->r[c->n++] = nr;
}
static inline void access_bytes(uintptr_t a, size_t n, int fl, void* pc) {
  if (!on() || cur->ignore || X.warm) return;
  int rg = region(a);
  if (!rg) return;
  if (X.nign) for (int i = 0; i < X.nign; i++) if (a >= X.ign[i].a && a < X.ign[i].b) return;
  if (rg == 1) {
    if (poisoned(a) || poisoned(a + n - 1)) fail("use of freed or out-of-bounds heap memory: T%d %s of %zu bytes at %p pc=%p", cur->id, fl & 1 ? "write" : "read", n, (void*)a, pc);
  }
  uintptr_t g = a >> 3; unsigned o = a & 7;
  if (o + n <= 8) { access_granule(g, (uint8_t)(((1u << n) - 1) << o), fl, pc); return; }
  while (n) {
    size_t k = 8 - o; if (k > n) k = n;
    access_granule(g, (uint8_t)(((1u << k) - 1) << o), fl, pc);
    n -= k; o = 0; g++;
  }
}
static void access_range(uintptr_t a, size_t n, bool w, void* pc) { if (n) access_bytes(a, n, w ? 1 : 0, pc); }
static void chk_obj(const void* p, const char* what, void* pc) {
  if (in_arena(p) && on() && !X.warm && poisoned((uintptr_t)p)) fail("%s on freed heap memory %p pc=%p", what, p, pc);
}

// ------------------------------------------------------------------ fibers
static void fiber_exit() {
  // TSS destructors
  for (int it = 0; it < 4; it++) {
    bool any = false;
    for (int k = 0; k < MAXKEYS; k++) if (keys[k].used && cur->tss[k]) {
      void* v = cur->tss[k]; cur->tss[k] = 0;
      if (keys[k].dtor) { any = true; keys[k].dtor(v); }
    }
    if (!any) break;
  }
  tick(cur);
  cur->st = F_DONE;
  X.ndone++;
  for (int i = 0; i < X.nf; i++) if (fibers[i].st == F_JOIN && fibers[i].obj == (uintptr_t)cur->id) fibers[i].st = F_RUN;
  if (X.ndone == X.nf) switch_to_host();
  X.steps++;
  reschedule(false, K_SYNC);
  __builtin_unreachable();
}
static void run_start() noexcept { cur->ret = cur->start(cur->arg); }
static void fiber_entry() {
  run_start();
  fiber_exit();
}
static Fiber* new_fiber(void* (*fn)(void*), void* arg) {
  if (X.nf >= MAXF) fail("harness: too many threads");
  Fiber& f = fibers[X.nf];
  void* stk = f.stack;
  memset((char*)&f, 0, sizeof f);
  f.stack = stk; f.id = X.nf++;
  f.start = fn; f.arg = arg; f.st = F_RUN;
  if (cur) { f.vc = cur->vc; tick(cur); }
  f.vc.c[f.id] = 1;
  f.prio = 1.0 + (X.mode == M_REPLAY ? 0 : rnd01(X.srng));
  uintptr_t top = ((uintptr_t)stk + STACK) & ~15ul;
  void** sp = (void**)top;
  *--sp = 0;
  *--sp = (void*)&fiber_entry;
  for (int i = 0; i < 6; i++) *--sp = 0;
  f.sp = sp;
  return &f;
}

static void* main_start(void*) {
  try { X.body(); }
  catch (std::exception& e) { fail("unexpected exception in main thread: %s (%s)", typeid(e).name(), e.what()); }
  catch (...) { fail("unexpected non-standard exception in main thread"); }
  return 0;
}

static void on_terminate() {
  if (active && X.exp_term) { X.terminated = true; switch_to_host(); }
  const char* tn = "?"; char buf[256]; buf[0] = 0;
  active = false;
  std::type_info* t = abi::__cxa_current_exception_type();
  if (t) { tn = t->name(); try { throw; } catch (std::exception& e) { snprintf(buf, sizeof buf, "%s", e.what()); } catch (...) {} }
  else tn = "no exception";
  fail("terminate: std::terminate called (%s) %s", tn, buf);
}
static void on_sig(int s, siginfo_t* si, void*) {
  if (s == SIGPROF || s == SIGVTALRM) {
    if (shm) { shm->failed = 1; snprintf(shm->msg, sizeof shm->msg, "hang: no scheduling point reached for a long time"); }
    _exit(3);
  }
  if (shm) { shm->failed = 1; snprintf(shm->msg, sizeof shm->msg, "crash: signal %d at address %p in T%d", s, si->si_addr, cur ? cur->id : -1); }
  _exit(3);
}

void rt_init() {
  static bool done; if (done) return; done = true;
  if (mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != ARENA) { perror("mmap arena"); _exit(9); }
  poison = (uint8_t*)mmap(0, ARENA_SZ / 64 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  arena_top = ARENA_SZ - 4096; arena_reset(); 
  if (mmap((void*)STACK_BASE, STACK_TOTAL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)STACK_BASE) { perror("mmap stacks"); _exit(9); }
  for (int i = 0; i < MAXF; i++) { fibers[i].stack = (void*)(STACK_BASE + i * STACK); mprotect(fibers[i].stack, 4096, PROT_NONE); }
  shadow.init(1 << 14); mutexes.init(1 << 10); conds.init(1 << 10); atoms.init(1 << 12); guards.init(1 << 8);
  std::set_terminate(on_terminate);
  stack_t ss; ss.ss_sp = malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF};
  for (int s : sg) sigaction(s, &sa, 0);
}

void run_exec(void (*body)()) {
  shadow.reset(); mutexes.reset(); conds.reset(); atoms.reset(); guards.reset();
  arena_reset();
  X.body = body;
  cur = 0;
  Fiber* f = new_fiber(main_start, 0);
  EH* e = ehg(); EH save = *e; e->caught = 0; e->uncaught = 0;
  cur = f; active = true;
  sim_switch_asm(&host_sp, f->sp);
  *e = save;
  active = false; cur = 0;
  if (X.leaks && !X.warm && !X.terminated && X.live != 0) {
    char b[400]; size_t l = 0; b[0] = 0; int shown = 0;
    for (uint32_t i = 0; i < X.nlive_tab && shown < 6; i++) { Hdr* d = (Hdr*)(ARENA + ((size_t)X.live_tab[i] << 3)) - 1; if (d->magic == LIVE) { l += snprintf(b + l, sizeof b - l, " [alloc #%u size %u]", d->seq, d->size); shown++; } }
    fail("leak: %d heap blocks still allocated at the end%s", X.live, b);
  }
  if (X.leaks && !X.warm && !X.terminated && X.live_sync != 0) fail("leak: %d mutexes or condition variables initialised but never destroyed", X.live_sync);
  if (X.leaks && !X.warm && !X.terminated) for (int i = 1; i < X.nf; i++) if (!fibers[i].joined && !fibers[i].detached) fail("leak: native thread T%d finished but was neither joined nor detached", i);
}

} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)

// ================================================================== pthread emulation (linked with --wrap)
extern "C" {
#define REAL(ret, name, args) ret __real_##name args; 

// ---- mutex
REAL(int, pthread_mutex_init, (pthread_mutex_t*, const pthread_mutexattr_t*))
REAL(int, pthread_mutex_destroy, (pthread_mutex_t*))
REAL(int, pthread_mutex_lock, (pthread_mutex_t*))
REAL(int, pthread_mutex_trylock, (pthread_mutex_t*))
REAL(int, pthread_mutex_unlock, (pthread_mutex_t*))
REAL(int, pthread_mutex_timedlock, (pthread_mutex_t*, const struct timespec*))
static MutexS* mx(pthread_mutex_t* m, const char* what, void* pc) {
  chk_obj(m, what, pc);
  bool fr; MutexS* s = mutexes.get((uintptr_t)m, fr);
  if (fr) { memset(s, 0, sizeof *s); s->addr = (uintptr_t)m; s->owner = -1; s->type = m->__data.__kind & 3; }
  if (s->destroyed) fail("%s on a destroyed mutex %p pc=%p", what, (void*)m, pc);
  return s;
}
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  int t = 0; if (a) pthread_mutexattr_gettype(a, &t);
  if (!on()) return __real_pthread_mutex_init(m, a);
  if (X.fail_minit > 0 && X.fail_init_fid == cur->id && --X.fail_minit == 0) { X.minit_failed++; return EAGAIN; }
  int r = __real_pthread_mutex_init(m, a);
  chk_obj(m, "pthread_mutex_init", PC);
  bool fr; MutexS* s = mutexes.get((uintptr_t)m, fr);
  memset(s, 0, sizeof *s); s->addr = (uintptr_t)m; s->owner = -1; s->type = t; s->inited = !X.warm; if (s->inited) X.live_sync++;
  return r;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!on()) return __real_pthread_mutex_destroy(m);
  MutexS* s = mx(m, "pthread_mutex_destroy", PC);
  if (s->owner >= 0) fail("pthread_mutex_destroy of a locked mutex %p (owner T%d) pc=%p", (void*)m, s->owner, PC);
  for (int i = 0; i < X.nf; i++) if (fibers[i].st == F_MUTEX && fibers[i].obj == (uintptr_t)m) fail("pthread_mutex_destroy of a mutex with waiting threads %p pc=%p", (void*)m, PC);
  s->destroyed = true; if (s->inited) { s->inited = false; X.live_sync--; }
  return 0;
}
static void macq(MutexS* s) { s->owner = cur->id; s->count = 1; vjoin(cur->vc, s->vc); }
static int mlock(pthread_mutex_t* m, bool timed, int clk, int64_t dl, void* pc) {
  spoint(K_SYNC);
  for (;;) {
    MutexS* s = mx(m, "pthread_mutex_lock", pc);
    if (s->owner < 0) { macq(s); cur->timed = false; return 0; }
    if (s->owner == cur->id) {
      if (s->type == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
      if (s->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    if (cur->ignore) fail("harness: blocking lock inside an Ignore region");
    X.contended++;
    if (timed) {
      if (dl <= now_of(clk)) return ETIMEDOUT;
      cur->timed = true; cur->dlclk = clk; cur->dl = dl; cur->timedout = false;
    }
    block(F_MUTEX, (uintptr_t)m, pc);
    if (timed) { bool to = cur->timedout; cur->timed = false; if (to) { s = mx(m, "pthread_mutex_lock", pc); if (s->owner < 0) { macq(s); return 0; } return ETIMEDOUT; } }
  }
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!on()) return __real_pthread_mutex_lock(m); return mlock(m, false, 0, 0, PC); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on()) return __real_pthread_mutex_trylock(m);
  spoint(K_SYNC);
  MutexS* s = mx(m, "pthread_mutex_trylock", PC);
  if (s->owner < 0) { macq(s); return 0; }
  if (s->owner == cur->id && s->type == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
  return EBUSY;
}
static int64_t ts2ns(const struct timespec* t) {
  __int128 v = (__int128)t->tv_sec * 1000000000 + t->tv_nsec;
  if (v > INT64_MAX) return INT64_MAX; if (v < INT64_MIN) return INT64_MIN;
  return (int64_t)v;
}
static bool badts(const struct timespec* t) { return t->tv_nsec < 0 || t->tv_nsec >= 1000000000; }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
  if (!on()) return __real_pthread_mutex_timedlock(m, t);
  if (badts(t)) { MutexS* s = mx(m, "timedlock", PC); if (s->owner >= 0) return EINVAL; }
  return mlock(m, true, 1, ts2ns(t), PC);
}
static void wake_mutex(uintptr_t a) {
  for (int i = 0; i < X.nf; i++) if (fibers[i].st == F_MUTEX && fibers[i].obj == a) fibers[i].st = F_RUN;
}
static int munlock(pthread_mutex_t* m, void* pc) {
  MutexS* s = mx(m, "pthread_mutex_unlock", pc);
  if (s->owner != cur->id) {
    if (s->type == PTHREAD_MUTEX_ERRORCHECK || s->type == PTHREAD_MUTEX_RECURSIVE) return EPERM;
    if (s->owner < 0) fail("unlock of a mutex that is not locked %p by T%d pc=%p", (void*)m, cur->id, pc);
    fail("unlock of a mutex %p owned by T%d from T%d pc=%p", (void*)m, s->owner, cur->id, pc);
  }
  if (--s->count > 0) return 0;
  s->vc = cur->vc; tick(cur);
  s->owner = -1;
  wake_mutex((uintptr_t)m);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on()) return __real_pthread_mutex_unlock(m);
  int r = munlock(m, PC);
  spoint(K_SYNC);
  return r;
}
// ---- cond
REAL(int, pthread_cond_init, (pthread_cond_t*, const pthread_condattr_t*))
REAL(int, pthread_cond_destroy, (pthread_cond_t*))
REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*))
REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*))
REAL(int, pthread_cond_signal, (pthread_cond_t*))
REAL(int, pthread_cond_broadcast, (pthread_cond_t*))
static CondS* cv(pthread_cond_t* c, const char* what, void* pc) {
  chk_obj(c, what, pc);
  bool fr; CondS* s = conds.get((uintptr_t)c, fr);
  if (fr) { s->addr = (uintptr_t)c; s->clk = 1; s->destroyed = s->inited = false; }
  if (s->destroyed) fail("%s on a destroyed condition variable %p pc=%p", what, (void*)c, pc);
  return s;
}
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
  if (!on()) return __real_pthread_cond_init(c, a);
  if (X.fail_cinit > 0 && X.fail_init_fid == cur->id && --X.fail_cinit == 0) { X.cinit_failed++; return EAGAIN; }
  chk_obj(c, "pthread_cond_init", PC);
  int r = __real_pthread_cond_init(c, a);
  clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k);
  bool fr; CondS* s = conds.get((uintptr_t)c, fr);
  s->addr = (uintptr_t)c; s->clk = k == CLOCK_MONOTONIC ? 0 : 1; s->destroyed = false; s->inited = !X.warm; if (s->inited) X.live_sync++;
  return r;
}
int __wrap_pthread_cond_destroy(pthread_cond_t* c) {
  if (!on()) return __real_pthread_cond_destroy(c);
  CondS* s = cv(c, "pthread_cond_destroy", PC);
  for (int i = 0; i < X.nf; i++) if (fibers[i].st == F_COND && fibers[i].cond == (uintptr_t)c) fail("pthread_cond_destroy with thread T%d still waiting on %p pc=%p", i, (void*)c, PC);
  s->destroyed = true; if (s->inited) { s->inited = false; X.live_sync--; }
  return 0;
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, int64_t dl, int clkov, void* pc) {
  spoint(K_SYNC);
  CondS* s = cv(c, "pthread_cond_wait", pc);
  MutexS* ms = mx(m, "pthread_cond_wait", pc);
  if (ms->owner != cur->id) fail("pthread_cond_wait with a mutex not owned by the caller pc=%p", pc);
  if (ms->type == PTHREAD_MUTEX_RECURSIVE && ms->count > 1) fail("pthread_cond_wait with recursively locked mutex pc=%p", pc);
  int clk = clkov >= 0 ? clkov : s->clk;
  bool to = false;
  munlock(m, pc);
  if (timed && dl <= now_of(clk)) { to = true; spoint(K_SYNC); }
  else {
    cur->timedout = false;
    if (timed) { cur->timed = true; cur->dlclk = clk; cur->dl = dl; }
    cur->cond = (uintptr_t)c; cur->condseq = ++X.condseq;
    X.cwaits++;
    block(F_COND, (uintptr_t)c, pc);
    to = timed && cur->timedout;
    cur->timed = false; cur->cond = 0;
  }
  mlock(m, false, 0, 0, pc);
  return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!on()) return __real_pthread_cond_wait(c, m); return cwait(c, m, false, 0, -1, PC); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  if (!on()) return __real_pthread_cond_timedwait(c, m, t);
  if (badts(t)) return EINVAL;
  return cwait(c, m, true, ts2ns(t), -1, PC);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  if (!on()) return pthread_cond_timedwait(c, m, t);
  if (badts(t)) return EINVAL;
  return cwait(c, m, true, ts2ns(t), k == CLOCK_MONOTONIC ? 0 : 1, PC);
}
static void cwake(Fiber& f) { f.st = F_RUN; f.cond = 0; f.timed = false; f.timedout = false; }
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  if (!on()) return __real_pthread_cond_signal(c);
  spoint(K_SYNC);
  cv(c, "pthread_cond_signal", PC);
  int w[MAXF], n = 0;
  for (int i = 0; i < X.nf; i++) if (fibers[i].st == F_COND && fibers[i].cond == (uintptr_t)c) w[n++] = i;
  if (n) {
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (fibers[w[j]].condseq < fibers[w[i]].condseq) { int t = w[i]; w[i] = w[j]; w[j] = t; }
    cwake(fibers[w[aux_choice(n)]]);
  }
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  if (!on()) return __real_pthread_cond_broadcast(c);
  spoint(K_SYNC);
  cv(c, "pthread_cond_broadcast", PC);
  for (int i = 0; i < X.nf; i++) if (fibers[i].st == F_COND && fibers[i].cond == (uintptr_t)c) cwake(fibers[i]);
  return 0;
}
// ---- threads
REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))
REAL(int, pthread_join, (pthread_t, void**))
REAL(int, pthread_detach, (pthread_t))
REAL(pthread_t, pthread_self, (void))
static const uintptr_t TBASE = 0x7a0000000000ull;
static Fiber* fib(pthread_t t) { uintptr_t i = ((uintptr_t)t - TBASE) / 64; return (uintptr_t)t >= TBASE && i < (uintptr_t)X.nf ? &fibers[i] : 0; }
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!on()) return __real_pthread_create(t, a, fn, arg);
  spoint(K_SYNC);
  if (X.fail_create > 0 && --X.fail_create == 0) { X.create_failed++; return EAGAIN; }
  Fiber* f = new_fiber(fn, arg);
  if (a) { int d = 0; pthread_attr_getdetachstate(a, &d); if (d == PTHREAD_CREATE_DETACHED) f->detached = true; size_t ss = 0; pthread_attr_getstacksize(a, &ss); f->attr_stack = ss; }
  *t = (pthread_t)(TBASE + f->id * 64);
  spoint(K_SYNC);
  return 0;
}
int __wrap_pthread_join(pthread_t t, void** r) {
  if (!on()) return __real_pthread_join(t, r);
  spoint(K_SYNC);
  Fiber* f = fib(t);
  if (!f) fail("pthread_join of an invalid thread handle pc=%p", PC);
  if (f->detached) fail("pthread_join of detached thread T%d pc=%p", f->id, PC);
  if (f->joined) fail("pthread_join of an already joined thread T%d pc=%p", f->id, PC);
  if (f == cur) return EDEADLK;
  f->joined = true;
  while (f->st != F_DONE) block(F_JOIN, (uintptr_t)f->id, PC);
  vjoin(cur->vc, f->vc);
  if (r) *r = f->ret;
  return 0;
}
int __wrap_pthread_detach(pthread_t t) {
  if (!on()) return __real_pthread_detach(t);
  spoint(K_SYNC);
  Fiber* f = fib(t);
  if (!f) fail("pthread_detach of an invalid thread handle pc=%p", PC);
  if (f->detached) fail("pthread_detach of already detached thread T%d pc=%p", f->id, PC);
  if (f->joined) fail("pthread_detach of already joined thread T%d pc=%p", f->id, PC);
  f->detached = true;
  return 0;
}
pthread_t __wrap_pthread_self(void) { if (!on()) return __real_pthread_self(); return (pthread_t)(TBASE + cur->id * 64); }
// ---- TSS
REAL(int, pthread_key_create, (pthread_key_t*, void (*)(void*)))
int __wrap_pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
  for (int i = 0; i < MAXKEYS; i++) if (!keys[i].used) { keys[i].used = true; keys[i].dtor = d; *k = (pthread_key_t)i; for (int j = 0; j < MAXF; j++) fibers[j].tss[i] = 0; return 0; }
  return EAGAIN;
}
static void* host_tss[64];
int __wrap_pthread_key_delete(pthread_key_t k) { keys[k].used = false; return 0; }
void* __wrap_pthread_getspecific(pthread_key_t k) { if (k >= MAXKEYS) fail("pthread_getspecific: bad key"); return cur ? cur->tss[k] : host_tss[k]; }
int __wrap_pthread_setspecific(pthread_key_t k, const void* v) { if (k >= MAXKEYS || !keys[k].used) return EINVAL; if (cur) cur->tss[k] = (void*)v; else host_tss[k] = (void*)v; return 0; }
// ---- once
REAL(int, pthread_once, (pthread_once_t*, void (*)(void)))
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!on()) return __real_pthread_once(o, f);
  AtomS* s = atom((uintptr_t)o);
  for (;;) {
    spoint(K_SYNC);
    if (*(volatile int*)o == 2) { vjoin(cur->vc, atom((uintptr_t)o)->vc); return 0; }
    if (*(volatile int*)o == 0) break;
    block(F_GUARD, (uintptr_t)o, PC);
  }
  *(volatile int*)o = 1; cur->guard++; f(); cur->guard--; *(volatile int*)o = 2;
  s = atom((uintptr_t)o); vjoin(s->vc, cur->vc); tick(cur);
  for (int i = 0; i < X.nf; i++) if (fibers[i].st == F_GUARD && fibers[i].obj == (uintptr_t)o) fibers[i].st = F_RUN;
  return 0;
}
// ---- static guards
REAL(int, __cxa_guard_acquire, (uint64_t*))
REAL(void, __cxa_guard_release, (uint64_t*))
REAL(void, __cxa_guard_abort, (uint64_t*))
int __wrap___cxa_guard_acquire(uint64_t* g) {
  if (!on()) return __real___cxa_guard_acquire(g);
  for (;;) {
    if (*(volatile char*)g) { vjoin(cur->vc, atom((uintptr_t)g)->vc); return 0; }
    bool fr; GuardS* s = guards.get((uintptr_t)g, fr); if (fr) s->owner = -1;
    if (s->owner < 0) { s->owner = cur->id; cur->guard++; return 1; }
    block(F_GUARD, (uintptr_t)g, PC);
  }
}
static void gdone(uint64_t* g) {
  bool fr; GuardS* s = guards.get((uintptr_t)g, fr); s->owner = -1; cur->guard--;
  AtomS* a = atom((uintptr_t)g); vjoin(a->vc, cur->vc); tick(cur);
  for (int i = 0; i < X.nf; i++) if (fibers[i].st == F_GUARD && fibers[i].obj == (uintptr_t)g) fibers[i].st = F_RUN;
}
void __wrap___cxa_guard_release(uint64_t* g) { if (!on()) { __real___cxa_guard_release(g); return; } *(volatile char*)g = 1; gdone(g); }
void __wrap___cxa_guard_abort(uint64_t* g) { if (!on()) { __real___cxa_guard_abort(g); return; } gdone(g); }
// ---- time
REAL(int, clock_gettime, (clockid_t, struct timespec*))
REAL(int, gettimeofday, (struct timeval*, void*))
REAL(time_t, time, (time_t*))
REAL(int, nanosleep, (const struct timespec*, struct timespec*))
REAL(int, usleep, (useconds_t))
REAL(int, sched_yield, (void))
static int64_t read_clock(int clk) { if (!cur->ignore) { spoint(K_ATOM); X.mono += X.tick; } return now_of(clk); }
int __wrap_clock_gettime(clockid_t k, struct timespec* t) {
  if (!on()) return __real_clock_gettime(k, t);
  int64_t v = read_clock(k == CLOCK_REALTIME ? 1 : 0);
  t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
  if (t->tv_nsec < 0) { t->tv_nsec += 1000000000; t->tv_sec--; }
  return 0;
}
int __wrap_gettimeofday(struct timeval* t, void* z) {
  if (!on()) return __real_gettimeofday(t, z);
  int64_t v = read_clock(1); t->tv_sec = v / 1000000000; t->tv_usec = v % 1000000000 / 1000; return 0;
}
time_t __wrap_time(time_t* t) { if (!on()) return __real_time(t); time_t v = read_clock(1) / 1000000000; if (t) *t = v; return v; }
int __wrap_nanosleep(const struct timespec* t, struct timespec* r) {
  if (!on()) return __real_nanosleep(t, r);
  if (badts(t) || t->tv_sec < 0) { errno = EINVAL; return -1; }
  int64_t d = ts2ns(t);
  X.sleeps++;
  if (X.eintr > 0 && d > 0 && d < 1000000000000000ll && pick(2)) {   // a signal handler ran
    X.eintr--;
    int64_t part = d / 1000 * (int64_t)pick(1000); if (part) sleep_until_clk(0, X.mono + part, PC); else spoint(K_SYNC);
    if (r) { int64_t l = d - part; r->tv_sec = l / 1000000000; r->tv_nsec = l % 1000000000; }
    errno = EINTR; return -1;
  }
  sleep_until_clk(0, d > INT64_MAX - X.mono ? INT64_MAX : X.mono + d, PC);
  return 0;
}
int __wrap_clock_nanosleep(clockid_t k, int fl, const struct timespec* t, struct timespec*) {
  if (badts(t)) return EINVAL;
  int c = k == CLOCK_REALTIME; int64_t d = ts2ns(t);
  X.sleeps++;
  if (fl & TIMER_ABSTIME) sleep_until_clk(c, d, PC); else sleep_until_clk(0, X.mono + d, PC);
  return 0;
}
int __wrap_usleep(useconds_t u) { if (!on()) return __real_usleep(u); sleep_until_clk(0, X.mono + (int64_t)u * 1000, PC); return 0; }
int __wrap_sched_yield(void) { if (!on()) return __real_sched_yield(); spoint(K_YIELD); return 0; }
} // extern C

// ================================================================== tsan instrumentation entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void* p) { access_bytes((uintptr_t)p, n, 0, PC); } \
  void __tsan_write##n(void* p) { access_bytes((uintptr_t)p, n, 1, PC); } \
  void __tsan_unaligned_read##n(void* p) { access_bytes((uintptr_t)p, n, 0, PC); } \
  void __tsan_unaligned_write##n(void* p) { access_bytes((uintptr_t)p, n, 1, PC); } \
  void __tsan_read_write##n(void* p) { access_bytes((uintptr_t)p, n, 1, PC); } \
  void __tsan_unaligned_read_write##n(void* p) { access_bytes((uintptr_t)p, n, 1, PC); } \
  void __tsan_volatile_read##n(void* p) { access_bytes((uintptr_t)p, n, 0, PC); } \
  void __tsan_volatile_write##n(void* p) { access_bytes((uintptr_t)p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) access_bytes((uintptr_t)p, n, 0, PC); }
void __tsan_write_range(void* p, unsigned long n) { if (n) access_bytes((uintptr_t)p, n, 1, PC); }
void __tsan_vptr_read(void** p) { access_bytes((uintptr_t)p, 8, 0, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access_bytes((uintptr_t)p, 8, 1, PC); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { if (n) { access_bytes((uintptr_t)s, n, 0, PC); access_bytes((uintptr_t)d, n, 1, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { if (n) { access_bytes((uintptr_t)s, n, 0, PC); access_bytes((uintptr_t)d, n, 1, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { if (n) access_bytes((uintptr_t)d, n, 1, PC); return memset(d, c, n); }
} // extern C

namespace {
inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
inline void a_load_hb(uintptr_t a, int mo) {
  AtomS* s = atoms.find(a); if (!s) return;
  if (acq(mo)) vjoin(cur->vc, s->vc); else vjoin(cur->acqp, s->vc);
}
inline void a_store_hb(uintptr_t a, int mo, bool rmw) {
  AtomS* s = atom(a);
  if (rel(mo)) { if (rmw) vjoin(s->vc, cur->vc); else s->vc = cur->vc; tick(cur); }
  else if (!rmw) { s->vc = cur->relf; }
  else vjoin(s->vc, cur->relf);
}
struct A {
  uintptr_t a; int mo; bool tr;
  A(volatile void* p, size_t n, bool w, int m, void* pc) : a((uintptr_t)p), mo(m) {
    tr = on();
    if (!tr) return;
    spoint(K_ATOM);
    access_bytes(a, n, (w ? 1 : 0) | 2, pc);
  }
  void load() { if (tr) a_load_hb(a, mo); }
  void store() { if (tr) a_store_hb(a, mo, false); }
  void rmw() { if (tr) { a_load_hb(a, mo); a_store_hb(a, mo, true); } }
};
}
extern "C" {
#define ATOM(T, N) \
  T __tsan_atomic##N##_load(const volatile T* p, int mo) { A x(const_cast<volatile T*>(p), sizeof(T), false, mo, PC); T v = *p; x.load(); return v; } \
  void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { A x(p, sizeof(T), true, mo, PC); *p = v; x.store(); } \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { A x(p, sizeof(T), true, mo, PC); T o = *p; *p = v; x.rmw(); return o; } \
  T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { A x(p, sizeof(T), true, mo, PC); T o = *p; *p = (T)(o + v); x.rmw(); return o; } \
  T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { A x(p, sizeof(T), true, mo, PC); T o = *p; *p = (T)(o - v); x.rmw(); return o; } \
  T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { A x(p, sizeof(T), true, mo, PC); T o = *p; *p = (T)(o & v); x.rmw(); return o; } \
  T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { A x(p, sizeof(T), true, mo, PC); T o = *p; *p = (T)(o | v); x.rmw(); return o; } \
  T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { A x(p, sizeof(T), true, mo, PC); T o = *p; *p = (T)(o ^ v); x.rmw(); return o; } \
  T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { A x(p, sizeof(T), true, mo, PC); T o = *p; *p = (T)~(o & v); x.rmw(); return o; } \
  static inline int cas##N(volatile T* p, T* e, T v, int mo, int fmo, void* pc) { \
    A x(p, sizeof(T), true, mo, pc); if (*p == *e) { *p = v; x.rmw(); return 1; } x.mo = fmo; *e = *p; x.load(); return 0; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { return cas##N(p, e, v, mo, fmo, PC); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return cas##N(p, e, v, mo, fmo, PC); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { cas##N(p, &e, v, mo, fmo, PC); return e; }
ATOM(uint8_t, 8) ATOM(uint16_t, 16) ATOM(uint32_t, 32) ATOM(uint64_t, 64)
void __tsan_atomic_thread_fence(int mo) {
  if (!on()) return;
  spoint(K_ATOM);
  if (acq(mo)) vjoin(cur->vc, cur->acqp);
  if (rel(mo)) { cur->relf = cur->vc; tick(cur); }
}
void __tsan_atomic_signal_fence(int) {}
}

// ================================================================== allocation
void* operator new(size_t n) { return op_new(n, 16, false); }
void* operator new[](size_t n) { return op_new(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void operator delete(void* p) noexcept { op_delete(p, PC); }
void operator delete[](void* p) noexcept { op_delete(p, PC); }
void operator delete(void* p, size_t) noexcept { op_delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { op_delete(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { op_delete(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { op_delete(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_delete(p, PC); }

// assertion handlers (BOOST_ENABLE_ASSERT_HANDLER)
namespace boost {
void assertion_failed(char const* expr, char const* fn, char const* file, long line) { sim::fail("assertion failed: %s in %s at %s:%ld", expr, fn, file, line); }
void assertion_failed_msg(char const* expr, char const* msg, char const* fn, char const* file, long line) { sim::fail("assertion failed: %s (%s) in %s at %s:%ld", expr, msg, fn, file, line); }
}
extern "C" void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char* fn) { sim::fail("assertion failed: %s in %s at %s:%u", e, fn, f, l); }
