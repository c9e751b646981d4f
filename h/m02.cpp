// M02: shared_mutex / upgrade_mutex, both implementations
#include "common.h"
#include "timeutil.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/locks.hpp>

enum Op { LOCK, TRY, TIMED, SLOCK, STRY, STIMED, ULOCK, UTRY, UTIMED, UNLOCK, SUNLOCK, UUNLOCK, U2X, U2XTRY, U2XTIMED, X2U, X2S, U2S, S2XTRY, S2XTIMED, S2UTRY, S2UTIMED, NOP_ };
static const char* const ON[] = {"lock", "try_lock", "timed lock", "lock_shared", "try_lock_shared", "timed lock_shared", "lock_upgrade", "try_lock_upgrade", "timed lock_upgrade", "unlock", "unlock_shared", "unlock_upgrade",
  "unlock_upgrade_and_lock", "try_unlock_upgrade_and_lock", "try_unlock_upgrade_and_lock(timed)", "unlock_and_lock_upgrade", "unlock_and_lock_shared", "unlock_upgrade_and_lock_shared",
  "try_unlock_shared_and_lock", "try_unlock_shared_and_lock(timed)", "try_unlock_shared_and_lock_upgrade", "try_unlock_shared_and_lock_upgrade(timed)"};
enum Mode { NONE, SH, UP, EX };
static const char* const MN[] = {"none", "shared", "upgrade", "exclusive"};
static Mode from_of(int o) { if (o <= UTIMED) return NONE; switch (o) { case UNLOCK: case X2U: case X2S: return EX; case SUNLOCK: case S2XTRY: case S2XTIMED: case S2UTRY: case S2UTIMED: return SH; default: return UP; } }
static Mode to_of(int o) { if (o <= TIMED) return EX; if (o <= STIMED) return SH; if (o <= UTIMED) return UP; switch (o) { case UNLOCK: case SUNLOCK: case UUNLOCK: return NONE; case U2X: case U2XTRY: case U2XTIMED: case S2XTRY: case S2XTIMED: return EX; case X2U: case S2UTRY: case S2UTIMED: return UP; default: return SH; } }
static bool is_try(int o) { return o == TRY || o == STRY || o == UTRY || o == U2XTRY || o == S2XTRY || o == S2UTRY; }
static bool is_timed(int o) { return o == TIMED || o == STIMED || o == UTIMED || o == U2XTIMED || o == S2XTIMED || o == S2UTIMED; }
static bool can_block(int o) { return o == LOCK || o == SLOCK || o == ULOCK || o == U2X || is_timed(o); }

struct RW {
  virtual ~RW() {}
  virtual bool run(int op, int tk, int64_t d, int& clk, int64_t& dl) = 0;
  virtual bool up() const = 0; virtual const char* name() const = 0;
};
// tk: 0 _for(ns) 1 until(steady) 2 until(system) 3 timed_*(duration) 4 timed_*(ptime) 5 _for(ms) 6 until(ms_clock)
#define TIMED_FORMS(FOR, UNTIL) \
  switch (tk) { \
    case 1: clk = 0; dl = mono_now() + d; return m.UNTIL(steady_tp(dl)); \
    case 2: clk = 1; dl = real_now() + d; return m.UNTIL(system_tp(dl)); \
    case 5: clk = 0; d = d / 1000000 * 1000000; dl = mono_now() + d; return m.FOR(bc::milliseconds(d / 1000000)); \
    case 6: clk = 0; dl = (mono_now() + d) / 1000000 * 1000000; return m.UNTIL(ms_clock::time_point(bc::milliseconds(dl / 1000000))); \
    default: clk = 0; dl = mono_now() + d; return m.FOR(bc::nanoseconds(d)); }
#define DT_FORMS(OLD) \
  if (tk == 3) { clk = 0; d = d / 1000 * 1000; dl = mono_now() + d; return m.OLD(pt::microseconds(d / 1000)); } \
  if (tk == 4) { clk = 1; dl = (real_now() + d) / 1000 * 1000; return m.OLD(to_ptime(dl)); }
template <class M> struct Base : RW {
  M m;
  bool basic(int op, int tk, int64_t d, int& clk, int64_t& dl) {
    switch (op) {
      case LOCK: m.lock(); return true; case TRY: return m.try_lock(); case UNLOCK: m.unlock(); return true;
      case SLOCK: m.lock_shared(); return true; case STRY: return m.try_lock_shared(); case SUNLOCK: m.unlock_shared(); return true;
      case TIMED: DT_FORMS(timed_lock) TIMED_FORMS(try_lock_for, try_lock_until)
      case STIMED: DT_FORMS(timed_lock_shared) TIMED_FORMS(try_lock_shared_for, try_lock_shared_until)
    }
    fail("harness: op"); 
  }
};
template <class M> struct SharedOnly : Base<M> {
  bool run(int op, int tk, int64_t d, int& clk, int64_t& dl) { return this->basic(op, tk, d, clk, dl); }
  bool up() const { return false; } const char* name() const { return "shared_mutex(v2)"; }
};
template <class M> struct Upg : Base<M> {
  const char* n; Upg(const char* n_) : n(n_) {}
  bool up() const { return true; } const char* name() const { return n; }
  bool run(int op, int tk, int64_t d, int& clk, int64_t& dl) {
    M& m = this->m;
    switch (op) {
      case ULOCK: m.lock_upgrade(); return true; case UTRY: return m.try_lock_upgrade(); case UUNLOCK: m.unlock_upgrade(); return true;
      case UTIMED: DT_FORMS(timed_lock_upgrade) TIMED_FORMS(try_lock_upgrade_for, try_lock_upgrade_until)
      case U2X: m.unlock_upgrade_and_lock(); return true; case U2XTRY: return m.try_unlock_upgrade_and_lock();
      case U2XTIMED: TIMED_FORMS(try_unlock_upgrade_and_lock_for, try_unlock_upgrade_and_lock_until)
      case X2U: m.unlock_and_lock_upgrade(); return true; case X2S: m.unlock_and_lock_shared(); return true; case U2S: m.unlock_upgrade_and_lock_shared(); return true;
      case S2XTRY: return m.try_unlock_shared_and_lock(); case S2XTIMED: TIMED_FORMS(try_unlock_shared_and_lock_for, try_unlock_shared_and_lock_until)
      case S2UTRY: return m.try_unlock_shared_and_lock_upgrade(); case S2UTIMED: TIMED_FORMS(try_unlock_shared_and_lock_upgrade_for, try_unlock_shared_and_lock_upgrade_until)
      default: return this->basic(op, tk, d, clk, dl);
    }
  }
};
static RW* make_rw() {
#ifdef BOOST_THREAD_V2_SHARED_MUTEX
  if (pick(3) == 2) return new SharedOnly<boost::thread_v2::shared_mutex>();
  return new Upg<boost::upgrade_mutex>("upgrade_mutex(v2)");
#else
  return new Upg<boost::shared_mutex>("shared_mutex");
#endif
}
static const int64_t LONG = 5000000000ll;
static const int64_t DUR[] = {70000000, 0, 1000, 130000000, 500000, LONG};

// definite owners: from the return of the acquiring call to the start of the releasing one
struct Owners { Mode m[8]; int n; int grants[4]; int fails, timeouts, conv, waits; Owners() { memset(this, 0, sizeof *this); n = 8; } };
static void check_compat(RW* rw, Owners& o, int me, Mode to, const char* how) {
  for (int i = 0; i < 8; i++) if (i != me && o.m[i] != NONE) {
    bool ok = to == SH ? o.m[i] != EX : to == UP ? o.m[i] == SH : false;
    if (!ok) fail("%s: thread %d got %s ownership by %s while thread %d holds %s ownership", rw->name(), me, MN[to], how, i, MN[o.m[i]]);
  }
}
struct Step { int op, tk; int64_t d; int hold; };
struct Data { long a, b, version; };
static int pick_acquire(bool up, int n) { (void)n; static const unsigned w[] = {3, 2, 3, 4, 1, 2, 3, 1, 2}; return (int)weighted(w, up ? 9 : 6); }
static int pick_next(Mode m, bool up) {
  if (m == EX) { static const int o[] = {UNLOCK, X2U, X2S}; return o[up ? pick(3) : 0]; }
  if (m == UP) { static const int o[] = {UUNLOCK, U2X, U2S, U2XTRY, U2XTIMED}; return o[pick(5)]; }
  static const int o[] = {SUNLOCK, SUNLOCK, S2XTRY, S2XTIMED, S2UTRY, S2UTIMED}; return o[up ? pick(6) : 0];
}
struct Sh { RW* rw; Data* dt; };
// performs op for thread t in mode cur, returns new mode
static Mode perform(Sh& s, Owners& o, int t, Mode cur, const Step& st) {
  int clk = 0; int64_t dl = 0; long ver = cur != NONE ? s.dt->version : 0;
  Mode to = to_of(st.op);
  { Ignore i; if (cur == EX || (to == NONE) || st.op == U2S) o.m[t] = to; }     // a release/downgrade takes effect somewhere inside the call
  bool ok = s.rw->run(st.op, st.tk, st.d, clk, dl);
  Mode now = ok ? to : cur;
  {
    Ignore i;
    if (ok) { if (to != NONE) check_compat(s.rw, o, t, to, ON[st.op]); o.m[t] = to; o.grants[to]++; if (cur != NONE && to != NONE) o.conv++; }
    else {
      o.fails++;
      if (is_timed(st.op)) { o.timeouts++; int64_t n = now_on(clk); if (n < dl) fail("%s: %s timed out %lld ns before its deadline", s.rw->name(), ON[st.op], (long long)(dl - n)); }
    }
  }
  if (now != NONE) {
    if (cur != NONE && s.dt->version != ver) fail("%s: another thread had exclusive ownership during %s", s.rw->name(), ON[st.op]);
    if (s.dt->a != s.dt->b) fail("%s: torn data seen under %s ownership", s.rw->name(), MN[now]);
  }
  return now;
}
static void hold(Sh& s, Mode m, int h) {
  if (m == EX) { s.dt->version++; s.dt->a++; point(); if (h) delay(h); s.dt->b++; }
  else { long v = s.dt->version; point(); if (h) delay(h); if (v != s.dt->version || s.dt->a != s.dt->b) fail("%s: data changed while held %s", s.rw->name(), MN[m]); }
}
SCENARIO(concurrent, 5) {
  check_leaks(true); allow_spurious(pick(3)); allow_early_time(chance(1, 3));
  Sh s; s.rw = make_rw(); s.dt = new Data(); Priv<Owners> own; Owners* o = own.p;
  int nt = range(2, 4); bool up = s.rw->up();
  note("%s, %d threads", s.rw->name(), nt);
  std::vector<std::vector<Step> > pr(nt);
  for (int t = 0; t < nt; t++) {
    int n = range(1, 3);
    for (int k = 0; k < n; k++) {   // one session: the ops are chosen by outcome at run time from this list
      Step a; a.op = pick_acquire(up, 0); a.tk = pick(7); a.d = DUR[pick(6)]; a.hold = pick(5) == 4 ? 90000000 : 0; pr[t].push_back(a);
      Mode m = to_of(a.op); int conv = 0;
      note(" T%d: %s", t, ON[a.op]);
      while (m != NONE) {
        Step b; b.op = conv++ >= 2 ? (m == EX ? UNLOCK : m == UP ? UUNLOCK : SUNLOCK) : pick_next(m, up); b.tk = pick(7); b.d = DUR[pick(6)]; b.hold = pick(6) == 5 ? 60000000 : 0;
        pr[t].push_back(b); m = to_of(b.op); note("  T%d: %s", t, ON[b.op]);
      }
    }
  }
  {
    Threads th;
    for (int t = 0; t < nt; t++) { std::vector<Step>* p = &pr[t]; th.add([=] {
      Sh sh = s; Mode m = NONE;
      for (auto& st : *p) {
        Mode want = from_of(st.op);
        if (m != want) {
          if (m == NONE) continue;                         // acquisition failed: skip the rest of the session
          if (want == NONE || to_of(st.op) == NONE) {      // release whatever we really own
            Step r = st; r.op = m == EX ? UNLOCK : m == UP ? UUNLOCK : SUNLOCK; m = perform(sh, *o, t, m, r);
            if (want != NONE) continue;
          } else continue;
        }
        m = perform(sh, *o, t, m, st);
        if (m != NONE) hold(sh, m, st.hold);
      }
      if (m != NONE) { Step r; r.op = m == EX ? UNLOCK : m == UP ? UUNLOCK : SUNLOCK; r.tk = 0; r.d = 0; perform(sh, *o, t, m, r); }
    }); }
    th.join();
  }
  int clk; int64_t dl;
  SIM_CHECK(s.rw->run(TRY, 0, 0, clk, dl), "%s: not free after every owner released it", s.rw->name());
  s.rw->run(UNLOCK, 0, 0, clk, dl);
  SIM_CHECK(s.rw->run(STRY, 0, 0, clk, dl), "%s: try_lock_shared fails on the free mutex", s.rw->name());
  s.rw->run(SUNLOCK, 0, 0, clk, dl);
  SIM_CHECK(s.dt->a == s.dt->b && s.dt->a == s.dt->version, "%s: data inconsistent", s.rw->name());
  { Ignore i; nontrivial(o->grants[EX] + o->grants[SH] + o->grants[UP] > 2); if (o->conv) label("conversion"); if (o->timeouts) label("timed-out"); if (o->fails) label("failed-attempt"); }
  delete s.rw; delete s.dt;
}

// Driven to quiescence after every command; the waiting rules are checked exactly.
struct W { int64_t slack; Mode m; bool waiting; int op; bool done, ok; int clk; int64_t dl; int64_t at[2]; };
SCENARIO(waiting_rules, 6) {
  check_leaks(true); allow_spurious(pick(3));
  Sh s; s.rw = make_rw(); bool up = s.rw->up(); RW* rw = s.rw;
  int nt = range(2, 5); Priv<std::vector<W> > ws; { Ignore i; W z; memset(&z, 0, sizeof z); ws->assign(nt, z); }
  std::vector<W>& w = *ws; Workers wk(nt);
  note("%s, %d workers", rw->name(), nt);
  int waits = 0, handed = 0, gave_up = 0;
  auto settle = [&](const char* after) {
    wait_quiescent();
    for (int i = 0; i < nt; i++) if (w[i].waiting && w[i].done) {
      w[i].waiting = false;
      if (w[i].ok) { handed++; w[i].m = to_of(w[i].op); }
      else { gave_up++; if (!is_timed(w[i].op)) fail("%s: %s failed", rw->name(), ON[w[i].op]); if (w[i].at[w[i].clk] < w[i].dl) fail("%s: %s gave up %lld ns before its deadline", rw->name(), ON[w[i].op], (long long)(w[i].dl - w[i].at[w[i].clk])); }
    }
    int ex = -1, upo = -1, sh = 0, held = 0, ww = 0, upw = 0;
    for (int i = 0; i < nt; i++) {
      if (w[i].m == EX) { if (ex >= 0) fail("%s: threads %d and %d both own exclusively", rw->name(), ex, i); ex = i; }
      if (w[i].m == UP) { if (upo >= 0) fail("%s: threads %d and %d both own the upgrade lock", rw->name(), upo, i); upo = i; }
      if (w[i].m == SH) sh++;
      if (w[i].m != NONE) held++;
      if (w[i].waiting && to_of(w[i].op) == EX) { ww++; if (from_of(w[i].op) != NONE) upw++; }
    }
    if (ex >= 0 && held > 1) fail("%s: thread %d owns exclusively while another thread owns the mutex", rw->name(), ex);
    for (int i = 0; i < nt; i++) if (w[i].waiting) {
      int op = w[i].op; bool others = held > (w[i].m != NONE ? 1 : 0), may = false;
      int owr = ww - (to_of(op) == EX ? 1 : 0);
      switch (to_of(op)) {
        case EX: may = !others && (from_of(op) == NONE ? true : from_of(op) == UP ? true : owr == 0); break;
        case SH: may = ex < 0 && ww == 0; break;
        case UP: may = ex < 0 && upo < 0 && ww == 0; break;
        default: break;
      }
      if (from_of(op) == NONE && to_of(op) == EX && held == 0) may = true;
      if (may) {
        // several mutually exclusive waiters: it is enough that one of them got it, which would then hold it
        fail("%s: after %s, thread %d stays blocked in %s although nothing prevents it (owners: %d, waiting for exclusive ownership: %d)", rw->name(), after, i, ON[op], held, ww);
      }
      if (is_timed(op) && w[i].dl + w[i].slack + 200000000 < now_on(w[i].clk)) fail("%s: thread %d still blocked in %s long after its deadline", rw->name(), i, ON[op]);
    }
  };
  int n = range(3, 14);
  for (int k = 0; k < n; k++) {
    unsigned c = pick(8);
    if (c == 7) { int64_t d = pick(2) ? 90000000 : LONG + 500000000; note(" %lld ns pass", (long long)d); delay(d); settle("time passing"); continue; }
    int t = pick(nt); if (w[t].waiting) continue;
    int op = w[t].m == NONE ? pick_acquire(up, 0) : pick_next(w[t].m, up); int tk = pick(7); int64_t d = pick(2) ? LONG : 70000000;
    bool others = false, anyw = false; Mode omax = NONE; for (int i = 0; i < nt; i++) { if (i != t) { if (w[i].m != NONE) { others = true; omax = std::max(omax, w[i].m); } if (w[i].waiting) anyw = true; } }
    note(" T%d: %s%s", t, ON[op], is_timed(op) ? d == LONG ? " (5s)" : " (70ms)" : "");
    W* x = &w[t]; x->op = op; x->done = false; x->clk = 0; x->dl = INT64_MAX; x->waiting = false; x->slack = 0;
#ifdef BOOST_THREAD_V2_SHARED_MUTEX
    if (op == TIMED && tk == 3) x->slack = d;   // known finding of C02 (kf_v2_timed_lock): waits up to twice the duration
#endif
   
    wk.post(t, [=] { int clk = 0; int64_t dl = 0; if (is_timed(op)) { Ignore i; x->clk = 0; x->dl = mono_now() + d; } bool ok = rw->run(op, tk, d, clk, dl); Ignore i; if (is_timed(op)) { x->clk = clk; x->dl = dl; } x->ok = ok; x->at[0] = mono_now(); x->at[1] = real_now(); x->done = true; });
    wait_quiescent();
    Mode to = to_of(op);
    bool permitted = to == EX ? !others : to == SH ? omax != EX : to == UP ? omax == NONE || omax == SH : true;
    if (!x->done) {
      if (!can_block(op)) fail("%s: %s blocks", rw->name(), ON[op]);
      if (permitted && !anyw) fail("%s: %s blocks although nothing prevents it", rw->name(), ON[op]);
      x->waiting = true; waits++;
    } else if (x->ok) {
      if (to != NONE && !permitted) fail("%s: %s by thread %d succeeded although the mutex is held %s by another thread", rw->name(), ON[op], t, MN[omax]);
      x->m = to;
    } else {
      if (is_try(op)) { if (permitted && !anyw) fail("%s: %s failed although nothing prevents it", rw->name(), ON[op]); }
      else fail("%s: %s gave up at once", rw->name(), ON[op]);
    }
    settle(ON[op]);
  }
  // release everything: everybody must get through
  for (int guard = 0; guard < 60; guard++) {
    int t = -1; for (int i = 0; i < nt; i++) if (w[i].m != NONE && !w[i].waiting) { t = i; break; }
    if (t < 0) { bool any = false; for (auto& x : w) if (x.waiting) any = true; if (!any) break; delay(LONG + 500000000); settle("time passing"); continue; }
    int op = w[t].m == EX ? UNLOCK : w[t].m == UP ? UUNLOCK : SUNLOCK; note(" final T%d: %s", t, ON[op]);
    wk.post(t, [=] { int clk; int64_t dl; rw->run(op, 0, 0, clk, dl); });
    w[t].m = NONE;
    settle(ON[op]);
  }
  int clk; int64_t dl;
  SIM_CHECK(rw->run(TRY, 0, 0, clk, dl), "%s: not free after every owner released it", rw->name());
  rw->run(UNLOCK, 0, 0, clk, dl);
  wk.finish();
  nontrivial(waits > 0); if (handed) label("granted-after-waiting"); if (gave_up) label("waiter-gave-up");
  delete rw;
}
int main(int c, char** v) { return pbt_main(c, v, "concurrent: more than two grants; waiting_rules: at least one operation had to wait"); }
