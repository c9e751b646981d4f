// I01: an interruption request is delivered once, only where it may be
#include "timeutil.h"
#include "common.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/locks.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/barrier.hpp>
#include <boost/thread/tss.hpp>
using boost::this_thread::interruption_enabled; using boost::this_thread::interruption_requested; using boost::this_thread::interruption_point;
static const int64_t MS = 1000000, SEC = 1000000000;
// A thread that executes commands one at a time; the hand-over uses no interruption point.
struct Cmd {
  pthread_mutex_t m; pthread_cond_t c; std::function<void()> f; bool has, busy, quit;
  Cmd() : has(false), busy(false), quit(false) { pthread_mutex_init(&m, 0); pthread_cond_init(&c, 0); }
  ~Cmd() { pthread_mutex_destroy(&m); pthread_cond_destroy(&c); }
  void loop() {
    for (;;) {
      std::function<void()> g;
      pthread_mutex_lock(&m); while (!has && !quit) pthread_cond_wait(&c, &m);
      if (!has) { pthread_mutex_unlock(&m); return; }
      g.swap(f); has = false; pthread_mutex_unlock(&m);
      struct Done { Cmd* k; ~Done() { Ignore i; k->busy = false; } } d = {this};
      g();
    }
  }
  void post(std::function<void()> g) { { Ignore i; if (busy) fail("harness: busy"); busy = true; } pthread_mutex_lock(&m); f = g; has = true; pthread_cond_signal(&c); pthread_mutex_unlock(&m); }
  void stop() { pthread_mutex_lock(&m); quit = true; pthread_cond_signal(&c); pthread_mutex_unlock(&m); }
  bool isbusy() { Ignore i; return busy; }
};
enum Op { IPOINT, CVW, CVWT, CVAW, CVAWT, SLEEPF, SLEEPU, SLEEPREL, JOIN, TJOIN, FUTW, FUTG, LOCKM, LOCKS, NSLEEP, DISABLE, RESTORE, POP, QUERY, SCOPED, NOPS };
static const char* const ON[] = {"interruption_point", "cv.wait", "cv.wait_for", "cv_any.wait", "cv_any.wait_until", "sleep_for", "sleep_until(system)", "sleep(posix)", "join", "try_join_for", "future.wait", "future.get", "mutex.lock", "shared_mutex.lock", "no_interruption_point::sleep_for", "disable_interruption", "restore_interruption", "end of scope", "query", "nested scopes + wait"};
static bool ipoint(int op) { return op <= FUTG || op == SCOPED; }
struct Obj {   // what targets block on
  boost::mutex m; boost::condition_variable cv; bool flag; int guarded;
  boost::recursive_mutex rm; boost::condition_variable_any cva; bool aflag; int aguarded;
  boost::mutex held; boost::shared_mutex sm; bool held_by_ctl, sm_by_ctl;
  boost::promise<int> pr; boost::shared_future<int> fu;
  Obj() : flag(false), guarded(0), aflag(false), aguarded(0), held_by_ctl(false), sm_by_ctl(false) { fu = boost::shared_future<int>(pr.get_future()); }
};
struct Scope { boost::this_thread::disable_interruption* d; boost::this_thread::restore_interruption* r; Scope() : d(0), r(0) { } };
struct Tg {
  Cmd cmd; boost::thread th; Cmd hc; boost::thread helper; std::vector<Scope> sc;
  int op; int outcome;                 // 0 running 1 normal 2 interrupted
  bool q_en, q_rq;                     // what the thread itself reported
  // model
  bool requested, enabled, blocked, hdone; struct MS_ { bool dis, was; }; std::vector<MS_> ms; bool ended;
  Tg() : op(-1), outcome(1), q_en(true), q_rq(false), requested(false), enabled(true), blocked(false), hdone(false), ended(false) { }
};
static void do_wait(int op, Obj* o, Tg* t) {
  switch (op) {
    case IPOINT: interruption_point(); break;
    case CVW: case CVWT: {
      boost::unique_lock<boost::mutex> l(o->m);
      struct Chk { boost::unique_lock<boost::mutex>* l; Obj* o; ~Chk() { if (!l->owns_lock()) fail("wait left without the lock"); o->guarded++; } } c = {&l, o};
      if (op == CVW) { if (flip()) o->cv.wait(l, [o] { return o->flag; }); else while (!o->flag) o->cv.wait(l); }
      else o->cv.wait_for(l, bc::seconds(1000), [o] { return o->flag; });
      break; }
    case CVAW: case CVAWT: {
      boost::unique_lock<boost::recursive_mutex> l(o->rm);
      struct Chk { boost::unique_lock<boost::recursive_mutex>* l; Obj* o; ~Chk() { if (!l->owns_lock()) fail("wait left without the lock"); o->aguarded++; } } c = {&l, o};
      if (op == CVAW) o->cva.wait(l, [o] { return o->aflag; });
      else o->cva.wait_until(l, steady_tp(mono_now()) + bc::seconds(1000), [o] { return o->aflag; });
      break; }
    case SLEEPF: boost::this_thread::sleep_for(bc::seconds(1000)); break;
    case SLEEPU: boost::this_thread::sleep_until(bc::system_clock::now() + bc::seconds(3)); break;
    case SLEEPREL:
#if defined BOOST_THREAD_USES_DATETIME
      boost::this_thread::sleep(pt::seconds(1000)); break;
#else
      boost::this_thread::sleep_for(bc::seconds(1000)); break;
#endif
    case JOIN: t->helper.join(); break;
    case TJOIN: if (!t->helper.try_join_for(bc::seconds(1000000))) fail("timed join gave up early"); break;
    case FUTW: o->fu.wait(); break;
    case FUTG: if (o->fu.get() != 7) fail("wrong value"); break;
    case LOCKM: { boost::unique_lock<boost::mutex> l(o->held); break; }
    case LOCKS: if (flip()) { o->sm.lock(); o->sm.unlock(); } else { o->sm.lock_shared(); o->sm.unlock_shared(); } break;
    case NSLEEP: boost::this_thread::no_interruption_point::sleep_for(bc::seconds(500)); break;
  }
}
static void run_op(Tg* t, int op, Obj* o, int arg) {
  int out = 1;
  try {
    switch (op) {
      case DISABLE: { Scope s; s.d = new boost::this_thread::disable_interruption; Ignore i; t->sc.push_back(s); break; }
      case RESTORE: { Scope s; s.r = new boost::this_thread::restore_interruption(*t->sc.back().d); Ignore i; t->sc.push_back(s); break; }
      case POP: { Scope s; { Ignore i; s = t->sc.back(); t->sc.pop_back(); } delete s.r; delete s.d; break; }
      case SCOPED: {   // the exception leaves the scopes
        boost::this_thread::disable_interruption a;
        interruption_point();
        { boost::this_thread::restore_interruption b(a); boost::this_thread::disable_interruption c; { boost::this_thread::restore_interruption d(c); do_wait(arg, o, t); } }
        if (interruption_enabled()) fail("interruption enabled inside disable_interruption");
        break; }
      case QUERY: break;
      default: do_wait(op, o, t);
    }
  } catch (boost::thread_interrupted&) { out = 2; }
  bool en = interruption_enabled(), rq = interruption_requested();
  Ignore i; t->q_en = en; t->q_rq = rq; t->outcome = out;
}
SCENARIO(phases, 4) {
  allow_early_time(false); if (chance(1, 3)) allow_spurious(range(1, 3));
  int n = range(1, 3);
  std::vector<Tg*> T; Obj* o = new Obj; Threads aux;
  { Ignore i; T.reserve(n); }
  Counter started;
  auto helper_for = [&](Tg* t) { Cmd* h = &t->hc; t->hdone = false; { Ignore i; h->quit = false; } t->helper = boost::thread([h] { h->loop(); }); };
  for (int i = 0; i < n; i++) { Tg* t = new Tg; T.push_back(t); helper_for(t); t->th = boost::thread([t] { try { t->cmd.loop(); } catch (boost::thread_interrupted&) { throw; } }); }
  int steps = range(1, 14);
  auto check = [&](const char* what) {
    wait_quiescent();
    for (int i = 0; i < n; i++) {
      Tg* t = T[i]; if (t->ended) continue;
      // model of what must have happened
      if (t->blocked && t->enabled && t->requested && ipoint(t->op)) { t->blocked = false; t->requested = false; { Ignore ig; if (t->outcome != 2) fail("after %s: thread %d in %s should have been interrupted (%s)", what, i, ON[t->op], t->outcome ? "returned normally" : "still blocked"); } nontrivial(); label(ON[t->op]); }
      Ignore ig;
      if (t->blocked != t->cmd.busy) fail("after %s: thread %d in %s is %s", what, i, t->op >= 0 ? ON[t->op] : "-", t->cmd.busy ? "blocked but should have gone on" : t->outcome == 2 ? "no longer blocked: interrupted although it must not be" : "no longer blocked");
      if (!t->blocked && (t->q_en != t->enabled)) fail("after %s: thread %d reports interruption_enabled() = %d, should be %d", what, i, (int)t->q_en, (int)t->enabled);
    }
    for (int i = 0; i < n; i++) if (!T[i]->ended) { bool r = T[i]->th.interruption_requested(); if (r != T[i]->requested) fail("after %s: thread::interruption_requested() of thread %d is %d, should be %d", what, i, (int)r, (int)T[i]->requested); }
  };
  auto idle_expect = [&](Tg* t, int i, int out) { Ignore ig; if (t->outcome != out) fail("thread %d: %s %s", i, ON[t->op], out == 2 ? "should have thrown thread_interrupted" : "threw thread_interrupted but should not"); };
  for (int s = 0; s < steps; s++) {
    int i = pick(n); Tg* t = T[i];
    unsigned w[] = {4, 6, 3};
    unsigned k = weighted(w, 3);
    if (k == 0) {      // interrupt
      int times = t->blocked && t->enabled && ipoint(t->op) ? 1 : 1 + (int)chance(1, 4);
      note("interrupt thread %d%s", i, times > 1 ? " twice" : "");
      for (int q = 0; q < times; q++) { if (chance(1, 4)) { boost::thread mv(boost::move(t->th)); if (t->th.interruption_requested()) fail("moved-from thread says interruption requested"); t->th.interrupt(); mv.interrupt(); t->th = boost::move(mv); } else t->th.interrupt(); }
      if (!t->ended) t->requested = true;
      check("interrupt");
    } else if (k == 1 && !t->blocked && !t->ended) {   // operation
      int op;
      do {
        op = pick(NOPS);
        if (op == POP && t->ms.empty()) continue;
        if (op == RESTORE && (t->ms.empty() || !t->ms.back().dis)) continue;
        break;
      } while (true);
      if (op == LOCKM && !o->held_by_ctl) { o->held.lock(); o->held_by_ctl = true; }
      if (op == LOCKS && !o->sm_by_ctl) { bool busy = false; for (auto x : T) if (x->blocked && x->op == LOCKS) busy = true; if (busy) continue; o->sm.lock(); o->sm_by_ctl = true; }
      if (op == JOIN || op == TJOIN || op == SCOPED) { if (t->hdone && t->helper.joinable()) t->helper.join(); if (!t->helper.joinable()) helper_for(t); }
      int arg = 0;
      if (op == SCOPED) { static const int as[] = {IPOINT, CVW, CVAW, SLEEPF, JOIN, FUTW}; arg = as[pick(6)]; }
      t->op = op; { Ignore ig; t->outcome = 0; }
      note("thread %d: %s%s%s", i, ON[op], op == SCOPED ? " around " : "", op == SCOPED ? ON[arg] : "");
      t->cmd.post([t, op, o, arg] { run_op(t, op, o, arg); });
      // model
      bool en = t->enabled;
      if (op == DISABLE) { t->ms.push_back(Tg::MS_{true, t->enabled}); t->enabled = false; }
      else if (op == RESTORE) { bool was = t->ms.back().was; t->ms.push_back(Tg::MS_{false, was}); if (was) t->enabled = true; }
      else if (op == POP) { Tg::MS_ m = t->ms.back(); t->ms.pop_back(); t->enabled = m.dis ? m.was : false; }
      // restore(d) of a disable made while disabled leaves interruption disabled: SCOPED follows the state at entry
      bool waits = op != IPOINT && op != DISABLE && op != RESTORE && op != POP && op != QUERY;
      if (op == SCOPED) waits = arg != IPOINT;
      int exp = 1;
      if (ipoint(op) && en && t->requested) { exp = 2; t->requested = false; }
      else if (waits) { exp = 0; t->blocked = true; }
      check(ON[op]);
      if (exp) idle_expect(t, i, exp);
    } else if (k == 2) {      // events
      unsigned e = pick(6);
      auto done = [&](int a, int b) {
        for (int j = 0; j < n; j++) { Tg* x = T[j]; if (!x->blocked) continue; if (x->op == a || x->op == b) x->blocked = false; else continue; }
      };
      if (e == 0) { note("condition becomes true"); { boost::unique_lock<boost::mutex> l(o->m); o->flag = true; o->cv.notify_all(); } }
      else if (e == 1) { note("condition (any) becomes true"); { boost::unique_lock<boost::recursive_mutex> l(o->rm); o->aflag = true; o->cva.notify_all(); } }
      else if (e == 2) { note("future becomes ready"); o->pr.set_value(7); }
      else if (e == 3) { note("thread %d's helper ends", i); if (!t->helper.joinable() || t->hdone) continue; t->hdone = true; t->hc.stop(); }
      else if (e == 4) { note("locks released"); if (o->held_by_ctl) { o->held.unlock(); o->held_by_ctl = false; } if (o->sm_by_ctl) { o->sm.unlock(); o->sm_by_ctl = false; } }
      else { note("time passes"); delay(2000 * SEC); }
      wait_quiescent();
      for (int j = 0; j < n; j++) {
        Tg* x = T[j]; if (!x->blocked) continue;
        bool over = false; int op = x->op;
        bool fin; { Ignore ig; fin = !x->cmd.busy; }
        if (op == SCOPED) {   // what it waits for is known to the thread only: derive from whether it finished
          over = fin;
        } else switch (e) {
          case 0: over = op == CVW || op == CVWT; break; case 1: over = op == CVAW || op == CVAWT; break; case 2: over = op == FUTW || op == FUTG; break;
          case 3: over = j == i && (op == JOIN || op == TJOIN); break; case 4: over = op == LOCKM || op == LOCKS; break;
          case 5: over = op == SLEEPF || op == SLEEPU || op == SLEEPREL || op == NSLEEP || op == CVWT || op == CVAWT; break;
        }
        if (over) { x->blocked = false; Ignore ig; if (x->outcome != 1) fail("thread %d: %s should have returned normally", j, ON[op]); }
      }
      check("event");
      if (e == 0) { boost::unique_lock<boost::mutex> l(o->m); o->flag = false; }
      if (e == 1) { boost::unique_lock<boost::recursive_mutex> l(o->rm); o->aflag = false; }
      if (e == 2) { o->pr = boost::promise<int>(); o->fu = boost::shared_future<int>(o->pr.get_future()); }
      (void)done;
    }
  }
  // end: everybody is let go
  if (o->held_by_ctl) o->held.unlock(); if (o->sm_by_ctl) o->sm.unlock();
  { boost::unique_lock<boost::mutex> l(o->m); o->flag = true; o->cv.notify_all(); }
  { boost::unique_lock<boost::recursive_mutex> l(o->rm); o->aflag = true; o->cva.notify_all(); }
  o->pr.set_value(7);
  for (auto t : T) if (t->helper.joinable()) t->hc.stop();
  delay(2000 * SEC); wait_quiescent();
  for (int i = 0; i < n; i++) {
    Tg* t = T[i];
    if (t->cmd.isbusy()) fail("thread %d is still blocked in %s after everything was released", i, ON[t->op]);
    while (!t->ms.empty()) { t->ms.pop_back(); t->cmd.post([t, o] { run_op(t, POP, o, 0); }); wait_quiescent(); }
    { Ignore ig; if (!t->q_en) fail("interruption still disabled after all scopes ended"); }
    if (flip()) {   // an uncaught interruption ends the thread silently
      bool pending = t->requested; note("thread %d ends by an uncaught interruption", i);
      bool late = !pending && flip();
      t->cmd.post([late] { if (late) boost::this_thread::sleep_for(bc::seconds(50)); else interruption_point(); });
      if (!pending) { wait_quiescent(); t->th.interrupt(); if (!late) t->cmd.stop(); }
      if (!pending && !late) { }
    } else t->cmd.stop();
    t->th.join();
    t->th.interrupt();  // no effect
    if (t->th.joinable() || t->th.interruption_requested()) fail("joined thread still has state");
    if (t->helper.joinable()) t->helper.join();
    delete t;
  }
  if (!o->m.try_lock() || !o->rm.try_lock() || !o->held.try_lock() || !o->sm.try_lock()) fail("a lock was left held");
  o->m.unlock(); o->rm.unlock(); o->held.unlock(); o->sm.unlock();
  delete o;
  std::vector<Tg*>().swap(T);
}
// interruptions racing with entering, leaving and being notified in waits
SCENARIO(racing, 5) {
  allow_early_time(chance(1, 3)); if (chance(1, 3)) allow_spurious(2);
  int nt = range(1, 3), rounds = range(1, 4), ni = range(1, 2);
  struct R { boost::thread th; int thrown, normal; uint64_t last_throw_end, last_int_begin; int ints_begun, ints_done; bool bad; };
  std::vector<R> r(nt); for (auto& x : r) { x.thrown = x.normal = 0; x.last_throw_end = x.last_int_begin = 0; x.ints_begun = x.ints_done = 0; }
  struct Sh { boost::mutex m; boost::condition_variable cv; boost::condition_variable_any cva; int tickets; boost::promise<void> pr; boost::shared_future<void> fu; } sh;
  sh.tickets = 0; sh.fu = boost::shared_future<void>(sh.pr.get_future());
  Counter stop; Sh* S = &sh; Counter* pstop = &stop;
  for (int i = 0; i < nt; i++) {
    R* x = &r[i];
    x->th = boost::thread([x, S, rounds, pstop] {
      std::unique_ptr<boost::condition_variable> own;
      auto caught = [x] { Ignore i; x->thrown++; x->last_throw_end = next_stamp(); if (x->thrown > x->ints_begun) fail("thread_interrupted thrown %d times after %d interruption requests", x->thrown, x->ints_begun); };
      for (int k = 0; k < rounds; k++) {
        unsigned op = pick(6); bool dis = chance(1, 4);
        try {
          if (dis) {
            boost::this_thread::disable_interruption di; bool rq0 = interruption_requested();
            try { interruption_point(); boost::unique_lock<boost::mutex> l(S->m); S->cv.wait_for(l, bc::milliseconds(2)); } catch (boost::thread_interrupted&) { fail("interrupted while disable_interruption is in force"); }
            if (rq0 && !interruption_requested()) fail("a pending interruption request disappeared while interruption was disabled");
          } else if (op == 0) interruption_point();
          else if (op == 1) { boost::unique_lock<boost::mutex> l(S->m); struct C { boost::unique_lock<boost::mutex>& l; ~C() { if (!l.owns_lock()) fail("lock not re-acquired"); } } c = {l}; while (!S->tickets) { if (S->cv.wait_for(l, bc::milliseconds(5)) == boost::cv_status::timeout) break; } if (S->tickets) S->tickets--; }
          else if (op == 2) boost::this_thread::sleep_for(bc::milliseconds(3));
          else if (op == 3) { boost::unique_lock<boost::mutex> l(S->m); own.reset(new boost::condition_variable); try { own->wait_for(l, bc::milliseconds(1)); } catch (...) { own.reset(); throw; } own.reset(); }
          else if (op == 4) { boost::unique_lock<boost::mutex> l(S->m); S->cva.wait_for(l, bc::milliseconds(4)); }
          else S->fu.wait_for(bc::milliseconds(5));
          Ignore i; x->normal++;
        } catch (boost::thread_interrupted&) { caught(); if (interruption_enabled() == false) fail("interruption disabled after being delivered"); }
      }
      pstop->wait(1);      // every interrupt() has returned
      bool pend; { pend = interruption_requested(); }
      bool threw = false;
      try { interruption_point(); } catch (boost::thread_interrupted&) { threw = true; caught(); }
      if (pend != threw) fail("interruption_requested() said %d but interruption_point() %s", (int)pend, threw ? "threw" : "did not throw");
      if (interruption_requested()) fail("request not consumed by the throw");
      interruption_point();
      Ignore i;
      if (x->ints_begun && x->last_throw_end < x->last_int_begin) fail("an interruption request was lost: %d requests, %d throws", x->ints_begun, x->thrown);
      if (!x->ints_begun && x->thrown) fail("interrupted without a request");
    });
  }
  Threads T; Counter fin; int total = 0;
  for (int j = 0; j < ni; j++) {
    int cnt = range(1, 4); total++;
    T.add([&r, nt, cnt, &fin] { for (int k = 0; k < cnt; k++) { R* x = &r[pick(nt)]; { Ignore i; x->ints_begun++; x->last_int_begin = next_stamp(); } x->th.interrupt(); { Ignore i; x->ints_done++; } if (chance(1, 2)) delay(500000); nontrivial(); } fin.add(); });
  }
  int nn = pick(4); total++;
  T.add([S, nn, &fin] { for (int k = 0; k < nn; k++) { unsigned w = pick(3); if (w == 0) { boost::lock_guard<boost::mutex> g(S->m); S->tickets++; S->cv.notify_one(); } else if (w == 1) { boost::lock_guard<boost::mutex> g(S->m); S->cv.notify_all(); S->cva.notify_all(); } else S->cv.notify_one(); } fin.add(); });
  fin.wait(total); stop.add();
  T.join();
  for (auto& x : r) x.th.join();
  sh.pr.set_value();
  std::vector<R>().swap(r);
}
// every blocking step needs its own interruption: a lost one hangs, a duplicated one skips a step
SCENARIO(one_interrupt_per_wait, 3) {
  allow_early_time(false); if (chance(1, 3)) allow_spurious(2);
  int nt = range(1, 2), rounds = range(1, 4); bool shared = flip();
  struct Sh { boost::mutex m; boost::condition_variable cv; boost::condition_variable_any cva; boost::promise<int> pr; boost::shared_future<int> fu; } sh; sh.fu = boost::shared_future<int>(sh.pr.get_future());
  Sh* S = &sh;
  std::vector<Counter> ca(nt); std::vector<Counter> go(nt); std::vector<boost::thread> th(nt); std::vector<Sh> own(shared ? 0 : nt);
  for (auto& x : own) x.fu = boost::shared_future<int>(x.pr.get_future());
  for (int i = 0; i < nt; i++) {
    Counter *c = &ca[i], *g = &go[i]; Sh* s = shared ? S : &own[i];
    th[i] = boost::thread([c, g, s, rounds] {
      for (int k = 0; k < rounds; k++) {
        g->wait(k + 1);
        bool threw = false; unsigned op = pick(4);
        try {
          if (op == 0) { boost::unique_lock<boost::mutex> l(s->m); for (;;) s->cv.wait(l); }
          else if (op == 1) { boost::unique_lock<boost::mutex> l(s->m); for (;;) s->cva.wait(l); }
          else if (op == 2) { s->fu.wait(); fail("future ready?"); }
          else boost::this_thread::sleep_for(bc::hours(100));
        } catch (boost::thread_interrupted&) { threw = true; }
        if (!threw) fail("a blocking call returned without interruption");
        if (interruption_requested()) fail("request not consumed");
        c->add();
      }
    });
  }
  for (int k = 0; k < rounds; k++) for (int i = 0; i < nt; i++) {
    bool before = flip();          // before the wait begins, while it begins, or when it is blocked
    if (before) th[i].interrupt();
    go[i].add();
    if (!before) { if (flip()) wait_quiescent(); th[i].interrupt(); }
    ca[i].wait(k + 1);
    nontrivial();
    for (int j = 0; j < nt; j++) if (j != i && th[j].interruption_requested()) fail("interrupting thread %d marked thread %d", i, j);
  }
  for (auto& t : th) t.join();
  std::vector<boost::thread>().swap(th); std::vector<Sh>().swap(own); std::vector<Counter>().swap(ca); std::vector<Counter>().swap(go);
}
// a wait that ends because of the interruption throws from that very call, not from a later one
SCENARIO(wait_itself_throws, 1) {
  allow_early_time(false);
  boost::mutex m; boost::condition_variable cv; boost::condition_variable_any cva; unsigned op = pick(6); bool threw = false, ret = false;
  boost::mutex* pm = &m; boost::condition_variable* pc = &cv; boost::condition_variable_any* pa = &cva;
  static const char* const nm[] = {"cv.wait", "cv_any.wait", "cv.wait_for", "cv_any.wait_for", "cv.wait_until(system)", "cv_any.wait_until(system)"};
  note("%s", nm[op]);
  boost::thread t([=, &threw, &ret] {
    boost::unique_lock<boost::mutex> l(*pm);
    try {
      switch (op) { case 0: pc->wait(l); break; case 1: pa->wait(l); break; case 2: pc->wait_for(l, bc::seconds(1000)); break; case 3: pa->wait_for(l, bc::seconds(1000)); break;
        case 4: pc->wait_until(l, bc::system_clock::now() + bc::seconds(3)); break; default: pa->wait_until(l, bc::system_clock::now() + bc::seconds(3)); }
      Ignore i; ret = true;
    } catch (boost::thread_interrupted&) { Ignore i; threw = true; }
    if (!l.owns_lock()) fail("lock not re-acquired");
  });
  bool late = flip(); if (late) wait_quiescent();
  t.interrupt(); t.join();
  if (!threw || ret) fail("%s returned normally although it was ended by an interruption", nm[op]);
  nontrivial();
}
// native threads: everything degrades to "not enabled, never requested"
SCENARIO(native_thread, 1) {
  Threads T;
  int tss = pick(3);
  T.add([tss] {
    boost::thread_specific_ptr<int> p; if (tss == 1) p.reset(new int(1)); if (tss == 2) boost::this_thread::at_thread_exit([] { });
    if (interruption_enabled() || interruption_requested()) fail("native thread: interruption enabled or requested");
    { boost::this_thread::disable_interruption d; interruption_point(); boost::this_thread::restore_interruption r(d); interruption_point(); if (interruption_enabled()) fail("native thread: interruption enabled"); }
    if (interruption_enabled()) fail("native thread: interruption enabled after the scopes");
    boost::mutex m; boost::unique_lock<boost::mutex> l(m); boost::condition_variable cv; if (cv.wait_for(l, bc::milliseconds(1)) != boost::cv_status::timeout) { }
    boost::this_thread::sleep_for(bc::milliseconds(1));
    nontrivial();
  });
  T.join();
}
int main(int argc, char** argv) { return pbt_main(argc, argv, "non-trivial: an interruption was requested of a running thread and (phases) reached it in a blocking call"); }
