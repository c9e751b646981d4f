// C01: condition_variable / condition_variable_any
#include "common.h"
#include "timeutil.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/locks.hpp>
#include <boost/thread/condition_variable.hpp>

static const char* const FORM[] = {"wait", "wait_for", "wait_until(steady)", "wait_until(system)", "timed_wait(duration)", "timed_wait(ptime)", "wait_until(ms_clock)",
  "wait(pred)", "wait_for(pred)", "wait_until(steady,pred)", "wait_until(system,pred)", "timed_wait(duration,pred)", "timed_wait(ptime,pred)", "wait_until(ms_clock,pred)"};
enum { NFORM = 14, NPLAIN = 7 };
struct Res { bool ok; int clk; int64_t dl; bool timed; };   // ok: not timed out / predicate value

template <class CV, class L, class P> static Res do_wait(CV& cv, L& l, int form, int64_t d, P pred) {
  Res r; r.ok = true; r.timed = true; r.clk = 0; r.dl = mono_now() + d;
  switch (form) {
    case 0: r.timed = false; cv.wait(l); break;
    case 1: r.ok = cv.wait_for(l, bc::nanoseconds(d)) == boost::cv_status::no_timeout; break;
    case 2: r.ok = cv.wait_until(l, steady_tp(r.dl)) == boost::cv_status::no_timeout; break;
    case 3: r.clk = 1; r.dl = real_now() + d; r.ok = cv.wait_until(l, system_tp(r.dl)) == boost::cv_status::no_timeout; break;
    case 4: d = d / 1000 * 1000; r.dl = mono_now() + d; r.ok = cv.timed_wait(l, pt::microseconds(d / 1000)); break;
    case 5: r.clk = 1; r.dl = (real_now() + d) / 1000 * 1000; r.ok = cv.timed_wait(l, to_ptime(r.dl)); break;
    case 6: r.dl = (mono_now() + d) / 1000000 * 1000000; r.ok = cv.wait_until(l, ms_clock::time_point(bc::milliseconds(r.dl / 1000000))) == boost::cv_status::no_timeout; break;
    case 7: r.timed = false; cv.wait(l, pred); break;
    case 8: r.ok = cv.wait_for(l, bc::nanoseconds(d), pred); break;
    case 9: r.ok = cv.wait_until(l, steady_tp(r.dl), pred); break;
    case 10: r.clk = 1; r.dl = real_now() + d; r.ok = cv.wait_until(l, system_tp(r.dl), pred); break;
    case 11: d = d / 1000 * 1000; r.dl = mono_now() + d; r.ok = cv.timed_wait(l, pt::microseconds(d / 1000), pred); break;
    case 12: r.clk = 1; r.dl = (real_now() + d) / 1000 * 1000; r.ok = cv.timed_wait(l, to_ptime(r.dl), pred); break;
    default: r.dl = (mono_now() + d) / 1000000 * 1000000; r.ok = cv.wait_until(l, ms_clock::time_point(bc::milliseconds(r.dl / 1000000)), pred); break;
  }
  return r;
}
// a user lockable built on a boost::mutex, counts
struct MyLock { boost::mutex m; int locks, unlocks; MyLock() : locks(0), unlocks(0) {} void lock() { m.lock(); locks++; } void unlock() { unlocks++; m.unlock(); } };

// what a case runs on: the cv, a lock, how the lock is taken
struct Env {
  virtual ~Env() {}
  virtual void with(std::function<void(std::function<Res(int, int64_t, std::function<bool()>)>, std::function<bool()>)> body) = 0;  // waiter: lock held, body(wait, owns)
  virtual void excl(std::function<void()> f) = 0;      // notifier critical section
  virtual void notify_one() = 0; virtual void notify_all() = 0;
  virtual const char* name() = 0; virtual bool shared() { return false; }
  virtual bool free() = 0;
};
template <class CV, class M, class L, class XL> struct EnvT : Env {
  M m; CV cv; const char* n; bool sh;
  EnvT(const char* n_, bool s) : n(n_), sh(s) {}
  void with(std::function<void(std::function<Res(int, int64_t, std::function<bool()>)>, std::function<bool()>)> body) {
    L l(m);
    body([&](int f, int64_t d, std::function<bool()> p) { return do_wait(cv, l, f, d, p); }, [&] { return l.owns_lock() && l.mutex() == &m; });
  }
  void excl(std::function<void()> f) { XL l(m); f(); }
  void notify_one() { cv.notify_one(); } void notify_all() { cv.notify_all(); }
  const char* name() { return n; } bool shared() { return sh; }
  bool free() { if (!m.try_lock()) return false; m.unlock(); return true; }
};
template <class M> struct RawEnv : Env {     // the lockable itself is passed to condition_variable_any
  M m; boost::condition_variable_any cv; const char* n; RawEnv(const char* n_) : n(n_) {}
  void with(std::function<void(std::function<Res(int, int64_t, std::function<bool()>)>, std::function<bool()>)> body) {
    m.lock();
    struct U { M& m; ~U() { m.unlock(); } } u = {m};
    body([&](int f, int64_t d, std::function<bool()> p) { return do_wait(cv, m, f, d, p); }, [&] { return true; });
  }
  void excl(std::function<void()> f) { m.lock(); f(); m.unlock(); }
  void notify_one() { cv.notify_one(); } void notify_all() { cv.notify_all(); }
  const char* name() { return n; }
  bool free() { return true; }
};
typedef boost::condition_variable CV; typedef boost::condition_variable_any CVA;
static Env* make_env(bool excl_only) {
  switch (pick(excl_only ? 7 : 9)) {
    case 0: return new EnvT<CV, boost::mutex, boost::unique_lock<boost::mutex>, boost::unique_lock<boost::mutex> >("condition_variable", false);
    case 1: return new EnvT<CVA, boost::mutex, boost::unique_lock<boost::mutex>, boost::lock_guard<boost::mutex> >("cv_any/unique_lock<mutex>", false);
    case 2: return new EnvT<CVA, boost::timed_mutex, boost::unique_lock<boost::timed_mutex>, boost::lock_guard<boost::timed_mutex> >("cv_any/unique_lock<timed_mutex>", false);
    case 3: return new EnvT<CVA, boost::recursive_mutex, boost::unique_lock<boost::recursive_mutex>, boost::lock_guard<boost::recursive_mutex> >("cv_any/unique_lock<recursive_mutex>", false);
    case 4: return new EnvT<CVA, boost::shared_mutex, boost::unique_lock<boost::shared_mutex>, boost::lock_guard<boost::shared_mutex> >("cv_any/unique_lock<shared_mutex>", false);
    case 5: return new RawEnv<MyLock>("cv_any/user lockable");
    case 6: return new EnvT<CV, boost::mutex, boost::unique_lock<boost::mutex>, boost::unique_lock<boost::mutex> >("condition_variable(2)", false);
    case 7: return new EnvT<CVA, boost::shared_mutex, boost::shared_lock<boost::shared_mutex>, boost::unique_lock<boost::shared_mutex> >("cv_any/shared_lock", true);
    default: return new EnvT<CVA, boost::shared_mutex, boost::upgrade_lock<boost::shared_mutex>, boost::unique_lock<boost::shared_mutex> >("cv_any/upgrade_lock", false);
  }
}
static const int64_t HOUR = 20000000000ll;   // "long": 200 polling intervals
struct Own { int owner = -1; int waits = 0, timeouts = 0, trues = 0; };
static void enter(Own& o, bool shared, const char* n) { Ignore i; if (!shared) { if (o.owner >= 0) fail("%s: lock held by two threads after a wait", n); o.owner = fid(); } }
static void leave(Own& o, bool shared) { Ignore i; if (!shared) o.owner = -1; }

static void check_res(Env* e, Own& o, const Res& r, int form, bool lastpred, bool predform) {
  Ignore i;
  if (predform) { if (r.ok != lastpred) fail("%s: %s returned %d but the predicate's value is %d", e->name(), FORM[form], r.ok, lastpred);
    if (!r.ok && !r.timed) fail("%s: %s returned with the predicate false", e->name(), FORM[form]); }
  if (!r.ok) { o.timeouts++; int64_t now = r.clk ? real_now() : mono_now(); if (now < r.dl) fail("%s: %s reported a timeout %lld ns before the deadline", e->name(), FORM[form], (long long)(r.dl - now)); }
  else o.trues++;
}

// Tokens handed out one notify_one (or one notify_all) at a time: a lost wakeup leaves somebody blocked for ever.
SCENARIO(tokens, 6) {
  check_leaks(true); allow_spurious(pick(4) * pick(2)); bool early = chance(1, 4); allow_early_time(early);
  Env* e = make_env(true); Priv<Own> own; Own* o = own.p;
  int nw = range(1, 4), nn = range(1, 2), per = range(1, 3);
  long* tokens = new long(0); long* taken = new long(0);
  int64_t t0 = mono_now(); bool shortw = chance(1, 4);
  note("%s: %d waiters x %d tokens, %d notifiers%s%s", e->name(), nw, per, nn, early ? ", time may pass early" : "", shortw ? ", short deadlines" : "");
  struct WOp { int form; int64_t d; }; std::vector<std::vector<WOp> > wp(nw);
  for (int i = 0; i < nw; i++) for (int k = 0; k < per; k++) { WOp w; w.form = pick(NFORM); w.d = shortw ? (int64_t)pick(3) * 60000000 : HOUR; wp[i].push_back(w); note(" W%d: %s", i, FORM[w.form]); }
  struct NOp { int kind; bool inside; int add; }; std::vector<std::vector<NOp> > np(nn);
  int total = nw * per;
  for (int k = 0; k < total;) { NOp x; x.kind = pick(3) == 2; x.inside = flip(); x.add = 1; if (x.kind) x.add = 1 + pick(3); if (x.add > total - k) x.add = total - k; k += x.add; np[pick(nn)].push_back(x); note(" N: +%d %s %s", x.add, x.kind ? "notify_all" : "notify_one", x.inside ? "under the lock" : "after unlock"); }
  {
    Threads th;
    for (int i = 0; i < nw; i++) th.add([=, &wp] {
      for (auto& w : wp[i]) e->with([&](std::function<Res(int, int64_t, std::function<bool()>)> wait, std::function<bool()> owns) {
        enter(*o, false, e->name());
        bool last = false; int tries = 0;
        auto pred = [&] { { Ignore ig; if (o->owner >= 0 && o->owner != fid()) fail("%s: predicate called without the lock", e->name()); o->owner = fid(); } last = *tokens > 0; leave(*o, false); return last; };
        while (*tokens == 0) {
          leave(*o, false);
          int form = ++tries > 3 && shortw ? 0 : w.form;    // a few polls, then wait for the notification
          bool pf = form >= NPLAIN;
          Res r = wait(form, w.d, pred);
          enter(*o, false, e->name());
          { Ignore ig; o->waits++; }
          if (!owns()) fail("%s: lock not owned after %s", e->name(), FORM[form]);
          check_res(e, *o, r, form, last, pf);
          if (pf && r.ok && *tokens == 0) fail("%s: %s returned true with the predicate false", e->name(), FORM[form]);
          if (shortw) point();
        }
        --*tokens; ++*taken;
        leave(*o, false);
      });
    });
    for (int i = 0; i < nn; i++) th.add([=, &np] {
      for (auto& x : np[i]) {
        e->excl([&] { enter(*o, false, e->name()); *tokens += x.add; leave(*o, false); if (x.inside) { x.kind ? e->notify_all() : e->notify_one(); } });
        if (!x.inside) { x.kind ? e->notify_all() : e->notify_one(); }
      }
    });
    th.join();
  }
  SIM_CHECK(*tokens == 0 && *taken == total, "tokens lost: %ld left, %ld taken of %d", *tokens, *taken, total);
  if (!early && !shortw) SIM_CHECK(mono_now() - t0 < HOUR / 2, "%s: lost wakeup: a waiter only returned at its far deadline", e->name());
  SIM_CHECK(e->free(), "%s: lock left held", e->name());
  { Ignore i; if (o->waits) nontrivial(); if (o->timeouts) label("timed-out"); }
  delete tokens; delete taken; delete e;
}

// Broadcast: everybody waits for a phase change announced with one notify_all.
SCENARIO(broadcast, 3) {
  check_leaks(true); allow_spurious(pick(3));
  Env* e = make_env(false); Priv<Own> own; Own* o = own.p;
  int nw = range(1, 4), phases = range(1, 3); int* phase = new int(0); Counter* arrived = new Counter;
  int64_t t0 = mono_now();
  std::vector<int> forms; for (int i = 0; i < nw * phases; i++) forms.push_back(pick(NFORM));
  note("%s: %d waiters, %d phases", e->name(), nw, phases);
  {
    Threads th;
    for (int i = 0; i < nw; i++) th.add([=, &forms] {
      for (int p = 1; p <= phases; p++) e->with([&](std::function<Res(int, int64_t, std::function<bool()>)> wait, std::function<bool()> owns) {
        int f = forms[i * phases + p - 1];
        bool last = false; auto pred = [&] { return last = *phase >= p; };
        arrived->add();
        while (*phase < p) { Res r = wait(f, HOUR, pred); { Ignore ig; o->waits++; } if (!owns()) fail("%s: lock not owned after %s", e->name(), FORM[f]); check_res(e, *o, r, f, last, f >= NPLAIN); }
      });
    });
    bool inside = flip(), partial = flip();
    for (int p = 1; p <= phases; p++) {
      if (partial) arrived->wait(nw * (p - 1) + 1);
      e->excl([&] { *phase = p; if (inside) e->notify_all(); });
      if (!inside) e->notify_all();
    }
    th.join();
  }
  SIM_CHECK(mono_now() - t0 < HOUR / 2, "%s: lost wakeup: a waiter only returned at its far deadline", e->name());
  SIM_CHECK(e->free(), "%s: lock left held", e->name());
  { Ignore i; nontrivial(o->waits > 0); }
  delete phase; delete arrived; delete e;
}

// Driver: n blocked waiters; notify_one must wake at least one, notify_all everybody, time must end timed waits.
SCENARIO(model, 4) {
  check_leaks(true); const bool sp = false;   // exact model: no spurious wakeups here
  Env* e = make_env(false);
  int nw = range(1, 4);
  struct St { int state; int form; Res r; bool done; int64_t at[2]; bool pred; bool threw; };
  Priv<std::vector<St> > st; { Ignore i; St z; memset(&z, 0, sizeof z); st->assign(nw, z); }
  Workers w(nw);
  note("%s: %d waiters%s", e->name(), nw, sp ? ", spurious wakeups" : "");
  int n = range(2, 10); int woke = 0; int mixed = 0;
  for (int step = 0; step < n; step++) {
    unsigned c = pick(8); int waiting = 0; for (auto& s : *st) if (s.state) waiting++;
    auto settle = [&](int& released, int& lefttimed) {
      wait_quiescent(); released = 0; lefttimed = 0;
      for (auto& s : *st) if (s.state) { if (s.done) { s.state = 0; released++; } else lefttimed++; }
    };
    int rel = 0, left = 0;
    if (c < 4) {
      int t = pick(nw); St* s = &(*st)[t]; if (s->state) continue;
      int f = pick(NFORM); int64_t d = pick(3) ? HOUR : 70000000; bool thr = f >= NPLAIN && pick(8) == 7; int evals_before_throw = thr ? pick(2) : -1;
      s->form = f; s->done = false; s->pred = false; s->threw = false;
      note(" T%d %s d=%lld%s", t, FORM[f], (long long)d, thr ? " (predicate throws)" : "");
      w.post(t, [=] {
        Res r; memset(&r, 0, sizeof r); bool threw = false;
        e->with([&](std::function<Res(int, int64_t, std::function<bool()>)> wait, std::function<bool()> owns) {
          int k = 0; bool last = false;
          try { r = wait(f, d, [&] { if (k++ == evals_before_throw) throw std::runtime_error("pred"); Ignore ig; return last = s->pred; });
            Ignore ig; if (f >= NPLAIN && r.ok != last) fail("%s: %s returned %d but the predicate's value is %d", e->name(), FORM[f], r.ok, last); }
          catch (std::runtime_error&) { threw = true; }
          if (!owns()) fail("%s: lock not owned after %s", e->name(), FORM[f]);
        });
        Ignore ig; s->r = r; s->at[0] = mono_now(); s->at[1] = real_now(); s->threw = threw; s->done = true;
      });
      s->state = 1;
      wait_quiescent();
      if (s->done) { s->state = 0; if (!sp && !(thr && s->threw)) fail("%s: %s returned without any notification or timeout", e->name(), FORM[f]); }
    } else if (c == 4 || c == 5) {     // notify with predicates true
      e->excl([&] { Ignore ig; for (auto& s : *st) s.pred = true; });
      bool all = c == 5, under = flip(); note(" notify_%s%s", all ? "all" : "one", under ? " under the lock" : "");
      if (under) e->excl([&] { all ? e->notify_all() : e->notify_one(); }); else { all ? e->notify_all() : e->notify_one(); }
      settle(rel, left);
      if (waiting && rel < 1) fail("%s: notify_%s woke none of %d waiting threads", e->name(), all ? "all" : "one", waiting);
      if (all && left) fail("%s: notify_all left %d of %d waiting threads blocked", e->name(), left, waiting);
      woke += rel; if (waiting > 1) mixed++;
      e->excl([&] { Ignore ig; for (auto& s : *st) s.pred = false; });
    } else if (c == 6) {               // notify with predicates false: only plain forms may return
      note(" notify_all with predicates false");
      e->notify_all(); wait_quiescent();
      for (auto& s : *st) if (s.state) {
        if (s.form < NPLAIN && !s.done) fail("%s: notify_all left a waiting thread blocked", e->name());
        if (s.form >= NPLAIN && s.done && !s.threw) fail("%s: %s returned with a false predicate before its deadline", e->name(), FORM[s.form]);
        if (s.done) s.state = 0;
      }
    } else {
      int64_t d = pick(2) ? 80000000 : 2 * HOUR; note(" %lld ns pass", (long long)d); delay(d); wait_quiescent();
      for (auto& s : *st) if (s.state) {
        if (s.done) {
          s.state = 0; if (s.threw) continue;
          if (!s.r.timed && !sp) fail("%s: %s returned without notification", e->name(), FORM[s.form]);
          if (s.r.timed && !sp && s.r.ok) fail("%s: %s reports no timeout although nothing was notified", e->name(), FORM[s.form]);
          if (s.r.timed && s.at[s.r.clk] < s.r.dl && !s.r.ok) fail("%s: %s timed out early", e->name(), FORM[s.form]);
        } else if (d > HOUR && s.form != 0 && s.form != 7) fail("%s: %s still blocked long after its deadline", e->name(), FORM[s.form]);
      }
    }
  }
  e->excl([&] { Ignore ig; for (auto& s : *st) s.pred = true; });
  e->notify_all(); wait_quiescent();
  for (auto& s : *st) if (s.state && !s.done) fail("%s: notify_all left a waiting thread blocked", e->name());
  w.finish();
  SIM_CHECK(e->free(), "%s: lock left held", e->name());
  nontrivial(woke > 0); if (mixed) label("several-waiters-notified");
  delete e;
}

// notify_all_at_thread_exit: the lock is handed to the exiting thread, released and notified exactly once, after exit functions.
struct Ex { boost::mutex m; boost::condition_variable cv; bool ready = false; int data = 0; int exited = 0; };
SCENARIO(at_thread_exit, 1) {
  check_leaks(true); allow_spurious(pick(3));
  Ex* x = new Ex; int nw = range(1, 3); bool reg = flip(); int extra = pick(2); int kind = pick(4);
  note("notify_all_at_thread_exit with %d waiters, %s", nw, kind == 0 ? "join first" : kind == 1 ? "join last" : kind == 2 ? "detached" : "external thread");
  {
    Threads th; int64_t t0 = mono_now();
    std::vector<int> f; for (int i = 0; i < nw; i++) f.push_back(pick(NFORM));
    for (int i = 0; i < nw; i++) th.add([=, &f] {
      boost::unique_lock<boost::mutex> l(x->m);
      while (!x->ready) do_wait(x->cv, l, f[i], HOUR, [&] { return x->ready; });
      if (x->data != 1 + extra) fail("notify_all_at_thread_exit: waiter ran before the thread finished (data %d)", x->data);
      if (reg && x->exited != 1) fail("notify_all_at_thread_exit: lock released before the exit functions ran");
    });
    auto body = [=] {
      if (reg) boost::this_thread::at_thread_exit([=] { x->exited++; });
      boost::unique_lock<boost::mutex> l(x->m);
      x->ready = true; x->data = 1;
      boost::notify_all_at_thread_exit(x->cv, boost::move(l));
      point(); if (extra) { delay(5); x->data++; }
    };
    if (kind == 0) { boost::thread t(body); t.join(); th.join(); }
    else if (kind == 1) { boost::thread t(body); th.join(); t.join(); }      // the waiters finish before anybody joins
    else if (kind == 2) { boost::thread t(body); t.detach(); th.join(); wait_quiescent(); }   // the cv must outlive the exiting thread
    else { th.add(body); th.join(); }                                        // a thread not created by the library
    SIM_CHECK(mono_now() - t0 < HOUR / 2, "notify_all_at_thread_exit: lost wakeup");
  }
  SIM_CHECK(x->m.try_lock(), "notify_all_at_thread_exit: mutex left locked"); x->m.unlock();
  nontrivial();
  delete x;
}
int main(int c, char** v) { return pbt_main(c, v, "tokens/broadcast: at least one thread actually waited; model: at least one waiter woken by a notification; at_thread_exit: always"); }
