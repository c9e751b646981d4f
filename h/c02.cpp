// C02: timed operations keep their deadline on the named clock, also across jumps of the system clock.
// One or two threads run a timed operation (object x operation x form of the deadline); another thread steps the
// system clock and fires the awaited event at generated times.  No time passes while a thread can run, so the
// exact time line is known and compared with what the operation reported and when it returned.
#include "timeutil.h"
#include "common.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/locks.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/thread_only.hpp>
#include <boost/thread/sync_bounded_queue.hpp>
#if defined BOOST_THREAD_USES_DATETIME
#include <boost/thread/xtime.hpp>
#endif
static const int64_t NS = 1, US = 1000, MS = 1000000, SEC = 1000000000;
static const int64_t SLACK = 5000, POLL = 100 * MS;
#ifdef BOOST_THREAD_V2_SHARED_MUTEX
#define V2 1
typedef boost::upgrade_mutex SM;
#else
#define V2 0
typedef boost::shared_mutex SM;
#endif
// a user clock that follows the system clock (with its steps) in milliseconds
struct jump_clock {
  typedef bc::milliseconds duration; typedef duration::rep rep; typedef duration::period period;
  typedef bc::time_point<jump_clock> time_point; static const bool is_steady = false;
  static time_point now() { return time_point(bc::duration_cast<bc::milliseconds>(bc::system_clock::now().time_since_epoch())); }
};
enum Form { ST_NS, ST_MS, ST_H, SY_NS, SY_S, MSC, JC, D_NS, D_MS, D_DBL, D_MIN, PT_ABS, XT, PT_REL, NFORM };
static const char* const FN[] = {"steady ns", "steady ms", "steady h", "system ns", "system s", "custom steady", "custom system", "duration ns", "duration ms", "duration double", "duration min", "ptime", "xtime", "posix duration"};
static const int64_t GRAIN[] = {NS, MS, 3600 * SEC, NS, SEC, MS, MS, NS, MS, SEC / 512, 60 * SEC, US, US, US};
struct Dl {
  int form; int64_t v;     // absolute on its clock, or relative
  bool rel() const { return form == D_NS || form == D_MS || form == D_DBL || form == D_MIN || form == PT_REL; }
  bool sys() const { return form == SY_NS || form == SY_S || form == JC || form == PT_ABS || form == XT; }
  bool custom() const { return form == MSC || form == JC; }
  bool datetime() const { return form >= PT_ABS; }
};
// the time line
struct Jump { int64_t at, off; };                      // real = mono + off from `at` on
static std::vector<Jump> g_off;
static int64_t off_at(int64_t t) { int64_t o = g_off[0].off; for (auto& j : g_off) if (j.at <= t) o = j.off; return o; }
static void do_jump(int64_t d) { Ignore i; jump_real(d); g_off.push_back(Jump{mono_now(), real_now() - mono_now()}); }
static int64_t reading(const Dl& d, int64_t t, int64_t off) {
  int64_t v = d.sys() ? t + off : t;
  if (d.custom()) v = v / MS * MS;
  return v;
}
// latest value the deadline's clock showed in [a,b]
static int64_t max_reading(const Dl& d, int64_t a, int64_t b) {
  int64_t m = reading(d, b, off_at(b));
  for (size_t i = 0; i < g_off.size(); i++) {
    int64_t s = std::max(a, g_off[i].at), e = i + 1 < g_off.size() ? std::min(b, g_off[i + 1].at) : b;
    if (s <= e) m = std::max(m, reading(d, e, g_off[i].off));
  }
  return m;
}
static bool jumped_in(int64_t a, int64_t b) { for (size_t i = 1; i < g_off.size(); i++) if (g_off[i].at >= a && g_off[i].at <= b) return true; return false; }
// first t >= a from which the clock shows at least the deadline for `dur`; INT64_MAX: never
static int64_t steadily_reached(const Dl& d, int64_t a, int64_t dur) {
  int64_t cand = a;
  for (size_t k = 0; k <= g_off.size() + 1; k++) {
    // earliest t>=cand with reading >= v
    int64_t t = INT64_MAX;
    for (size_t i = 0; i < g_off.size(); i++) {
      int64_t s = std::max(cand, g_off[i].at), e = i + 1 < g_off.size() ? g_off[i + 1].at : INT64_MAX;
      if (s >= e) continue;
      int64_t need = d.sys() ? d.v - g_off[i].off : d.v; if (need < s) need = s;
      if (need < e) { t = need; break; }
    }
    if (t == INT64_MAX) return t;
    // does it stay reached?
    bool ok = true;
    if (d.sys()) for (size_t i = 0; i < g_off.size(); i++) if (g_off[i].at > t && g_off[i].at <= t + dur && g_off[i].at + g_off[i].off < d.v) { ok = false; cand = g_off[i].at; break; }
    if (ok) return t;
  }
  return INT64_MAX;
}
template <class A, class R> static bool chrono_form(const Dl& d, A a, R r) {
  switch (d.form) {
    case ST_NS: return a(steady_tp(d.v));
    case ST_MS: return a(bc::time_point<bc::steady_clock, bc::milliseconds>(bc::milliseconds(d.v / MS)));
    case ST_H: return a(bc::time_point<bc::steady_clock, bc::hours>(bc::hours(d.v / (3600 * SEC))));
    case SY_NS: return a(system_tp(d.v));
    case SY_S: return a(bc::time_point<bc::system_clock, bc::seconds>(bc::seconds(d.v / SEC)));
    case MSC: return a(ms_clock::time_point(bc::milliseconds(d.v / MS)));
    case JC: return a(jump_clock::time_point(bc::milliseconds(d.v / MS)));
    case D_NS: return r(bc::nanoseconds(d.v));
    case D_MS: return r(bc::milliseconds(d.v / MS));
    case D_DBL: return r(bc::duration<double>((double)(d.v / (SEC / 512)) / 512));
    case D_MIN: return r(bc::minutes(d.v / (60 * SEC)));
  }
  return false;
}
#if defined BOOST_THREAD_USES_DATETIME
template <bool X = true, class F> static bool dt_form(const Dl& d, F f) {
  switch (d.form) {
    case PT_ABS: return f(to_ptime(d.v));
    case XT: { boost::xtime x; x.sec = d.v / SEC; x.nsec = (int)(d.v % SEC); if constexpr (X) return f(x); else return f(boost::system_time(x)); }
    case PT_REL: return f(pt::seconds((long)(d.v / SEC)) + pt::microseconds(d.v % SEC / US));
  }
  return false;
}
#define FORMS(until, for_, dt) (dl.datetime() ? dt_form<XOK>(dl, [&](auto const& t) -> bool { return dt; }) : chrono_form(dl, [&](auto const& t) -> bool { return until; }, [&](auto const& t) -> bool { return for_; }))
#else
#define FORMS(until, for_, dt) chrono_form(dl, [&](auto const& t) -> bool { return until; }, [&](auto const& t) -> bool { return for_; })
#endif
// an object with one kind of event, and the operations that wait for it
struct Obj {
  virtual ~Obj() { }
  virtual void arm() { }                    // by the environment thread, before the waiters start
  virtual void fire() = 0;                  // the event (by the environment thread)
  virtual void noise() { }                  // something that is not the event
  virtual bool op(int which, const Dl& dl) = 0;
  virtual const char* name(int which) = 0;
  virtual bool has(int which, const Dl&) { return true; }
  virtual int nops() = 0;
  virtual bool multi() { return true; }     // several waiters may use it at once
  virtual bool loose(int which, const Dl&) { return false; }  // documented: no predicate, may return late or early when the clock is stepped
  virtual bool silent() { return false; }   // there is no event
  virtual bool twice(int which, const Dl&) { return false; }
};
template <class M, bool REC> struct TM : Obj {
  static const bool XOK = !REC;       // recursive_timed_mutex has no timed_lock(xtime)
  M m;
  void arm() { m.lock(); }
  void fire() { m.unlock(); }
  void noise() { }
  int nops() { return 4; }
  const char* name(int w) { static const char* const n[] = {"timed_mutex.try_lock_X", "unique_lock(m, t)", "unique_lock.try_lock_X", "try_lock_X + relock"}; return n[w]; }
  bool has(int w, const Dl& dl) { return w != 1 || (!dl.rel() && dl.form != XT) || (dl.rel() && !dl.datetime()); }
  bool op(int w, const Dl& dl) {
    bool r;
    if (w == 0 || w == 3) { r = FORMS(m.try_lock_until(t), m.try_lock_for(t), m.timed_lock(t)); if (r) { if (REC && w == 3) { bool q = FORMS(m.try_lock_until(t), m.try_lock_for(t), m.timed_lock(t)); if (!q) fail("recursive owner could not relock with a deadline"); m.unlock(); } m.unlock(); } return r; }
    boost::unique_lock<M> l(m, boost::defer_lock);
    if (w == 1) {
#if defined BOOST_THREAD_USES_DATETIME
      if (dl.form == PT_ABS) { boost::unique_lock<M> u(m, to_ptime(dl.v)); return u.owns_lock(); }
#endif
      return chrono_form(dl, [&](auto const& t) -> bool { boost::unique_lock<M> u(m, t); return u.owns_lock(); }, [&](auto const& t) -> bool { boost::unique_lock<M> u(m, t); return u.owns_lock(); });
    }
    r = FORMS(l.try_lock_until(t), l.try_lock_for(t), l.timed_lock(t));
    if (r != l.owns_lock()) fail("unique_lock disagrees with the result of its timed lock");
    return r;
  }
};
// shared mutex: what is held by the environment decides which operations wait
struct SMO : Obj {
  static const bool XOK = true;
  SM m; int held;   // 0 exclusive, 1 shared, 2 upgrade
  SMO(int h) : held(h) { }
  void arm() { if (held == 0) m.lock(); else if (held == 1) m.lock_shared(); else m.lock_upgrade(); }
  void fire() { if (held == 0) m.unlock(); else if (held == 1) m.unlock_shared(); else m.unlock_upgrade(); }
  int nops() { return 9; }
  const char* name(int w) { static const char* const n[] = {"sm.try_lock_X", "sm.try_lock_shared_X", "sm.try_lock_upgrade_X", "sm.try_unlock_shared_and_lock_X", "sm.try_unlock_upgrade_and_lock_X", "sm.try_unlock_shared_and_lock_upgrade_X", "shared_lock", "upgrade_lock", "unique_lock"}; return n[w]; }
  bool has(int w, const Dl& dl) {
    if (w >= 3 && w <= 5) { if (dl.datetime()) return false; return w == 3 ? held != 0 : w == 4 ? held == 1 : held == 2; }
    if (held == 1 && (w == 1 || w == 2 || w == 6 || w == 7)) return false;    // does not wait
    if (held == 2 && (w == 1 || w == 6)) return false;
    if (w == 7 && dl.datetime()) return false;                              // upgrade_lock has no timed_lock
    return true;
  }
  bool twice(int w, const Dl& dl) { return V2 && dl.form == PT_REL; }
  bool multi() { return false; }
  bool op(int w, const Dl& dl) {
    bool r;
    switch (w) {
      case 0: r = FORMS(m.try_lock_until(t), m.try_lock_for(t), m.timed_lock(t)); if (r) m.unlock(); return r;
      case 1: r = FORMS(m.try_lock_shared_until(t), m.try_lock_shared_for(t), m.timed_lock_shared(t)); if (r) m.unlock_shared(); return r;
      case 2: r = FORMS(m.try_lock_upgrade_until(t), m.try_lock_upgrade_for(t), m.timed_lock_upgrade(t)); if (r) m.unlock_upgrade(); return r;
      case 3: m.lock_shared(); r = chrono_form(dl, [&](auto const& t) -> bool { return m.try_unlock_shared_and_lock_until(t); }, [&](auto const& t) -> bool { return m.try_unlock_shared_and_lock_for(t); }); if (r) m.unlock(); else m.unlock_shared(); return r;
      case 4: m.lock_upgrade(); r = chrono_form(dl, [&](auto const& t) -> bool { return m.try_unlock_upgrade_and_lock_until(t); }, [&](auto const& t) -> bool { return m.try_unlock_upgrade_and_lock_for(t); }); if (r) m.unlock(); else m.unlock_upgrade(); return r;
      case 5: m.lock_shared(); r = chrono_form(dl, [&](auto const& t) -> bool { return m.try_unlock_shared_and_lock_upgrade_until(t); }, [&](auto const& t) -> bool { return m.try_unlock_shared_and_lock_upgrade_for(t); }); if (r) m.unlock_upgrade(); else m.unlock_shared(); return r;
      case 6: { boost::shared_lock<SM> l(m, boost::defer_lock); return FORMS(l.try_lock_until(t), l.try_lock_for(t), l.timed_lock(t)); }
      case 7: { boost::upgrade_lock<SM> l(m, boost::defer_lock); return chrono_form(dl, [&](auto const& t) -> bool { return l.try_lock_until(t); }, [&](auto const& t) -> bool { return l.try_lock_for(t); }); }
      default: { boost::unique_lock<SM> l(m, boost::defer_lock); return FORMS(l.try_lock_until(t), l.try_lock_for(t), l.timed_lock(t)); }
    }
  }
};
template <class CV, class M> struct CVO : Obj {
  static const bool XOK = true;
  CV cv; M m; bool flag; bool one;
  CVO(bool o) : flag(false), one(o) { }
  void fire() { boost::unique_lock<M> l(m); flag = true; if (one) cv.notify_one(); else cv.notify_all(); }
  void noise() { boost::unique_lock<M> l(m); if (one) cv.notify_one(); else cv.notify_all(); }
  int nops() { return 2; }
  const char* name(int w) { return w ? "condition wait, no predicate" : "condition wait, predicate"; }
  bool multi() { return !one; }
  bool loose(int w, const Dl& dl) { return w == 1; }
  bool op(int w, const Dl& dl) {
    boost::unique_lock<M> l(m);
    bool r; bool* f = &flag;
    if (w == 0) { auto p = [f] { return *f; }; r = FORMS(cv.wait_until(l, t, p), cv.wait_for(l, t, p), cv.timed_wait(l, t, p)); if (r != flag) fail("predicate wait returned %d with the predicate %d", (int)r, (int)flag); }
    else r = FORMS(cv.wait_until(l, t) == boost::cv_status::no_timeout, cv.wait_for(l, t) == boost::cv_status::no_timeout, cv.timed_wait(l, t));
    if (!l.owns_lock()) fail("timed condition wait returned without the lock");
    return r;
  }
};
template <class F> struct FUT : Obj {
  boost::promise<int> p; F f; boost::shared_future<int> s; bool exc, twolevel;
  FUT(bool e) : exc(e) { set(f); s = s2(); }
  boost::shared_future<int> sh;
  void set(boost::shared_future<int>& x) { x = boost::shared_future<int>(p.get_future()); sh = x; }
  template <class U> void set(U& x) { x = p.get_future(); }
  boost::shared_future<int> s2() { return sh; }
  void fire() { if (exc) p.set_exception(boost::copy_exception(std::runtime_error("x"))); else p.set_value(3); }
  int nops() { return 1; }
  const char* name(int) { return "future wait"; }
  bool has(int, const Dl& dl) { return dl.form != XT; }
  bool op(int, const Dl& dl) {
    bool r;
#if defined BOOST_THREAD_USES_DATETIME
    if (dl.form == PT_ABS) r = f.timed_wait_until(to_ptime(dl.v));
    else if (dl.form == PT_REL) r = f.timed_wait(pt::seconds((long)(dl.v / SEC)) + pt::microseconds(dl.v % SEC / US));
    else
#endif
    r = chrono_form(dl, [&](auto const& t) -> bool { return st(f.wait_until(t)); }, [&](auto const& t) -> bool { return st(f.wait_for(t)); });
    if (r && !f.is_ready()) fail("timed wait reported a future ready that is not");
    return r;
  }
  static bool st(boost::future_status s) { if (s == boost::future_status::deferred) fail("future_status deferred for a promise"); return s == boost::future_status::ready; }
};
struct THR : Obj {
  pthread_mutex_t pm; pthread_cond_t pc; bool go; boost::thread t_;
  THR() : go(false) { pthread_mutex_init(&pm, 0); pthread_cond_init(&pc, 0); t_ = boost::thread([this] { pthread_mutex_lock(&pm); while (!go) pthread_cond_wait(&pc, &pm); pthread_mutex_unlock(&pm); }); }
  void fire() { pthread_mutex_lock(&pm); go = true; pthread_cond_signal(&pc); pthread_mutex_unlock(&pm); }
  int nops() { return 1; }
  const char* name(int) { return "timed join"; }
  bool has(int, const Dl& dl) { return dl.form != XT; }
  bool multi() { return false; }
  bool op(int, const Dl& dl) { bool r;
#if defined BOOST_THREAD_USES_DATETIME
    if (dl.form == PT_ABS) r = t_.timed_join(to_ptime(dl.v)); else if (dl.form == PT_REL) r = t_.timed_join(pt::seconds((long)(dl.v / SEC)) + pt::microseconds(dl.v % SEC / US)); else
#endif
    r = chrono_form(dl, [&](auto const& t) -> bool { return t_.try_join_until(t); }, [&](auto const& t) -> bool { return t_.try_join_for(t); });
    if (r == t_.joinable()) fail("timed join reported %d but joinable() is %d", (int)r, (int)t_.joinable());
    return r; }
  ~THR() { if (t_.joinable()) t_.join(); pthread_mutex_destroy(&pm); pthread_cond_destroy(&pc); }
};
struct SLP : Obj {
  void fire() { }
  int nops() { return 2; }
  const char* name(int w) { return w ? "no_interruption_point::sleep" : "this_thread::sleep"; }
  bool silent() { return true; }
  bool has(int w, const Dl& dl) { return dl.form != XT; }
  bool op(int w, const Dl& dl) {
#if defined BOOST_THREAD_USES_DATETIME
    if (dl.form == PT_ABS) { if (w) boost::this_thread::no_interruption_point::sleep(to_ptime(dl.v)); else boost::this_thread::sleep(to_ptime(dl.v)); return false; }
    if (dl.form == PT_REL) { pt::time_duration t = pt::seconds((long)(dl.v / SEC)) + pt::microseconds(dl.v % SEC / US); if (w) boost::this_thread::no_interruption_point::sleep(t); else boost::this_thread::sleep(t); return false; }
#endif
    if (w == 0) chrono_form(dl, [&](auto const& t) -> bool { boost::this_thread::sleep_until(t); return 0; }, [&](auto const& t) -> bool { boost::this_thread::sleep_for(t); return 0; });
    else chrono_form(dl, [&](auto const& t) -> bool { boost::this_thread::no_interruption_point::sleep_until(t); return 0; }, [&](auto const& t) -> bool { boost::this_thread::no_interruption_point::sleep_for(t); return 0; });
    return false;
  }
};
struct LAT : Obj {
  boost::latch l; LAT() : l(2) { }
  void fire() { l.count_down(); }
  void arm() { l.count_down(); }
  int nops() { return 1; }
  const char* name(int) { return "latch wait"; }
  bool has(int, const Dl& dl) { return !dl.datetime(); }
  bool op(int, const Dl& dl) { return chrono_form(dl, [&](auto const& t) -> bool { return l.wait_until(t) == boost::cv_status::no_timeout; }, [&](auto const& t) -> bool { return l.wait_for(t) == boost::cv_status::no_timeout; }); }
};
static Obj* make_obj(int k) {
  switch (k) {
    case 0: return new TM<boost::timed_mutex, false>; case 1: return new TM<boost::recursive_timed_mutex, true>;
    case 2: return new SMO(0); case 3: return new SMO(1); case 4: return new SMO(2);
    case 5: return new CVO<boost::condition_variable, boost::mutex>(flip());
    case 6: return new CVO<boost::condition_variable_any, boost::timed_mutex>(flip());
    case 7: return new FUT<boost::BOOST_THREAD_FUTURE<int> >(flip()); case 8: return new FUT<boost::shared_future<int> >(flip());
    case 9: return new THR; case 10: return new SLP; default: return new LAT;
  }
}
static int64_t floor_to(int64_t v, int64_t g) { int64_t r = v % g; if (r < 0) r += g; return v - r; }
// offset of a deadline from now
static int64_t pick_off() {
  switch (pick(8)) {
    case 0: return 0; case 1: return range(1, 40) * 25 * MS; case 2: return pick64(0, 3 * SEC); case 3: return -pick64(0, 3 * SEC);
    case 4: return (int64_t)range(0, 30) * 100 * MS; case 5: return range(-3, 3); case 6: return range(0, 500) * US; default: return range(1, 5) * SEC;
  }
}
static const int64_t YEAR = 365LL * 86400 * SEC;
struct Waiter { int which; Dl dl; int64_t start, off; bool extreme; int64_t ts, tr; bool res; bool started, done; };

static void timed(bool extreme_only) {
  allow_early_time(false);
  { Ignore i; g_off.clear(); g_off.push_back(Jump{INT64_MIN / 2, real_now() - mono_now()}); }
  int kind = pick(12);
  Obj* o = make_obj(kind);
  int nw = o->multi() ? 1 + (int)chance(1, 3) : 1;
  Priv<std::vector<Waiter>> W;
  for (int i = 0; i < nw; i++) {
    Waiter w; w.which = pick(o->nops()); w.extreme = extreme_only || chance(1, 10);
    for (int tries = 0; ; tries++) {
      w.dl.form = pick(NFORM); w.dl.v = 0;
#if !defined BOOST_THREAD_USES_DATETIME
      if (w.dl.form >= PT_ABS) continue;
#endif
      if (o->has(w.which, w.dl)) break;
      if (tries > 40) { w.which = 0; }
    }
    w.start = chance(1, 2) ? 0 : pick64(0, 200 * MS);
    if (w.extreme) {
      switch (pick(6)) { case 0: w.off = -100 * YEAR; break; case 1: w.off = 100 * YEAR; break; case 2: w.off = -30 * YEAR; break;
        case 3: w.off = INT64_MIN; break;      // absolute value zero
        case 4: w.off = INT64_MIN + 1; break;  // just below zero
        default: w.off = -3600 * SEC * (int64_t)range(1, 100000) - range(0, 999999999); }
    } else w.off = pick_off();
    w.started = w.done = false; w.res = false; w.ts = w.tr = 0;
    Ignore ig; W->push_back(w);
  }
  bool silent = o->silent();
  if (silent && chance(1, 3)) interrupt_sleeps(3);
  bool far = false; for (auto& w : *W) if (w.off >= YEAR) far = true;
  if (silent && far) { Ignore ig; for (auto& w : *W) if (w.off >= YEAR) w.off = -w.off; far = false; }
  // script of the environment
  struct Ev { int64_t after; int what; int64_t arg; };
  Priv<std::vector<Ev>> E;
  bool want_fire = !silent && (far || chance(2, 3)); bool fired_planned = false, prefire = want_fire && chance(1, 6);
  int ne = pick(5);
  for (int i = 0; i < ne; i++) {
    Ev e; e.after = chance(1, 3) ? range(0, 12) * 100 * MS : pick64(0, SEC); e.arg = 0;
    unsigned k = pick(5);
    if (k == 0 && !silent) e.what = 2;
    else if (k == 1 && want_fire && !fired_planned && !prefire) { e.what = 1; fired_planned = true; }
    else { e.what = 0; int64_t mag = chance(1, 2) ? pick64(1, 4 * SEC) : chance(1, 2) ? (int64_t)range(1, 20) * 100 * MS : 864000 * SEC; e.arg = flip() ? mag : -mag; }
    Ignore ig; E->push_back(e);
  }
  if (want_fire && !fired_planned && !prefire) { Ignore ig; E->push_back(Ev{pick64(0, 2 * SEC), 1, 0}); }
  int64_t tfire = -1; bool fired = false, noisy = false; int64_t* tf = &tfire; bool* fd = &fired; bool* ny = &noisy;
  Counter gate, armed, fin; Threads T;
  T.add([o, tf, fd, ny, nw, &E, &W, &fin, &gate, &armed, prefire] {
    o->arm();
    if (prefire) { { Ignore i; *tf = mono_now(); *fd = true; } o->fire(); }
    armed.add();
    gate.wait(1);
    for (size_t i = 0; i < E->size(); i++) {
      Ev e = (*E)[i]; if (e.after) delay(e.after);
      if (e.what == 0) do_jump(e.arg);
      else if (e.what == 2) { { Ignore ig; *ny = true; } o->noise(); }
      else { { Ignore ig; *tf = mono_now(); *fd = true; } o->fire(); }
    }
    if (!*fd) {   // bring a system clock that was set far back forward again, then let everybody time out
      int64_t need = 0;
      { Ignore ig; for (auto& w : *W) if (w.started && !w.done && w.dl.sys()) need = std::max(need, w.dl.v - real_now()); }
      if (need > 20 * SEC) do_jump(need - range(0, 3) * SEC);
      fin.wait(nw);
      o->fire();
    }
  });
  armed.wait(1);
  for (int i = 0; i < nw; i++) {
    T.add([o, i, &W, &fin, &gate] {
      Waiter* w = &(*W)[i];
      gate.wait(1);
      if (w->start) delay(w->start);
      {
        Ignore ig;
        Dl& d = w->dl; int64_t base = d.rel() ? 0 : reading(Dl{d.form >= PT_ABS && d.form != PT_REL ? SY_NS : d.form == MSC ? ST_NS : d.form == JC ? SY_NS : d.form, 0}, mono_now(), real_now() - mono_now());
        if (w->off <= INT64_MIN + 1) d.v = w->off == INT64_MIN ? 0 : -GRAIN[d.form];
        else if (w->off >= YEAR || w->off <= -YEAR) d.v = base + (d.form == XT || d.form == PT_ABS ? w->off / 4 : w->off);
        else d.v = base + w->off;
        // xtime and ptime are given only inside the years their conversions handle
        if (d.form == XT && d.v < 0) d.v = 0;
        d.v = floor_to(d.v, GRAIN[d.form]);
        note("waiter %d: %s, %s = %lld (offset %lld)", i, o->name(w->which), FN[d.form], (long long)d.v, (long long)w->off);
        w->ts = mono_now(); w->started = true;
      }
      bool r = o->op(w->which, w->dl);
      { Ignore ig; w->tr = mono_now(); w->res = r; w->done = true; }
      fin.add();
    });
  }
  gate.add();
  T.join();
  { Ignore ig;
    for (int i = 0; i < nw; i++) {
      Waiter& w = (*W)[i]; Dl& d = w.dl;
      Dl e = d; if (d.rel()) { e.form = ST_NS; e.v = w.ts + d.v; }
      bool loose = o->loose(w.which, d);
      bool jumps = jumped_in(w.ts, w.tr);
      int64_t extra = d.custom() ? MS : 0;
      if (!w.res) {
        if (max_reading(e, w.ts, w.tr) < e.v - (d.form == D_DBL ? d.v / (1LL << 50) : 0)) fail("waiter %d (%s, %s) reported a timeout at %+lld ns of its start although its clock never reached the deadline (closest: %lld ns short)", i, o->name(w.which), FN[d.form], (long long)(w.tr - w.ts), (long long)(e.v - max_reading(e, w.ts, w.tr)));
        // an event that came first decides
        if (fired && tfire + SLACK < w.ts && nw == 1 && !loose && !noisy) fail("waiter %d (%s, %s): the awaited event was there before the call, but a timeout was reported", i, o->name(w.which), FN[d.form]);
      } else {
        if (silent) fail("harness");
        if (!(loose && (jumps || noisy || nw > 1)) && !(fired && tfire <= w.tr)) fail("waiter %d (%s, %s) reported success although the event had not happened", i, o->name(w.which), FN[d.form]);
        if (loose && !jumps && !noisy && !(fired && tfire <= w.tr)) fail("waiter %d (%s, %s) woke without notification", i, o->name(w.which), FN[d.form]);
      }
      // when must it have returned at the latest
      int64_t late = INT64_MAX;
      if (fired && !(loose && tfire <= w.ts + SLACK)) late = std::max(tfire, w.ts);
      int64_t dlv;
      if (!d.sys()) dlv = std::max(e.v, w.ts) + extra;
      else if (!jumps) { int64_t c = e.v - off_at(w.ts); dlv = std::max(c, w.ts) + extra; }
      else if (loose) dlv = std::max(e.v - off_at(w.ts - 1), w.ts) + extra;    // documented: waits as computed at the start
      else { int64_t c = steadily_reached(e, w.ts, POLL + extra + 2 * SLACK); dlv = c == INT64_MAX ? c : c + POLL + extra + SLACK; }
      if (loose && d.sys() && jumped_in(w.ts - SLACK, w.ts + SLACK)) dlv = INT64_MAX;
      if (o->twice(w.which, d)) dlv += std::max<int64_t>(0, d.v);      // known finding
      late = std::min(late, dlv);
      if (late != INT64_MAX && w.tr > late + SLACK) fail("waiter %d (%s, %s) returned %d %lld ns later than allowed (started %lld, deadline %lld, event %lld, returned %lld)", i, o->name(w.which), FN[d.form], (int)w.res, (long long)(w.tr - late), (long long)w.ts, (long long)e.v, (long long)(fired ? tfire : -1), (long long)w.tr);
      if (w.tr - w.ts > SLACK) nontrivial();
      label(w.res ? "success" : "timeout"); if (jumps) label("clock stepped during the call"); if (w.extreme) label("extreme deadline"); label(FN[d.form]); if (d.rel() && jumps) label("relative, clock stepped");
    }
  }
  delete o;
  Ignore ig; std::vector<Jump>().swap(g_off);
}
#if defined BOOST_THREAD_USES_DATETIME
// posix_time special values as relative time: +infinity waits for the event however long, -infinity and
// not_a_date_time do not wait; success still means that the thing was obtained
template <class M> static void special_lock(M& m, bool shared, int sp, bool held, bool rel) {
  pt::time_duration d(sp == 0 ? boost::date_time::pos_infin : sp == 1 ? boost::date_time::neg_infin : boost::date_time::not_a_date_time);
  Counter up; Threads T; int64_t until = pick64(0, 3 * SEC); int64_t tu = 0; int64_t* ptu = &tu;
  if (held) T.add([&m, &up, until, ptu] { m.lock(); up.add(); delay(until); { Ignore i; *ptu = mono_now(); } m.unlock(); }); else up.add();
  up.wait(1);
  int64_t t0 = mono_now();
  bool r;
  if (flip()) { boost::unique_lock<M> l(m, boost::defer_lock); r = l.timed_lock(d); if (r != l.owns_lock()) fail("unique_lock state"); if (r) l.release(); }
  else r = m.timed_lock(d);
  int64_t t1 = mono_now();
  if (!r && sp == 0) fail("timed_lock(+infinity) returned false");
  if (r && held && (!tu || t1 < tu)) fail("timed_lock(special duration %d) reported a lock on a mutex that another thread owned", sp);
  if (!held && !r) fail("timed_lock(special duration %d) failed on a free mutex", sp);
  if (sp && t1 - t0 > SLACK) fail("timed_lock(special duration %d) waited", sp);
  if (held && sp == 0 && t1 > tu + SLACK) fail("timed_lock(+infinity) returned late");
  if (r) { int other = -1; int* po = &other; Threads Q; Q.add([&m, po] { bool g = m.try_lock(); if (g) m.unlock(); Ignore i; *po = g; }); Q.join(); if (other) fail("timed_lock(special duration %d) reported success but the mutex is free", sp); m.unlock(); }
  T.join();
  if (held) nontrivial();
  label("special posix duration");
}
SCENARIO(special_durations, 1) {
  allow_early_time(false); { Ignore i; g_off.clear(); g_off.push_back(Jump{INT64_MIN / 2, real_now() - mono_now()}); }
  int sp = pick(3); bool held = flip();
  unsigned k = pick(5);
  if (k == 0) { boost::timed_mutex m; special_lock(m, false, sp, held, true); }
  else if (k == 1) { boost::recursive_timed_mutex m; special_lock(m, false, sp, held, true); }
  else if (k == 2) { SM m; special_lock(m, false, sp, held, true); }
  else {
    pt::time_duration d(sp == 0 ? boost::date_time::pos_infin : sp == 1 ? boost::date_time::neg_infin : boost::date_time::not_a_date_time);
    boost::mutex m; boost::condition_variable cv; bool flag = false; int64_t until = pick64(0, 3 * SEC); int64_t tu = 0;
    Threads T; bool pre = held && flip(); if (pre) flag = true; bool ev = held || sp == 0;
    int64_t t0 = mono_now();
    boost::unique_lock<boost::mutex> l(m);
    if (ev && !pre) T.add([&] { delay(until); boost::unique_lock<boost::mutex> g(m); flag = true; { Ignore i; tu = mono_now(); } cv.notify_all(); });
    bool r; if (k == 3) r = cv.timed_wait(l, d, [&] { return flag; });
    else { boost::promise<int> p; boost::shared_future<int> f(p.get_future()); if (pre) p.set_value(1); Threads U; if (sp == 0 && !pre) U.add([&] { delay(until); { Ignore i; tu = mono_now(); } p.set_value(2); }); l.unlock(); r = f.timed_wait(d); l.lock(); if (r != f.is_ready()) fail("future::timed_wait(special) told %d", (int)r); l.unlock(); U.join(); l.lock(); if (!r && (sp == 0 || pre)) fail("future::timed_wait(special) gave up"); }
    int64_t t1 = mono_now();
    if (!l.owns_lock()) fail("lock lost");
    if (k == 3) { if (r != flag) fail("timed_wait(special) told %d", (int)r); if (sp == 0 && !r) fail("timed_wait(+infinity) gave up"); }
    if (sp && t1 - t0 > SLACK) fail("timed_wait(special duration %d) waited", sp);
    l.unlock(); T.join(); if (sp == 0) nontrivial(); label("special posix duration");
  }
}
#endif
SCENARIO(timed_operations, 6) { timed(false); }
SCENARIO(extreme_deadlines, 2) { timed(true); }
#if V2 && defined BOOST_THREAD_USES_DATETIME
// known finding: the v2 mutexes give the whole relative time to each of their two internal waits
SCENARIO(kf_v2_timed_lock, 0) {
  allow_early_time(false);
  SM m; Threads T; Counter up, on;
  T.add([&] { m.lock(); up.add(); delay(900 * MS); m.unlock(); });
  T.add([&] { up.wait(1); delay(10 * MS); m.lock_shared(); on.add(); delay(3 * SEC); m.unlock_shared(); });
  up.wait(1);
  Threads Q; Q.add([&] { delay(500 * MS); int64_t t0 = mono_now(); bool r = m.timed_lock(pt::milliseconds(1000)); int64_t t1 = mono_now(); if (r) m.unlock(); if (t1 - t0 > SEC + SLACK) fail("timed_lock(1 s) returned after %lld ns", (long long)(t1 - t0)); });
  Q.join(); T.join();
}
#endif
int main(int argc, char** argv) { return pbt_main(argc, argv, "non-trivial: a timed operation really blocked for virtual time before it returned"); }
