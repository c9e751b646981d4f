// X01: injected failures (thread start, mutex / condition variable initialisation, n-th allocation, n-th user copy or call)
// in one library call; afterwards nothing is held, blocked, leaked or half done, and everything still works.
#include "futil.h"
#include <boost/thread/scoped_thread.hpp>
#include <boost/thread/thread_guard.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/barrier.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/completion_latch.hpp>
#include <boost/thread/synchronized_value.hpp>
#include <boost/thread/sync_queue.hpp>
#include <boost/thread/concurrent_queues/sync_deque.hpp>
#include <boost/thread/sync_bounded_queue.hpp>
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#include <boost/thread/executors/serial_executor_cont.hpp>
#include <boost/thread/executors/executor_adaptor.hpp>
#include <boost/thread/executors/scheduler.hpp>
#include <boost/thread/executors/scheduling_adaptor.hpp>
#include <boost/thread/executors/scheduled_thread_pool.hpp>
#include <boost/thread/experimental/task_region.hpp>
#define HAS_EX 1
#endif
namespace bc = boost::chrono;
// ---------------------------------------------------------------- faults
enum { NONE = 0, CREATE = 1, MUTEX = 2, COND = 4, ALLOC = 8, COPY = 16, CALL = 32 };
struct UserErr { int id; };
static int u_copy, u_fid, u_fired;               // the u_copy-th copy of a user object in fiber u_fid throws
static void user_copy() { bool t = false; { Ignore i; if (u_copy > 0 && fid() == u_fid && --u_copy == 0) { u_fired = 1; t = true; } } if (t) throw UserErr{7}; }
static const char* kname(int k) { return k == CREATE ? "thread creation" : k == MUTEX ? "mutex initialisation" : k == COND ? "condition variable initialisation" : k == ALLOC ? "allocation" : k == COPY ? "user copy" : "user call"; }
static int code_of_current() {
  try { throw; }
  catch (UserErr&) { return COPY; } catch (std::bad_alloc&) { return ALLOC; }
  catch (boost::thread_resource_error&) { return CREATE; }
  catch (std::exception& e) { fail("unexpected exception %s: %s", typeid(e).name(), e.what()); }
  catch (...) { fail("unexpected exception of an unknown type"); }
}
static bool matches(int fault, int got) { return fault == got || (got == CREATE && (fault == MUTEX || fault == COND)); }
struct Fault { int kind, nth; };
static Fault draw(int kinds, int maxn = 8) {
  Fault f = {NONE, 0}; int ks[8], n = 0; for (int b = 1; b <= CALL; b <<= 1) if (kinds & b) ks[n++] = b;
  int c = range(0, n); if (!c) return f;
  f.kind = ks[c - 1]; f.nth = 1 + (int)pick(f.kind == CREATE ? 3 : maxn); return f;
}
static int fires0;
static void arm(Fault f) {
  { Ignore i; u_fired = 0; u_copy = 0; fires0 = create_failures() + mutex_init_failures() + cond_init_failures() + alloc_failures(); }
  switch (f.kind) { case CREATE: fail_thread_create(f.nth); break; case MUTEX: fail_mutex_init(f.nth); break; case COND: fail_cond_init(f.nth); break;
    case ALLOC: fail_alloc_in_fiber(f.nth, fid()); break; case COPY: case CALL: { Ignore i; u_copy = f.nth; u_fid = fid(); } }
}
static bool disarm() {                           // did it fire
  fail_thread_create(0); fail_mutex_init(0); fail_cond_init(0); fail_alloc_in_fiber(0, -1); Ignore i; u_copy = 0;
  return u_fired || create_failures() + mutex_init_failures() + cond_init_failures() + alloc_failures() != fires0;
}
static bool last_fired;
// runs one library call under the fault; true: it succeeded.  A failure that fired is reported unless may_swallow
template <class F> static bool attempt(const char* what, Fault f, F fn, bool may_swallow = false) {
  int got = 0; arm(f);
  try { fn(); } catch (...) { disarm() ? (void)(last_fired = true) : (void)(last_fired = false); got = code_of_current(); if (!last_fired) fail("%s throws (%s) though nothing failed", what, kname(got)); 
    if (!matches(f.kind, got)) fail("%s: a failed %s is reported as a failed %s", what, kname(f.kind), kname(got)); nontrivial(); label(what); label(kname(f.kind)); note("%s: %s #%d failed and was reported\n", what, kname(f.kind), f.nth); return false; }
  last_fired = disarm();
  if (last_fired) { nontrivial(); label(kname(f.kind)); note("%s: %s #%d failed, the call succeeded\n", what, kname(f.kind), f.nth); if (!may_swallow) fail("%s: a failed %s is not reported", what, kname(f.kind)); }
  return true;
}
// ---------------------------------------------------------------- user objects
struct Tok { int* p; explicit Tok(int i = 0) : p(new int(i)) {} Tok(const Tok& o) : p(0) { user_copy(); p = new int(*o.p); } Tok(Tok&& o) noexcept : p(o.p) { o.p = 0; }
  Tok& operator=(const Tok& o) { if (this != &o) { user_copy(); int* q = o.p ? new int(*o.p) : 0; delete p; p = q; } return *this; } Tok& operator=(Tok&& o) noexcept { std::swap(p, o.p); return *this; } ~Tok() { delete p; p = (int*)8; } int id() const { return p ? *p : -1; } };
struct Cnt { int ran, live; };
struct Fn { typedef void result_type; Cnt* c; int* own; explicit Fn(Cnt& x) : c(&x), own(new int(1)) { Ignore i; c->live++; } Fn(const Fn& o) : c(o.c), own(0) { user_copy(); own = new int(*o.own); Ignore i; c->live++; } Fn(Fn&& o) noexcept : c(o.c), own(o.own) { o.own = 0; Ignore i; c->live++; }
  Fn& operator=(const Fn&) = delete; ~Fn() { delete own; own = (int*)8; Ignore i; c->live--; }
  void operator()() const { if (!own || *own != 1) fail("the stored callable is damaged"); point(); Ignore i; c->ran++; }
  void operator()(const Tok& t) const { if (t.id() != 5) fail("the stored argument is damaged"); (*this)(); } };
struct Fr : Fn { typedef int result_type; explicit Fr(Cnt& x) : Fn(x) {} int operator()() const { Fn::operator()(); return 42; } template <class F> int operator()(F f) const { Fn::operator()(); (void)f; return 42; } };
// ---------------------------------------------------------------- starting threads
SCENARIO(thread_start, 10) {
  check_leaks(true); allow_early_time(false);
  Priv<Cnt> c; { Ignore i; c->ran = c->live = 0; } int expect = 0;
  { boost::thread_group grp; int n = range(1, 3);
  for (int k = 0; k < n; k++) {
    int how = range(0, 6); Fault f = draw(CREATE | ALLOC | MUTEX | COND | COPY); int before; { Ignore i; before = c->ran; }
    boost::thread t; bool ok = false; Fn fn(*c); Tok tok(5);
    switch (how) {
      case 0: ok = attempt("thread(f)", f, [&] { boost::thread x(fn); t = boost::move(x); }); break;
      case 1: ok = attempt("thread(f, arg)", f, [&] { boost::thread x(fn, tok); t = boost::move(x); }); break;
      case 2: ok = attempt("thread(attributes, f)", f, [&] { boost::thread::attributes a; a.set_stack_size(1 << 17); const boost::thread::attributes& ca = a; boost::thread x(ca, Fn(fn)); t = boost::move(x); }); break;
      case 3: { ok = attempt("scoped_thread(f)", f, [&] { boost::scoped_thread<> s(fn); }); if (ok) { Ignore i; if (c->ran != before + 1) fail("scoped_thread ran its function %d times", c->ran - before); } break; }
      case 4: { size_t s0 = grp.size(); boost::thread* r = 0; ok = attempt("thread_group::create_thread", f, [&] { r = grp.create_thread(fn); });
        if (grp.size() != s0 + (ok ? 1 : 0)) fail("thread_group has %d threads after a %s create_thread on %d", (int)grp.size(), ok ? "successful" : "failed", (int)s0); if (ok && !grp.is_thread_in(r)) fail("create_thread returns a thread that is not in the group"); break; }
      case 5: { boost::thread x(fn); boost::thread* p = new boost::thread(boost::move(x)); size_t s0 = grp.size(); bool a = attempt("thread_group::add_thread", draw(ALLOC), [&] { grp.add_thread(p); });
        if (grp.size() != s0 + (a ? 1 : 0)) fail("thread_group has the wrong size"); if (!a) { p->join(); delete p; } ok = true; break; }
      default: ok = attempt("strict_scoped_thread(f)", f, [&] { boost::strict_scoped_thread<> s(fn); });
    }
    if (ok) expect++;
    if (how < 3) { if (ok != t.joinable()) fail("joinable() is %d after the start %s", t.joinable(), ok ? "succeeded" : "failed"); if (ok && flip()) t.join(); }
    if (how < 3 && t.joinable()) { if (flip()) t.join(); else { t.join(); } }
    wait_quiescent();
  }
  grp.join_all(); }
  wait_quiescent();
  Ignore i; if (c->ran != expect) fail("%d functions ran, %d threads were started successfully", c->ran, expect); if (c->live) fail("%d copies of the function are left", c->live);
}
// ---------------------------------------------------------------- construction of synchronisation objects
template <class M> static void use_lock(M& m) { m.lock(); m.unlock(); if (!m.try_lock()) fail("a fresh mutex is not free"); m.unlock(); }
template <class T, class U> static void make(const char* what, Fault f, U use) { T* p = 0; bool ok = attempt(what, f, [&] { p = new T(); }); if (ok) { use(*p); delete p; } { T again; use(again); } }
SCENARIO(objects, 6) {
  check_leaks(true); int n = range(1, 2);
  for (int k = 0; k < n; k++) {
    Fault f = draw(MUTEX | COND | ALLOC, 4);
    switch (range(0, 19)) {
      case 0: make<boost::mutex>("mutex()", f, [](boost::mutex& m) { use_lock(m); }); break;
      case 1: make<boost::timed_mutex>("timed_mutex()", f, [](boost::timed_mutex& m) { use_lock(m); }); break;
      case 2: make<boost::recursive_mutex>("recursive_mutex()", f, [](boost::recursive_mutex& m) { m.lock(); use_lock(m); m.unlock(); }); break;
      case 3: make<boost::recursive_timed_mutex>("recursive_timed_mutex()", f, [](boost::recursive_timed_mutex& m) { m.lock(); use_lock(m); m.unlock(); }); break;
      case 4: case 5: make<boost::shared_mutex>("shared_mutex()", f, [](boost::shared_mutex& m) { use_lock(m); m.lock_shared(); m.lock_upgrade(); m.unlock_upgrade(); m.unlock_shared(); }); break;
      case 6: make<boost::condition_variable>("condition_variable()", f, [](boost::condition_variable& c) { c.notify_all(); }); break;
      case 7: make<boost::condition_variable_any>("condition_variable_any()", f, [](boost::condition_variable_any& c) { c.notify_all(); }); break;
      case 8: { boost::barrier* p = 0; if (attempt("barrier(1)", f, [&] { p = new boost::barrier(1); })) { if (!p->wait()) fail("barrier(1)"); delete p; } break; }
      case 9: { boost::barrier* p = 0; Fault g = draw(MUTEX | COND | ALLOC | COPY, 4); struct V { Cnt c; } v = {{0, 0}}; Fn fn(v.c); if (attempt("barrier(1, f)", g, [&] { p = new boost::barrier(1, fn); })) { if (!p->wait()) fail("barrier(1, f)"); delete p; if (v.c.ran != 1) fail("completion ran %d times", v.c.ran); } break; }
      case 10: { boost::latch* p = 0; if (attempt("latch(1)", f, [&] { p = new boost::latch(1); })) { p->count_down(); p->wait(); delete p; } break; }
      case 11: { boost::completion_latch* p = 0; if (attempt("completion_latch(1)", f, [&] { p = new boost::completion_latch(1); })) delete p; break; }
      case 12: make<boost::sync_queue<Tok> >("sync_queue()", f, [](boost::sync_queue<Tok>& q) { q.push(Tok(3)); Tok t = q.pull(); if (t.id() != 3) fail("queue"); }); break;
      case 13: make<boost::concurrent::sync_deque<Tok> >("sync_deque()", f, [](boost::concurrent::sync_deque<Tok>& q) { q.push_back(Tok(3)); Tok t = q.pull_front(); if (t.id() != 3) fail("deque"); }); break;
      case 14: { boost::sync_bounded_queue<Tok>* p = 0; if (attempt("sync_bounded_queue(2)", f, [&] { p = new boost::sync_bounded_queue<Tok>(2); })) { p->push(Tok(3)); Tok t = p->pull(); delete p; } break; }
      case 15: make<boost::concurrent::sync_priority_queue<int> >("sync_priority_queue()", f, [](boost::concurrent::sync_priority_queue<int>& q) { q.push(1); if (q.pull() != 1) fail("priority queue"); }); break;
      case 16: make<boost::concurrent::sync_timed_queue<int> >("sync_timed_queue()", f, [](boost::concurrent::sync_timed_queue<int>& q) { q.push(1, bc::milliseconds(1)); if (q.pull() != 1) fail("timed queue"); }); break;
      case 17: { boost::synchronized_value<Tok>* p = 0; Tok t(4); Fault g = draw(MUTEX | ALLOC | COPY, 4); if (attempt("synchronized_value(v)", g, [&] { p = new boost::synchronized_value<Tok>(t); })) { if ((*p)->id() != 4) fail("value"); delete p; } break; }
      case 18: { boost::promise<Tok>* p = 0; if (attempt("promise()", f, [&] { p = new boost::promise<Tok>(); })) { Fut<Tok>::type x = p->get_future(); p->set_value(Tok(2)); if (x.get().id() != 2) fail("promise"); delete p; } break; }
      default: { boost::synchronized_value<Tok> a(Tok(1)), b(Tok(2)); int w = range(0, 3); Fault g = draw(ALLOC | COPY, 3); Tok t(9);
        bool ok = attempt("synchronized_value assignment", g, [&] { if (w == 0) a = b; else if (w == 1) a = t; else if (w == 2) { Tok x = a.get(); t = x; } else { boost::synchronized_value<Tok> x(b); if (x->id() != 2) fail("copy"); } });
        if (!ok && (a->id() != 1 || b->id() != 2 || t.id() != 9)) fail("a failed assignment changed the value"); if (a->id() != (ok && w == 0 ? 2 : ok && w == 1 ? 9 : 1) || b->id() != 2) fail("synchronized_value holds %d, %d", a->id(), b->id()); a.swap(b); }
    }
  }
}
// ---------------------------------------------------------------- per-thread registrations
struct Exits { int ran, cleaned; };
static Exits* g_ex;
static void exit_fn() { Ignore i; g_ex->ran++; }
struct ExitF { int* own; ExitF() : own(new int(1)) {} ExitF(const ExitF& o) : own(0) { user_copy(); own = new int(*o.own); } ~ExitF() { delete own; } void operator()() { if (*own != 1) fail("damaged exit function"); exit_fn(); } };
static void clean(int* p) { delete p; Ignore i; g_ex->cleaned++; }
static void tls_body(boost::thread_specific_ptr<int>& tss, boost::mutex& m, boost::condition_variable& cv, bool& flag) {
  int n = range(1, 3), exits = 0, notified = 0; int* cur = 0; (void)cur; int cleaned = 0, base_ran, base_cleaned; { Ignore i; base_ran = g_ex->ran; base_cleaned = g_ex->cleaned; } (void)base_ran;
  for (int k = 0; k < n; k++) switch (range(0, 3)) {
    case 0: { int* p = new int(k); int* old = tss.get(); bool ok = attempt("thread_specific_ptr::reset", draw(ALLOC, 4), [&] { tss.reset(p); });
      if (ok) { if (old) cleaned++; if (tss.get() != p) fail("get() after reset()"); } else { if (tss.get() != old) fail("a failed reset() changed the value"); delete p; } { Ignore i; if (g_ex->cleaned != base_cleaned + cleaned) fail("cleanup ran %d times, not %d", g_ex->cleaned - base_cleaned, cleaned); } break; }
    case 1: { if (attempt("at_thread_exit", draw(ALLOC | COPY, 8), [&] { boost::this_thread::at_thread_exit(ExitF()); })) exits++; break; }
    case 2: { if (notified) break; boost::unique_lock<boost::mutex> lk(m); flag = true; bool ok = attempt("notify_all_at_thread_exit", draw(ALLOC, 4), [&] { boost::notify_all_at_thread_exit(cv, boost::move(lk)); });
      if (lk.owns_lock()) fail("the lock passed in is still owned"); if (!ok) { if (!m.try_lock()) fail("the mutex stays locked after a failed notify_all_at_thread_exit"); flag = false; m.unlock(); } else notified = 1; break; }
    default: { bool ok = attempt("make external thread data", draw(ALLOC, 4), [&] { boost::this_thread::disable_interruption d; boost::this_thread::interruption_point(); }); (void)ok; }
  }
  Ignore i; g_ex->ran -= exits;                 // balances at the end
  g_ex->cleaned -= cleaned + (tss.get() ? 1 : 0);
}
SCENARIO(registrations, 5) {
  check_leaks(true); Priv<Exits> e; { Ignore i; e->ran = e->cleaned = 0; g_ex = e.p; }
  { boost::mutex m; boost::condition_variable cv; bool flag = false; bool external = flip();
    boost::thread_specific_ptr<int> tss(&clean);
    if (external) { Threads th; th.add([&] { tls_body(tss, m, cv, flag); }); th.join(); } else { boost::thread t([&] { tls_body(tss, m, cv, flag); }); t.join(); }
    if (!m.try_lock()) fail("the mutex stays locked after the thread ended"); m.unlock(); }
  Ignore i; if (e->ran) fail("exit functions: %d more ran than were registered", e->ran); if (e->cleaned) fail("cleanups: %d more ran than values were stored", e->cleaned);
}
// ---------------------------------------------------------------- promises
SCENARIO(promises, 10) {
  check_leaks(true); allow_early_time(false);
  int waiters = range(0, 2), conts = 0; (void)conts; int id = 1 + (int)pick(40), want = 0;
  Threads th; Priv<std::vector<int> > got; 
  { boost::promise<Tok> p;
    Fut<Tok>::type f; bool r = attempt("promise::get_future", draw(ALLOC, 4), [&] { f = p.get_future(); });
    if (!r) { if (f.valid()) fail("valid() after a failed get_future"); f = p.get_future(); }
    shared_future<Tok> sf; 
    bool sh = waiters || flip(); if (sh) { attempt("share", draw(ALLOC | COPY, 3), [&] { sf = f.share(); }); }
    for (int w = 0; w < waiters; w++) { int how = range(0, 2); th.add([sf, how, &got] () mutable {
        shared_future<Tok> x(sf); int v;
        if (how == 2) { shared_future<Tok> y(sf); boost::wait_for_any(x, y); } else if (how == 1) x.wait();
        v = outcome([&] { return x.get().id(); }); Ignore i; got->push_back(v); }); }
    if (waiters && flip()) wait_quiescent();
    int how = range(0, 5); Tok t(id); bool ok;
    auto setter = [&](Fault flt) -> bool {
      switch (how) {
        case 0: want = id; return attempt("promise::set_value(const&)", flt, [&] { p.set_value(t); });
        case 1: want = id; return attempt("promise::set_value(&&)", flt, [&] { p.set_value(Tok(id)); });
        case 2: want = 1000 + id; return attempt("promise::set_exception", flt, [&] { p.set_exception(boost::copy_exception(Ex1(id))); });
        case 3: want = 1000 + id; return attempt("promise::set_exception(e)", flt, [&] { p.set_exception(Ex1(id)); });
        case 4: { bool o = false; want = id; boost::thread x([&] { o = attempt("promise::set_value_at_thread_exit", flt, [&] { p.set_value_at_thread_exit(t); }); }); x.join(); return o; }
        default: { bool o = false; want = 1000 + id; boost::exception_ptr e = boost::copy_exception(Ex1(id)); boost::thread x([&] { o = attempt("promise::set_exception_at_thread_exit", flt, [&] { p.set_exception_at_thread_exit(e); }); }); x.join(); return o; }
      } };
    Fault flt = draw(ALLOC | COPY, 4);
    if (how == 2 || how == 3) {                  // out of memory while making the exception_ptr: the library may store bad_alloc instead
      arm(flt); bool threw = false; try { if (how == 2) p.set_exception(boost::copy_exception(Ex1(id))); else p.set_exception(Ex1(id)); } catch (...) { threw = true; code_of_current(); } bool fired = disarm();
      want = 1000 + id; if (threw && !fired) fail("set_exception throws though nothing failed"); if (threw) { setter(Fault{NONE, 0}); nontrivial(); } else if (fired) { nontrivial(); want = -5; } ok = true;
    } else {
      ok = setter(flt);
      if (!ok) { if (waiters) { wait_quiescent(); Ignore i; if (!got->empty()) fail("a failed set_value released a waiter"); } bool rd = sh ? sf.is_ready() : f.is_ready(); if (rd) fail("the future is ready after a failed set_value"); if (sh ? sf.has_value() || sf.has_exception() : f.has_value() || f.has_exception()) fail("the future has a result after a failed set_value");
        ok = setter(Fault{NONE, 0}); if (!ok) fail("set_value after a failed one"); }
    }
    { int r2 = outcome([&] { p.set_value(Tok(77)); return 0; }); if (r2 != E_SATISFIED) fail("a second set_value is answered with %d", r2); }
    if (!sh && flip()) { f.wait(); }
    int v; { Ignore i; v = 0; }
    if (sh) v = outcome([&] { return sf.get().id(); }); else v = outcome([&] { return f.get().id(); });
    if (want != -5 && v != want) fail("the future delivers %d, not %d", v, want);
    th.join(); { Ignore i; for (int g : *got) if (want != -5 && g != want) fail("a waiter received %d, not %d", g, want); if ((int)got->size() != waiters) fail("a waiter is missing"); }
  }
}
// wait_for_any / wait_for_all running out of memory leave nothing registered
SCENARIO(waits, 6) {
  check_leaks(true); allow_early_time(false);
  int n = range(1, 3); { std::vector<boost::promise<Tok> > ps; std::vector<shared_future<Tok> > fs; ps.reserve(3); fs.reserve(3);
  for (int k = 0; k < n; k++) { ps.push_back(boost::promise<Tok>()); fs.push_back(shared_future<Tok>(ps.back().get_future())); }
  bool late = flip(); int first = (int)pick(n); Threads th; 
  if (!late) ps[first].set_value(Tok(first)); else th.add([&] { point(); ps[first].set_value(Tok(first)); });
  int form = range(0, 1); Fault f = draw(ALLOC, 8); int r = -1;
  bool ok = attempt("wait_for_any", f, [&] { if (form && n == 2) r = (int)boost::wait_for_any(fs[0], fs[1]); else if (form && n == 3) r = (int)boost::wait_for_any(fs[0], fs[1], fs[2]); else r = (int)(boost::wait_for_any(fs.begin(), fs.end()) - fs.begin()); });
  if (ok && r != first) fail("wait_for_any returns %d, not %d", r, first);
  th.join();
  for (int k = 0; k < n; k++) if (k != first) ps[k].set_value(Tok(k));
  for (int k = 0; k < n; k++) if (fs[k].get().id() != k) fail("future %d delivers another value", k);
  r = (int)(boost::wait_for_any(fs.begin(), fs.end()) - fs.begin()); if (r < 0 || r >= n) fail("wait_for_any"); }
}
// ---------------------------------------------------------------- tasks and async
SCENARIO(tasks, 8) {
  check_leaks(true); allow_early_time(false);
  Priv<Cnt> c; { Ignore i; c->ran = c->live = 0; } int expect = 0, maybe = 0;
  { int n = range(1, 2);
  for (int k = 0; k < n; k++) {
    Fr fr(*c); int how = range(0, 3);
    if (how == 0) {                              // packaged_task
#ifdef BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
      typedef boost::packaged_task<int()> PT;
#else
      typedef boost::packaged_task<int> PT;
#endif
      PT* t = 0; if (!attempt("packaged_task(f)", draw(ALLOC | MUTEX | COND | COPY, 5), [&] { t = new PT(fr); })) continue;
      Fut<int>::type f; if (!attempt("packaged_task::get_future", draw(ALLOC, 3), [&] { f = t->get_future(); })) f = t->get_future();
      if (flip()) { bool fired = false, at_exit = false; Fault g = draw(ALLOC, 4); boost::thread x([&] { if (!attempt("packaged_task::make_ready_at_thread_exit", g, [&] { t->make_ready_at_thread_exit(); }, true)) at_exit = true; fired = last_fired; }); x.join(); if (at_exit) { delete t; { Ignore i; maybe++; } try { f.get(); } catch (...) {} continue; } last_fired = fired; }
      else if (!attempt("packaged_task::operator()", draw(ALLOC, 3), [&] { (*t)(); }, true)) fail("packaged_task: the failure to store the result came out of the call");
      { expect++; int v = -1; bool bad = false; try { v = f.get(); } catch (std::bad_alloc&) { bad = true; } if (bad ? !last_fired : v != 42) fail("packaged_task delivers %d", v); }
      delete t;
    } else {
      Fut<int>::type f; bool def = how == 3; Fault flt = draw(CREATE | ALLOC | MUTEX | COND | COPY, 8);
      bool ok = attempt(def ? "async(deferred)" : "async(async)", flt, [&] { 
#ifdef BOOST_THREAD_PROVIDES_VARIADIC_THREAD
        f = boost::async(def ? boost::launch::deferred : boost::launch::async, Fr(fr));
#else
        f = boost::async(boost::launch::async, Fr(fr));
#endif
      });
      if (!ok) { if (f.valid()) fail("valid() after a failed async()"); wait_quiescent(); continue; }
      if (flip()) { Fault g = draw(ALLOC, 3); bool bad = false; int v = -1; arm(g); try { v = f.get(); } catch (std::bad_alloc&) { bad = true; } bool fired = disarm(); expect++;
        if (fired) nontrivial(); if (bad ? !fired : v != 42) fail("async delivers %d", v); if (bad) { expect--; maybe++; } }
      else { maybe++; }
    }
  } }
  wait_quiescent();
  Ignore i; if (c->ran < expect || c->ran > expect + maybe) fail("the functions ran %d times, expected %d..%d", c->ran, expect, expect + maybe); if (c->live) fail("%d copies of the function are left", c->live);
}
#ifdef BOOST_THREAD_PROVIDES_FUTURE_CONTINUATION
// ---------------------------------------------------------------- continuations: failures while attaching and while launching
template <class X, class Y> static void cont_get(X& f, bool fired, int what, Y& ran) {
  if (!f.valid()) fail("then() returned an invalid future");
  int v = -1, err = 0; try { v = f.get(); } catch (...) { err = code_of_current(); }
  Ignore i; if (err && !fired) fail("continuation %d: its future delivers a failed %s though nothing failed", what, kname(err));
  if (!err && v != 42) fail("continuation %d: its future delivers %d", what, v);
  if (!err && ran != 1) fail("continuation %d ran %d times, but its future has a value", what, ran);
}
SCENARIO(continuations, 12) {
  check_leaks(true); allow_early_time(false);
  Priv<std::vector<Cnt> > cs; { Ignore i; cs->resize(4); for (auto& c : *cs) c.ran = c.live = 0; }
  { bool shared = flip(), ready = flip(); int n = shared ? range(1, 3) : 1, id = 5; 
#ifdef HAS_EX
    boost::inline_executor inl; boost::loop_executor loop; bool closed = false;
#endif
    boost::promise<int> p; Fut<int>::type f = p.get_future(); shared_future<int> sf; if (shared) sf = f.share(); if (ready) p.set_value(id);
    std::vector<Fut<int>::type> outs; outs.reserve(4); int which[4] = {0, 0, 0, 0}; bool lost = false, fired_then[4] = {false, false, false, false}; int pol[4];
    for (int k = 0; k < n; k++) {
      pol[k] = range(0,
#ifdef HAS_EX
        4
#else
        2
#endif
      ); Fr fr((*cs)[k]); Fault flt = draw(ALLOC | CREATE | COPY | MUTEX | COND, 8); Fut<int>::type o;
      bool ok = attempt("then()", flt, [&] {
        switch (pol[k]) { case 0: o = shared ? sf.then(boost::launch::async, Fr(fr)) : f.then(boost::launch::async, Fr(fr)); break; case 1: o = shared ? sf.then(boost::launch::deferred, Fr(fr)) : f.then(boost::launch::deferred, Fr(fr)); break; case 2: o = shared ? sf.then(boost::launch::sync, Fr(fr)) : f.then(boost::launch::sync, Fr(fr)); break;
#ifdef HAS_EX
          case 3: o = shared ? sf.then(inl, Fr(fr)) : f.then(inl, Fr(fr)); break; default: o = shared ? sf.then(loop, Fr(fr)) : f.then(loop, Fr(fr));
#endif
        } }, true);
      if (ok) { which[outs.size()] = k; fired_then[outs.size()] = last_fired; outs.push_back(boost::move(o)); } else { if (o.valid()) fail("valid() after a failed then()"); wait_quiescent(); Ignore i; if ((*cs)[k].ran > (ready ? 1 : 0)) fail("a continuation ran though then() failed"); if (!shared && !f.valid()) lost = true; }
    }
    bool fired = false;
    if (!ready) {
#ifdef HAS_EX
      if (range(0, 3) == 3) { loop.close(); closed = true; label("closed executor"); }
#endif
      Fault flt = draw(ALLOC | CREATE, 8); int how = range(0, 1);
      if (how == 0) { bool ok = attempt("set_value with continuations", flt, [&] { p.set_value(id); }, true); fired = last_fired; if (!ok) { if (shared && sf.is_ready()) fail("the future is ready after a failed set_value"); wait_quiescent(); { Ignore i; for (auto& c : *cs) if (c.ran) fail("a continuation ran after a failed set_value"); } p.set_value(id); } }
      else { boost::exception_ptr e = boost::copy_exception(Ex1(3)); bool ok = attempt("set_exception with continuations", flt, [&] { p.set_exception(e); }, true); fired = last_fired; if (!ok) { if (shared && sf.is_ready()) fail("the future is ready after a failed set_exception"); p.set_exception(e); } }
    }
#ifdef HAS_EX
    if (!closed) loop.close(); { bool again = true; while (again) again = loop.try_executing_one(); }
#endif
    for (size_t k = 0; k < outs.size(); k++) { int w = which[k]; bool may = fired || fired_then[k];
#ifdef HAS_EX
      if (closed && pol[w] == 4) { bool refused = false; try { outs[k].get(); } catch (boost::sync_queue_is_closed&) { refused = true; } catch (...) { if (!may) fail("wrong exception from a closed executor"); refused = true; } Ignore i; if (!refused) fail("the continuation's future has a value though the executor was closed"); if ((*cs)[w].ran) fail("continuation ran on a closed executor"); continue; }
#endif
      cont_get(outs[k], may, w, (*cs)[w].ran); }
    if (shared && outcome([&] { return sf.get(); }) != (sf.has_exception() ? 1003 : id)) fail("the antecedent delivers another result");
    if (!shared && f.valid()) (void)outcome([&] { return f.get(); });
    (void)lost; }
  wait_quiescent();
  Ignore i; for (auto& c : *cs) { if (c.ran > 1) fail("a continuation ran %d times", c.ran); if (c.live) fail("%d copies of a continuation are left", c.live); }
}
// ---------------------------------------------------------------- when_all / when_any / unwrap
SCENARIO(combined, 8) {
  check_leaks(true); allow_early_time(false);
  { int n = range(1, 3); std::vector<boost::promise<int> > ps; std::vector<shared_future<int> > fs; ps.reserve(3); fs.reserve(3); bool done[3] = {false, false, false};
    for (int k = 0; k < n; k++) { ps.push_back(boost::promise<int>()); fs.push_back(shared_future<int>(ps.back().get_future())); if (flip()) { ps[k].set_value(k); done[k] = true; } }
    bool all = flip(), tuple = n == 2 && flip(); Fault flt = draw(ALLOC | CREATE | MUTEX | COND, 10);
    if (tuple) {
      typedef boost::csbl::tuple<shared_future<int>, shared_future<int> > T2; Fut<T2>::type o; bool ok = attempt(all ? "when_all(a, b)" : "when_any(a, b)", flt, [&] { o = all ? boost::when_all(fs[0], fs[1]) : boost::when_any(fs[0], fs[1]); }, true);
      bool fired = last_fired; if (!ok && o.valid()) fail("valid() after a failed when_all/when_any");
      for (int k = 0; k < n; k++) if (!done[k]) ps[k].set_value(k);
      if (ok) { try { T2 t = o.get(); if (boost::csbl::get<0>(t).get() != 0 || boost::csbl::get<1>(t).get() != 1) fail("wrong futures"); } catch (std::bad_alloc&) { if (!fired) fail("bad_alloc though nothing failed"); } catch (boost::thread_resource_error&) { if (!fired) fail("thread_resource_error though nothing failed"); } }
    } else {
      typedef boost::csbl::vector<shared_future<int> > V; Fut<V>::type o; bool ok = attempt(all ? "when_all(range)" : "when_any(range)", flt, [&] { o = all ? boost::when_all(fs.begin(), fs.end()) : boost::when_any(fs.begin(), fs.end()); }, true);
      bool fired = last_fired; if (!ok && o.valid()) fail("valid() after a failed when_all/when_any");
      for (int k = 0; k < n; k++) if (!done[k]) ps[k].set_value(k);
      if (ok) { try { V t = o.get(); if ((int)t.size() != n) fail("wrong size"); for (int k = 0; k < n; k++) if (t[k].get() != k) fail("wrong futures"); } catch (std::bad_alloc&) { if (!fired) fail("bad_alloc though nothing failed"); } catch (boost::thread_resource_error&) { if (!fired) fail("thread_resource_error though nothing failed"); } }
    }
    for (int k = 0; k < n; k++) if (fs[k].get() != k) fail("an input delivers another value"); }
  wait_quiescent();
}
#endif
#ifdef HAS_EX
// ---------------------------------------------------------------- executors
SCENARIO(pools, 12) {
  check_leaks(true); allow_early_time(false);
  Priv<Cnt> c; { Ignore i; c->ran = c->live = 0; } Priv<int> acc; { Ignore i; *acc = 0; }
  { int kind = range(0, 8), n = range(0, 3); Fault fc = draw(CREATE | ALLOC | MUTEX | COND | COPY, 12); Fn fn(*c);
    auto work = [&](const char* what, auto submit) { for (int k = 0; k < n; k++) if (attempt(what, draw(ALLOC | COPY | CREATE | MUTEX | COND, 6), submit)) { Ignore i; ++*acc; } };
    switch (kind) {
      case 0: { unsigned w = 1 + pick(3); boost::basic_thread_pool* p = 0; if (!attempt("basic_thread_pool(n)", fc, [&] { p = new boost::basic_thread_pool(w); })) p = new boost::basic_thread_pool(w); work("basic_thread_pool::submit", [&] { p->submit(fn); }); if (flip()) p->close(); delete p; break; }
      case 1: { boost::executors::thread_executor* p = new boost::executors::thread_executor; work("thread_executor::submit", [&] { p->submit(fn); }); delete p; break; }
      case 2: { boost::loop_executor* p = 0; if (!attempt("loop_executor()", fc, [&] { p = new boost::loop_executor; })) p = new boost::loop_executor; work("loop_executor::submit", [&] { p->submit(fn); }); p->close(); p->loop(); delete p; break; }
      case 3: { boost::inline_executor ex; work("inline_executor::submit", [&] { ex.submit(fn); }); break; }
      case 4: { boost::basic_thread_pool pool(1); boost::serial_executor* p = 0; if (!attempt("serial_executor(ex)", fc, [&] { p = new boost::serial_executor(pool); })) p = new boost::serial_executor(pool); work("serial_executor::submit", [&] { p->submit(fn); }); delete p; break; }
      case 5: { unsigned w = 1 + pick(3); boost::scheduled_thread_pool* p = 0; if (!attempt("scheduled_thread_pool(n)", fc, [&] { p = new boost::scheduled_thread_pool(w); })) p = new boost::scheduled_thread_pool(w); work("scheduled_thread_pool::submit_after", [&] { p->submit_after(fn, bc::milliseconds(1)); }); boost::this_thread::sleep_for(bc::milliseconds(5)); wait_quiescent(); delete p; break; }
      case 6: { boost::scheduler<>* p = 0; if (!attempt("scheduler()", fc, [&] { p = new boost::scheduler<>; })) p = new boost::scheduler<>; work("scheduler::submit_after", [&] { p->submit_after(fn, bc::milliseconds(1)); }); boost::this_thread::sleep_for(bc::milliseconds(5)); wait_quiescent(); delete p; break; }
      case 7: { boost::executor_adaptor<boost::basic_thread_pool>* p = 0; if (!attempt("executor_adaptor<basic_thread_pool>(n)", fc, [&] { p = new boost::executor_adaptor<boost::basic_thread_pool>(2u); })) p = new boost::executor_adaptor<boost::basic_thread_pool>(2u); work("executor::submit", [&] { p->submit(fn); }); delete p; break; }
      default: { boost::basic_thread_pool pool(1); boost::scheduling_adaptor<boost::basic_thread_pool>* p = 0; if (!attempt("scheduling_adaptor(ex)", fc, [&] { p = new boost::scheduling_adaptor<boost::basic_thread_pool>(pool); })) p = new boost::scheduling_adaptor<boost::basic_thread_pool>(pool); work("scheduling_adaptor::submit_after", [&] { p->submit_after(fn, bc::milliseconds(1)); }); boost::this_thread::sleep_for(bc::milliseconds(5)); wait_quiescent(); delete p; }
    } }
  wait_quiescent();
  Ignore i; if (c->ran != *acc) fail("%d closures ran, %d were accepted", c->ran, *acc); if (c->live) fail("%d copies of the closure are left", c->live);
}
SCENARIO(async_ex, 5) {                          // async on an executor that cannot take the task
  check_leaks(true); allow_early_time(false);
  Priv<Cnt> c; { Ignore i; c->ran = c->live = 0; } int acc = 0;
  { boost::executors::thread_executor te; boost::loop_executor le; int n = range(1, 2); std::vector<Fut<int>::type> fs; fs.reserve(4); bool loop = flip();
    for (int k = 0; k < n; k++) { Fr fr(*c); Fut<int>::type f; bool ok = attempt("async(executor, f)", draw(CREATE | ALLOC | MUTEX | COND | COPY, 10), [&] { f = loop ? boost::async(le, Fr(fr)) : boost::async(te, Fr(fr)); }); if (ok) { acc++; fs.push_back(boost::move(f)); } else if (f.valid()) fail("valid() after a failed async()"); }
    le.close(); le.loop(); for (auto& f : fs) if (f.get() != 42) fail("async delivers another value");
    { Fr fr(*c); bool refused = false; Fut<int>::type f; try { f = boost::async(le, Fr(fr)); } catch (boost::sync_queue_is_closed&) { refused = true; } if (!refused || f.valid()) fail("async on a closed executor"); } }
  wait_quiescent();
  Ignore i; if (c->ran != acc) fail("%d functions ran, %d async calls succeeded", c->ran, acc); if (c->live) fail("%d copies are left", c->live);
}
#endif
// ---------------------------------------------------------------- uncaught exceptions end the program where documented
struct Boom { int* own; Boom() : own(new int(1)) {} Boom(const Boom& o) : own(new int(*o.own)) {} ~Boom() { delete own; } void operator()() const { point(); throw UserErr{1}; } };
SCENARIO(terminates, 3) {
  expect_terminate(true); allow_early_time(false); nontrivial();
  int k = range(0,
#ifdef HAS_EX
    7
#else
    1
#endif
  ); note("case %d\n", k);
  switch (k) {
    case 0: { boost::thread t((Boom())); t.join(); fail("an exception that left a thread function was swallowed"); }
    case 1: { boost::thread t([] { boost::this_thread::at_thread_exit(Boom()); }); t.join(); fail("an exception that left an exit function was swallowed"); }
#ifdef HAS_EX
    case 2: { boost::basic_thread_pool p(1 + pick(2)); p.submit(Boom()); p.close(); p.join(); fail("an exception that left a closure of basic_thread_pool was swallowed"); }
    case 3: { boost::loop_executor p; p.submit(Boom()); if (flip()) { p.close(); p.loop(); } else if (flip()) p.try_executing_one(); else p.run_queued_closures(); fail("an exception that left a closure of loop_executor was swallowed"); }
    case 4: { boost::inline_executor p; try { p.submit(Boom()); } catch (UserErr&) {} fail("an exception that left a closure of inline_executor was swallowed"); }
    case 5: { { boost::executors::thread_executor p; p.submit(Boom()); } fail("an exception that left a closure of thread_executor was swallowed"); }
    case 6: { boost::scheduler<> p; p.submit_after(Boom(), bc::milliseconds(1)); boost::this_thread::sleep_for(bc::milliseconds(5)); wait_quiescent(); fail("an exception that left a closure of scheduler was swallowed"); }
    default: { boost::basic_thread_pool p(1); p.submit(Boom()); while (!p.try_executing_one()) boost::this_thread::sleep_for(bc::milliseconds(1)); fail("an exception that left a closure of basic_thread_pool was swallowed"); }
#endif
  }
}
int main(int argc, char** argv) { return pbt_main(argc, argv, "a failure was injected and reached the library call, or the uncaught exception was thrown"); }
