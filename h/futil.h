// Shared pieces of the futures harnesses: payloads, traits, outcome codes.
#pragma once
#include "timeutil.h"
#include "common.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/tss.hpp>
#include <boost/exception_ptr.hpp>
using boost::promise; using boost::shared_future;
template <class R> struct Fut { typedef boost::BOOST_THREAD_FUTURE<R> type; };
// ---------------------------------------------------------------- payloads
struct Val { int id, chk; Val(int i = 0) : id(i), chk(~i) {} Val(const Val& o) : id(o.id), chk(o.chk) { test(o); } Val(Val&& o) : id(o.id), chk(o.chk) { test(o); o.id = -1; o.chk = 0; }
  Val& operator=(const Val& o) { test(o); id = o.id; chk = o.chk; return *this; } Val& operator=(Val&& o) { test(o); id = o.id; chk = o.chk; o.id = -1; o.chk = 0; return *this; } ~Val() { test(*this); id = -77; chk = -77; }
  static void test(const Val& o) { if (o.chk != (o.id == -1 ? 0 : ~o.id)) fail("damaged value (id %d)", o.id); } };
struct Mo { std::unique_ptr<int> p; explicit Mo(int i = 0) : p(new int(i)) {} Mo(Mo&& o) : p(std::move(o.p)) {} Mo& operator=(Mo&& o) { p = std::move(o.p); return *this; } int id() const { return p ? *p : -1; } };
struct Ex1 { int id; explicit Ex1(int i) : id(i) {} };
struct Ex2 : std::runtime_error { int id; explicit Ex2(int i) : std::runtime_error("ex2"), id(i) {} };
static int cells[64];
enum { BROKEN = 1000000 };
template <class R> struct Tr;
template <> struct Tr<Val> {
  typedef promise<Val> P;
  static void set(P& p, int how, int id) { if (how == 0) p.set_value(Val(id)); else if (how == 1) { const Val v(id); p.set_value(v); if (v.id != id) fail("set_value changed its argument"); } else p.emplace(id); }
  static void set_deferred(P& p, int how, int id) { if (how) p.set_value_deferred(Val(id)); else { const Val v(id); p.set_value_deferred(v); } }
  static void set_exit(P& p, int how, int id) { if (how) p.set_value_at_thread_exit(Val(id)); else { const Val v(id); p.set_value_at_thread_exit(v); } }
  static int got(const Val& v) { Val::test(v); return v.id; }
  static const bool consumes = true, has_or = true;
  template <class F> static int get(F& f) { Val v(f.get()); return got(v); }
  static int get_or(Fut<Val>::type& f, int how, int fb) { if (how) { Val v(f.get_or(Val(fb))); return got(v); } const Val c(fb); Val v(f.get_or(c)); return got(v); }
  static int get_or(shared_future<Val>& f, int, int fb) { Val v(f.get_or(Val(fb))); return got(v); }
};
template <> struct Tr<Mo> {
  typedef promise<Mo> P;
  static void set(P& p, int how, int id) { if (how < 2) p.set_value(Mo(id)); else p.emplace(id); }
  static void set_deferred(P& p, int, int id) { p.set_value_deferred(Mo(id)); }
  static void set_exit(P& p, int, int id) { p.set_value_at_thread_exit(Mo(id)); }
  static const bool consumes = true, has_or = true;
  static int get(Fut<Mo>::type& f) { Mo m(f.get()); return m.id(); }
  static int get(shared_future<Mo>& f) { const Mo& m = f.get(); return m.id(); }
  static int get_or(Fut<Mo>::type& f, int, int fb) { Mo m(f.get_or(Mo(fb))); return m.id(); }
  static int get_or(shared_future<Mo>& f, int, int) { return get(f); }
};
template <> struct Tr<int&> {
  typedef promise<int&> P;
  static void set(P& p, int, int id) { p.set_value(cells[id & 63]); }
  static void set_deferred(P& p, int, int id) { p.set_value_deferred(cells[id & 63]); }
  static void set_exit(P& p, int, int id) { p.set_value_at_thread_exit(cells[id & 63]); }
  static const bool consumes = false, has_or = false;
  template <class F> static int get(F& f) { int& r = f.get(); return (int)(&r - cells); }
  template <class F> static int get_or(F& f, int, int) { return get(f); }
};
template <> struct Tr<void> {
  typedef promise<void> P;
  static void set(P& p, int, int) { p.set_value(); }
  static void set_deferred(P& p, int, int) { p.set_value_deferred(); }
  static void set_exit(P& p, int, int) { p.set_value_at_thread_exit(); }
  static const bool consumes = false, has_or = false;
  template <class F> static int get(F& f) { f.get(); return 0; }
  template <class F> static int get_or(F& f, int, int) { return get(f); }
};
template <class R> int norm(int id) { return id & 63; }
template <> int norm<void>(int) { return 0; }
static const bool invalid_after_get =
#ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
  true;
#else
  false;
#endif
static const bool lazy =
#ifdef BOOST_THREAD_PROVIDES_PROMISE_LAZY
  true;
#else
  false;
#endif
// codes of thrown things: user exception id -> 1000+id (Ex1), 2000+id (Ex2); library errors
enum { E_UNINIT = 5001, E_SATISFIED, E_RETRIEVED, E_MOVED, E_STARTED, E_OTHER };
static int code_of(boost::exception_ptr const& e) {
  try { boost::rethrow_exception(e); }
  catch (Ex1& x) { return 1000 + x.id; } catch (Ex2& x) { return 2000 + x.id; }
  catch (boost::broken_promise& x) { if (x.code() != boost::system::make_error_code(boost::future_errc::broken_promise)) fail("broken_promise carries another code"); return BROKEN; }
  catch (...) { return E_OTHER; }
}
// runs f, returning its result or the code of the exception
template <class F> static int outcome(F f) {
  try { return f(); }
  catch (Ex1& x) { return 1000 + x.id; } catch (Ex2& x) { return 2000 + x.id; }
  catch (boost::broken_promise&) { return BROKEN; }
  catch (boost::future_uninitialized& x) { if (x.code() != boost::system::make_error_code(boost::future_errc::no_state)) fail("future_uninitialized carries another code"); return E_UNINIT; }
  catch (boost::promise_already_satisfied& x) { if (x.code() != boost::system::make_error_code(boost::future_errc::promise_already_satisfied)) fail("promise_already_satisfied carries another code"); return E_SATISFIED; }
  catch (boost::future_already_retrieved& x) { if (x.code() != boost::system::make_error_code(boost::future_errc::future_already_retrieved)) fail("future_already_retrieved carries another code"); return E_RETRIEVED; }
  catch (boost::promise_moved& x) { if (x.code() != boost::system::make_error_code(boost::future_errc::no_state)) fail("promise_moved carries another code"); return E_MOVED; }
  catch (boost::task_already_started& x) { if (x.code() != boost::system::make_error_code(boost::future_errc::promise_already_satisfied)) fail("task_already_started carries another code"); return E_STARTED; }
  catch (boost::task_moved& x) { if (x.code() != boost::system::make_error_code(boost::future_errc::no_state)) fail("task_moved carries another code"); return E_MOVED; }
  catch (boost::future_error& x) { return x.code() == boost::system::make_error_code(boost::future_errc::no_state) ? E_MOVED : E_OTHER; }
}
enum Wt { W_GET, W_GETOR, W_EXPTR, W_WAIT, W_FOR, W_UNTIL, W_TIMED, W_TIMED_UNTIL, W_N };
static const char* wt_name[] = { "get", "get_or", "get_exception_ptr", "wait", "wait_for", "wait_until", "timed_wait", "timed_wait_until" };
template <class R, class X> static int do_wait(X& f, int what, int64_t d, int clk, int fb) {
  switch (what) {
    case W_GET: return Tr<R>::get(f);
    case W_GETOR: return Tr<R>::get_or(f, fb & 1, fb);
    case W_EXPTR: { boost::exception_ptr e = f.get_exception_ptr(); return e ? code_of(e) : -2; }
    case W_WAIT: f.wait(); return -3;
    case W_FOR: return -10 - (int)f.wait_for(bc::nanoseconds(d));
    case W_UNTIL: { int64_t n = now_on(clk) + d; if (clk == 0) return -10 - (int)f.wait_until(steady_tp(n)); return -10 - (int)f.wait_until(system_tp(n)); }
#ifdef BOOST_THREAD_USES_DATETIME
    case W_TIMED: return f.timed_wait(pt::microseconds(d / 1000)) ? -10 - (int)boost::future_status::ready : -10 - (int)boost::future_status::timeout;
    case W_TIMED_UNTIL: return f.timed_wait_until(to_ptime(real_now() / 1000 * 1000 + d)) ? -10 - (int)boost::future_status::ready : -10 - (int)boost::future_status::timeout;
#endif
  }
  return 0;
}
static const int READY = -10 - (int)boost::future_status::ready, TIMEOUT = -10 - (int)boost::future_status::timeout;

