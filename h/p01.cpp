// P01: time values convert exactly.
// Inputs: chrono durations of many periods and representations, time points, posix_time durations and times, xtime,
// timespec and plain nanosecond counts over their whole valid range.  Oracle: 128-bit integer arithmetic.
// The last scenarios pass generated values to the waiting functions and compare the moment they give up.
#include "timeutil.h"
#include "common.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/locks.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/thread_only.hpp>
#include <boost/thread/detail/platform_time.hpp>
#if defined BOOST_THREAD_USES_DATETIME
#include <boost/thread/xtime.hpp>
#include <boost/thread/thread_time.hpp>
#endif
#include <math.h>
namespace bd = boost::detail;
typedef __int128 I128;
static const int64_t SEC = 1000000000;
static std::string str(I128 v) { Ignore i; bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v; std::string s; do { s.insert(s.begin(), char('0' + (int)(u % 10))); u /= 10; } while (u); if (neg) s.insert(s.begin(), '-'); return s; }
static I128 cdiv(I128 a, I128 b) { I128 q = a / b; if (a % b != 0 && (a < 0) == (b < 0)) q++; return q; }   // rounding up
static I128 gcd128(I128 a, I128 b) { while (b) { I128 t = a % b; a = b; b = t; } return a < 0 ? -a : a; }
// an integer with |v| <= lim: all magnitudes, neighbourhoods of powers of two, of multiples of seconds, and of the limits
static int64_t val(int64_t lim) {
  int64_t v = 0;
  switch (pick(8)) {
    case 0: v = (int64_t)pick(5); break;
    case 1: v = (int64_t)pick(100000); break;
    case 2: v = lim - (int64_t)pick(4); break;
    case 3: { unsigned b = pick(63); v = (int64_t)((uint64_t)1 << b) + (int64_t)pick(3) - 1; break; }
    case 4: v = (int64_t)pick(100000) * SEC + (int64_t)pick(5) - 2; break;
    case 5: v = (int64_t)pick(30000) * (int64_t)pick(1000000) + (int64_t)pick(1000); break;
    default: { uint64_t r = 0; for (int i = 0; i < 5; i++) r = (r << 15) ^ pick(32768); v = (int64_t)((r & INT64_MAX) >> pick(63)); break; }
  }
  if (lim < INT64_MAX && (v > lim || v < -lim)) v = lim == 0 ? 0 : v % (lim + 1);
  return flip() ? -v : v;
}
static const I128 NSMAX = (I128)INT64_MAX - 2 * SEC;      // keeps the seconds field of the same timespec representable in nanoseconds
static void check_ts(const char* what, timespec const& ts, I128 ns) {
  if (ts.tv_nsec < 0 || ts.tv_nsec >= SEC) fail("%s: nanosecond field %ld for %s ns", what, ts.tv_nsec, str(ns).c_str());
  I128 got = (I128)ts.tv_sec * SEC + ts.tv_nsec;
  if (got != ns) fail("%s gives %s ns instead of %s ns", what, str(got).c_str(), str(ns).c_str());
}
// ---- chrono
template <class P> struct Per { typedef P type; };
template <class D> struct Dur {
  typedef typename D::rep Rep; typedef typename D::period P;
  static bool fl() { return std::is_floating_point<Rep>::value; }
  // largest count for which the value is representable in the common type with nanoseconds
  static int64_t limit() {
    I128 num = P::num, den = P::den, g = gcd128(num * SEC, den);
    I128 fd = num * SEC / g;                 // this duration's tick in units of the common period
    I128 l = NSMAX / (fd ? fd : 1), repmax = (I128)(std::numeric_limits<Rep>::max)(), l2 = NSMAX / ((I128)num * (SEC / gcd128(SEC, den)));
    if (den / g > 1) { I128 l3 = l - SEC * 2; (void)l3; }
    if (l2 < l) l = l2;
    if (l > repmax) l = repmax;
    return (int64_t)l;
  }
  static D make(int64_t& c, bool& exact, I128& ns) {
    exact = true;
    if (fl()) {
      // integral values whose product stays exact, or arbitrary fractions
      if (flip()) { c = val(1 << 20); if (flip()) c >>= 6; long double e = (long double)c * P::num * SEC / P::den; exact = sizeof(Rep) == 8 && P::den == 1; ns = exact ? (I128)c * P::num * SEC : (I128)ceill(e); return D((Rep)c); }
      c = val(100000000); int64_t f = 1 + pick(1000); Rep r = (Rep)c / (Rep)f; exact = false; ns = (I128)ceill((long double)r * P::num * SEC / P::den); return D(r);
    }
    c = val(limit()); if (!std::numeric_limits<Rep>::is_signed && c < 0) c = -c;
    ns = cdiv((I128)c * P::num * SEC, P::den);
    return D((Rep)c);
  }
  static I128 tolerance(I128 ns) { long double a = fabsl((long double)ns); return 2 + (I128)(a * (sizeof(Rep) == 4 ? 4e-7L : 1e-15L)); }
};
typedef bc::duration<boost::int64_t, boost::ratio<1, 3> > thirds; typedef bc::duration<boost::int64_t, boost::ratio<1, 60> > frames; typedef bc::duration<boost::int64_t, boost::ratio<1, 90000> > mpeg;
typedef bc::duration<boost::int64_t, boost::ratio<1001, 30000> > ntsc; typedef bc::duration<boost::int64_t, boost::pico> picos; typedef bc::duration<boost::int64_t, boost::ratio<86400> > days;
typedef bc::duration<boost::int32_t, boost::milli> ms32; typedef bc::duration<boost::int16_t, boost::ratio<60> > min16; typedef bc::duration<boost::uint32_t, boost::micro> us32; typedef bc::duration<signed char> sec8;
typedef bc::duration<double> dsec; typedef bc::duration<double, boost::milli> dms; typedef bc::duration<float> fsec; typedef bc::duration<double, boost::ratio<3600> > dhours; typedef bc::duration<boost::int64_t, boost::ratio<7, 1000000000> > ns7;
typedef bc::duration<boost::uint64_t, boost::nano> uns; typedef bc::duration<double, boost::nano> dns;
#define EACH_DURATION(X) X(bc::nanoseconds) X(bc::microseconds) X(bc::milliseconds) X(bc::seconds) X(bc::minutes) X(bc::hours) X(days) X(thirds) X(frames) X(mpeg) X(ntsc) X(picos) X(ns7) X(ms32) X(min16) X(us32) X(sec8) X(uns) X(dsec) X(dms) X(fsec) X(dhours) X(dns)
template <class D> static void one_duration(const char* name) {
  int64_t c; bool exact; I128 ns; D d = Dur<D>::make(c, exact, ns);
  if (ns > NSMAX || ns < -NSMAX) { label("out of range"); return; }
  note(" %s(%lld)", name, (long long)c); label(exact ? "integral" : "floating");
  auto judge = [&](const char* what, timespec const& ts) {
    if (exact) { check_ts(what, ts, ns); return; }
    if (ts.tv_nsec < 0 || ts.tv_nsec >= SEC) fail("%s: nanosecond field %ld", what, ts.tv_nsec);
    I128 got = (I128)ts.tv_sec * SEC + ts.tv_nsec, e = got - ns, t = Dur<D>::tolerance(ns);
    if (e > t || e < -t) fail("%s(%s) gives %s ns instead of about %s ns", what, name, str(got).c_str(), str(ns).c_str());
  };
  bd::platform_duration p(d);
  judge("platform_duration", p.getTs());
  if (exact && (I128)p.getNs() != ns) fail("platform_duration(%s %lld): getNs gives %lld instead of %s", name, (long long)c, (long long)p.getNs(), str(ns).c_str());
  bc::time_point<bc::system_clock, D> rt(d); bc::time_point<bc::steady_clock, D> mt(d);
  judge("real_platform_timepoint", bd::real_platform_timepoint(rt).getTs());
  judge("mono_platform_timepoint", bd::mono_platform_timepoint(mt).getTs());
  if (ns % SEC != 0) nontrivial();
}
SCENARIO(chrono_values, 5) {
  int n = range(1, 8);
  for (int i = 0; i < n; i++) {
    int k = 0, w = (int)pick(23);
#define X(D) if (k++ == w) one_duration<D>(#D);
    EACH_DURATION(X)
#undef X
  }
}
// ---- timespec, arithmetic, comparison
static I128 full_sum(I128 a, I128 b, bool minus) { return minus ? a - b : a + b; }
template <class TP> static void time_points(const char* what) {
  int64_t a = val(INT64_MAX), b = chance(1, 4) ? a + (int64_t)pick(3) - 1 : val(INT64_MAX), d = val(INT64_MAX);
  auto in = [](I128 v) { return v <= NSMAX && v >= -NSMAX; };
  if (!in(a)) a = 0; if (!in(b)) b = -1; if (!in(d)) d = 1;
  note(" %s %lld %lld %lld", what, (long long)a, (long long)b, (long long)d);
  TP x(a), y(b); bd::platform_duration e(d);
  check_ts(what, x.getTs(), a); if (x.getNs() != a) fail("%s: getNs", what);
  TP x2(x.getTs()); if (x2.getNs() != a || !(x2 == x)) fail("%s does not round-trip through timespec", what);
  if ((x == y) != (a == b) || (x != y) != (a != b) || (x < y) != (a < b) || (x <= y) != (a <= b) || (x > y) != (a > b) || (x >= y) != (a >= b)) fail("%s: comparison of %lld and %lld", what, (long long)a, (long long)b);
  if (in(full_sum(a, d, false))) { TP s = x + e, s2 = e + x; check_ts("sum", s.getTs(), (I128)a + d); check_ts("sum", s2.getTs(), (I128)a + d); }
  if (in(full_sum(a, b, true))) { bd::platform_duration s = x - y; check_ts("difference", s.getTs(), (I128)a - b); }
  if (a % SEC) nontrivial();
}
SCENARIO(arithmetic, 3) {
  int n = range(1, 6);
  for (int i = 0; i < n; i++) switch (pick(4)) {
    case 0: time_points<bd::real_platform_timepoint>("real_platform_timepoint"); break;
    case 1: time_points<bd::mono_platform_timepoint>("mono_platform_timepoint"); break;
    case 2: {
      int64_t a = val((int64_t)NSMAX), b = chance(1, 4) ? a + (int64_t)pick(3) - 1 : val((int64_t)NSMAX); note(" durations %lld %lld", (long long)a, (long long)b);
      timespec ts = bd::ns_to_timespec(a); check_ts("ns_to_timespec", ts, a); if (bd::timespec_to_ns(ts) != a) fail("timespec_to_ns(ns_to_timespec(%lld)) = %lld", (long long)a, (long long)bd::timespec_to_ns(ts));
      bd::platform_duration x(a), y(b), x2(ts); if (x.getNs() != a || x2.getNs() != a) fail("platform_duration: getNs");
      if ((x == y) != (a == b) || (x != y) != (a != b) || (x < y) != (a < b) || (x <= y) != (a <= b) || (x > y) != (a > b) || (x >= y) != (a >= b)) fail("platform_duration: comparison of %lld and %lld", (long long)a, (long long)b);
      if ((std::min)(x, y).getNs() != std::min(a, b)) fail("min");
      int64_t ms = x.getMs(); I128 w = a >= 0 ? cdiv(a, 1000000) : -cdiv(-(I128)a, 1000000); if ((I128)ms != w) fail("getMs of %lld ns is %lld", (long long)a, (long long)ms);
      if (bd::platform_duration::zero().getNs() != 0 || bd::platform_duration().getNs() != 0) fail("zero");
      if (a % SEC) nontrivial(); break; }
    default: {
      long ms = (long)val((int64_t)(NSMAX / 1000000)); note(" %ld ms", ms); check_ts("platform_milliseconds", bd::platform_milliseconds(ms).getTs(), (I128)ms * 1000000); if (ms % 1000) nontrivial();
      timespec ts; ts.tv_sec = (time_t)val((int64_t)(NSMAX / SEC)); ts.tv_nsec = (long)pick(1000000000); if (chance(1, 4)) ts.tv_nsec = flip() ? 0 : 999999999;
      I128 v = (I128)ts.tv_sec * SEC + ts.tv_nsec; if ((I128)bd::timespec_to_ns(ts) != v) fail("timespec_to_ns"); check_ts("timespec", bd::ns_to_timespec(bd::timespec_to_ns(ts)), v); }
  }
}
#if defined BOOST_THREAD_USES_DATETIME
// ---- posix_time and xtime
static pt::ptime epoch() { return pt::ptime(boost::gregorian::date(1970, 1, 1)); }
static const int64_t T_MIN = -17000000000ll, T_MAX = 250000000000ll;      // seconds: the years 1431 to 9892
static int64_t ptime_us() { switch (pick(4)) { case 0: return val((int64_t)1 << 40); case 1: return (int64_t)1600000000 * 1000000 + val((int64_t)1 << 45); default: { int64_t s = val(T_MAX); if (s < T_MIN) s %= -T_MIN; return s * 1000000 + (int64_t)pick(1000000) * (s >= 0 ? 1 : -1); } } }
SCENARIO(posix_values, 3) {
  int n = range(1, 6);
  for (int i = 0; i < n; i++) {
    if (flip()) {
      int64_t us = val(INT64_MAX / 2); if (us / 1000000 > INT64_MAX / SEC / 2 || us / 1000000 < -(INT64_MAX / SEC / 2)) label("beyond 64-bit nanoseconds");
      pt::time_duration d(0, 0, 0, us); note(" duration %lld us", (long long)us);
      bd::platform_duration p(d); check_ts("platform_duration(time_duration)", p.getTs(), (I128)us * 1000); if (us % 1000000) nontrivial();
    } else {
      int64_t us = ptime_us(); pt::ptime t = epoch() + pt::time_duration(0, 0, 0, us); note(" time %lld us", (long long)us);
      bd::real_platform_timepoint p(t); check_ts("real_platform_timepoint(system_time)", p.getTs(), (I128)us * 1000); if (us % 1000000) nontrivial();
    }
  }
}
SCENARIO(xtime_values, 2) {
  int n = range(1, 6); std::vector<boost::xtime>* xs; std::vector<I128>* es; { Ignore g; xs = new std::vector<boost::xtime>; es = new std::vector<I128>; }
  for (int i = 0; i < n; i++) {
    boost::xtime x; I128 e;
    if (flip()) {
      int64_t us = ptime_us(); note(" time %lld us", (long long)us); pt::ptime t = epoch() + pt::time_duration(0, 0, 0, us);
      x = boost::get_xtime(t); e = (I128)us * 1000; if (us % 1000000) nontrivial();
      boost::system_time back = x; if (back != t) fail("system_time to xtime and back: %lld us off", (long long)(back - t).total_microseconds());
    } else {
      x.sec = val(T_MAX); if (x.sec < T_MIN) x.sec %= -T_MIN; x.nsec = (int)pick(1000000000); e = (I128)x.sec * SEC + x.nsec; note(" xtime %lld.%09d", (long long)x.sec, (int)x.nsec);
      boost::system_time t = x; I128 us = (t - epoch()).total_microseconds(), d = us * 1000 - e; if (d > 500 || d < -500) fail("xtime to system_time: %s ns off", str(d).c_str()); if (x.nsec) nontrivial();
    }
    if (x.nsec < 0 || x.nsec >= SEC) fail("xtime: nanosecond field %d", (int)x.nsec);
    if ((I128)x.sec * SEC + x.nsec != e) fail("xtime: %lld s %d ns instead of %s ns", (long long)x.sec, (int)x.nsec, str(e).c_str());
    Ignore g; xs->push_back(x); es->push_back(e);
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int c = boost::xtime_cmp((*xs)[i], (*xs)[j]); if ((c < 0) != ((*es)[i] < (*es)[j]) || (c > 0) != ((*es)[i] > (*es)[j])) fail("xtime_cmp orders two times wrongly"); }
  boost::xtime x; int64_t before = real_now(); if (boost::xtime_get(&x, boost::TIME_UTC_) != boost::TIME_UTC_) fail("xtime_get"); int64_t got = x.sec * SEC + x.nsec, after = real_now();
  if (got < before / 1000 * 1000 || got > after) fail("xtime_get is off"); if (boost::xtime_get(&x, 77) != 0) fail("xtime_get with an unknown clock");
  int64_t ahead = val((int64_t)1 << 45), now = real_now() / 1000; pt::ptime t = epoch() + pt::time_duration(0, 0, 0, now + ahead); unsigned long ms = boost::detail::get_milliseconds_until(t);
  if (ahead <= 0 ? ms != 0 : (I128)ms * 1000 < ahead - 2 || (I128)ms * 1000 > ahead + 1000) fail("get_milliseconds_until %lld us ahead: %lu", (long long)ahead, ms);
  if (boost::detail::get_milliseconds_until(boost::detail::get_system_time_sentinel()) != ~0ul) fail("get_milliseconds_until the sentinel");
  Ignore g; delete xs; delete es;
}
#endif
// ---- the functions that take the values
static const int64_t SLACK = 100000;
struct Objs { boost::mutex m; boost::timed_mutex tm; boost::recursive_timed_mutex rm; boost::shared_mutex sm; boost::condition_variable cv; boost::condition_variable_any ca; boost::promise<int> p; boost::BOOST_THREAD_FUTURE<int>* f; boost::shared_future<int> sf; boost::latch* l; boost::thread* th; boost::mutex park; };
enum { O_CV, O_CVP, O_ANY, O_ANYP, O_TM, O_RM, O_SM, O_SMS, O_SMU, O_FUT, O_LATCH, O_JOIN, O_SLEEP, O_NISLEEP, O_SHFUT, O_N };
static const char* const ON[] = {"condition_variable", "condition_variable with predicate", "condition_variable_any", "condition_variable_any with predicate", "timed_mutex", "recursive_timed_mutex", "shared_mutex exclusive", "shared_mutex shared", "shared_mutex upgrade", "future", "latch", "thread join", "sleep", "no_interruption_point::sleep", "shared_future"};
static bool no() { return false; }
// true: it reports success
template <class D> static bool wait_rel(Objs& o, int what, D const& d) {
  switch (what) {
    case O_CV: { boost::unique_lock<boost::mutex> lk(o.m); return o.cv.wait_for(lk, d) == boost::cv_status::no_timeout; }
    case O_CVP: { boost::unique_lock<boost::mutex> lk(o.m); return o.cv.wait_for(lk, d, no); }
    case O_ANY: { boost::unique_lock<boost::mutex> lk(o.m); return o.ca.wait_for(lk, d) == boost::cv_status::no_timeout; }
    case O_ANYP: { boost::unique_lock<boost::mutex> lk(o.m); return o.ca.wait_for(lk, d, no); }
    case O_TM: return o.tm.try_lock_for(d); case O_RM: return o.rm.try_lock_for(d);
    case O_SM: return o.sm.try_lock_for(d); case O_SMS: return o.sm.try_lock_shared_for(d); case O_SMU: return o.sm.try_lock_upgrade_for(d);
    case O_FUT: return o.f->wait_for(d) == boost::future_status::ready; case O_SHFUT: return o.sf.wait_for(d) == boost::future_status::ready; case O_LATCH: return o.l->wait_for(d) == boost::cv_status::no_timeout;
    case O_JOIN: return o.th->try_join_for(d); case O_SLEEP: boost::this_thread::sleep_for(d); return false;
    default: boost::this_thread::no_interruption_point::sleep_for(d); return false;
  }
}
template <class T> static bool wait_abs(Objs& o, int what, T const& t) {
  switch (what) {
    case O_CV: { boost::unique_lock<boost::mutex> lk(o.m); return o.cv.wait_until(lk, t) == boost::cv_status::no_timeout; }
    case O_CVP: { boost::unique_lock<boost::mutex> lk(o.m); return o.cv.wait_until(lk, t, no); }
    case O_ANY: { boost::unique_lock<boost::mutex> lk(o.m); return o.ca.wait_until(lk, t) == boost::cv_status::no_timeout; }
    case O_ANYP: { boost::unique_lock<boost::mutex> lk(o.m); return o.ca.wait_until(lk, t, no); }
    case O_TM: return o.tm.try_lock_until(t); case O_RM: return o.rm.try_lock_until(t);
    case O_SM: return o.sm.try_lock_until(t); case O_SMS: return o.sm.try_lock_shared_until(t); case O_SMU: return o.sm.try_lock_upgrade_until(t);
    case O_FUT: return o.f->wait_until(t) == boost::future_status::ready; case O_SHFUT: return o.sf.wait_until(t) == boost::future_status::ready; case O_LATCH: return o.l->wait_until(t) == boost::cv_status::no_timeout;
    case O_JOIN: return o.th->try_join_until(t); case O_SLEEP: boost::this_thread::sleep_until(t); return false;
    default: boost::this_thread::no_interruption_point::sleep_until(t); return false;
  }
}
#if defined BOOST_THREAD_USES_DATETIME
template <class T> static bool wait_dt(Objs& o, int what, T const& t, bool abs) {
  switch (what) {
    case O_CV: { boost::unique_lock<boost::mutex> lk(o.m); return o.cv.timed_wait(lk, t); }
    case O_CVP: { boost::unique_lock<boost::mutex> lk(o.m); return o.cv.timed_wait(lk, t, no); }
    case O_ANY: { boost::unique_lock<boost::mutex> lk(o.m); return o.ca.timed_wait(lk, t); }
    case O_ANYP: { boost::unique_lock<boost::mutex> lk(o.m); return o.ca.timed_wait(lk, t, no); }
    case O_TM: return o.tm.timed_lock(t); case O_RM: return o.rm.timed_lock(t);
    case O_SM: return o.sm.timed_lock(t); case O_SMS: return o.sm.timed_lock_shared(t); case O_SMU: return o.sm.timed_lock_upgrade(t);
    case O_JOIN: return o.th->timed_join(t); case O_SLEEP: boost::this_thread::sleep(t); return false;
    case O_NISLEEP: boost::this_thread::no_interruption_point::sleep(t); return false;
    case O_SHFUT: if constexpr (std::is_same<T, boost::system_time>::value) return o.sf.timed_wait_until(t); else return o.sf.timed_wait(t);
    default: if constexpr (std::is_same<T, boost::system_time>::value) return o.f->timed_wait_until(t); else return o.f->timed_wait(t);
  }
}
#endif
static Objs* make_objs(int what) {
  Objs* o = new Objs; o->f = 0; o->l = 0; o->th = 0;
  if (what == O_TM) o->tm.lock(); if (what == O_RM) o->rm.lock(); if (what >= O_SM && what <= O_SMU) o->sm.lock();
  if (what == O_FUT) o->f = new boost::BOOST_THREAD_FUTURE<int>(o->p.get_future()); if (what == O_SHFUT) o->sf = boost::shared_future<int>(o->p.get_future()); if (what == O_LATCH) o->l = new boost::latch(1);
  if (what == O_JOIN) { o->park.lock(); boost::mutex* pm = &o->park; o->th = new boost::thread([pm] { boost::lock_guard<boost::mutex> g(*pm); }); }
  return o;
}
static void unblock(Objs* o, int what) {
  if (what == O_TM) o->tm.unlock(); if (what == O_RM) o->rm.unlock(); if (what >= O_SM && what <= O_SMU) o->sm.unlock();
  if (what == O_FUT || what == O_SHFUT) o->p.set_value(1); if (what == O_LATCH) o->l->count_down(); if (what == O_JOIN) o->park.unlock();
  if (what == O_CV) o->cv.notify_one(); if (what == O_ANY) o->ca.notify_one();
}
static void drop_objs(Objs* o) { if (o->th) { if (o->th->joinable()) o->th->join(); delete o->th; } delete o->f; delete o->l; delete o; }
struct Rec { int64_t t0, t1; bool ok, over; };
static void verdict(Rec& r, int what, const char* form, int clk, I128 dl, I128 tol) {
  I128 t1 = r.t1 + (clk ? real_now() - mono_now() : 0), start = r.t0 + (clk ? real_now() - mono_now() : 0);
  if (r.ok) fail("%s reports success of a wait (%s) for nothing", ON[what], form);
  if (t1 < dl - tol) fail("%s (%s) gave up %s ns before its deadline (%s ns after its start)", ON[what], form, str(dl - t1).c_str(), str(dl - start).c_str());
  I128 lim = (dl > start ? dl : start) + SLACK + tol;
  if (t1 > lim) fail("%s (%s) gave up %s ns after its deadline (%s ns after its start)", ON[what], form, str(t1 - dl).c_str(), str(dl - start).c_str());
}
template <class D> static void timed_use(const char* name) {
  int what = (int)pick(O_N); unsigned form = pick(3); if (form == 2 && std::is_same<D, uns>::value) form = 1;      // unsigned differences of time points wrap in chrono itself
  int64_t c; bool exact; I128 ns; D d = Dur<D>::make(c, exact, ns);
  // keep the deadline within the range of the common type with the clock's time points, and waits that poll short
  I128 num = D::period::num, den = D::period::den, g = gcd128(num * SEC, den), fac = den / g; if (fac < 1) fac = 1;
  I128 lim = NSMAX / fac - (form == 2 ? real_now() : mono_now()) - 10 * SEC, poll = form == 2 || what == O_JOIN ? (I128)20 * SEC : (I128)80 * 365 * 86400 * SEC;
  if (what == O_LATCH || what == O_FUT || what == O_SHFUT) poll = std::min(poll, (I128)80 * 365 * 86400 * SEC);
  if (poll < lim) lim = poll;
  if (ns > lim || -ns > lim) { label("out of range"); return; }
  static const char* const FN[] = {"duration", "steady time point", "system time point"};
  note("%s, %s of %s(%lld) = %s ns", ON[what], FN[form], name, (long long)c, str(ns).c_str());
  Objs* o = make_objs(what); Rec* r = new Rec(); r->t0 = r->t1 = 0; r->ok = r->over = false; int64_t base = form == 2 ? real_now() : mono_now();
  typedef bc::time_point<bc::steady_clock, typename boost::common_type<D, bc::nanoseconds>::type> STP; typedef bc::time_point<bc::system_clock, typename boost::common_type<D, bc::nanoseconds>::type> YTP;
  Threads T;
  T.add([=] {
    r->t0 = mono_now();
    bool ok = form == 0 ? wait_rel(*o, what, d) : form == 1 ? wait_abs(*o, what, STP(bc::nanoseconds(base)) + d) : wait_abs(*o, what, YTP(bc::nanoseconds(base)) + d);
    Ignore i; r->ok = ok; r->t1 = mono_now(); r->over = true;
  });
  T.join();
  I128 tol = exact && (form == 0 || !Dur<D>::fl()) ? 0 : Dur<D>::tolerance((I128)base + (ns > 0 ? ns : -ns));
  verdict(*r, what, FN[form], form == 2, (form == 0 ? (I128)r->t0 : (I128)base) + ns, tol);
  if (ns > 0) nontrivial(); label(ns > 0 ? "waited" : "already due");
  unblock(o, what); drop_objs(o); delete r;
}
SCENARIO(waits, 4) {
  check_leaks(true);
  int k = 0, w = (int)pick(23);
#define X(D) if (k++ == w) timed_use<D>(#D);
  EACH_DURATION(X)
#undef X
}
#if defined BOOST_THREAD_USES_DATETIME
SCENARIO(posix_waits, 3) {
  check_leaks(true);
  int what = (int)pick(O_N); while (what == O_LATCH) what = O_FUT;
  bool abs = flip(); int special = chance(1, 3) ? 1 + (int)pick(3) : 0;
  Objs* o = make_objs(what); Rec* r = new Rec(); r->t0 = r->t1 = 0; r->ok = r->over = false;
  if (!special) {
    int64_t us = val(abs || what == O_JOIN ? 20000000 : (int64_t)40 * 365 * 86400 * 1000000), base = real_now(); note("%s, %s %lld us", ON[what], abs ? "system_time in" : "time_duration", (long long)us);
    int64_t tus = base / 1000 + us;
    Threads T; T.add([=] { r->t0 = mono_now(); bool ok = abs ? wait_dt(*o, what, pt::ptime(epoch() + pt::time_duration(0, 0, 0, tus)), true) : wait_dt(*o, what, pt::time_duration(0, 0, 0, us), false); Ignore i; r->ok = ok; r->t1 = mono_now(); r->over = true; }); T.join();
    verdict(*r, what, abs ? "system_time" : "time_duration", abs, abs ? (I128)tus * 1000 : (I128)r->t0 + (I128)us * 1000, 0); if (us > 0) nontrivial();
    unblock(o, what);
  } else if (special == 1) {      // positive infinity: never gives up
    if (what == O_CVP || what == O_ANYP || what == O_SLEEP || what == O_NISLEEP) what = O_CV;
    note("%s, %s +infinity", ON[what], abs ? "system_time" : "time_duration"); nontrivial();
    Threads T; T.add([=] { bool ok = abs ? wait_dt(*o, what, pt::ptime(pt::pos_infin), true) : wait_dt(*o, what, pt::time_duration(pt::pos_infin), false); Ignore i; r->ok = ok; r->t1 = mono_now(); r->over = true; });
    int64_t d = 1 + pick(20); delay(d * SEC); wait_quiescent(); bool over; { Ignore i; over = r->over; }
    if (over) fail("%s: a wait without end (%s +infinity) ended after %lld s at most", ON[what], abs ? "system_time" : "time_duration", (long long)d);
    unblock(o, what); T.join(); if (!r->ok) fail("%s (+infinity) reports a timeout", ON[what]);
    if (what == O_TM) o->tm.unlock(); if (what == O_RM) o->rm.unlock(); if (what == O_SM) o->sm.unlock(); if (what == O_SMS) o->sm.unlock_shared(); if (what == O_SMU) o->sm.unlock_upgrade();
    drop_objs(o); delete r; return;
  } else {                        // negative infinity, not a time: nothing to wait for
    const char* n = special == 2 ? "-infinity" : "not_a_date_time"; note("%s, %s %s", ON[what], abs ? "system_time" : "time_duration", n); nontrivial();
    pt::special_values sv = special == 2 ? pt::neg_infin : pt::not_a_date_time;
    Threads T; T.add([=] { r->t0 = mono_now(); bool ok = abs ? wait_dt(*o, what, pt::ptime(sv), true) : wait_dt(*o, what, pt::time_duration(sv), false); Ignore i; r->ok = ok; r->t1 = mono_now(); r->over = true; });
    delay(30 * SEC); wait_quiescent(); bool late; { Ignore i; late = !r->over || r->t1 > r->t0 + SLACK; } if (late) fail("%s blocks for %s", ON[what], n);
    T.join(); if (r->ok && what != O_CV && what != O_ANY) fail("%s (%s) reports success for nothing", ON[what], n);
    unblock(o, what);
  }
  if (what == O_JOIN && o->th->joinable()) o->th->join();
  drop_objs(o); delete r;
}
#endif
int main(int argc, char** argv) { return pbt_main(argc, argv, "a value with a sub-second part was converted, or a wait really blocked (or had to return at once) for a generated value"); }
