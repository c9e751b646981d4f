// M05: lockable adapters forward exactly; testable_mutex knows its owner; null_mutex never blocks
#include "timeutil.h"
#include "common.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/locks.hpp>
#include <boost/thread/lock_types.hpp>
#include <boost/thread/lockable_adapter.hpp>
#include <boost/thread/poly_lockable_adapter.hpp>
#include <boost/thread/poly_shared_lockable_adapter.hpp>
#include <boost/thread/testable_mutex.hpp>
#include <boost/thread/is_locked_by_this_thread.hpp>
#include <boost/thread/null_mutex.hpp>
#include <boost/thread/lockable_traits.hpp>
#include <boost/thread/strict_lock.hpp>
#include <boost/thread/externally_locked.hpp>
struct Boom { int n; };
// ---- forwarding: a lockable that records every call
enum Op { LOCK, UNLOCK, TRY, TRY_SYS, TRY_STEADY, TRY_FOR,
  LOCK_S, UNLOCK_S, TRY_S, TRY_S_SYS, TRY_S_STEADY, TRY_S_FOR,
  LOCK_U, UNLOCK_U, TRY_U, TRY_U_SYS, TRY_U_STEADY, TRY_U_FOR,
  S2X_TRY, S2X_SYS, S2X_STEADY, S2X_FOR, X2S, S2U_TRY, S2U_SYS, S2U_STEADY, S2U_FOR, X2U, U2X, U2X_TRY, U2X_SYS, U2X_STEADY, U2X_FOR, U2S, NOPS };
static const char* const OPN[] = {"lock", "unlock", "try_lock", "try_lock_until(system)", "try_lock_until(steady)", "try_lock_for",
  "lock_shared", "unlock_shared", "try_lock_shared", "try_lock_shared_until(system)", "try_lock_shared_until(steady)", "try_lock_shared_for",
  "lock_upgrade", "unlock_upgrade", "try_lock_upgrade", "try_lock_upgrade_until(system)", "try_lock_upgrade_until(steady)", "try_lock_upgrade_for",
  "try_unlock_shared_and_lock", "try_unlock_shared_and_lock_until(system)", "try_unlock_shared_and_lock_until(steady)", "try_unlock_shared_and_lock_for", "unlock_and_lock_shared",
  "try_unlock_shared_and_lock_upgrade", "try_unlock_shared_and_lock_upgrade_until(system)", "try_unlock_shared_and_lock_upgrade_until(steady)", "try_unlock_shared_and_lock_upgrade_for",
  "unlock_and_lock_upgrade", "unlock_upgrade_and_lock", "try_unlock_upgrade_and_lock", "try_unlock_upgrade_and_lock_until(system)", "try_unlock_upgrade_and_lock_until(steady)", "try_unlock_upgrade_and_lock_for", "unlock_upgrade_and_lock_shared"};
struct Call { int op; int64_t t; const void* who; };
static std::vector<Call> calls; static bool answer, boom; static int nmutex;
static bool did(int op, int64_t t, const void* who) { { Ignore i; calls.push_back(Call{op, t, who}); } if (boom) throw Boom{op}; return answer; }
typedef bc::steady_clock::time_point STP; typedef bc::system_clock::time_point YTP; typedef bc::nanoseconds NS;
static int64_t ns(YTP const& t) { return NS(t.time_since_epoch()).count(); }
static int64_t ns(STP const& t) { return NS(t.time_since_epoch()).count(); }
#define TIMED(f, sys) \
  bool f##_until(YTP const& t) { return did(sys, ns(t), this); } bool f##_until(STP const& t) { return did(sys + 1, ns(t), this); } \
  template <class R, class P> bool f##_for(bc::duration<R, P> const& d) { return did(sys + 2, NS(d).count(), this); }
struct Mock {
  Mock() { Ignore i; nmutex++; } ~Mock() { Ignore i; nmutex--; }
  void lock() { did(LOCK, 0, this); } void unlock() { did(UNLOCK, 0, this); } bool try_lock() { return did(TRY, 0, this); } TIMED(try_lock, TRY_SYS)
  void lock_shared() { did(LOCK_S, 0, this); } void unlock_shared() { did(UNLOCK_S, 0, this); } bool try_lock_shared() { return did(TRY_S, 0, this); } TIMED(try_lock_shared, TRY_S_SYS)
  void lock_upgrade() { did(LOCK_U, 0, this); } void unlock_upgrade() { did(UNLOCK_U, 0, this); } bool try_lock_upgrade() { return did(TRY_U, 0, this); } TIMED(try_lock_upgrade, TRY_U_SYS)
  bool try_unlock_shared_and_lock() { return did(S2X_TRY, 0, this); } TIMED(try_unlock_shared_and_lock, S2X_SYS) void unlock_and_lock_shared() { did(X2S, 0, this); }
  bool try_unlock_shared_and_lock_upgrade() { return did(S2U_TRY, 0, this); } TIMED(try_unlock_shared_and_lock_upgrade, S2U_SYS)
  void unlock_and_lock_upgrade() { did(X2U, 0, this); } void unlock_upgrade_and_lock() { did(U2X, 0, this); } bool try_unlock_upgrade_and_lock() { return did(U2X_TRY, 0, this); } TIMED(try_unlock_upgrade_and_lock, U2X_SYS)
  void unlock_upgrade_and_lock_shared() { did(U2S, 0, this); }
};
struct Ticket { int64_t t; STP steady() const { return steady_tp(t); } YTP sys() const { return YTP(bc::duration_cast<YTP::duration>(NS(t))); } NS dur() const { return NS(t); } };
// result: -1 no result, 0/1
template <class L> static int basic_op(L& l, int op) { if (op == LOCK) l.lock(); else l.unlock(); return -1; }
template <class L> static int lock_op(L& l, int op) { if (op == TRY) return l.try_lock(); return basic_op(l, op); }
#define TIMED_CASES(f, sys) case sys: return l.f##_until(k.sys_()); case sys + 1: return l.f##_until(k.steady_()); case sys + 2: return l.f##_for(k.dur_());
struct Tk { int64_t t; YTP sys_() const { return YTP(bc::duration_cast<YTP::duration>(NS(t))); } STP steady_() const { return steady_tp(t); } NS dur_() const { return NS(t); } };
template <class L> static int timed_op(L& l, int op, Tk const& k) { switch (op) { TIMED_CASES(try_lock, TRY_SYS) default: return lock_op(l, op); } }
template <class L> static int shared_op(L& l, int op, Tk const& k) {
  switch (op) { case LOCK_S: l.lock_shared(); return -1; case UNLOCK_S: l.unlock_shared(); return -1; case TRY_S: return l.try_lock_shared(); TIMED_CASES(try_lock_shared, TRY_S_SYS) default: return timed_op(l, op, k); }
}
template <class L> static int upgrade_op(L& l, int op, Tk const& k) {
  switch (op) {
    case LOCK_U: l.lock_upgrade(); return -1; case UNLOCK_U: l.unlock_upgrade(); return -1; case TRY_U: return l.try_lock_upgrade(); TIMED_CASES(try_lock_upgrade, TRY_U_SYS)
    case S2X_TRY: return l.try_unlock_shared_and_lock(); TIMED_CASES(try_unlock_shared_and_lock, S2X_SYS) case X2S: l.unlock_and_lock_shared(); return -1;
    case S2U_TRY: return l.try_unlock_shared_and_lock_upgrade(); TIMED_CASES(try_unlock_shared_and_lock_upgrade, S2U_SYS)
    case X2U: l.unlock_and_lock_upgrade(); return -1; case U2X: l.unlock_upgrade_and_lock(); return -1; case U2X_TRY: return l.try_unlock_upgrade_and_lock(); TIMED_CASES(try_unlock_upgrade_and_lock, U2X_SYS)
    case U2S: l.unlock_upgrade_and_lock_shared(); return -1;
    default: return shared_op(l, op, k);
  }
}
struct User : boost::upgrade_lockable_adapter<Mock> { };      // as it is meant to be used
static void forward() {
  { Ignore i; calls.clear(); boom = false; nmutex = 0; }
  {
    boost::basic_lockable_adapter<Mock> a0; boost::lockable_adapter<Mock> a1; boost::timed_lockable_adapter<Mock> a2; boost::shared_lockable_adapter<Mock> a3; User a4;
    boost::poly_basic_lockable_adapter<Mock> p0; boost::poly_lockable_adapter<Mock> p1; boost::poly_timed_lockable_adapter<Mock> p2; boost::poly_shared_lockable_adapter<Mock> p3; boost::poly_upgrade_lockable_adapter<Mock, boost::poly_upgrade_lockable> p4;
    boost::poly_basic_lockable& b0 = p0; boost::poly_lockable& b1 = p1; boost::poly_timed_lockable& b2 = p2; boost::poly_shared_lockable& b3 = p3; boost::poly_upgrade_lockable& b4 = p4;
    if (nmutex != 10) fail("harness: %d lockables", nmutex);
    boost::upgrade_lockable_adapter<Mock> const& c4 = a4; boost::timed_lockable_adapter<Mock> const& c2 = a2;
    const void* who[12]; { Ignore i; for (auto& x : who) x = 0; }
    static const int LIM[] = {2, 3, 6, 12, NOPS, 2, 3, 6, 12, NOPS, NOPS, 6};
    static const char* const NAME[] = {"basic_lockable_adapter", "lockable_adapter", "timed_lockable_adapter", "shared_lockable_adapter", "upgrade_lockable_adapter", "poly_basic_lockable", "poly_lockable", "poly_timed_lockable", "poly_shared_lockable", "poly_upgrade_lockable", "const upgrade_lockable_adapter", "const timed_lockable_adapter"};
    int n = range(1, 12);
    for (int i = 0; i < n; i++) {
      int w = (int)pick(12), op = (int)pick((unsigned)LIM[w]); Tk k; k.t = pick64(-1000000000000ll, 4000000000000000000ll); bool ans = flip(), thr = chance(1, 6); note("%s.%s%s\n", NAME[w], OPN[op], thr ? " (throws)" : "");
      { Ignore g; calls.clear(); answer = ans; boom = thr; }
      int r = -2; bool thrown = false;
      try {
        switch (w) {
          case 0: r = basic_op(a0, op); break; case 1: r = lock_op(a1, op); break; case 2: r = timed_op(a2, op, k); break; case 3: r = shared_op(a3, op, k); break; case 4: r = upgrade_op(a4, op, k); break;
          case 5: r = basic_op(b0, op); break; case 6: r = lock_op(b1, op); break; case 7: r = timed_op(b2, op, k); break; case 8: r = shared_op(b3, op, k); break; case 9: r = upgrade_op(b4, op, k); break;
          case 10: r = upgrade_op(c4, op, k); break; default: r = timed_op(c2, op, k);
        }
      } catch (Boom& b) { thrown = true; if (b.n != op) fail("%s.%s called %s", NAME[w], OPN[op], OPN[b.n]); }
      Ignore g; boom = false; int id = w == 10 ? 4 : w == 11 ? 2 : w;
      if (calls.size() != 1) fail("%s.%s makes %d calls", NAME[w], OPN[op], (int)calls.size());
      if (calls[0].op != op) fail("%s.%s called %s", NAME[w], OPN[op], OPN[calls[0].op]);
      bool timed = strstr(OPN[op], "_until(") || strstr(OPN[op], "_for"); if (timed && calls[0].t != k.t) fail("%s.%s passes %lld instead of %lld ns", NAME[w], OPN[op], (long long)calls[0].t, (long long)k.t);
      if (!who[id]) { for (int j = 0; j < 12; j++) if (j != id && who[j] == calls[0].who) fail("%s and %s use one lockable", NAME[id], NAME[j]); who[id] = calls[0].who; } else if (who[id] != calls[0].who) fail("%s changes its lockable", NAME[w]);
      if (thrown != thr) fail("%s.%s: the exception of the lockable is lost", NAME[w], OPN[op]);
      if (!thr && r != -1 && r != (int)ans) fail("%s.%s returns %d instead of %d", NAME[w], OPN[op], r, (int)ans);
      if (timed) nontrivial();
    }
  }
  if (nmutex) fail("a lockable is left");
  Ignore i; std::vector<Call>().swap(calls);
}
SCENARIO(forwarding, 2) { forward(); }
// ---- testable_mutex: concurrent use; every thread asks while it certainly holds, certainly does not hold
template <class M> static void testable(const char* mn, bool timed) {
  typedef boost::testable_mutex<M> T; struct Sh { T m; int data; int owner; Sh() : data(0), owner(-1) {} };
  int nt = range(1, 3), k = range(1, 2); bool early = chance(1, 3); allow_early_time(early); check_leaks(true);
  Sh* S[2]; for (int i = 0; i < 2; i++) S[i] = new Sh; note("testable_mutex<%s> x%d, %d threads", mn, k, nt);
  struct Step { int m, how; int64_t d; bool guard, bad; int inner; }; typedef std::vector<Step> Prog;
  Threads th;
  for (int t = 0; t < nt; t++) {
    Prog* p; { Ignore i; p = new Prog; } int n = range(1, 5); note("; T%d:", t);
    for (int i = 0; i < n; i++) { Step s; s.m = (int)pick((unsigned)k); s.how = (int)pick(timed ? 5 : 2); s.d = pick64(0, 3000000); s.guard = flip(); s.bad = flip(); s.inner = (int)pick(3); note(" %d%s", s.m, s.how == 0 ? "l" : s.how == 1 ? "t" : s.how == 2 ? "f" : "u"); Ignore g; p->push_back(s); }
    th.add([=] {
      for (size_t i = 0; i < p->size(); i++) {
        Step s = (*p)[i]; Sh& x = *S[s.m]; T const& c = x.m;
        if (c.is_locked_by_this_thread()) fail("testable_mutex: locked by this thread before it locks");
        bool got = true;
        boost::unique_lock<T> u(x.m, boost::defer_lock);
        switch (s.how) {
          case 0: if (s.guard) u.lock(); else x.m.lock(); break; case 1: got = s.guard ? u.try_lock() : x.m.try_lock(); break;
          default: if constexpr (!std::is_same<M, boost::mutex>::value) {
            if (s.how == 2) got = s.guard ? u.try_lock_for(NS(s.d)) : x.m.try_lock_for(NS(s.d));
            else if (s.how == 3) got = s.guard ? u.try_lock_until(steady_tp(mono_now() + s.d)) : x.m.try_lock_until(steady_tp(mono_now() + s.d));
            else got = s.guard ? u.try_lock_until(system_tp(real_now() + s.d)) : x.m.try_lock_until(system_tp(real_now() + s.d)); }
        }
        if (got) {
          { Ignore g; if (x.owner != -1) fail("testable_mutex: two owners"); x.owner = fid(); }
          x.data++;
          for (int j = 0; j <= s.inner; j++) {
            if (!c.is_locked_by_this_thread()) fail("testable_mutex: its owner is told that it does not hold it"); if (!c.is_locked()) fail("testable_mutex: is_locked() false while it is locked");
            if (c.get_id() != boost::this_thread::get_id()) fail("testable_mutex: get_id() of the owner");
            if (k > 1 && j == 0 && s.inner == 2) { T const& o = S[1 - s.m]->m; if (o.is_locked_by_this_thread()) fail("testable_mutex: another mutex seems to be held by this thread"); }
            point();
          }
          { Ignore g; x.owner = -1; }
          if (s.guard) u.unlock(); else x.m.unlock();
        }
        if (c.is_locked_by_this_thread()) fail("testable_mutex: locked by this thread after unlock or failure (%s)", got ? "unlock" : "failed attempt");
      }
      Ignore g; delete p;
    });
  }
  // an observer that never locks
  Counter done; int rounds = range(0, 3); if (rounds) th.add([=] { for (int i = 0; i < rounds; i++) { if (S[i % k]->m.is_locked_by_this_thread()) fail("testable_mutex: held by a thread that never locked it"); point(); } });
  th.join(); if (nt > 1) nontrivial();
  for (int i = 0; i < 2; i++) { if (S[i]->m.is_locked() || S[i]->m.get_id() != boost::thread::id()) fail("testable_mutex: locked at the end"); if (!S[i]->m.try_lock()) fail("testable_mutex: cannot be locked at the end"); S[i]->m.unlock(); delete S[i]; }
}
SCENARIO(testable_plain, 2) { testable<boost::mutex>("mutex", false); }
SCENARIO(testable_timed, 2) { if (flip()) testable<boost::timed_mutex>("timed_mutex", true); else testable<boost::shared_mutex>("shared_mutex", true); }
// ---- null_mutex: any number of owners of any kind at once, never a refusal, never a wait
SCENARIO(null, 1) {
  boost::null_mutex* m = new boost::null_mutex; int nt = range(1, 3); note("null_mutex, %d threads", nt); Threads th; allow_early_time(false);
  for (int t = 0; t < nt; t++) {
    int n = range(1, 6); std::vector<std::pair<int, int64_t>>* p; { Ignore i; p = new std::vector<std::pair<int, int64_t>>; } for (int i = 0; i < n; i++) { int op = (int)pick(NOPS); int64_t t = pick64(-1000000000ll, 4000000000ll); note(" %s", OPN[op]); Ignore g; p->push_back(std::make_pair(op, t)); }
    int kind = (int)pick(4);
    th.add([=] {
      int64_t t0 = mono_now();
      boost::unique_lock<boost::null_mutex> u(*m, boost::defer_lock); boost::shared_lock<boost::null_mutex> s(*m, boost::defer_lock); boost::upgrade_lock<boost::null_mutex> g(*m, boost::defer_lock);
      if (kind == 1) { u.lock(); if (!u.owns_lock()) fail("unique_lock<null_mutex>"); } if (kind == 2) { if (!s.try_lock()) fail("shared_lock<null_mutex>"); } if (kind == 3) { if (!g.try_lock_for(NS(5))) fail("upgrade_lock<null_mutex>"); }
      for (size_t i = 0; i < p->size(); i++) { Tk k; k.t = (*p)[i].second; if (upgrade_op(*m, (*p)[i].first, k) == 0) fail("null_mutex::%s refuses", OPN[(*p)[i].first]); point(); }
      if (mono_now() - t0 > 100000) fail("null_mutex waits");
      Ignore ig; delete p;
    });
  }
  th.join(); nontrivial(nt > 1); delete m;
}
int main(int argc, char** argv) { return pbt_main(argc, argv, "a timed operation was forwarded, or several threads used the mutex"); }
