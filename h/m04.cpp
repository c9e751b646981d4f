// M04: lock objects own exactly what they report and release it exactly once
#include "timeutil.h"
#include "common.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/locks.hpp>
#include <boost/thread/lock_guard.hpp>
#include <boost/thread/shared_lock_guard.hpp>
#include <boost/thread/reverse_lock.hpp>
#include <boost/thread/strict_lock.hpp>
#include <boost/thread/with_lock_guard.hpp>
#include <boost/thread/lock_factories.hpp>
#if defined BOOST_THREAD_USES_DATETIME
#include <boost/thread/xtime.hpp>
#endif
struct Boom { };
enum C { LOCK, TRY, TFOR, TUNTIL, TREL, TABS, TXT, UNLOCK, SLOCK, STRY, SFOR, SUNTIL, SREL, SABS, SUNLOCK, GLOCK, GTRY, GFOR, GUNTIL, GUNLOCK,
  U2S, U2G, G2U, G2S, TG2U, TG2UF, TG2UU, TS2U, TS2UF, TS2UU, TS2G, TS2GF, TS2GU };
static const char* const CN[] = {"lock", "try_lock", "try_lock_for", "try_lock_until", "timed_lock(rel)", "timed_lock(abs)", "timed_lock(xtime)", "unlock", "lock_shared", "try_lock_shared", "try_lock_shared_for", "try_lock_shared_until", "timed_lock_shared(rel)", "timed_lock_shared(abs)", "unlock_shared",
  "lock_upgrade", "try_lock_upgrade", "try_lock_upgrade_for", "try_lock_upgrade_until", "unlock_upgrade", "unlock_and_lock_shared", "unlock_and_lock_upgrade", "unlock_upgrade_and_lock", "unlock_upgrade_and_lock_shared",
  "try_unlock_upgrade_and_lock", "try_unlock_upgrade_and_lock_for", "try_unlock_upgrade_and_lock_until", "try_unlock_shared_and_lock", "try_unlock_shared_and_lock_for", "try_unlock_shared_and_lock_until", "try_unlock_shared_and_lock_upgrade", "try_unlock_shared_and_lock_upgrade_for", "try_unlock_shared_and_lock_upgrade_until"};
struct MU;
struct Call { const MU* m; int c; bool operator==(const Call& o) const { return m == o.m && c == o.c; } };
static std::vector<Call> g_log;             // every call that reached a lockable
static int g_throw, g_refuse; static int64_t g_arg, g_seen; static bool g_fired;
struct MU {
  bool ex, up; int sh; int idx; bool real; boost::shared_mutex r;
  MU() : ex(false), up(false), sh(0), idx(0), real(false) {}
  void called(int c) { bool t; { Ignore i; Call k = {this, c}; g_log.push_back(k); t = g_throw && --g_throw == 0; if (t) g_fired = true; } if (t) throw Boom(); }
  bool can(int c) const {
    if (c <= TXT) return !ex && !up && !sh;
    if (c >= SLOCK && c <= SABS) return !ex;
    if (c >= GLOCK && c <= GUNTIL) return !ex && !up;
    switch (c) { case UNLOCK: case U2S: case U2G: return ex; case SUNLOCK: return sh > 0; case GUNLOCK: case G2S: return up;
      case G2U: return up && !sh; case TG2U: case TG2UF: case TG2UU: return !sh;
      case TS2U: case TS2UF: case TS2UU: return sh == 1 && !up; default: return !up; }
  }
  void apply(int c) {
    if (c <= TXT) ex = true; else if (c >= SLOCK && c <= SABS) sh++; else if (c >= GLOCK && c <= GUNTIL) up = true;
    else switch (c) { case UNLOCK: ex = false; break; case SUNLOCK: sh--; break; case GUNLOCK: up = false; break; case U2S: ex = false; sh++; break; case U2G: ex = false; up = true; break;
      case G2U: case TG2U: case TG2UF: case TG2UU: up = false; ex = true; break; case G2S: up = false; sh++; break; case TS2U: case TS2UF: case TS2UU: sh--; ex = true; break; default: sh--; up = true; }
  }
  void must(int c) { called(c); if (!can(c)) fail("lockable %d: %s called in a state (exclusive %d, upgrade %d, shared %d) in which the caller cannot own what it gives up", idx, CN[c], ex, up, sh); apply(c); }
  bool tryop(int c, int64_t a = 0) {
    called(c); { Ignore i; g_seen = a; }
    if ((c >= TS2U && sh < 1) || (c >= TG2U && c <= TG2UU && !up)) fail("lockable %d: %s without owning the source mode", idx, CN[c]);
    if (g_refuse) { g_refuse--; return false; }
    if (!can(c)) return false;
    apply(c); return true;
  }
  static int64_t tpn(const bc::steady_clock::time_point& t) { return t.time_since_epoch().count(); }
#define RV(c, e) { must(c); if (real) r.e; }
#define RB(c, e, a) { bool k = tryop(c, a); if (real && k) { bool q = r.e; if (!q) fail("shared_mutex %d: %s failed although nothing is in the way", idx, CN[c]); } return k; }
  void lock() RV(LOCK, lock()) void unlock() RV(UNLOCK, unlock()) bool try_lock() RB(TRY, try_lock(), 0)
  bool try_lock_for(bc::nanoseconds d) RB(TFOR, try_lock_for(d), d.count()) bool try_lock_until(const bc::steady_clock::time_point& t) RB(TUNTIL, try_lock_until(t), tpn(t))
#if defined BOOST_THREAD_USES_DATETIME
  bool timed_lock(pt::time_duration const& d) RB(TREL, timed_lock(d), d.total_microseconds())
  bool timed_lock(boost::system_time const& t) RB(TABS, timed_lock(t), (t - to_ptime(0)).total_microseconds())
  bool timed_lock(boost::xtime const& t) RB(TXT, timed_lock(boost::system_time(t)), t.sec)
#endif
  void lock_shared() RV(SLOCK, lock_shared()) void unlock_shared() RV(SUNLOCK, unlock_shared()) bool try_lock_shared() RB(STRY, try_lock_shared(), 0)
  bool try_lock_shared_for(bc::nanoseconds d) RB(SFOR, try_lock_shared_for(d), d.count()) bool try_lock_shared_until(const bc::steady_clock::time_point& t) RB(SUNTIL, try_lock_shared_until(t), tpn(t))
#if defined BOOST_THREAD_USES_DATETIME
  bool timed_lock_shared(pt::time_duration const& d) RB(SREL, timed_lock_shared(d), d.total_microseconds())
  bool timed_lock_shared(boost::system_time const& t) RB(SABS, timed_lock_shared(t), (t - to_ptime(0)).total_microseconds())
#endif
  void lock_upgrade() RV(GLOCK, lock_upgrade()) void unlock_upgrade() RV(GUNLOCK, unlock_upgrade()) bool try_lock_upgrade() RB(GTRY, try_lock_upgrade(), 0)
  bool try_lock_upgrade_for(bc::nanoseconds d) RB(GFOR, try_lock_upgrade_for(d), d.count()) bool try_lock_upgrade_until(const bc::steady_clock::time_point& t) RB(GUNTIL, try_lock_upgrade_until(t), tpn(t))
  void unlock_and_lock_shared() RV(U2S, unlock_and_lock_shared()) void unlock_and_lock_upgrade() RV(U2G, unlock_and_lock_upgrade())
  void unlock_upgrade_and_lock() RV(G2U, unlock_upgrade_and_lock()) void unlock_upgrade_and_lock_shared() RV(G2S, unlock_upgrade_and_lock_shared())
  bool try_unlock_upgrade_and_lock() RB(TG2U, try_unlock_upgrade_and_lock(), 0) bool try_unlock_upgrade_and_lock_for(bc::nanoseconds d) RB(TG2UF, try_unlock_upgrade_and_lock_for(d), d.count())
  bool try_unlock_upgrade_and_lock_until(const bc::steady_clock::time_point& t) RB(TG2UU, try_unlock_upgrade_and_lock_until(t), tpn(t))
  bool try_unlock_shared_and_lock() RB(TS2U, try_unlock_shared_and_lock(), 0) bool try_unlock_shared_and_lock_for(bc::nanoseconds d) RB(TS2UF, try_unlock_shared_and_lock_for(d), d.count())
  bool try_unlock_shared_and_lock_until(const bc::steady_clock::time_point& t) RB(TS2UU, try_unlock_shared_and_lock_until(t), tpn(t))
  bool try_unlock_shared_and_lock_upgrade() RB(TS2G, try_unlock_shared_and_lock_upgrade(), 0) bool try_unlock_shared_and_lock_upgrade_for(bc::nanoseconds d) RB(TS2GF, try_unlock_shared_and_lock_upgrade_for(d), d.count())
  bool try_unlock_shared_and_lock_upgrade_until(const bc::steady_clock::time_point& t) RB(TS2GU, try_unlock_shared_and_lock_upgrade_until(t), tpn(t))
};
typedef boost::unique_lock<MU> UL; typedef boost::shared_lock<MU> SL; typedef boost::upgrade_lock<MU> GL; typedef boost::upgrade_to_unique_lock<MU> TU;
// ---------------------------------------------------------------- model
struct Own { MU* m; bool o; Own(MU* m_ = 0, bool o_ = false) : m(m_), o(o_) {} };
enum { NS = 3, NM = 3 };
enum Kind { KU, KS, KG };
static const int C_LOCK[] = {LOCK, SLOCK, GLOCK}, C_TRY[] = {TRY, STRY, GTRY}, C_FOR[] = {TFOR, SFOR, GFOR}, C_UNTIL[] = {TUNTIL, SUNTIL, GUNTIL}, C_REL[] = {TREL, SREL, -1}, C_ABS[] = {TABS, SABS, -1}, C_UNLOCK[] = {UNLOCK, SUNLOCK, GUNLOCK};
static const char* const KNM[] = {"unique_lock", "shared_lock", "upgrade_lock"};
struct World {
  MU mu[NM]; UL u[NS]; SL s[NS]; GL g[NS]; TU* t[2]; int tsrc[2];
  Own own[3][NS]; Own town[2]; unsigned frozen_m, frozen_s; int ops, changes, errors, scopes; int depth;
  std::vector<Call> want;
};
static World* W;
static void want(MU* m, int c) { Ignore i; Call k = {m, c}; W->want.push_back(k); }
static std::string show(const std::vector<Call>& v) { std::string s; for (auto& c : v) { s += ' '; s += CN[c.c]; s += '@'; s += std::to_string(c.m->idx); } return s.empty() ? " nothing" : s; }
static void compare(const char* op) {
  Ignore i; World& w = *W;
  if (!(g_log == w.want)) fail("%s: the lockables saw%s; expected%s", op, show(g_log).c_str(), show(w.want).c_str());
  g_log.clear(); w.want.clear();
  for (int k = 0; k < NS; k++) {
#define CMP(A, K) { const Own& o = w.own[K][k]; bool b = bool(w.A[k]); if (w.A[k].owns_lock() != o.o || b != o.o || w.A[k].mutex() != o.m) fail("%s: %s %d reports owns_lock %d, bool %d, mutex %d; expected %d, mutex %d", op, KNM[K], k, w.A[k].owns_lock(), b, w.A[k].mutex() ? w.A[k].mutex()->idx : -1, o.o, o.m ? o.m->idx : -1); }
    CMP(u, KU) CMP(s, KS) CMP(g, KG)
  }
  for (int k = 0; k < 2; k++) if (w.t[k]) { const Own& o = w.town[k]; bool b = bool(*w.t[k]); if (w.t[k]->owns_lock() != o.o || b != o.o || w.t[k]->mutex() != o.m) fail("%s: upgrade_to_unique_lock reports owns_lock %d bool %d mutex %d", op, w.t[k]->owns_lock(), b, w.t[k]->mutex() ? w.t[k]->mutex()->idx : -1); }
}
template <class F> static bool thrown(F f) { try { f(); } catch (Boom&) { return true; } return false; }
static void expect_error(const char* op, int rc, int want_code) { Ignore i; W->errors++; if (rc != want_code) fail("%s: misuse reported code %d, expected %d (0 = not reported)", op, rc, want_code); }
template <class F> static int err(F f) { try { f(); } catch (boost::lock_error& e) { return e.code().value(); } return 0; }
static const int64_t DUR[] = {0, 1000, 250000, 1000000000, -1000};
// may a lockable take part (not frozen, and the call would not block)
static bool ok_m(MU* m) { return !(W->frozen_m & (1u << m->idx)); }
template <class L> struct Tr;
template <> struct Tr<UL> { enum { K = KU }; static UL* arr() { return W->u; } };
template <> struct Tr<SL> { enum { K = KS }; static SL* arr() { return W->s; } };
template <> struct Tr<GL> { enum { K = KG }; static GL* arr() { return W->g; } };
// what releasing an Own costs
static void want_release(const Own& o, int K) { if (o.m && o.o) want(o.m, C_UNLOCK[K]); }
static int arm(int reach) { int t = 0; if (chance(1, 6)) t = 1; (void)reach; { Ignore i; g_throw = t; g_fired = false; } return t; }
template <class L> static void put(L& dst, Own& md, L&& src, Own ms, int how) {   // move-assign into a slot
  enum { K = Tr<L>::K };
  if (how & 1) { L tmp(boost::move(src)); want_release(md, K); dst = boost::move(tmp); if (tmp.owns_lock() || tmp.mutex()) fail("moved-from %s still refers to a mutex", KNM[K]); }
  else { want_release(md, K); dst = boost::move(src); }
  if (src.owns_lock() || src.mutex()) fail("moved-from %s still refers to a mutex", KNM[K]);
  md = ms;
}
template <class L> static void op_construct(int slot) {
  enum { K = Tr<L>::K }; L& dst = Tr<L>::arr()[slot]; Own& md = W->own[K][slot]; MU* m = &W->mu[pick(NM)]; if (!ok_m(m) || (md.m && md.o && !ok_m(md.m))) return;
  int how = pick(10); if (how == 7 && K != KU) how = pick(7); int64_t d = DUR[pick(5)]; int mv = pick(2);
#if defined BOOST_THREAD_USES_DATETIME
  if (how >= 8 && K == KG) how = pick(7); if (how == 9 && K == KS) how = 8;
#else
  if (how >= 8) how = pick(7);
#endif
  bool real_ok = m->can(C_LOCK[K]);
  note("%s %d = construct form %d on %d", KNM[K], slot, how, m->idx);
  switch (how) {
    case 0: { L x; put(dst, md, boost::move(x), Own(), mv); break; }
    case 1: { L x(*m, boost::defer_lock); put(dst, md, boost::move(x), Own(m, false), mv); break; }
    case 2: { if (!real_ok) return; int t = arm(1); want(m, C_LOCK[K]); if (t) { if (!thrown([&] { L x(*m); })) fail("an exception of the lockable was swallowed"); break; } L x(*m); put(dst, md, boost::move(x), Own(m, true), mv); break; }
    case 3: { { Ignore i; g_refuse = chance(1, 4) ? 1 : 0; } bool r = real_ok && !g_refuse; int t = arm(1); want(m, C_TRY[K]); if (t) { if (!thrown([&] { L x(*m, boost::try_to_lock); })) fail("an exception of the lockable was swallowed"); break; } L x(*m, boost::try_to_lock); put(dst, md, boost::move(x), Own(m, r), mv); break; }
    case 4: { if (!real_ok) return; want(m, C_LOCK[K]); if (K == KU) m->lock(); else if (K == KS) m->lock_shared(); else m->lock_upgrade(); L x(*m, boost::adopt_lock); put(dst, md, boost::move(x), Own(m, true), mv); break; }
    case 5: { { Ignore i; g_refuse = chance(1, 4) ? 1 : 0; } bool r = real_ok && !g_refuse; int t = arm(1); want(m, C_FOR[K]); { Ignore i; g_arg = d; } if (t) { if (!thrown([&] { L x(*m, bc::nanoseconds(d)); })) fail("an exception of the lockable was swallowed"); break; } L x(*m, bc::nanoseconds(d)); if (g_seen != g_arg) fail("timeout passed on as %lld", (long long)g_seen); put(dst, md, boost::move(x), Own(m, r), mv); break; }
    case 6: { { Ignore i; g_refuse = chance(1, 4) ? 1 : 0; g_arg = mono_now() + d; } bool r = real_ok && !g_refuse; int t = arm(1); want(m, C_UNTIL[K]); if (t) { if (!thrown([&] { L x(*m, steady_tp(g_arg)); })) fail("an exception of the lockable was swallowed"); break; } L x(*m, steady_tp(g_arg)); if (g_seen != g_arg) fail("deadline passed on as %lld", (long long)g_seen); put(dst, md, boost::move(x), Own(m, r), mv); break; }
#if defined BOOST_THREAD_USES_DATETIME
    case 8: if constexpr (K != KG) { { Ignore i; g_refuse = chance(1, 4) ? 1 : 0; g_arg = (real_now() + d) / 1000; } bool r = real_ok && !g_refuse; int t = arm(1); want(m, C_ABS[K]); boost::system_time at = to_ptime(g_arg * 1000); if (t) { if (!thrown([&] { L x(*m, at); })) fail("an exception of the lockable was swallowed"); break; } L x(*m, at); if (g_seen != g_arg) fail("time passed on as %lld", (long long)g_seen); put(dst, md, boost::move(x), Own(m, r), mv); } break;
    case 9: if constexpr (K == KU) { { Ignore i; g_refuse = chance(1, 4) ? 1 : 0; g_arg = d / 1000; } bool r = real_ok && !g_refuse; int t = arm(1); want(m, C_REL[K]); pt::time_duration td = pt::microseconds(d / 1000); if (t) { if (!thrown([&] { L x(*m, td); })) fail("an exception of the lockable was swallowed"); break; } L x(*m, td); if (g_seen != g_arg) fail("time passed on as %lld", (long long)g_seen); put(dst, md, boost::move(x), Own(m, r), mv); } break;
#endif
    default: if constexpr (K == KU) {
      int f = pick(5);
      bool adopt = f == 1, tr = f == 3, lk = f == 0 || f == 4; if ((adopt || lk) && !real_ok) return;
      if (adopt) { want(m, LOCK); m->lock(); } else if (lk) want(m, LOCK); else if (tr) want(m, TRY);
      if (f == 4) { L x = boost::make_unique_lock(*m); put(dst, md, boost::move(x), Own(m, true), mv); break; }
      L x = f == 0 ? boost::make_unique_lock(*m) : f == 1 ? boost::make_unique_lock(*m, boost::adopt_lock) : f == 2 ? boost::make_unique_lock(*m, boost::defer_lock) : boost::make_unique_lock(*m, boost::try_to_lock);
      put(dst, md, boost::move(x), Own(m, f == 2 ? false : f == 3 ? real_ok : true), mv);
    }
  }
}
template <class L> static void op_member(int slot) {
  enum { K = Tr<L>::K }; L& x = Tr<L>::arr()[slot]; Own& o = W->own[K][slot]; if (o.m && !ok_m(o.m)) return;
  int op = pick(9); int64_t d = DUR[pick(5)]; bool can = o.m && o.m->can(C_LOCK[K]); int code = !o.m ? EPERM : o.o ? EDEADLK : 0;
  if (op == 7) code = !o.m ? EPERM : !o.o ? EPERM : 0;
#if !defined BOOST_THREAD_USES_DATETIME
  if (op == 4 || op == 5 || op == 6) op = 1;
#endif
  if (K == KG && (op == 4 || op == 5 || op == 6)) op = 1;
  if (K == KS && op == 6) op = 4;
  if (op == 0 && !code && !can) return;
  static const char* const N[] = {"lock", "try_lock", "try_lock_for", "try_lock_until", "timed_lock(duration)", "timed_lock(ptime)", "timed_lock(xtime)", "unlock", "release"};
  note("%s %d.%s()", KNM[K], slot, N[op]);
  if (op == 8) { MU* r = x.release(); { Ignore i; if (r != o.m) fail("release() returned the wrong mutex"); } if (o.o) { if (flip()) { L y(*r, boost::adopt_lock); x = boost::move(y); return; } want(r, C_UNLOCK[K]); if (K == KU) r->unlock(); else if (K == KS) r->unlock_shared(); else r->unlock_upgrade(); } o = Own(); return; }
  bool res = false; { Ignore i; g_refuse = !code && op >= 1 && op <= 6 && chance(1, 4) ? 1 : 0; g_seen = -1; }
  bool r = can && !g_refuse; int t = !code && op != 7 ? arm(1) : 0; int64_t dus = d / 1000;
  auto act = [&] {
    switch (op) {
      case 0: x.lock(); res = true; break;
      case 1: res = x.try_lock(); break;
      case 2: { Ignore i; g_arg = d; } res = x.try_lock_for(bc::nanoseconds(d)); break;
      case 3: { Ignore i; g_arg = mono_now() + d; } res = x.try_lock_until(steady_tp(g_arg)); break;
#if defined BOOST_THREAD_USES_DATETIME
      case 4: if constexpr (K != KG) { { Ignore i; g_arg = dus; } res = x.timed_lock(pt::time_duration(pt::microseconds(dus))); } break;
      case 5: if constexpr (K != KG) { { Ignore i; g_arg = real_now() / 1000 + dus; } res = x.timed_lock(to_ptime(g_arg * 1000)); } break;
      case 6: if constexpr (K == KU) { boost::xtime xt; xt.sec = 1000000 + d; xt.nsec = 0; { Ignore i; g_arg = xt.sec; } res = x.timed_lock(xt); } break;
#endif
      default: x.unlock();
    }
  };
  if (code) { expect_error(N[op], err(act), code); return; }
  int c = op == 0 ? C_LOCK[K] : op == 1 ? C_TRY[K] : op == 2 ? C_FOR[K] : op == 3 ? C_UNTIL[K] : op == 4 ? C_REL[K] : op == 5 ? C_ABS[K] : op == 6 ? TXT : C_UNLOCK[K];
  want(o.m, c);
  if (t) { if (!thrown(act)) fail("%s: an exception of the lockable was swallowed", N[op]); return; }
  act(); Ignore i;
  if (op == 7) { o.o = false; return; }
  if (op == 0) r = true;
  if (res != r) fail("%s::%s returned %d although the lockable said %d", KNM[K], N[op], res, r);
  if (op >= 2 && op <= 6 && g_seen != g_arg) fail("%s::%s passed the time on as %lld instead of %lld", KNM[K], N[op], (long long)g_seen, (long long)g_arg);
  o.o = r;
}
template <class L> static void op_swap(int i, int j) {
  enum { K = Tr<L>::K }; L* a = Tr<L>::arr(); note("swap %s %d %d", KNM[K], i, j);
  if (flip()) a[i].swap(a[j]); else swap(a[i], a[j]);
  std::swap(W->own[K][i], W->own[K][j]);
}
template <class L> static void op_move(int i, int j) {
  enum { K = Tr<L>::K }; L* a = Tr<L>::arr(); Own& d = W->own[K][i]; Own& s = W->own[K][j]; note("%s %d = move(%d)", KNM[K], i, j);
  if (i != j) { if (d.m && d.o && !ok_m(d.m)) return; want_release(d, K); a[i] = boost::move(a[j]); d = s; s = Own(); }
  else { L& r = a[i]; r = boost::move(a[j]); }    // self move keeps the state (swap with a temporary)
}
// conversions D <- S: form 0 converting construction, 1 try, 2 until, 3 for, 4 converting assignment
template <class D, class S> static void op_convert(int i, int j) {
  enum { KD = Tr<D>::K, KSrc = Tr<S>::K };
  D& dst = Tr<D>::arr()[i]; S& src = Tr<S>::arr()[j]; Own& md = W->own[KD][i]; Own& ms = W->own[KSrc][j];
  if ((md.m && md.o && !ok_m(md.m)) || (ms.m && !ok_m(ms.m))) return;
  int form = pick(5); constexpr bool up = (KSrc == KS) || (KSrc == KG && KD == KU), down = KSrc == KU || KSrc == KG;
  if (form >= 1 && form <= 3 && !up) form = 0; if ((form == 0 || form == 4) && !down) form = 1 + pick(3);
#if defined BOOST_THREAD_PROVIDES_EXPLICIT_LOCK_CONVERSION
  if (form == 4) form = 0;
#endif
  int c; if (KSrc == KU) c = KD == KS ? U2S : U2G; else if (KSrc == KG) c = KD == KS ? G2S : form == 0 || form == 4 ? G2U : form == 1 ? TG2U : form == 2 ? TG2UU : TG2UF; else c = KD == KU ? (form == 1 ? TS2U : form == 2 ? TS2UU : TS2UF) : (form == 1 ? TS2G : form == 2 ? TS2GU : TS2GF);
  if (ms.o && c == G2U && !ms.m->can(c)) return;
  int64_t d = DUR[pick(5)]; bool tr = form >= 1 && form <= 3; { Ignore k; g_refuse = tr && ms.o && chance(1, 4) ? 1 : 0; g_arg = form == 2 ? mono_now() + d : form == 3 ? d : 0; g_seen = 0; }
  bool r = ms.o && (!tr || (ms.m->can(c) && !g_refuse)); int t = ms.o ? arm(1) : 0; int mv = pick(2);
  note("%s %d = %s %d, form %d%s", KNM[KD], i, KNM[KSrc], j, form, t ? " throws" : "");
  if (ms.o) want(ms.m, c);
  Own res; bool keep = tr && ms.o && !r;           // a refused conversion leaves the source as it was
  if (!keep) res = Own(ms.m, ms.o);
  auto fin = [&](D& x) { if (tr && ms.o && form != 1 && g_seen != g_arg) fail("conversion passed the time on as %lld", (long long)g_seen); put(dst, md, boost::move(x), res, mv); };
  auto act = [&] {
    if (form == 0) { if constexpr (down) { D x(boost::move(src)); fin(x); } }
    else if (form == 1) { if constexpr (up) { D x(boost::move(src), boost::try_to_lock); fin(x); } }
    else if (form == 2) { if constexpr (up) { D x(boost::move(src), steady_tp(g_arg)); fin(x); } }
    else if (form == 3) { if constexpr (up) { D x(boost::move(src), bc::nanoseconds(g_arg)); fin(x); } }
#if !defined BOOST_THREAD_PROVIDES_EXPLICIT_LOCK_CONVERSION
    else { if constexpr (down) { want_release(md, KD); dst = boost::move(src); md = res; } }
#endif
  };
  if (t) { { Ignore k; if (form == 4) W->want.resize(1); } Own keepd = md; std::vector<Call>* wv; { Ignore k; wv = new std::vector<Call>(W->want); } if (!thrown(act)) fail("a conversion swallowed the exception of the lockable"); { Ignore k; W->want = *wv; delete wv; } md = keepd; return; }
  act(); if (!keep) ms = Own();
}
static void op_utu() {
  World& w = *W; int k = pick(2), j = pick(NS), op = pick(4);
  if (op == 0 && !w.t[k]) {
    Own& o = w.own[KG][j]; if ((w.frozen_s & (1u << j)) || (o.m && (!ok_m(o.m) || (o.o && !o.m->can(G2U))))) return;
    int t = o.o ? arm(1) : 0; note("upgrade_to_unique_lock %d from upgrade_lock %d%s", k, j, t ? " throws" : "");
    if (o.o) want(o.m, G2U);
    if (t) { if (!thrown([&] { TU x(w.g[j]); })) fail("upgrade_to_unique_lock swallowed the exception of the lockable"); return; }
    w.t[k] = new TU(w.g[j]); w.tsrc[k] = j; w.town[k] = o; o = Own();
  } else if (op == 1 && w.t[k]) {
    int s = w.tsrc[k]; if (s >= 0) { if (w.frozen_s & (1u << s)) return; Own& o = w.own[KG][s]; if (o.o && !ok_m(o.m)) return; }
    note("destroy upgrade_to_unique_lock %d", k);
    if (s >= 0) { if (w.town[k].o) want(w.town[k].m, U2G); want_release(w.own[KG][s], KG); w.own[KG][s] = w.town[k]; }
    delete w.t[k]; w.t[k] = 0; w.town[k] = Own();
  } else if (op == 2 && w.t[0] && w.t[1]) {
    note("swap upgrade_to_unique_locks"); w.t[0]->swap(*w.t[1]); std::swap(w.town[0], w.town[1]); std::swap(w.tsrc[0], w.tsrc[1]);
  } else if (op == 3 && w.t[k]) {
    note("move-construct upgrade_to_unique_lock %d", k); TU* n = new TU(boost::move(*w.t[k])); delete w.t[k]; w.t[k] = n;   // destroying the moved-from one does nothing
  }
}
static void step();
static void body(bool exc) { World& w = *W; int n = pick(3); w.depth++; for (int i = 0; i < n; i++) { step(); } w.depth--; compare("inside a scope"); if (exc) throw Boom(); }
struct Frz { unsigned m, s; Frz(unsigned fm, unsigned fs) : m(W->frozen_m), s(W->frozen_s) { W->frozen_m |= fm; W->frozen_s |= fs; } ~Frz() { W->frozen_m = m; W->frozen_s = s; } };
static void op_scope() {
  World& w = *W; if (w.depth >= 2) return; w.scopes++;
  int kind = pick(11); bool exc = chance(1, 3); MU* m = &w.mu[pick(NM)]; if (!ok_m(m)) return; unsigned fm = 1u << m->idx; bool free_x = m->can(LOCK), free_s = m->can(SLOCK);
  int i = pick(NS); int t = 0;
  static const char* const N[] = {"lock_guard", "lock_guard(adopt)", "make_lock_guard", "shared_lock_guard", "shared_lock_guard(adopt)", "strict_lock", "nested_strict_lock", "reverse_lock", "reverse_lock", "with_lock_guard", "nested_strict_lock factory"};
  if (kind == 0 || kind == 1 || kind == 2 || kind == 5 || kind == 9) { if (!free_x) return; t = kind == 1 ? 0 : arm(1); note("%s on %d%s%s", N[kind], m->idx, t ? " whose lock throws" : "", exc ? ", left by an exception" : ""); want(m, LOCK); }
  if (kind == 3 || kind == 4) { if (!free_s) return; t = kind == 4 ? 0 : arm(1); note("%s on %d%s", N[kind], m->idx, exc ? ", left by an exception" : ""); want(m, SLOCK); }
  bool th = false; unsigned fs = (1u << i);
  switch (kind) {
    case 0: th = thrown([&] { boost::lock_guard<MU> g(*m); Frz f(fm, 0); compare(N[kind]); body(exc); want(m, UNLOCK); }); if (!t && exc) want(m, UNLOCK); break;
    case 1: m->lock(); th = thrown([&] { boost::lock_guard<MU> g(*m, boost::adopt_lock); Frz f(fm, 0); compare(N[kind]); body(exc); want(m, UNLOCK); }); if (exc) want(m, UNLOCK); break;
    case 2: th = thrown([&] { auto&& g = boost::make_lock_guard(*m); Frz f(fm, 0); compare(N[kind]); body(exc); want(m, UNLOCK); }); if (!t && exc) want(m, UNLOCK); break;
    case 3: th = thrown([&] { boost::shared_lock_guard<MU> g(*m); Frz f(fm, 0); compare(N[kind]); body(exc); want(m, SUNLOCK); }); if (!t && exc) want(m, SUNLOCK); break;
    case 4: m->lock_shared(); th = thrown([&] { boost::shared_lock_guard<MU> g(*m, boost::adopt_lock); Frz f(fm, 0); compare(N[kind]); body(exc); want(m, SUNLOCK); }); if (exc) want(m, SUNLOCK); break;
    case 5: th = thrown([&] { boost::strict_lock<MU> g(*m); Frz f(fm, 0); compare(N[kind]); if (!g.owns_lock() || g.mutex() != m || !g.owns_lock(m) || g.owns_lock(&w.mu[(m->idx + 1) % NM])) fail("strict_lock misreports what it owns"); body(exc); want(m, UNLOCK); }); if (!t && exc) want(m, UNLOCK); break;
    case 6: case 10: {
      Own& o = w.own[KU][i]; if (w.frozen_s & fs) return;
      if (!o.m) { int rc = 0; note("%s on unique_lock %d without mutex", N[kind], i); rc = err([&] { try { boost::nested_strict_lock<UL> g(w.u[i]); } catch (boost::lock_error&) { throw boost::lock_error(EPERM, "x"); } }); expect_error(N[kind], rc, EPERM); return; }
      if (!ok_m(o.m) || (!o.o && !o.m->can(LOCK))) return;
      t = o.o ? 0 : arm(1); note("%s on unique_lock %d (owns %d)%s", N[kind], i, o.o, exc ? ", left by an exception" : "");
      if (!o.o) want(o.m, LOCK);
      MU* q = o.m; Own before = o;
      th = thrown([&] { if (kind == 6) { boost::nested_strict_lock<UL> g(w.u[i]); o = Own(); compare(N[kind]); Frz f(1u << q->idx, fs); if (!g.owns_lock() || g.mutex() != q || !g.owns_lock(q)) fail("nested_strict_lock misreports what it owns"); body(exc); }
        else { auto&& g = boost::make_nested_strict_lock(w.u[i]); o = Own(); compare(N[kind]); Frz f(1u << q->idx, fs); if (g.mutex() != q) fail("nested_strict_lock misreports what it owns"); body(exc); } });
      if (t) { o = before; if (!th) fail("nested_strict_lock swallowed an exception"); return; }
      o = Own(q, true); return; }
    case 7: case 8: {
      Own& o = w.own[KU][i]; if (w.frozen_s & fs) return; if (o.m && !ok_m(o.m)) return;
      if (o.m && !o.o && !o.m->can(LOCK)) return;
      MU* q = o.m; note("%s on lock %d (owns %d)%s", N[kind], i, o.o, exc ? ", left by an exception" : "");
      if (o.o) want(q, UNLOCK);
      th = thrown([&] { boost::reverse_lock<UL> r(w.u[i]); o = Own(); compare(N[kind]); Frz f(q ? 1u << q->idx : 0, fs); body(exc); });
      if (q) want(q, LOCK);
      o = Own(q, q != 0); return; }
    default: { int got = 0; th = thrown([&] { got = boost::with_lock_guard(*m, [&](int a, int& b) -> int { Frz f(fm, 0); compare("with_lock_guard"); b = a + 1; body(exc); return a * 2; }, 21, boost::ref(i)); }); if (!t) want(m, UNLOCK); if (!th && got != 42) fail("with_lock_guard lost the result"); break; }
  }
  bool wt = t != 0 || exc; if (th != wt) fail("%s: %s", N[kind], th ? "threw" : "swallowed an exception");
}
static void step() {
  World& w = *W; w.ops++; { Ignore i; g_throw = g_refuse = 0; }
  int i = pick(NS), j = pick(NS); static const unsigned wt[] = {7, 9, 2, 3, 7, 3, 4}; int op = weighted(wt, 7); int kind = pick(3);
  if (w.frozen_s & ((1u << i) | (1u << j))) return;
  switch (op) {
    case 0: if (kind == 0) op_construct<UL>(i); else if (kind == 1) op_construct<SL>(i); else op_construct<GL>(i); break;
    case 1: if (kind == 0) op_member<UL>(i); else if (kind == 1) op_member<SL>(i); else op_member<GL>(i); break;
    case 2: if (kind == 0) op_swap<UL>(i, j); else if (kind == 1) op_swap<SL>(i, j); else op_swap<GL>(i, j); break;
    case 3: if (kind == 0) op_move<UL>(i, j); else if (kind == 1) op_move<SL>(i, j); else op_move<GL>(i, j); break;
    case 4: switch (pick(6)) { case 0: op_convert<UL, GL>(i, j); break; case 1: op_convert<SL, UL>(i, j); break; case 2: op_convert<SL, GL>(i, j); break; case 3: op_convert<GL, UL>(i, j); break; case 4: op_convert<UL, SL>(i, j); break; default: op_convert<GL, SL>(i, j); } break;
    case 5: op_utu(); break;
    default: op_scope();
  }
  { Ignore ig; g_throw = g_refuse = 0; } compare("operation");
}
SCENARIO(history, 5) {
  check_leaks(true); { Ignore i; std::vector<Call>().swap(g_log); g_log.reserve(32); g_throw = g_refuse = 0; g_fired = false; }
  World w; W = &w; w.frozen_m = w.frozen_s = 0; w.ops = w.changes = w.errors = w.scopes = w.depth = 0; w.t[0] = w.t[1] = 0; w.tsrc[0] = w.tsrc[1] = -1;
  bool real = flip(); for (int k = 0; k < NM; k++) { w.mu[k].idx = k; w.mu[k].real = real; }
  int n = range(2, 30);
  for (int k = 0; k < n; k++) step();
  // the end of every lock object
  for (int k = 0; k < 2; k++) if (w.t[k]) { int s = w.tsrc[k]; if (w.town[k].o) want(w.town[k].m, U2G); want_release(w.own[KG][s], KG); w.own[KG][s] = w.town[k]; delete w.t[k]; w.t[k] = 0; compare("destruction of upgrade_to_unique_lock"); }
  for (int k = 0; k < NS; k++) { want_release(w.own[KU][k], KU); { UL x(boost::move(w.u[k])); } w.own[KU][k] = Own(); compare("destructor of unique_lock"); want_release(w.own[KS][k], KS); { SL x(boost::move(w.s[k])); } w.own[KS][k] = Own(); compare("destructor of shared_lock"); want_release(w.own[KG][k], KG); { GL x(boost::move(w.g[k])); } w.own[KG][k] = Own(); compare("destructor of upgrade_lock"); }
  for (int k = 0; k < NM; k++) if (w.mu[k].ex || w.mu[k].up || w.mu[k].sh) fail("lockable %d is still held (exclusive %d, upgrade %d, shared %d)", k, w.mu[k].ex, w.mu[k].up, w.mu[k].sh);
  if (w.errors) label("misuse-reported"); if (w.scopes) label("scoped-guard"); nontrivial(w.ops >= 5);
  Ignore i; std::vector<Call>().swap(w.want); std::vector<Call>().swap(g_log);
}
#if defined BOOST_THREAD_PROVIDES_NESTED_LOCKS
// the nested scoped_try_lock of the mutexes: constructing tries, everything else is that of unique_lock
template <class M> static void try_locks(const char* mn) {
  typedef typename M::scoped_try_lock L; M m[2]; int held[2] = {-1, -1}; L* l[3] = {0, 0, 0}; int on[3] = {-1, -1, -1}; bool own[3] = {false, false, false};
  check_leaks(true); note("%s::scoped_try_lock", mn); int n = range(2, 25), real = 0;
  auto check = [&](const char* op) {
    Ignore ig; for (int i = 0; i < 3; i++) if (l[i]) { L const& c = *l[i]; bool b = c ? true : false; M* w = on[i] < 0 ? 0 : &m[on[i]]; if (c.owns_lock() != own[i] || b != own[i] || !c == own[i] || l[i]->mutex() != w) fail("%s: scoped_try_lock %d reports owns %d, bool %d, mutex %d; expected %d, mutex %d", op, i, c.owns_lock(), b, (int)(l[i]->mutex() - m), own[i], on[i]); }
    for (int k = 0; k < 2; k++) { bool g = m[k].try_lock(); if (g) m[k].unlock(); if (g != (held[k] < 0)) fail("%s: mutex %d is %s", op, k, g ? "free although a lock object owns it" : "held although no lock object owns it"); }
  };
  auto gone = [&](int i) { if (own[i]) held[on[i]] = -1; own[i] = false; on[i] = -1; };
  for (int q = 0; q < n; q++) {
    int i = pick(3), k = pick(2), op = pick(11); const char* name = "";
    if (op <= 4 || !l[i]) {
      if (l[i]) { delete l[i]; l[i] = 0; gone(i); check("destructor"); }
      int how = op % 5; if (how == 2 && held[k] >= 0) how = 0;
      note("%d: construct form %d on %d", i, how, k); name = "constructor";
      switch (how) {
        case 0: l[i] = new L(m[k]); on[i] = k; own[i] = held[k] < 0; break;
        case 1: l[i] = new L(m[k], boost::try_to_lock); on[i] = k; own[i] = held[k] < 0; break;
        case 2: m[k].lock(); l[i] = new L(m[k], boost::adopt_lock); on[i] = k; own[i] = true; break;
        case 3: l[i] = new L(m[k], boost::defer_lock); on[i] = k; own[i] = false; break;
        default: l[i] = new L(); on[i] = -1; own[i] = false;
      }
      if (own[i]) held[k] = i;
    } else {
      int j = pick(3); L& x = *l[i]; int code = on[i] < 0 ? EPERM : own[i] ? EDEADLK : 0, rc = 0; static const char* const N[] = {"lock", "try_lock", "unlock", "release", "move assignment", "swap"}; name = N[op - 5]; note("%d.%s (%d)", i, name, j); real++;
      auto run = [&](auto f) { try { f(); } catch (boost::lock_error& e) { rc = e.code().value(); } };
      switch (op) {
        case 5: if (!code && held[on[i]] >= 0) break; run([&] { x.lock(); }); if (rc != code) fail("lock(): code %d, expected %d", rc, code); if (!code) { own[i] = true; held[on[i]] = i; } break;
        case 6: { bool r = false; run([&] { r = x.try_lock(); }); if (rc != code) fail("try_lock(): code %d, expected %d", rc, code); if (!code) { if (r != (held[on[i]] < 0)) fail("try_lock() returned %d", r); if (r) { own[i] = true; held[on[i]] = i; } } break; }
        case 7: code = own[i] ? 0 : EPERM; run([&] { x.unlock(); }); if (rc != code) fail("unlock(): code %d, expected %d", rc, code); if (!code) { held[on[i]] = -1; own[i] = false; } break;
        case 8: { M* r = x.release(); if (r != (on[i] < 0 ? 0 : &m[on[i]])) fail("release() returned the wrong mutex"); if (own[i]) r->unlock(); gone(i); break; }
        case 9: if (i != j && l[j]) { gone(i); x = boost::move(*l[j]); on[i] = on[j]; own[i] = own[j]; if (own[i]) held[on[i]] = i; on[j] = -1; own[j] = false; } else if (i == j) { int o = on[i]; bool w = own[i]; L y(boost::move(x)); on[i] = -1; own[i] = false; check("move construction (source)"); if (y.owns_lock() != w || y.mutex() != (o < 0 ? 0 : &m[o])) fail("move construction lost the state"); x = boost::move(y); on[i] = o; own[i] = w; } break;
        default: if (l[j]) { if (flip()) x.swap(*l[j]); else swap(x, *l[j]); std::swap(on[i], on[j]); std::swap(own[i], own[j]); for (int e = 0; e < 3; e++) if (own[e]) held[on[e]] = e; }
      }
    }
    check(name);
  }
  for (int i = 0; i < 3; i++) { delete l[i]; l[i] = 0; gone(i); check("destructor"); }
  label(mn); nontrivial(real >= 2);
}
SCENARIO(try_locks, 1) { if (flip()) try_locks<boost::mutex>("mutex"); else try_locks<boost::timed_mutex>("timed_mutex"); }
#endif
int main(int c, char** v) { return pbt_main(c, v, "a history of at least five operations on lock objects (two for scoped_try_lock)"); }
