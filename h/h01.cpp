// H01: a thread runs its function once; join, detach, ids and groups tell the truth
#include "timeutil.h"
#include "common.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/thread_functors.hpp>
#include <boost/thread/scoped_thread.hpp>
#include <boost/thread/thread_guard.hpp>
#include <boost/thread/thread_only.hpp>
#include <boost/thread/tss.hpp>
#include <boost/bind/bind.hpp>
#include <boost/make_shared.hpp>
#include <sstream>
static const int64_t MS = 1000000, SEC = 1000000000;
#if defined BOOST_THREAD_PROVIDES_THREAD_DESTRUCTOR_CALLS_TERMINATE_IF_JOINABLE
static const bool TERM = true;
#else
static const bool TERM = false;
#endif
// ---- what a test thread does: waits for its gate, runs, registers exit handlers and thread-specific data
struct Rec;
static void tss_clean(Rec* r);
static boost::thread_specific_ptr<Rec>& slot() { static boost::thread_specific_ptr<Rec> p(&tss_clean); return p; }
struct Rec {
  Counter gate; int data, ex, ts, runs, exr, tsr, alive; bool use_exit, use_tss, end_by_int; int owner; boost::thread::id id; bool released; int fid_; int64_t ended_at, slow;
  Rec() : data(0), ex(0), ts(0), runs(0), exr(0), tsr(0), alive(0), use_exit(flip()), use_tss(flip()), end_by_int(false), owner(-1), released(false), fid_(-1), ended_at(-1), slow(0) { }
  bool over() const { Ignore i; return runs == 1 && (!use_exit || exr == 1) && (!use_tss || tsr == 1); }
};
static void at_end(Rec* r) { { Ignore i; r->ended_at = mono_now(); } hb_release(r); }
static void tss_clean(Rec* r) { { Ignore i; r->tsr++; if (sim::fid() != r->fid_) fail("thread-specific cleanup on another thread"); } if (r->slow) sim::delay(r->slow); r->ts = 3; at_end(r); }
struct Exit { Rec* r; void operator()() { { Ignore i; r->exr++; if (sim::fid() != r->fid_) fail("exit handler on another thread"); } if (r->slow) sim::delay(r->slow); r->ex = 2; at_end(r); } };
struct Body {
  Rec* r;
  explicit Body(Rec* r) : r(r) { Ignore i; r->alive++; }
  Body(const Body& o) : r(o.r) { Ignore i; r->alive++; }
  ~Body() { { Ignore i; r->alive--; } hb_release(r); }
  void operator()() const {
    { Ignore i; r->runs++; r->fid_ = sim::fid(); if (r->runs > 1) fail("the function ran twice"); }
    r->id = boost::this_thread::get_id(); hb_release(&r->id);
    if (r->use_tss) slot().reset(r);
    if (r->use_exit) boost::this_thread::at_thread_exit(Exit{r});
    r->gate.wait(1);
    r->data = 1; at_end(r);
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
    if (r->end_by_int) throw boost::thread_interrupted();
#endif
  }
};
static void check_finished(Rec* r, const char* what) {     // plain reads: the race detector checks happens-before
  if (r->data != 1) fail("%s returned before the thread function finished", what);
  if (r->use_exit && r->ex != 2) fail("%s returned before the exit handler finished", what);
  if (r->use_tss && r->ts != 3) fail("%s returned before thread-specific data was cleaned up", what);
}
template <class F> static void expect_res_error(F f, int code, const char* what) {
  try { f(); } catch (boost::thread_resource_error& e) { if (e.code().value() != code) fail("%s: thread_resource_error with code %d instead of %d", what, e.code().value(), code); return; }
  fail("%s raised no error", what);
}
SCENARIO(objects, 5) {
  check_leaks(true);
  allow_early_time(false); if (chance(1, 4)) allow_spurious(2);
  const int NS = 3;
  std::vector<boost::thread> S(NS); std::vector<Rec*> R, at(NS, (Rec*)0);
  int steps = range(2, 12); bool early = false;
  auto newrec = [&]() { Rec* r = new Rec; if (chance(1, 4)) r->end_by_int = true; R.push_back(r); return r; };
  auto release = [&](Rec* r) { if (!r->released) { r->released = true; r->gate.add(); } };
  auto check = [&](const char* what) {
    for (int i = 0; i < NS; i++) {
      if (S[i].joinable() != (at[i] != 0)) fail("after %s: slot %d joinable() = %d, expected %d", what, i, (int)S[i].joinable(), at[i] != 0);
      boost::thread::id id = S[i].get_id();
      if ((id == boost::thread::id()) == (at[i] != 0)) fail("after %s: slot %d get_id() is%s the default id", what, i, at[i] ? "" : " not");
      if (id == boost::this_thread::get_id()) fail("after %s: slot %d has the driver's id", what, i);
      for (int j = 0; j < NS; j++) {
        boost::thread::id k = S[j].get_id(); bool same = i == j || (!at[i] && !at[j]);
        if ((id == k) != same || (id != k) == same) fail("after %s: ids of slots %d and %d %s", what, i, j, same ? "differ" : "are equal");
        if ((id < k) + (k < id) + (id == k) != 1 || (id <= k) != !(k < id) || (id >= k) != !(id < k) || (id > k) != (k < id)) fail("thread::id ordering is inconsistent");
        if (same && hash_value(id) != hash_value(k)) fail("hash_value differs for equal ids");
#if defined BOOST_THREAD_PROVIDES_THREAD_EQ
        if ((S[i] == S[j]) != same || (S[i] != S[j]) == same) fail("thread comparison wrong");
#endif
      }
    }
  };
  note("%d steps", steps);
  for (int s = 0; s < steps; s++) {
    int i = pick(NS), j = pick(NS); unsigned op = pick(14);
    switch (op) {
      case 0: case 1: case 2: {
        if (at[i] && TERM) continue;
        Rec* r = newrec(); note("start in slot %d%s", i, at[i] ? " (replacing)" : "");
        if (flip()) S[i] = boost::thread(Body(r)); else { Body b(r); boost::thread t(b); S[i] = boost::move(t); if (t.joinable()) fail("moved-from thread is joinable"); }
        at[i] = r; check("start"); break; }
      case 3: { Rec* r = at[i]; if (!r) continue; note("release slot %d", i); release(r); if (flip()) wait_quiescent(); break; }
      case 4: {
        if (!at[i]) { note("join empty slot %d", i); expect_res_error([&] { S[i].join(); }, EINVAL, "join of a not-a-thread"); check("failed join"); break; }
        note("join slot %d", i); Rec* r = at[i]; int64_t t0 = mono_now();
        if (!r->released) { Threads t; int64_t d = range(0, 3) * SEC; r->released = true; t.add([r, d] { if (d) sim::delay(d); r->gate.add(); }); S[i].join(); if (mono_now() < t0 + d) fail("join returned early"); check_finished(r, "join"); t.join(); } else { S[i].join(); check_finished(r, "join"); }
        at[i] = 0; check("join"); nontrivial(); break; }
      case 5: case 6: {
        unsigned form = pick(5); int64_t d = range(0, 4) * 50 * MS;
        auto tj = [&]() -> bool { switch (form) { case 0: return S[i].try_join_for(bc::nanoseconds(d)); case 1: return S[i].try_join_until(bc::steady_clock::now() + bc::nanoseconds(d)); case 2: return S[i].try_join_until(bc::system_clock::now() + bc::nanoseconds(d));
#if defined BOOST_THREAD_USES_DATETIME
          case 3: return S[i].timed_join(pt::microseconds(d / 1000)); default: return S[i].timed_join(boost::get_system_time() + pt::microseconds(d / 1000));
#else
          default: return S[i].try_join_for(bc::microseconds(d / 1000));
#endif
          } };
        if (!at[i]) { note("timed join of empty slot %d", i); expect_res_error([&] { tj(); }, EINVAL, "timed join of a not-a-thread"); check("failed timed join"); break; }
        Rec* r = at[i]; bool q = false; if (r->released && flip()) { wait_quiescent(); q = true; }
        note("timed join slot %d form %u d=%lldms released=%d", i, form, (long long)(d / MS), (int)r->released);
        int64_t t0 = mono_now(); bool ok = tj();
        if (ok) { if (!r->released) fail("timed join returned true for a running thread"); check_finished(r, "timed join"); at[i] = 0; nontrivial(); }
        else { if (q) fail("timed join returned false although the thread had finished"); if (r->released && d > 0) fail("timed join returned false although the thread finished in time"); if (mono_now() - t0 < d - 1000) fail("timed join gave up early"); }
        check("timed join"); break; }
      case 7: { note("detach slot %d", i); S[i].detach(); at[i] = 0; check("detach"); break; }
      case 8: {
        if (i == j || (at[j] && TERM)) continue;
        note("move slot %d to %d", i, j);
        S[j] = boost::move(S[i]); at[j] = at[i]; at[i] = 0; check("move assignment"); break; }
      case 9: { note("swap %d %d", i, j); if (flip()) S[i].swap(S[j]); else swap(S[i], S[j]); std::swap(at[i], at[j]); check("swap"); break; }
      case 10: { note("move out and back %d", i); boost::thread t(boost::move(S[i])); Rec* r = at[i]; at[i] = 0; check("move construction"); if (t.joinable() != (r != 0)) fail("move construction lost the thread"); S[i] = boost::move(t); at[i] = r; check("move back"); break; }
      case 11: {   // attributes
        if (at[i] && TERM) continue;
        Rec* r = newrec(); boost::thread::attributes a; bool det = flip(); size_t ss = 65536 * range(1, 8) + pick(3000);
        a.set_stack_size(ss); if (a.get_stack_size() < ss) fail("get_stack_size() smaller than what was set");
        if (det) pthread_attr_setdetachstate(a.native_handle(), PTHREAD_CREATE_DETACHED);
        note("start with attributes in slot %d%s", i, det ? " detached" : "");
        const boost::thread::attributes& ca = a; S[i] = boost::thread(ca, Body(r)); at[i] = det ? 0 : r; check("start with attributes"); break; }
      case 12: { note("destroy and recreate slot %d", i); if (at[i] && TERM) continue; { boost::thread t; S[i].swap(t); } at[i] = 0; check("destruction"); break; }
      case 13: {
        Rec* r = at[i]; if (!r) { if (S[i].native_handle() != pthread_t()) fail("native_handle of a not-a-thread"); continue; }
        if (S[i].native_handle() == pthread_t()) fail("no native handle"); wait_quiescent();
        hb_acquire(&r->id); if (r->runs != 1) fail("a started thread does not run"); if (!(r->id == S[i].get_id())) fail("this_thread::get_id() differs from get_id() of its thread object");
        std::ostringstream o, p; o << r->id; p << S[i].get_id(); if (o.str() != p.str()) fail("equal ids print differently"); std::ostringstream e; e << boost::thread::id(); if (e.str() == o.str() || e.str() != "{Not-any-thread}") fail("default id prints as %s", e.str().c_str());
        break; }
    }
  }
  for (int i = 0; i < NS; i++) if (at[i]) { if (flip()) { release(at[i]); S[i].join(); check_finished(at[i], "join"); nontrivial(); } else S[i].detach(); at[i] = 0; }
  check("end");
  for (auto r : R) release(r);
  wait_quiescent(); (void)early;
  for (auto r : R) { if (r->runs != 1) fail("a thread function ran %d times", r->runs); if (!r->over()) fail("exit handlers ran %d times, cleanup %d times", r->exr, r->tsr); if (r->alive) fail("%d copies of the callable still alive", r->alive); hb_acquire(r); delete r; }
  std::vector<Rec*>().swap(R); std::vector<Rec*>().swap(at); std::vector<boost::thread>().swap(S);
}
// ---- arguments and callables
static int g_fn_sum; static int g_fn_runs;
static void fn0() { Ignore i; g_fn_runs++; }
struct Val {      // remembers where it was copied
  int v; static int live, copies, bad_copies, maker;
  explicit Val(int v) : v(v) { Ignore i; live++; }
  Val(const Val& o) : v(o.v) { Ignore i; live++; copies++; if (sim::fid() != maker) bad_copies++; }
  Val(Val&& o) : v(o.v) { o.v = -1; Ignore i; live++; }
  Val& operator=(const Val& o) { v = o.v; return *this; }
  ~Val() { Ignore i; live--; }
};
int Val::live, Val::copies, Val::bad_copies, Val::maker;
struct Obj {
  Val v; int runs, sum; Obj(int x) : v(x), runs(0), sum(0) { } Obj(const Obj& o) : v(o.v), runs(o.runs), sum(o.sum) { }
  void m0() { runs++; } void m2(int a, const Val& b) { runs++; sum = a + b.v; } int mc(int a) const { Ignore i; g_fn_runs++; g_fn_sum = a + v.v; return 7; }
  void operator()() { runs++; } void operator()(Val a, const Val& b) { runs++; sum = a.v * 10 + b.v; }
};
static void fn2(int a, const Val& b) { Ignore i; g_fn_runs++; g_fn_sum = a + b.v; }
static void fnr(Val& a) { a.v += 5; Ignore i; g_fn_runs++; }
static void fnstr(const std::string& s) { Ignore i; g_fn_runs++; g_fn_sum = (int)s.size(); }
static void fn9(int a, int b, int c, int d, int e, int f, int g, int h, const Val& k) { Ignore i; g_fn_runs++; g_fn_sum = a + 2 * b + 3 * c + 4 * d + 5 * e + 6 * f + 7 * g + 8 * h + 9 * k.v; }
static void fnp(int* p) { *p += 1; Ignore i; g_fn_runs++; }
struct MoveF { std::unique_ptr<int> p; int* out; MoveF(int x, int* o) : p(new int(x)), out(o) { } MoveF(MoveF&& o) : p(std::move(o.p)), out(o.out) { } void operator()() { if (!p) fail("the callable arrived moved-from"); *out = *p; Ignore i; g_fn_runs++; } };
static void fnu(std::unique_ptr<int> p, int* out) { if (!p) fail("a moved argument arrived empty"); *out = *p; Ignore i; g_fn_runs++; }
SCENARIO(arguments, 3) {
  check_leaks(true);
  { Ignore i; Val::live = Val::copies = Val::bad_copies = 0; Val::maker = sim::fid(); g_fn_runs = 0; g_fn_sum = 0; }
  boost::thread t; int a = range(0, 9), b = range(0, 9); unsigned form = pick(20); bool viajoin = flip(), pause = flip();
  note("form %u", form);
  int want_runs = 1, want_sum = -1; int out = 0;
  auto join = [&] { if (pause) wait_quiescent(); if (viajoin) t.join(); else if (!t.try_join_for(bc::seconds(100))) fail("timed join of a finishing thread timed out"); };
  {
    Val v(b); Obj o(b); boost::shared_ptr<Obj> sp = boost::make_shared<Obj>(b); char buf[8] = "abcde"; int plain = a;
    switch (form) {
      case 0: t = boost::thread(&fn0); join(); break;
      case 1: t = boost::thread(fn0); join(); break;
      case 2: t = boost::thread(&fn2, a, v); v.v = 77; want_sum = a + b; join(); break;
      case 3: { int x = a; t = boost::thread(fn2, x, Val(b)); x = 99; want_sum = a + b; join(); break; }
      case 4: t = boost::thread(&fnr, boost::ref(v)); join(); if (v.v != b + 5) fail("an argument passed by boost::ref was copied"); break;
      case 5: t = boost::thread(&Obj::m0, &o); join(); if (o.runs != 1) fail("member function ran %d times", o.runs); want_runs = 0; break;
      case 6: t = boost::thread(&Obj::m2, &o, a, v); v.v = 50; join(); if (o.runs != 1 || o.sum != a + b) fail("member function with arguments: runs %d sum %d", o.runs, o.sum); want_runs = 0; break;
      case 8: t = boost::thread(&Obj::mc, o, a); o.v.v = 66; want_sum = a + b; join(); break;
      case 9: t = boost::thread(&Obj::mc, sp, a); want_sum = a + b; sp.reset(); join(); break;
#if defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
      case 10: { std::unique_ptr<int> p(new int(a)); t = boost::thread(fnu, std::move(p), &out); if (p) fail("argument not moved"); join(); if (out != a) fail("moved argument has the wrong value"); break; }
#endif
#if !defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)   // does not compile with the variadic constructor
      case 11: t = boost::thread(boost::ref(o)); join(); if (o.runs != 1) fail("reference_wrapper callable ran %d times", o.runs); want_runs = 0; break;
#endif
      case 12: t = boost::thread(o); join(); if (o.runs) fail("the original ran instead of a copy"); want_runs = 0; break;
      case 13: { MoveF m(a, &out); t = boost::thread(boost::move(m)); join(); if (out != a) fail("move-only callable"); break; }
      case 14: t = boost::thread(MoveF(a, &out)); join(); if (out != a) fail("move-only callable"); break;
      case 15: { t = boost::thread(&fnstr, std::string(buf)); want_sum = 5; join(); break; }
      case 16: { char const* p = buf; t = boost::thread(&fnstr, p); want_sum = 5; join(); break; }
      case 17: t = boost::thread(&fn9, a, 1, 2, 3, 4, 5, 6, 7, v); v.v = 55; want_sum = a + 2 + 6 + 12 + 20 + 30 + 42 + 56 + 9 * b; join(); break;
      case 18: t = boost::thread(boost::bind(&fn2, a, v)); v.v = 44; want_sum = a + b; join(); break;
      default: { t = boost::thread(&fnp, &plain); join(); if (plain != a + 1) fail("effects not visible after join"); break; }
    }
    Ignore i;
    if (g_fn_runs != want_runs) fail("the callable ran %d times", g_fn_runs);
    if (want_sum >= 0 && g_fn_sum != want_sum) fail("arguments arrived wrong: %d instead of %d", g_fn_sum, want_sum);
    if (Val::bad_copies) fail("an argument was copied outside the creating thread's call");
  }
  if (t.joinable()) fail("joinable after join");
  { Ignore i; if (Val::live) fail("%d argument objects leaked", Val::live); }
  nontrivial();
}
// ---- a thread that joins itself, and joins from several places
SCENARIO(self_join, 1) {
  boost::thread* t = new boost::thread; Counter go; unsigned form = pick(3); bool done = false; Counter* g = &go; bool* d = &done;
  *t = boost::thread([t, g, form, d] {
    g->wait(1);
    expect_res_error([&] { if (form == 0) t->join(); else if (form == 1) t->try_join_for(bc::milliseconds(10)); else t->try_join_until(bc::system_clock::now() + bc::milliseconds(10)); }, EDEADLK, "joining oneself");
    if (!t->joinable()) fail("a failed self-join made the thread non-joinable");
    if (!(t->get_id() == boost::this_thread::get_id())) fail("ids differ");
    *d = true;
  });
  go.add(); t->join(); if (!done) fail("not finished"); delete t; nontrivial();
}
// ---- timing of joins: true exactly when finished by then
SCENARIO(timed_joins, 2) {
  check_leaks(true);
  allow_early_time(false);
  Rec* r = new Rec; const int64_t base = mono_now(), del = range(0, 10) * 30 * MS, slow = chance(1, 2) ? range(1, 4) * 40 * MS : 0, fin = base + del + slow * ((int)r->use_exit + (int)r->use_tss); r->released = true; r->slow = slow;
  boost::thread t((Body(r))); Threads aux; aux.add([r, del] { if (del) sim::delay(del); r->gate.add(); });
  bool joined = false; int n = range(1, 5);
  for (int k = 0; k < n && !joined; k++) {
    int64_t d = range(0, 6) * 25 * MS, t0 = mono_now();
    joined = flip() ? t.try_join_for(bc::nanoseconds(d)) : t.try_join_until(bc::steady_clock::now() + bc::nanoseconds(d));
    int64_t t1 = mono_now();
    if (joined) check_finished(r, "timed join");
    else { if (t0 + d > fin + 100000) fail("timed join until %lld returned false, the thread ended at %lld", (long long)(t0 + d), (long long)fin); if (t1 < t0 + d - 1000) fail("timed join gave up early"); if (!t.joinable()) fail("failed timed join made the thread non-joinable"); }
    if (t1 > t0 + d + 100000) fail("timed join blocked %lldms beyond its deadline", (long long)((t1 - t0 - d) / MS));
    if (joined && t1 > std::max(t0, fin) + 100000) fail("timed join noticed the end late");
  }
  if (!joined) { t.join(); check_finished(r, "join"); }
  if (t.joinable()) fail("joinable after join");
  aux.join(); if (!r->over() || r->alive) fail("cleanup"); delete r; nontrivial();
}
// ---- groups
SCENARIO(groups, 3) {
  check_leaks(true);
  boost::thread_group* g = new boost::thread_group; std::vector<Rec*> R; struct M { boost::thread* t; Rec* r; }; std::vector<M> in, outside; allow_early_time(false);
  int steps = range(1, 8);
  auto check = [&] { if ((int)g->size() != (int)in.size()) fail("size() = %d, %d threads were added", (int)g->size(), (int)in.size()); for (auto& m : in) if (!g->is_thread_in(m.t)) fail("is_thread_in false for a member"); for (auto& m : outside) if (m.t->joinable() && g->is_thread_in(m.t)) fail("is_thread_in true for a non-member"); if (g->is_this_thread_in()) fail("is_this_thread_in true for the driver"); if (g->is_thread_in(0)) fail("is_thread_in(0)"); };
  for (int s = 0; s < steps; s++) {
    unsigned op = pick(6);
    if (op <= 1) { Rec* r = new Rec; R.push_back(r); boost::thread* t = g->create_thread(Body(r)); in.push_back(M{t, r}); note("create_thread"); }
    else if (op == 2) { Rec* r = new Rec; R.push_back(r); boost::thread* t = new boost::thread((Body(r))); g->add_thread(t); in.push_back(M{t, r}); note("add_thread");
      if (chance(1, 3)) { bool threw = false; try { g->add_thread(t); } catch (boost::thread_resource_error&) { threw = true; } if (!threw) fail("a duplicated thread was added"); } }
    else if (op == 3 && !in.empty()) { int i = pick((unsigned)in.size()); note("remove_thread"); g->remove_thread(in[i].t); outside.push_back(in[i]); in.erase(in.begin() + i); }
    else if (op == 4 && !outside.empty()) { int i = pick((unsigned)outside.size()); note("remove_thread of a non-member"); g->remove_thread(outside[i].t); }
    else if (op == 5 && !in.empty()) { M m = in[pick((unsigned)in.size())]; if (!m.r->released) { note("release one"); m.r->released = true; m.r->gate.add(); } }
    check();
  }
  bool all = flip() || TERM;
  if (all) {
    note("join_all");
    Threads T; std::vector<Rec*>* pr = &R; T.add([pr] { for (auto r : *pr) { if (chance(1, 3)) sim::delay(MS); bool rel; { Ignore i; rel = r->released; r->released = true; } if (!rel) r->gate.add(); } });
    g->join_all(); for (auto& m : in) { check_finished(m.r, "join_all"); if (m.t->joinable()) fail("joinable after join_all"); }
    if (g->size() != in.size()) fail("join_all changed the size");
    T.join(); if (!in.empty()) nontrivial(); g->join_all();
  }
  delete g; note("group destroyed");
  for (auto r : R) if (!r->released) { r->released = true; r->gate.add(); }
  for (auto& m : outside) { m.t->join(); check_finished(m.r, "join"); delete m.t; }
  wait_quiescent();
  for (auto r : R) { if (!r->over() || r->alive) fail("a thread of the group ran %d times, %d callables alive", r->runs, r->alive); hb_acquire(r); delete r; }
  std::vector<Rec*>().swap(R); std::vector<M>().swap(in); std::vector<M>().swap(outside);
}
static void group_conc(bool overlap) {
  boost::thread_group* g = new boost::thread_group; Counter asked; Counter* pq = &asked; int nask = 0; int nt = range(1, 3); Threads T; int total = 0; int ran = 0; int* pr = &ran; Counter added; Counter* pa = &added; bool useint = flip();
#if !defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
  useint = false;
#endif
  for (int i = 0; i < nt; i++) {
    int k = range(1, 3); total += k; bool ask = flip(); if (ask) nask += k;
    T.add([=] {
      size_t last = 0;
      for (int q = 0; q < k; q++) {
        boost::thread* t = g->create_thread([=] { { Ignore ig; ++*pr; } if (ask) { pa->wait(1); if (!g->is_this_thread_in()) fail("is_this_thread_in() false inside a member"); pq->add(); }
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
          if (useint) { bool th = false; try { boost::this_thread::sleep_for(bc::hours(1000)); } catch (boost::thread_interrupted&) { th = true; } if (!th) fail("interrupt_all missed a thread"); }
#endif
        });
        if (!g->is_thread_in(t)) fail("created thread is not in the group");
        size_t n = g->size(); if (n < last + 1) fail("size() went from %zu to %zu after create_thread", last, n); last = n;
      }
    });
  }
  if (flip()) { T.add([=] { size_t n = g->size(), m = g->size(); if (m < n) fail("size() decreased"); if (g->is_this_thread_in()) fail("is_this_thread_in() true outside"); }); }
  T.join(); if ((int)g->size() != total) fail("size() = %d after %d create_thread calls", (int)g->size(), total);
  added.add(); if (!overlap) asked.wait(nask);
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
  if (useint) { if (flip()) wait_quiescent(); g->interrupt_all(); }
#endif
  g->join_all(); if (ran != total) fail("join_all returned after %d of %d threads", ran, total);
  delete g; nontrivial();
}
SCENARIO(group_concurrent, 2) { group_conc(false); }
SCENARIO(kf_group_query_during_join_all, 0) { group_conc(true); }
// ---- scoped owners
template <class C> static const char* cname();
template <> const char* cname<boost::detach>() { return "detach"; } template <> const char* cname<boost::join_if_joinable>() { return "join_if_joinable"; }
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
template <> const char* cname<boost::interrupt_and_join_if_joinable>() { return "interrupt_and_join_if_joinable"; }
#endif
struct Sleeper { Rec* r; bool sleep; void operator()() const { Body b(r); b();
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
  if (sleep) boost::this_thread::sleep_for(bc::seconds(100));
#endif
} };
template <class C, int KIND> static void scoped_use(bool detaches, bool interrupts) {   // KIND 0 scoped_thread 1 strict_scoped_thread 2 thread_guard
  Rec* r = new Rec; Rec* r2 = new Rec; bool thrown = false, exc = flip(), early = flip(), pre = flip(); r->end_by_int = r2->end_by_int = false; int64_t d = early ? 0 : SEC;
  note("%s<%s>", KIND == 0 ? "scoped_thread" : KIND == 1 ? "strict_scoped_thread" : "thread_guard", cname<C>());
  Threads T; T.add([=] { if (d) sim::delay(d); r->gate.add(); r2->gate.add(); });
  bool second = false, empty = false; bool slept = interrupts && flip(); int64_t t0 = mono_now();
  Sleeper f = {r, slept};
  bool* ps = &second, *pe = &empty;
  bool outer = false;
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
  outer = chance(1, 3) && !exc;
#endif
  auto body = [=] {
    if (KIND == 0) {
      boost::scoped_thread<C> s(f); if (!s.joinable()) fail("scoped_thread of a running thread is not joinable"); boost::thread::id id = s.get_id();
      unsigned k = pick(outer ? 2 : 6);
      if (k == 1) { boost::scoped_thread<C> s2(boost::move(s)); if (s.joinable() || !(s2.get_id() == id)) fail("moving a scoped_thread"); s.swap(s2); if (!(s.get_id() == id) || s2.joinable()) fail("swapping scoped_threads"); }
      else if (k == 2) { s.join(); check_finished(r, "scoped_thread::join"); if (s.joinable()) fail("joinable after join"); *pe = true; }
      else if (k == 3) { boost::scoped_thread<C> s2((boost::thread(Body(r2)))); *ps = true; s2 = boost::move(s); if (!detaches) check_finished(r2, "scoped_thread move assignment"); if (!(s2.get_id() == id) || s.joinable()) fail("move assignment of scoped_thread"); }
      else if (k == 5) {                  // assignment of an owner of nothing
        boost::thread none; boost::scoped_thread<C> s2(boost::move(none)); if (flip()) { boost::scoped_thread<C> s3; s = boost::move(s3); } else s = boost::move(s2);
        if (s.joinable()) fail("move assignment of an empty scoped_thread"); if (!detaches) check_finished(r, "scoped_thread move assignment");
        boost::thread::id none_id; if (!(s.get_id() == none_id)) fail("id of an empty scoped_thread");
        *pe = true;
      }
      else if (k == 4) { s.detach(); if (s.joinable()) fail("joinable after detach"); *pe = true; if (exc) throw 7; return; }
      if (exc) throw 7;
    } else if (KIND == 1) {
      if (pre) { boost::thread t(f); boost::strict_scoped_thread<C> s(boost::move(t)); if (t.joinable()) fail("not moved"); if (exc) throw 7; }
      else { boost::strict_scoped_thread<C> s(f); if (exc) throw 7; }
    } else {
      boost::thread t(f); { boost::thread_guard<C> g(t); if (!t.joinable()) fail("guard"); if (exc) { try { boost::thread_guard<C> g2(t); throw 7; } catch (int) { } if (t.joinable()) fail("thread_guard left the thread joinable"); throw 7; } }
      if (t.joinable()) fail("thread_guard left the thread joinable");
    }
    (void)pe;
  };
  // detach() on an empty thread is harmless, so the empty cases need no special care
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
  if (outer) {     // the owner is interrupted while its scope joins: it must not escape from the destructor
    boost::thread o([&] { try { body(); } catch (boost::thread_interrupted&) { fail("thread_interrupted escaped from a scoped owner's destructor"); } }); if (flip()) wait_quiescent(); o.interrupt(); o.join();
  } else
#endif
  try { body(); } catch (int) { thrown = true; }
  if (exc && !thrown) fail("exception swallowed");
  bool det; { Ignore i; det = detaches; }
  if (!det && !empty) { check_finished(r, cname<C>()); if (interrupts && slept && mono_now() - t0 > 50 * SEC) fail("interrupt_and_join did not interrupt"); }
  T.join(); wait_quiescent(); (void)second;
  if (detaches || empty) sim::delay(200 * SEC), wait_quiescent();
  if (!r->over() || r->alive) fail("thread ran %d times", r->runs);
  if (second && (!r2->over() || r2->alive)) fail("second thread ran %d times", r2->runs);
  hb_acquire(r); hb_acquire(r2); delete r; delete r2; nontrivial();
}
SCENARIO(scoped, 3) {
  check_leaks(true);
  allow_early_time(false);
  unsigned w = pick(3);
  switch (pick(3)) {
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
    case 2: w == 0 ? scoped_use<boost::interrupt_and_join_if_joinable, 0>(false, true) : w == 1 ? scoped_use<boost::interrupt_and_join_if_joinable, 1>(false, true) : scoped_use<boost::interrupt_and_join_if_joinable, 2>(false, true); break;
#endif
    case 1: w == 0 ? scoped_use<boost::detach, 0>(true, false) : w == 1 ? scoped_use<boost::detach, 1>(true, false) : scoped_use<boost::detach, 2>(true, false); break;
    default: w == 0 ? scoped_use<boost::join_if_joinable, 0>(false, false) : w == 1 ? scoped_use<boost::join_if_joinable, 1>(false, false) : scoped_use<boost::join_if_joinable, 2>(false, false);
  }
}
// ---- documented termination
SCENARIO(terminates, 1) {
  unsigned k = pick(3);
  if (k == 0) { note("uncaught exception"); boost::thread t([] { expect_terminate(true); nontrivial(); throw 42; }); t.join(); fail("an uncaught exception did not terminate"); }
  if (!TERM) return;
  Counter go; Counter* g = &go;
  boost::thread* t = new boost::thread([g] { g->wait(1); });
  if (flip()) wait_quiescent();
  expect_terminate(true); nontrivial();
  if (k == 1) { note("destruction of a joinable thread"); delete t; fail("destroying a joinable thread did not terminate"); }
  note("move assignment to a joinable thread"); *t = boost::thread(); fail("assigning to a joinable thread did not terminate");
}
int main(int argc, char** argv) { slot(); return pbt_main(argc, argv, "non-trivial: a join returned success (or a thread ended) and its effects were checked"); }
