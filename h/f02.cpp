// F02: packaged_task, async and make_*_future deliver the callable's own outcome exactly once
#include "futil.h"
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#endif
using boost::packaged_task;
#if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined BOOST_THREAD_PROVIDES_VARIADIC_THREAD
#define WITH_ARGS 1
template <class R> struct PTask { typedef packaged_task<R(int, Val, Mo)> type; };
#define CALL_ARGS(a) a, Val((a) + 1), Mo((a) + 2)
#define SIG_ARGS int a, Val b, Mo c
#define CHECK_ARGS(pl) do { int w; { Ignore ig; w = (pl)->arg; } if (a != w || Tr<Val>::got(b) != w + 1 || c.id() != w + 2) fail("the callable received (%d,%d,%d) instead of (%d,%d,%d)", a, b.id, c.id(), w, w + 1, w + 2); } while (0)
#else
#define WITH_ARGS 0
#ifdef BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
template <class R> struct PTask { typedef packaged_task<R()> type; };
#else
template <class R> struct PTask { typedef packaged_task<R> type; };
#endif
#define CALL_ARGS(a)
#define SIG_ARGS
#define CHECK_ARGS(pl) (void)0
#endif
template <class R> R make(int id);
template <> Val make<Val>(int id) { return Val(id); }
template <> Mo make<Mo>(int id) { return Mo(id); }
template <> int& make<int&>(int id) { return cells[id & 63]; }
template <> void make<void>(int) {}

struct Plan { int calls, running, behaviour, id, arg, live, fid; Counter* gate; Counter* entered; int pre[64]; };
static void enter(Plan* p) {
  Counter *g, *e; int b, id;
  { Ignore i; p->calls++; if (p->running++) fail("the callable is entered twice at once"); p->fid = fid(); g = p->gate; e = p->entered; b = p->behaviour; id = p->id; }
  p->pre[id & 63] = id;                                     // plain data: must be visible to whoever sees the result
  if (e) e->add(); if (g) g->wait(1);
  point();
  hb_release(p); { Ignore i; p->running--; }
  if (b == 1) throw boost::enable_current_exception(Ex1(id));
  if (b == 2) throw boost::enable_current_exception(Ex2(id));
}
static int plan_code(Plan* p) { return p->behaviour == 1 ? 1000 + p->id : p->behaviour == 2 ? 2000 + p->id : p->id; }
template <class R> struct FnC {                    // copyable callable
  typedef R result_type;
  Plan* p; Val canary;
  explicit FnC(Plan* q) : p(q), canary(33) { Ignore i; p->live++; }
  FnC(const FnC& o) : p(o.p), canary(o.canary) { Ignore i; p->live++; }
  FnC(FnC&& o) : p(o.p), canary(std::move(o.canary)) { Ignore i; p->live++; }
  ~FnC() { hb_release(p); Ignore i; p->live--; }
  R operator()(SIG_ARGS) { if (canary.id != 33) fail("a moved-from or destroyed callable is invoked"); CHECK_ARGS(p); enter(p); if (canary.id != 33) fail("the callable was destroyed while it ran"); int id; { Ignore i; id = p->id; } return make<R>(id); }
};
template <class R> struct FnM {                    // move-only callable
  typedef R result_type;
  Plan* p; std::unique_ptr<int> canary;
  explicit FnM(Plan* q) : p(q), canary(new int(33)) { Ignore i; p->live++; }
  FnM(FnM&& o) : p(o.p), canary(std::move(o.canary)) { Ignore i; p->live++; }
  ~FnM() { hb_release(p); Ignore i; p->live--; }
  R operator()(SIG_ARGS) { if (!canary) fail("a moved-from callable is invoked"); CHECK_ARGS(p); enter(p); int id; { Ignore i; id = p->id; } return make<R>(id); }
};
static Plan* FP; // plan of the function-pointer callables
template <class R> static R fp_fn(SIG_ARGS) { CHECK_ARGS(FP); enter(FP); int id; { Ignore i; id = FP->id; } return make<R>(id); }

template <class R> typename PTask<R>::type* from_fp() { return new typename PTask<R>::type(&fp_fn<R>); }
#if WITH_ARGS
template <> PTask<int&>::type* from_fp<int&>() { return new PTask<int&>::type(FnC<int&>(FP)); }   // R&(*)(Args...) does not compile as a task
#endif
// ---------------------------------------------------------------- packaged_task histories against a model
template <class R> struct TH {
  typedef typename PTask<R>::type T; typedef typename Fut<R>::type F; typedef shared_future<R> S;
  static const int NT = 3, NF = 4, NW = 4;
  struct St { Plan* plan; bool started, running, ready, is_ex, consumed, exit_pending, cb; int res, cb_calls, cb_action; T* cb_addr; };
  struct TS { T* t; int st; bool got, busy; } ts[NT];
  struct FS { F* u; S* s; int st; int busy; } fs[NF];
  struct Pend { bool active; int what, slot; bool timed; int64_t deadline; int out; } pend[NW];
  struct Run { bool active; int st, ti; int out; Counter *gate, *entered; } run;
  std::vector<St*> sts; std::vector<Plan*> plans;
  struct Exiter { bool used, live; Counter *setdone, *go; boost::thread* t; int st, out; } ex;
  TH() { for (auto& x : ts) x = TS{0, -1, false, false}; for (auto& x : fs) x = FS{0, 0, -1, 0}; for (auto& x : pend) x.active = false; run.active = false; ex.used = ex.live = false; }
  int nst(Plan* p) { St* s = new St(); *s = St{p, false, false, false, false, false, false, false, 0, 0, 0, 0}; sts.push_back(s); return (int)sts.size() - 1; }
  void outcome_of(int i) { St& s = *sts[i]; s.res = plan_code(s.plan); s.is_ex = s.plan->behaviour != 0; if (!s.is_ex) s.res = std::is_void<R>::value ? 0 : s.res; }
  void done(int i) { outcome_of(i); sts[i]->ready = true; }
  void broken(int i) { if (i < 0) return; St& s = *sts[i]; if (!s.started) { s.started = true; s.ready = true; s.res = BROKEN; s.is_ex = true; } }
};
template <class R> struct TCb { typedef void result_type; TH<R>* h; int s; void operator()(typename TH<R>::T& t) const {
  bool doit; { Ignore i; auto& st = *h->sts[s]; st.cb_calls++; if (st.cb_addr != &t) fail("wait callback called with another task"); if (st.ready) fail("wait callback called although ready"); doit = st.cb_action && !st.started; if (doit) { st.started = true; h->done(s); st.plan->arg = 5; } }
  if (doit) t(CALL_ARGS(5)); } };
template <class R> static void history() {
  typedef TH<R> H; typedef typename H::T T; typedef typename H::F F; typedef typename H::S S;
  check_leaks(true);
  Priv<H> hp; H& h = *hp; Workers w(H::NW); allow_spurious(pick(3));
  int nops = range(3, 14); bool blocked_some = false, multi = false; int nextid = 1;
  auto freew = [&]() -> int { for (int i = 0; i < H::NW; i++) if (!w.busy(i) && !h.pend[i].active) return i; return -1; };
  auto expected = [&](typename H::FS& f, int what) -> int { auto& t = *h.sts[f.st];
    switch (what) { case W_GET: return t.res; case W_GETOR: return t.is_ex ? 7 : t.res; case W_EXPTR: return t.is_ex ? t.res : -2; case W_WAIT: return -3; default: return READY; } };
  auto after = [&](int slot, int what, int got) {
    auto& f = h.fs[slot]; auto& t = *h.sts[f.st]; int want = expected(f, what);
    if (got != want) fail("%s returned %d instead of %d", wt_name[what], got, want);
    if (got < 64 && got > 0 && what == W_GET && t.plan->pre[got] != got) fail("what the callable wrote is not visible");
    if (f.u && (what == W_GET || what == W_GETOR)) { delete f.u; Ignore i; f.u = 0; f.st = -1; }
  };
  auto settle = [&] {
    wait_quiescent();
    for (int i = 0; i < H::NW; i++) { auto& p = h.pend[i]; if (!p.active) continue; auto& f = h.fs[p.slot]; auto& t = *h.sts[f.st];
      if (!w.busy(i)) { hb_acquire(&p);
        { Ignore g; p.active = false; f.busy--; }
        if (p.timed && p.out == TIMEOUT) { if (mono_now() < p.deadline) fail("%s timed out early", wt_name[p.what]); }
        else if (!t.ready) fail("%s returned %d although the callable has not finished", wt_name[p.what], p.out);
        else after(p.slot, p.what, p.out);
      } else { if (t.ready) fail("%s still blocks although the task has run", wt_name[p.what]); blocked_some = true; } }
  };
  auto observe = [&](int slot) {
    auto& f = h.fs[slot]; if (!f.u && !f.s) return; auto& t = *h.sts[f.st];
    bool v = f.u ? f.u->valid() : f.s->valid(), r = f.u ? f.u->is_ready() : f.s->is_ready(), hv = f.u ? f.u->has_value() : f.s->has_value(), he = f.u ? f.u->has_exception() : f.s->has_exception();
    if (!v || r != t.ready || hv != (t.ready && !t.is_ex) || he != (t.ready && t.is_ex)) fail("future reports valid=%d ready=%d value=%d exception=%d; the task is %s%s", v, r, hv, he, t.ready ? "done" : "not done", t.is_ex ? " with an exception" : "");
  };
  auto set_plan = [&](Plan* p) { Ignore i; p->behaviour = weighted((const unsigned[]){3, 1, 1}, 3); p->id = 1 + nextid++ % 60; p->arg = range(0, 40); };
  auto finish_run = [&] {
    auto& r = h.run; r.gate->add(); wait_quiescent(); hb_acquire(&r);
    if (r.out) fail("the first invocation gave %d", r.out);
    { Ignore i; h.done(r.st); h.sts[r.st]->running = false; r.active = false; h.ts[r.ti].busy = false; h.sts[r.st]->plan->gate = h.sts[r.st]->plan->entered = 0; }
    delete r.gate; delete r.entered; note("the running callable finishes");
  };
  auto finish_exit = [&] { auto& e = h.ex; note("the thread exits"); e.go->add(); e.t->join(); delete e.t; delete e.setdone; delete e.go; Ignore i; e.live = false; if (e.st >= 0) { h.sts[e.st]->ready = true; h.sts[e.st]->exit_pending = false; } };
  for (int op = 0; op < nops; op++) {
    unsigned k = pick(15); int ti = pick(H::NT), fi = pick(H::NF); auto& t = h.ts[ti]; auto& f = h.fs[fi];
    if (k <= 2) {
      if (!t.t) {                                        // create
        unsigned m = pick(6); Plan* p; { Ignore i; p = new Plan(); h.plans.push_back(p); } note("t%d: create kind %u", ti, m);
        T* x;
        if (m == 0) { x = new T(); }
        else if (m == 1) { FnC<R> fn(p); x = new T(fn); if (fn.canary.id != 33) fail("constructing a task from an lvalue moves it"); }
        else if (m == 2) x = new T(FnC<R>(p));
        else if (m == 3 || FP) x = new T(FnM<R>(p));
        else if (m == 4) { { Ignore i; FP = p; } x = from_fp<R>(); }
        else {
#ifdef BOOST_THREAD_PROVIDES_FUTURE_CTOR_ALLOCATORS
          x = new T(boost::allocator_arg, std::allocator<int>(), FnC<R>(p));
#else
          x = new T(FnC<R>(p));
#endif
        }
        Ignore i; t.t = x; t.st = m ? h.nst(p) : -1; t.got = false;
      } else if (!f.busy) {
        bool shared = flip(); int want = t.st < 0 ? E_MOVED : t.got ? E_RETRIEVED : 0; F* nu = 0; S* ns = 0; note("f%d = t%d.get_future()%s", fi, ti, shared ? ".share()" : "");
        int got = outcome([&] { F x(t.t->get_future()); if (shared) ns = new S(x.share()); else nu = new F(boost::move(x)); return 0; });
        if (got != want) fail("get_future gave %d instead of %d", got, want);
        if (!want) { delete f.u; delete f.s; Ignore i; f.u = nu; f.s = ns; f.st = t.st; t.got = true; }
      }
    } else if (k <= 5) {                                 // invoke
      if (!t.t) continue;
      if (t.st >= 0 && !h.sts[t.st]->started) set_plan(h.sts[t.st]->plan);
      int want = t.st < 0 ? E_MOVED : h.sts[t.st]->started ? E_STARTED : 0; int before = t.st >= 0 ? h.sts[t.st]->plan->calls : 0, arg = t.st >= 0 ? h.sts[t.st]->plan->arg : 0;
      int fw = freew(); bool block = !want && !h.run.active && chance(1, 3) && fw >= 0;
      if (block) {
        note("t%d() on a worker, blocking", ti); Plan* p = h.sts[t.st]->plan; auto* g = new Counter; auto* e = new Counter;
        { Ignore i; p->gate = g; p->entered = e; h.run = typename H::Run{true, t.st, ti, -1, g, e}; h.sts[t.st]->started = h.sts[t.st]->running = true; t.busy = true; }
        T* x = t.t; w.post(fw, [&h, x, arg] { int o = outcome([&] { (*x)(CALL_ARGS(arg)); return 0; }); (void)arg; hb_release(&h.run); Ignore i; h.run.out = o; });
        e->wait(1);
      } else {
        note("t%d()", ti); int got = 0; bool other = fw >= 0 && flip(); T* x = t.t;
        auto act = [&got, x, arg] { int o = outcome([&] { (*x)(CALL_ARGS(arg)); return 0; }); (void)arg; hb_release(&got); Ignore i; got = o; };
        if (other) { w.post(fw, act); wait_quiescent(); if (w.busy(fw)) fail("invoking blocks"); hb_acquire(&got); } else act();
        if (got != want) fail("invoking gave %d instead of %d", got, want);
        if (!want) { Ignore i; h.sts[t.st]->started = true; h.done(t.st); if (h.sts[t.st]->plan->calls != before + 1) fail("the callable was called %d times", h.sts[t.st]->plan->calls - before); if (h.sts[t.st]->plan->fid != (other ? w.fid(fw) : 0)) fail("the callable ran on another thread"); }
        else if (t.st >= 0 && h.sts[t.st]->plan->calls != before) fail("a refused invocation called the callable");
      }
    } else if (k == 6) {                                 // reset
      if (!t.t || t.busy) continue; int want = t.st < 0 ? E_MOVED : 0; note("t%d.reset()", ti);
      if (t.st >= 0 && h.sts[t.st]->cb && !h.sts[t.st]->ready) { bool someone = false; for (auto& p : h.pend) if (p.active && h.fs[p.slot].st == t.st) someone = true; if (someone) continue; }
      int got = outcome([&] { t.t->reset(); return 0; });
      if (got != want) fail("reset gave %d instead of %d", got, want);
      if (!want) { Ignore i; h.broken(t.st); t.st = h.nst(h.sts[t.st]->plan); t.got = false; label("reset"); multi = true; }
    } else if (k == 7) {                                 // destroy, move, swap
      if (!t.t || t.busy) continue; int qi = pick(H::NT); auto& q = h.ts[qi]; unsigned m = pick(3);
      if (m == 0 || !q.t || qi == ti) { note("destroy t%d", ti); T* d = t.t; { Ignore i; t.t = 0; h.broken(t.st); t.st = -1; } delete d; }
      else if (q.busy || (t.st >= 0 && h.sts[t.st]->cb) || (q.st >= 0 && h.sts[q.st]->cb)) continue;
      else if (m == 1) { note("t%d = move(t%d)", qi, ti); { Ignore i; h.broken(q.st); } *q.t = boost::move(*t.t); Ignore i; q.st = t.st; q.got = t.got; t.st = -1; t.got = false; }
      else { note("swap(t%d,t%d)", qi, ti); if (flip()) q.t->swap(*t.t); else { T tmp(boost::move(*t.t)); *t.t = boost::move(*q.t); *q.t = boost::move(tmp); } Ignore i; std::swap(q.st, t.st); std::swap(q.got, t.got); }
      if (t.t && t.t->valid() != (t.st >= 0)) fail("valid() is wrong after a move");
    } else if (k == 8) {                                 // at thread exit
      if (!t.t || t.busy || h.ex.used) continue;
      if (t.st >= 0 && !h.sts[t.st]->started) set_plan(h.sts[t.st]->plan);
      int arg = t.st >= 0 ? h.sts[t.st]->plan->arg : 0, before = t.st >= 0 ? h.sts[t.st]->plan->calls : 0; (void)arg;
      bool fresh = t.st >= 0 && !h.sts[t.st]->started; note("t%d.make_ready_at_thread_exit()", ti);
      auto& e = h.ex; { Ignore i; e.used = e.live = true; e.st = fresh ? t.st : -1; e.out = -1; } e.setdone = new Counter; e.go = new Counter; T* x = t.t;
      e.t = new boost::thread([&h, x, arg] { int o = outcome([&] { x->make_ready_at_thread_exit(CALL_ARGS(arg)); return 0; }); { Ignore i; h.ex.out = o; } h.ex.setdone->add(); h.ex.go->wait(1); });
      e.setdone->wait(1);
      bool ok = fresh ? e.out == 0 : t.st < 0 ? e.out == E_MOVED : e.out == E_STARTED || e.out == E_SATISFIED;
      if (!ok) fail("make_ready_at_thread_exit gave %d", e.out);
      if (t.st >= 0 && h.sts[t.st]->plan->calls != before + fresh) fail("make_ready_at_thread_exit called the callable %d times", h.sts[t.st]->plan->calls - before);
      if (fresh) { Ignore i; auto& s = *h.sts[t.st]; s.started = true; s.exit_pending = true; h.outcome_of(t.st); }
      label("at_thread_exit");
    } else if (k == 9) { if (h.ex.live && flip()) finish_exit(); else if (h.run.active) finish_run(); else if (h.ex.live) finish_exit(); }
    else if (k == 10) {                                  // wait callback
      if (!t.t || t.busy) continue; if (t.st < 0) { if (outcome([&] { t.t->set_wait_callback(TCb<R>{&h, 0}); return 0; }) != E_MOVED) fail("set_wait_callback on an empty task does not raise task_moved"); continue; }
      auto& s = *h.sts[t.st]; bool someone = false; for (auto& p : h.pend) if (p.active && h.fs[p.slot].st == t.st) someone = true; if (someone) continue;
      if (!s.started) set_plan(s.plan);
      { Ignore i; s.cb = true; s.cb_addr = t.t; s.cb_action = flip(); } note("t%d.set_wait_callback(%d)", ti, s.cb_action); t.t->set_wait_callback(TCb<R>{&h, t.st});
    } else {                                             // wait
      if ((!f.u && !f.s) || f.busy) continue; auto& s = *h.sts[f.st];
      unsigned what = pick(6); if (what == W_GETOR && (!Tr<R>::has_or || (f.s && std::is_same<R, Mo>::value))) what = W_GET;
      if (s.cb && s.running) continue;
      int64_t d = pick64(-1000000, 3000000000ll); int pre = s.cb_calls; bool was = s.ready, cb = s.cb; note("%s on f%d", wt_name[what], fi);
      F* u = f.u; S* sf = f.s; int fw = freew();
      if (was && (flip() || fw < 0)) { int o = outcome([&] { return u ? do_wait<R>(*u, what, d, 0, 7) : do_wait<R>(*sf, what, d, 0, 7); }); after(fi, what, o); }
      else if (fw >= 0) {
        auto& q = h.pend[fw]; { Ignore i; q.active = true; q.what = what; q.slot = fi; q.timed = what >= W_FOR; q.deadline = mono_now() + d; f.busy++; }
        w.post(fw, [&h, fw, u, sf, what, d] { int o = outcome([&] { return u ? do_wait<R>(*u, what, d, 0, 7) : do_wait<R>(*sf, what, d, 0, 7); }); hb_release(&h.pend[fw]); Ignore i; h.pend[fw].out = o; });
      } else continue;
      wait_quiescent(); if (s.cb_calls - pre != (cb && !was ? 1 : 0)) fail("the wait callback was called %d times", s.cb_calls - pre);
    }
    settle(); observe(pick(H::NF));
    if (chance(1, 8)) { int64_t d = pick64(0, 2000000000ll); note("time passes: %lld", (long long)d); delay(d); settle(); }
  }
  if (blocked_some || multi) nontrivial();
  if (h.run.active) finish_run(); if (h.ex.live) finish_exit();
  for (auto& t : h.ts) if (t.t) { { Ignore i; h.broken(t.st); } delete t.t; Ignore i; t.t = 0; t.st = -1; }
  settle(); for (int i = 0; i < H::NF; i++) observe(i);
  for (auto& q : h.pend) if (q.active) fail("%s blocks at the end", wt_name[q.what]);
  w.finish();
  for (auto& f : h.fs) { delete f.u; delete f.s; }
  for (auto p : h.plans) if (p->live) fail("%d callables are still alive", p->live);
  Ignore i; FP = 0; for (auto s : h.sts) delete s; for (auto p : h.plans) delete p; std::vector<typename H::St*>().swap(h.sts); std::vector<Plan*>().swap(h.plans);
}
SCENARIO(task_value, 4) { FP = 0; history<Val>(); }
SCENARIO(task_moveonly, 2) { FP = 0; history<Mo>(); }
SCENARIO(task_ref, 2) { FP = 0; history<int&>(); }
SCENARIO(task_void, 2) { FP = 0; history<void>(); }

// ---------------------------------------------------------------- racing invocations of one task
template <class R> static void task_race() {
  typedef typename PTask<R>::type T; typedef shared_future<R> S; check_leaks(true);
  Priv<Plan> pl; Plan* p = &*pl; *p = Plan(); p->behaviour = pick(3); p->id = range(1, 60); p->arg = 5; FP = p;
  T* t; if (flip()) t = new T(FnM<R>(p)); else if (flip()) t = new T(FnC<R>(p)); else t = from_fp<R>();
  bool race_future = false; S* sf = new S(t->get_future().share()); (void)race_future; allow_spurious(pick(3)); if (flip()) allow_early_time(true);
  int ni = range(1, 3), nr = range(1, 3), ok = 0, started = 0; nontrivial(ni > 1 || nr > 1); int outs[3] = {-99, -99, -99}; bool drop = chance(1, 6); if (drop) ni = 1;
  Counter inv; Threads th; bool atexit[3]; for (auto& a : atexit) a = chance(1, 4);
  for (int i = 0; i < nr; i++) { S* c = new S(*sf); int n = range(0, 3); unsigned w[4]; for (auto& x : w) x = pick(7); int64_t d = pick64(0, 1000000);
    th.add([&, i, c, n, w, d] { bool seen = false;
      for (int k = 0; k < n; k++) { int o = w[k] < 5 ? outcome([&] { return do_wait<R>(*c, w[k] == W_GETOR ? (unsigned)W_GET : w[k], d, 0, 7); }) : c->is_ready() ? READY : TIMEOUT;
        if (o == TIMEOUT) { if (seen) fail("not ready after ready"); continue; } seen = true; if (!drop) { Ignore g; if (!p->calls || p->running) fail("ready although the callable has not finished"); } }
      int o = outcome([&] { return Tr<R>::get(*c); }); { Ignore g; outs[i] = o; }
      if (!drop) { { Ignore g; if (!p->calls || p->running) fail("get returned although the callable has not finished"); } if (p->pre[p->id] != p->id) fail("what the callable wrote is not visible"); }
      delete c; }); }
  for (int i = 0; i < ni; i++) th.add([&, i] {
    if (drop) { delete t; inv.add(); return; }
    int o = outcome([&] { if (atexit[i]) t->make_ready_at_thread_exit(CALL_ARGS(5)); else (*t)(CALL_ARGS(5)); return 0; });
    { Ignore g; if (o == 0) ok++; else if (o == E_STARTED || (atexit[i] && o == E_SATISFIED)) started++; else fail("invoking gave %d", o); }
    inv.add(); });
  bool early = flip(); if (!drop && early) { inv.wait(ni); delete t; delete sf; }
  th.join(); if (!drop && !early) { delete t; delete sf; } if (drop) delete sf;
  if (!drop && (ok != 1 || started != ni - 1 || p->calls != 1)) fail("of %d invocations %d succeeded; the callable ran %d times", ni, ok, p->calls);
  int want = drop ? BROKEN : p->behaviour ? plan_code(p) : std::is_void<R>::value ? 0 : p->id;
  for (int i = 0; i < nr; i++) if (outs[i] != want) fail("a reader received %d instead of %d", outs[i], want);
  if (p->live) fail("%d callables are still alive", p->live);
}
SCENARIO(task_race_value, 3) { task_race<Val>(); }
SCENARIO(task_race_void, 1) { task_race<void>(); }
SCENARIO(task_race_ref, 1) { task_race<int&>(); }

// ---------------------------------------------------------------- async
#if WITH_ARGS
#define ASYNC_ARGS(x, y, z) , x, y, z
#else
#define ASYNC_ARGS(x, y, z)
#endif
template <class R> static void async_case() {
  typedef typename Fut<R>::type F; typedef shared_future<R> S; check_leaks(true); allow_spurious(pick(3)); if (flip()) allow_early_time(true);
  Priv<Plan> pl; Plan* p = &*pl; *p = Plan(); p->behaviour = weighted((const unsigned[]){3, 1, 1}, 3); p->id = range(1, 60); p->arg = range(0, 40); FP = p;
  int pol =
#if WITH_ARGS
    pick(4);   // default, async, deferred, any
#else
    pick(2);
#endif
  bool deferred = pol == 2; int kind = pick(3); Counter* gate = 0; if (chance(1, 3)) { gate = new Counter; Ignore i; p->gate = gate; }
  int a = p->arg; (void)a; Val v(a + 1); Mo m(a + 2); bool lv = flip();
  F* f = 0; int before = fiber_count(); (void)before;
  note("async policy %d, callable %d", pol, kind);
  {
    FnC<R> fn(p); int alv = a; (void)alv;
    auto launch = [&](boost::launch l, bool with) {
      F x;
#if WITH_ARGS
      if (kind == 0) { if (lv) x = with ? boost::async(l, fn, alv, v, boost::move(m)) : boost::async(fn, alv, v, boost::move(m)); else x = with ? boost::async(l, FnC<R>(p), a, Val(a + 1), Mo(a + 2)) : boost::async(FnC<R>(p), a, Val(a + 1), Mo(a + 2)); }
      else if (kind == 1) { x = with ? boost::async(l, FnM<R>(p), alv, v, boost::move(m)) : boost::async(FnM<R>(p), alv, v, boost::move(m)); }
      else x = with ? boost::async(l, &fp_fn<R>, alv, v, boost::move(m)) : boost::async(&fp_fn<R>, alv, v, boost::move(m));
      if (v.id != a + 1) fail("async moved from an lvalue argument");
#else
      if (kind == 0) { if (lv) x = with ? boost::async(l, fn) : boost::async(fn); else x = with ? boost::async(l, FnC<R>(p)) : boost::async(FnC<R>(p)); }
      else if (kind == 1) x = with ? boost::async(l, FnM<R>(p)) : boost::async(FnM<R>(p));
      else x = with ? boost::async(l, &fp_fn<R>) : boost::async(&fp_fn<R>);
#endif
      F* n = new F(boost::move(x)); f = n;
    };
    launch(pol == 1 ? boost::launch::async : pol == 2 ? boost::launch::deferred : (boost::launch)(int(boost::launch::async) | int(boost::launch::deferred)), pol != 0);
    if (fn.canary.id != 33) fail("async moved from an lvalue callable");
    v = Val(99); alv = 98; { Ignore i; }                // decay copies: later changes must not be seen
  }
  if (!f->valid()) fail("async returned an invalid future");
  if (gate && !deferred) {                               // callable held: must not be ready
    if (f->is_ready() || f->has_value() || f->has_exception()) fail("ready although the callable has not finished");
    if (f->wait_for(bc::nanoseconds(range(0, 1000))) != boost::future_status::timeout) fail("a timed wait does not report a timeout although the callable has not finished");
  }
  if (deferred) {
    wait_quiescent(); if (p->calls) fail("a deferred callable was run by nobody's wait");
    for (int n = pick(3); n > 0; n--) { if (f->wait_for(bc::nanoseconds(pick64(0, 1000000))) != boost::future_status::deferred) fail("a timed wait on a deferred future does not report deferred"); if (p->calls) fail("a timed wait ran the deferred callable"); }
  }
  bool drop = chance(1, 6);
  if (drop) {
    label("dropped"); bool late = gate && flip(); if (gate && !late) gate->add(); Threads opener; if (late) opener.add([=] { gate->add(); });
    if (chance(1, 3)) { Counter* go = new Counter; F* x = f; boost::thread o([=] { { boost::this_thread::disable_interruption di; go->wait(1); } delete x; }); o.interrupt(); go->add(); o.join(); delete go; } else delete f;   // a pending interruption must not escape from the destructor
    opener.join(); wait_quiescent(); delay(1);
    if (p->calls != (deferred ? 0 : 1)) fail("after the future was dropped the callable ran %d times", p->calls);
    hb_acquire(p);
  } else {
    nontrivial(); int nr = range(1, 3); S* sf = new S(f->share()); delete f; int outs[3]; int first = -1; bool selfq = false; (void)selfq; Threads th; int fids[3];
    for (int i = 0; i < nr; i++) { S* c = new S(*sf); bool own = flip(); int nt = pick(2); int64_t d = pick64(0, 100000); unsigned what = pick(3);
      fids[i] = th.add([&, i, c, own, nt, d, what] { (void)own;
        for (int k = 0; k < nt; k++) { bool fin; { Ignore g; fin = p->calls && !p->running; } auto s = c->wait_for(bc::nanoseconds(d)); Ignore g; if (s == boost::future_status::deferred && (!deferred || fin)) fail("a timed wait reports deferred for a %s future", deferred ? "finished" : "non-deferred"); if (s == boost::future_status::ready && (!p->calls || p->running)) fail("ready although the callable has not finished"); }
        if (what == 1) c->wait(); else if (what == 2) { boost::exception_ptr e = c->get_exception_ptr(); if ((bool)e != (p->behaviour != 0)) fail("get_exception_ptr is wrong"); }
        { Ignore g; if (what && (!p->calls || p->running)) fail("wait returned although the callable has not finished"); }
        int o = outcome([&] { return Tr<R>::get(*c); }); { Ignore g; outs[i] = o; if (!p->calls || p->running) fail("get returned although the callable has not finished"); if (first < 0) first = i; }
        if (p->pre[p->id] != p->id) fail("what the callable wrote is not visible");
        delete c; }); }
    if (gate) { if (flip()) { wait_quiescent(); if (sf->is_ready() || sf->has_value() || sf->has_exception()) fail("ready although the callable has not finished"); auto s = sf->wait_for(bc::nanoseconds(100)); if (s == boost::future_status::ready) fail("a timed wait reports ready although the callable has not finished"); } gate->add(); }
    else if (deferred) for (int i = pick(3); i > 0; i--) { bool r = sf->is_ready(); Ignore g; if (r && (!p->calls || p->running)) fail("a deferred future is ready although its callable has not finished"); }
    th.join();
    int want = p->behaviour ? plan_code(p) : std::is_void<R>::value ? 0 : p->id;
    for (int i = 0; i < nr; i++) if (outs[i] != want) fail("a reader received %d instead of %d", outs[i], want);
    if (!sf->is_ready()) fail("not ready after get");
    delete sf;
    if (p->calls != 1) fail("the callable ran %d times", p->calls);
    bool reader = false; for (int i = 0; i < nr; i++) if (fids[i] == p->fid) reader = true;
    if (pol == 1 && (reader || p->fid == 0)) fail("launch::async ran the callable on a waiting thread");
    if (deferred && !reader) fail("launch::deferred ran the callable on a thread that did not wait");
  }
  wait_quiescent(); delay(1); wait_quiescent(); hb_acquire(p); if (gate) delete gate;
  if (p->live) fail("%d callables are still alive", p->live);
}
SCENARIO(async_value, 4) { async_case<Val>(); }
SCENARIO(async_ref, 2) { async_case<int&>(); }
SCENARIO(async_void, 2) { async_case<void>(); }

#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
// ---------------------------------------------------------------- async on an executor
struct Execs { unsigned kind; boost::basic_thread_pool* pool; boost::inline_executor* inl; boost::loop_executor* loop; boost::thread_executor* thr; };
template <class R> static void async_exec() {
  typedef typename Fut<R>::type F; check_leaks(true); allow_spurious(pick(3)); if (flip()) allow_early_time(true);
  unsigned kind = pick(4); int n = range(1, 3); nontrivial(n > 1 || kind != 1);
  boost::basic_thread_pool* pool = kind == 0 ? new boost::basic_thread_pool(range(1, 2)) : 0; boost::inline_executor* inl = kind == 1 ? new boost::inline_executor : 0;
  boost::loop_executor* loop = kind == 2 ? new boost::loop_executor : 0; boost::thread_executor* thr = kind == 3 ? new boost::thread_executor : 0;
  Plan* ps[3]; F* fs[3]; note("executor %u, %d tasks", kind, n); { Ignore i; FP = 0; }
  for (int j = 0; j < n; j++) {
    Plan* p; { Ignore i; p = new Plan(); ps[j] = p; p->behaviour = weighted((const unsigned[]){3, 1, 1}, 3); p->id = range(1, 60); p->arg = range(0, 40); }
    int a = p->arg; Val v(a + 1); FnC<R> fn(p); unsigned ck = pick(3); F x;
    if (ck == 1 && FP) ck = 2; if (ck == 1) { Ignore i; FP = p; }
#define ON(e) do { if (ck == 0) x = boost::async(*e, fn, a, v, Mo(a + 2)); else if (ck == 1) x = boost::async(*e, &fp_fn<R>, a, v, Mo(a + 2)); else x = boost::async(*e, FnM<R>(p), a, v, Mo(a + 2)); } while (0)
    if (pool) ON(pool); else if (inl) ON(inl); else if (loop) ON(loop); else ON(thr);
    if (v.id != a + 1 || fn.canary.id != 33) fail("async moved from an lvalue argument");
    v = Val(99); fs[j] = new F(boost::move(x));
    if (inl) { if (!fs[j]->is_ready() || p->calls != 1 || p->fid != 0) fail("the inline executor did not run the callable in the calling thread"); }
    if (loop && (p->calls || fs[j]->is_ready())) fail("the loop executor ran a task before loop()");
  }
  if (loop) { if (flip()) loop->run_queued_closures(); else { loop->close(); loop->loop(); } }
  for (int k = 0; k < n; k++) { int j = flip() ? k : n - 1 - k; if (!fs[j]) j = 0; while (!fs[j]) j++; Plan* p = ps[j];
    int o = outcome([&] { return Tr<R>::get(*fs[j]); }); int want = p->behaviour ? plan_code(p) : std::is_void<R>::value ? 0 : p->id;
    if (o != want) fail("get gave %d instead of %d", o, want);
    { Ignore g; if (p->calls != 1 || p->running) fail("get returned although the callable has run %d times", p->calls); if ((inl || loop) && p->fid) fail("run on another thread"); if ((pool || thr) && !p->fid) fail("run on the calling thread"); }
    if (p->pre[p->id] != p->id) fail("what the callable wrote is not visible");
    delete fs[j]; fs[j] = 0; }
  delete pool; delete inl; delete loop; delete thr; wait_quiescent(); delay(1); wait_quiescent();
  for (int j = 0; j < n; j++) { hb_acquire(ps[j]); if (ps[j]->live) fail("%d callables are still alive", ps[j]->live); Ignore i; delete ps[j]; }
}
SCENARIO(exec_value, 2) { async_exec<Val>(); }
SCENARIO(exec_void, 1) { async_exec<void>(); }
#endif
// ---------------------------------------------------------------- ready-made futures
SCENARIO(ready_made, 2) {
  check_leaks(true); unsigned k = pick(12); int id = range(1, 60); note("kind %u", k); nontrivial();
  auto expect = [&](int got, int want) { if (got != want) fail("the future yields %d instead of %d", got, want); };
  auto chk = [&](bool valid, bool ready, bool hv, bool he, bool ex) { if (!valid || !ready || hv == ex || he != ex) fail("a ready-made future reports valid=%d ready=%d value=%d exception=%d", valid, ready, hv, he); };
#define CHK(f, ex) chk(f.valid(), f.is_ready(), f.has_value(), f.has_exception(), ex)
  switch (k) {
    case 0: { Val v(id); Fut<Val>::type f(boost::make_ready_future(v)); if (v.id != id) fail("make_ready_future changed its lvalue argument"); CHK(f, false); expect(Tr<Val>::get(f), id); break; }
    case 1: { Fut<Val>::type f(boost::make_ready_future(Val(id))); CHK(f, false); expect(Tr<Val>::get(f), id); break; }
    case 2: { Fut<Mo>::type f(boost::make_ready_future(Mo(id))); CHK(f, false); expect(Tr<Mo>::get(f), id); break; }
    case 3: { Fut<void>::type f(boost::make_ready_future()); CHK(f, false); f.get(); break; }
    case 4: { Fut<int&>::type f(boost::make_ready_future<int&>(cells[id])); CHK(f, false); expect(Tr<int&>::get(f), id); break; }
    case 5: { Fut<Val>::type f(boost::make_ready_future<Val>(id)); CHK(f, false); expect(Tr<Val>::get(f), id); break; }
    case 6: { Fut<Val>::type f(boost::make_exceptional_future<Val>(Ex1(id))); CHK(f, true); expect(outcome([&] { return Tr<Val>::get(f); }), 1000 + id); break; }
    case 7: { Fut<void>::type f(boost::make_exceptional_future<void>(boost::copy_exception(Ex2(id)))); CHK(f, true); expect(outcome([&] { f.get(); return 0; }), 2000 + id); break; }
    case 8: { Fut<int&>::type* f = 0; try { throw boost::enable_current_exception(Ex1(id)); } catch (...) { f = new Fut<int&>::type(boost::make_exceptional_future<int&>()); } CHK((*f), true); expect(outcome([&] { return Tr<int&>::get(*f); }), 1000 + id); delete f; break; }
    case 9: { shared_future<Val> f(boost::make_shared_future(Val(id))); shared_future<Val> g(f); CHK(g, false); expect(Tr<Val>::get(f), id); expect(Tr<Val>::get(g), id); break; }
    case 10: { shared_future<void> f(boost::make_shared_future()); CHK(f, false); expect(outcome([&] { f.get(); return 0; }), 0); break; }
    case 11: { Val v(id); Fut<Val>::type f(boost::make_future(v)); if (v.id != id) fail("make_future changed its lvalue argument"); CHK(f, false); expect(Tr<Val>::get(f), id); break; }
  }
}
int main(int argc, char** argv) { return pbt_main(argc, argv, "several invocations, resets or readers blocked before the outcome was there"); }
