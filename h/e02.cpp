// E02: scheduled executors: not before its time, in time order, exactly once while open; close and destruction end promptly
#include "common.h"
#include "timeutil.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/executors/scheduler.hpp>
#include <boost/thread/executors/scheduling_adaptor.hpp>
#include <boost/thread/executors/scheduled_thread_pool.hpp>
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/thread_executor.hpp>
using namespace boost::executors;
struct Rec { int id, form, by, runs, ran_on, target, act; int64_t d; bool rel, started, done, accepted, refused; uint64_t s, e, rs, re; int64_t lo, hi, t_s, t_e, t_rs, t_re; int* in; int out; };
struct Front { virtual ~Front() {} virtual void submit(Rec* r) = 0; virtual void close() = 0; virtual bool closed() = 0; virtual void dispose() = 0; };
struct G { Front* ex; int kind, clk, n, maxsub, threads; Rec recs[20]; bool gone, busy, early, jumped; uint64_t close_s, close_e; int64_t t_close, t_close_e, maxclk; std::set<int>* targets; Counter* done; basic_thread_pool* pool; inline_executor* in; thread_executor* te; };
static G g;
static int64_t cnow() { int64_t t = now_on(g.clk); if (t > g.maxclk) g.maxclk = t; return g.clk ? g.maxclk : t; }   // a system clock that was stepped back has been at its maximum
static void submit(int by, int form, int64_t d, int act, int target);
static void run(Rec* r) {
  { Ignore i; if (r->started) fail("task %d runs a second time", r->id); r->started = true; r->runs++; r->ran_on = fid(); r->rs = next_stamp(); r->t_rs = mono_now();
    int64_t now = cnow(); if (g.gone) fail("task %d runs after the executor is gone", r->id); if (r->refused) fail("task %d was refused but runs", r->id);
    if (now < r->lo) fail("task %d runs %lld ns before its time", r->id, (long long)(r->lo - now)); }
  int v = *r->in; point(); r->out = v + 1;
  switch (r->act) { case 1: submit(fid(), r->form + 1, r->d / 2, 0, 0); break; case 2: if (g.busy) delay(1000000 * (1 + r->id % 3) * 7); break; case 3: { bool had; { Ignore i; had = g.close_e != 0; } bool c = g.ex->closed(); Ignore i; if (had && !c) fail("closed() is false after close()"); if (c && !g.close_s) fail("closed() is true before close()"); break; } default: ; }
  { Ignore i; r->done = true; r->re = next_stamp(); r->t_re = mono_now(); }
  g.done->add();
}
struct Fun { Rec* r; int* own; Fun(Rec* x) : r(x), own(new int(1)) {} Fun(const Fun& o) : r(o.r), own(o.own ? new int(*o.own) : 0) {} Fun(Fun&& o) noexcept : r(o.r), own(o.own) { o.own = 0; } Fun& operator=(const Fun&) = delete; ~Fun() { delete own; own = (int*)8; }
  void operator()() { if (!own || *own != 1) fail("task %d: the stored closure is damaged", r->id); run(r); } };
template <class X> static void give(X&& x, Rec* r) {      // to an executor-like front end
  if (r->form & 1) { Fun f(r); x.submit(f); if (!f.own) fail("submit(lvalue) moved from its argument"); } else x.submit(Fun(r));
}
template <class Clk> static typename Clk::time_point tp_of(int64_t ns) { return typename Clk::time_point(bc::duration_cast<typename Clk::duration>(bc::nanoseconds(ns))); }
template <class S> static void common(S& s, Rec* r) {
  typedef typename S::clock clk;
  if (r->rel) { if (r->form & 1) { Fun f(r); s.submit_after(f, bc::nanoseconds(r->d)); if (!f.own) fail("submit_after(lvalue) moved from its argument"); } else s.submit_after(Fun(r), bc::nanoseconds(r->d)); }
  else { if (r->form & 1) { Fun f(r); s.submit_at(f, tp_of<clk>(r->lo)); if (!f.own) fail("submit_at(lvalue) moved from its argument"); } else s.submit_at(Fun(r), tp_of<clk>(r->lo)); }
}
template <class S, class E> static void onto(S& s, E& e, Rec* r) {
  typedef typename S::clock clk; int ms = r->d % 1000000 == 0;
  switch (r->form / 2 % 3) {
    case 0: if (r->rel) { if (ms) give(s.on(e).after(bc::milliseconds(r->d / 1000000)), r); else give(s.on(e).after(bc::nanoseconds(r->d)), r); } else give(s.on(e).at(tp_of<clk>(r->lo)), r); break;
    case 1: if (r->rel) give(s.after(bc::nanoseconds(r->d)).on(e), r); else give(s.at(tp_of<clk>(r->lo)).on(e), r); break;
    default: { auto w = s.on(e); if (&w.underlying_executor() != &e || &w.underlying_scheduler() != &s) fail("on() does not refer to the given scheduler and executor"); auto x = r->rel ? w.after(bc::nanoseconds(r->d)) : w.at(tp_of<clk>(r->lo)); if (&x.underlying_executor() != &e || &x.underlying_scheduler() != &s) fail("at()/after() do not refer to the given scheduler and executor");
      give(x, r); x.close(); if (!x.closed()) fail("closed() is false after close() of the front end"); { Rec q; { Ignore i; q = *r; q.id = 999; q.refused = true; q.in = 0; } try { give(x, &q); fail("a closed front end accepts a task"); } catch (boost::concurrent::sync_queue_is_closed&) { } } break; }
  }
}
template <class Clk> struct Sch : Front { scheduler<Clk>* s; Sch() : s(new scheduler<Clk>) {} void close() { s->close(); } bool closed() { return s->closed(); } void dispose() { delete s; }
  void submit(Rec* r) {
    if (r->target == 1) return onto(*s, *g.pool, r); if (r->target == 2) return onto(*s, *g.in, r); if (r->target == 3) return onto(*s, *g.te, r);
    switch (r->form / 2 % 3) {
      case 0: common(*s, r); break;
      case 1: if (r->rel) give(s->after(bc::nanoseconds(r->d)), r); else give(s->at(tp_of<Clk>(r->lo)), r); break;
      default: { auto x = r->rel ? s->after(bc::nanoseconds(r->d)) : s->at(tp_of<Clk>(r->lo)); if (&x.underlying_scheduler() != s) fail("at() refers to another scheduler"); give(x, r); x.close(); if (!x.closed()) fail("closed() is false after close() of the front end"); Rec q; { Ignore i; q = *r; q.id = 999; q.refused = true; q.in = 0; } try { give(x, &q); fail("a closed front end accepts a task"); } catch (boost::concurrent::sync_queue_is_closed&) { } break; }
    } } };
template <class E> struct Adap : Front { scheduling_adaptor<E>* s; Adap(E& e) : s(new scheduling_adaptor<E>(e)) { if (&s->underlying_executor() != &e) fail("scheduling_adaptor: underlying_executor() is another one"); } void close() { s->close(); } bool closed() { return s->closed(); } void dispose() { delete s; } void submit(Rec* r) { common(*s, r); } };
struct Pool : Front { scheduled_thread_pool* s; Pool(int n) : s(new scheduled_thread_pool(n)) {} void close() { s->close(); } bool closed() { return s->closed(); } void dispose() { delete s; } void submit(Rec* r) { common(*s, r); } };
static void submit(int by, int form, int64_t d, int act, int target) {
  Rec* r; { Ignore i; if (g.n >= g.maxsub) return; r = &g.recs[g.n]; memset(r, 0, sizeof *r); r->id = g.n++; r->by = by; r->form = form; r->act = act; r->target = target; r->d = d; r->rel = form / 6 & 1; }
  r->in = new int(r->id * 10);
  { Ignore i; r->s = next_stamp(); r->t_s = mono_now(); r->lo = (g.clk ? real_now() : mono_now()) + d; if (r->rel && g.jumped) r->lo = INT64_MIN; }
  try {
    g.ex->submit(r);
    Ignore i; r->accepted = true; r->e = next_stamp(); r->t_e = mono_now(); r->hi = r->rel ? (g.clk ? real_now() : mono_now()) + d : r->lo; if (g.close_e && g.close_e < r->s) fail("task %d is accepted after close()", r->id);
  } catch (boost::concurrent::sync_queue_is_closed&) { Ignore i; r->refused = true; if (r->started) fail("task %d ran although its submission failed", r->id); if (!g.close_s) fail("task %d is refused by an open executor", r->id); }
}
static void entry(basic_thread_pool&) { Ignore i; g.targets->insert(fid()); }
static int64_t gen_delay() {
  static const int64_t f[] = {0, 1000000, 5000000, 5000000, 20000000, 1000000000, 999999999, 1, -1, -1000000000, 150000000, 7000001, 10000000000LL};
  return f[pick(13)];
}
enum { STEADY, SYSTEM, ADAPT_POOL, ADAPT_INLINE, POOL };
static void program(int kind) {
  check_leaks(true); { Ignore i; memset(&g, 0, sizeof g); g.targets = new std::set<int>; } g.kind = kind; g.clk = kind == SYSTEM; g.maxsub = 16; g.done = new Counter; g.maxclk = INT64_MIN;
  g.busy = chance(1, 3); g.early = chance(1, 3); g.jumped = g.clk && chance(1, 3); allow_spurious(pick(3)); int mode = pick(4);
  g.in = new inline_executor; g.pool = kind == ADAPT_POOL || (kind <= SYSTEM && flip()) ? new basic_thread_pool(1, entry) : 0; g.te = kind <= SYSTEM && flip() ? new thread_executor : 0; g.threads = 1;
  switch (kind) { case STEADY: g.ex = new Sch<bc::steady_clock>; break; case SYSTEM: g.ex = new Sch<bc::system_clock>; break; case ADAPT_POOL: g.ex = new Adap<basic_thread_pool>(*g.pool); break; case ADAPT_INLINE: g.ex = new Adap<inline_executor>(*g.in); break; default: g.threads = range(1, 3); g.ex = new Pool(g.threads); }
  if (g.early) allow_early_time(true);
  note("kind %d threads %d busy %d early %d jumps %d mode %d", kind, g.threads, g.busy, g.early, g.jumped, mode);
  Threads th; int ns = range(1, 3);
  for (int t = 0; t < ns; t++) { int per = range(1, 4); struct P { int64_t gap, d; int form, act, target; }; std::vector<P>* ps; { Ignore i; ps = new std::vector<P>; }
    for (int k = 0; k < per; k++) { P p; p.gap = chance(1, 2) ? gen_delay() : 0; if (p.gap < 0) p.gap = 0; p.d = gen_delay(); p.form = pick(24); static const unsigned w[] = {5, 2, 2, 1}; p.act = weighted(w, 4); p.target = kind <= SYSTEM && flip() ? (int)pick(4) : 0; if (p.target == 1 && !g.pool) p.target = 2; if (p.target == 3 && !g.te) p.target = 0; if (p.target % 2 && p.act != 2) p.act = 0;   // (a task elsewhere can outlive the scheduler)
      note("submitter %d: after %lld, task in %lld, form %d, action %d, on %d", t, (long long)p.gap, (long long)p.d, p.form, p.act, p.target); Ignore i; ps->push_back(p); }
    if (t > 0 || per > 1) nontrivial();
    th.add([=] { for (int k = 0; k < per; k++) { P p = (*ps)[k]; if (p.gap) delay(p.gap); submit(fid(), p.form, p.d, p.act, p.target); } Ignore i; delete ps; }); }
  if (g.jumped) { int64_t j = (int64_t)(1 + pick(30)) * 100000000 * (flip() ? 1 : -1), at = gen_delay(); th.add([=] { if (at > 0) delay(at); { Ignore i; cnow(); } jump_real(j); }); }
  if (mode == 1) { int64_t at = gen_delay(); th.add([=] { if (at > 0) delay(at); { Ignore i; if (!g.close_s) { g.close_s = next_stamp(); g.t_close = mono_now(); } } g.ex->close(); if (!g.ex->closed()) fail("closed() is false after close()"); Ignore i; if (!g.close_e) { g.close_e = next_stamp(); g.t_close_e = mono_now(); } }); }
  th.join();
  if (mode == 0) {       // everything that was accepted runs while the executor stays open
    for (int seen = 0;;) { int n; { Ignore i; n = g.n; } if (seen == n) break; seen = n; g.done->wait(seen); wait_quiescent(); }
    if (flip() && g.pool && kind <= SYSTEM) { g.pool->close(); Rec q; memset(&q, 0, sizeof q); q.target = 1; q.refused = true; q.form = pick(12); q.rel = q.form / 6 & 1; q.lo = now_on(g.clk); try { g.ex->submit(&q); fail("a task for a closed executor is accepted"); } catch (boost::concurrent::sync_queue_is_closed&) { } }
  } else if (mode == 2) { int64_t at = gen_delay(); if (at > 0) delay(at); }
  int64_t t0; { Ignore i; if (!g.close_s) { g.close_s = next_stamp(); g.t_close = mono_now(); } t0 = mono_now(); }
  if (mode == 3 && flip()) { g.ex->close(); Ignore i; if (!g.close_e) { g.close_e = next_stamp(); g.t_close_e = mono_now(); } }
  if (mode == 3 && flip()) { int n; { Ignore i; n = g.n; } submit(0, pick(24), gen_delay(), 0, 0); (void)n; }
  if (chance(1, 4)) {   // by a thread with an interruption pending
    Counter* go = new Counter; boost::thread o([=] { { boost::this_thread::disable_interruption di; go->wait(1); } g.ex->dispose(); }); o.interrupt(); go->add(); o.join(); delete go;
  } else g.ex->dispose();
  delete g.ex;
  { Ignore i; int64_t t1 = mono_now(); if (!g.busy && !g.early && t1 - t0 > 100000) fail("destruction took %lld ns", (long long)(t1 - t0));
    for (int k = 0; k < g.n; k++) { Rec& r = g.recs[k]; if (r.started && !r.done && !r.target) fail("task %d is still running when the executor is gone", k); } }
  delete g.pool; delete g.te; delete g.in;
  { Ignore i; g.gone = true;
    for (int k = 0; k < g.n; k++) { Rec& r = g.recs[k]; if (r.runs > 1) fail("task %d has run %d times", k, r.runs); if (!r.accepted) { if (r.runs) fail("task %d was refused and ran", k); continue; } if (mode == 0 && !r.runs) fail("task %d never ran", k); if (r.started && !r.done) fail("task %d still running", k);
      bool exact = !g.busy && !g.early && !g.jumped; int64_t due = (g.clk ? r.hi - (real_now() - mono_now()) : r.hi), ready = std::max(due, r.t_e);
      if (exact && ready + 100000 < g.t_close && !r.started) fail("task %d was due %lld ns before close() but has not run", k, (long long)(g.t_close - ready));
      if (exact && r.started && r.t_rs > ready + 100000) fail("task %d runs %lld ns late", k, (long long)(r.t_rs - ready));
      if (r.started && r.target == 1 && !g.targets->count(r.ran_on)) fail("task %d does not run on the executor it was scheduled on", k);
      if (r.started && r.target != 1 && g.targets->count(r.ran_on) && kind <= SYSTEM) fail("task %d runs on an executor it was not scheduled on", k);
      if (r.started && r.ran_on == r.by && !r.target && r.act != 1 && r.by == 0) fail("task %d runs on the submitting thread", k); }
    if (g.threads == 1 && !g.jumped) for (int a = 0; a < g.n; a++) for (int b = 0; b < g.n; b++) { Rec &x = g.recs[a], &y = g.recs[b]; if (a == b || !x.accepted || !y.accepted || !y.started || x.target % 2 || y.target % 2) continue;
      if (x.hi >= y.lo || (x.started && x.rs < y.rs)) continue;
      bool before = (g.clk ? x.t_e + (real_now() - mono_now()) : x.t_e) < y.lo; for (int c = 0; c < g.n; c++) { Rec& z = g.recs[c]; if (z.done && z.ran_on == y.ran_on && z.re < y.rs && x.e < z.rs) before = true; }
      if (before) fail("task %d is due before task %d and was submitted in time, but runs after it", a, b); }
  }
  for (int k = 0; k < g.n; k++) { Rec& r = g.recs[k]; bool ran; { Ignore i; ran = r.done; } if (ran && r.out != *r.in + 1) fail("task %d: effects not visible", k); delete r.in; }
  delete g.done; Ignore i; delete g.targets;
}
SCENARIO(steady, 4) { program(STEADY); }
SCENARIO(system, 3) { program(SYSTEM); }
SCENARIO(adaptor, 2) { program(flip() ? ADAPT_POOL : ADAPT_INLINE); }
SCENARIO(pool, 3) { program(POOL); }
int main(int c, char** v) { return pbt_main(c, v, "two or more tasks submitted"); }
