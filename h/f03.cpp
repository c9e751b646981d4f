// F03: continuations (then, fallback_to) and unwrap run exactly once with the ready antecedent and deliver the outcome of the model
#include "futil.h"
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#define WITH_EX 1
#else
#define WITH_EX 0
#endif
using boost::launch; using boost::packaged_task;
template <class R> R make(int id);
template <> Val make<Val>(int id) { return Val(id); }
template <> Mo make<Mo>(int id) { return Mo(id); }
template <> int& make<int&>(int id) { return cells[id & 63]; }
template <> void make<void>(int) {}

enum Kind { K_PROMISE, K_READY, K_TASK, K_ASYNC, K_DEFERRED, K_EXEC, K_THEN, K_FALLBACK, K_UNWRAP };
static const char* kname[] = { "promise", "ready", "task", "async", "deferred async", "async on executor", "then", "fallback_to", "unwrap" };
enum Pol { P_DEFAULT, P_ASYNC, P_DEFERRED, P_SYNC, P_INHERIT, P_NONE, P_EX, P_LEXEC };
static const char* pname[] = { "default", "async", "deferred", "sync", "inherit", "none", "executor&", "launch::executor" };
enum Thr { T_ANY, T_FRESH, T_WAITER, T_SYNC, T_EX };         // where the callable may run
struct Nd {
  int idx, kind, parent, pol, beh, id, want, calls, running, fid, live, attach_fid, count_before, ready_fid, thr, inner; bool lazy, waited, fired, has_ex, shared_parent, waiting; int consumed;
  Counter* gate; int pre[2];
};
struct Env { Nd* n[16]; int nn; int exkind, pool_lo, pool_hi, loop_fid; bool is_harness[48]; bool used_fresh[48]; };
static Env* E;
static void enter(Nd* n) {
  int b, id; Counter* g;
  { Ignore i; if (n->calls++) fail("the callable of node %d (%s) is called twice", n->idx, kname[n->kind]); n->running = 1; n->fid = fid(); b = n->beh; id = n->id; g = n->gate;
    switch (n->thr) {
      case T_FRESH: if (n->fid < n->count_before || E->is_harness[n->fid] || E->used_fresh[n->fid]) fail("node %d should run on a new thread but runs on thread %d", n->idx, n->fid); E->used_fresh[n->fid] = true; break;
      case T_WAITER: if (!E->is_harness[n->fid] && n->fid) fail("deferred node %d runs on thread %d, which waits for nothing", n->idx, n->fid); if (!n->waited) fail("deferred node %d runs although nobody waits for it", n->idx); break;
      case T_SYNC: { Nd* p = E->n[n->parent]; bool ok = n->fid == n->attach_fid || n->fid == p->ready_fid || n->fid == p->fid; if (p->kind == K_UNWRAP || p->kind == K_EXEC || p->kind == K_FALLBACK) ok = true; if (!ok) fail("sync node %d runs on thread %d, which neither attached it nor made its antecedent ready", n->idx, n->fid); break; }
      case T_EX: { bool ok = true; Nd* p = n->parent >= 0 ? E->n[n->parent] : 0;
        if (E->exkind == 0) ok = n->fid >= E->pool_lo && n->fid < E->pool_hi; else if (E->exkind == 1) ok = n->fid == n->attach_fid || !p || n->fid == p->ready_fid || n->fid == p->fid || p->kind == K_UNWRAP || p->kind == K_EXEC || p->kind == K_FALLBACK;
        else if (E->exkind == 2) ok = n->fid == E->loop_fid; else ok = n->fid >= n->count_before && !E->is_harness[n->fid];
        if (!ok) fail("node %d should run on the executor (kind %d) but runs on thread %d", n->idx, E->exkind, n->fid); break; }
    } }
  if (g) g->wait(1);
  n->pre[0] = id; point();
  hb_release(n); { Ignore i; n->running = 0; }
  if (b == 1) throw boost::enable_current_exception(Ex1(id));
  if (b == 2) throw boost::enable_current_exception(Ex2(id));
}
static void see(Nd* p) { int id; { Ignore i; if (p->kind == K_PROMISE || p->kind == K_READY || p->kind == K_UNWRAP || p->kind == K_FALLBACK) return; if (!p->calls || p->running) fail("node %d is ready although its callable has run %d times", p->idx, p->calls); id = p->id; } if (p->pre[0] != id) fail("what node %d wrote is not visible", p->idx); }
static int own(Nd* n, bool isvoid) { return n->beh == 1 ? 1000 + n->id : n->beh == 2 ? 2000 + n->id : isvoid ? 0 : n->id; }
struct Tag { Nd* n; Val canary; explicit Tag(Nd* q) : n(q), canary(33) { Ignore i; n->live++; } Tag(const Tag& o) : n(o.n), canary(o.canary) { Ignore i; n->live++; } Tag(Tag&& o) : n(o.n), canary(std::move(o.canary)) { Ignore i; n->live++; } ~Tag() { hb_release(n); Ignore i; n->live--; }
  void chk(const char* when) const { if (canary.id != 33) fail("the callable of node %d is moved-from or destroyed (%s)", n->idx, when); } };
struct MTag : Tag { std::unique_ptr<int> p; explicit MTag(Nd* q) : Tag(q), p(new int(1)) {} MTag(MTag&& o) : Tag(std::move(o)), p(std::move(o.p)) {} };
template <class R> struct Src { typedef R result_type; Tag t; explicit Src(Nd* n) : t(n) {} R operator()() { t.chk("call"); Nd* n = t.n; enter(n); t.chk("after"); int id; { Ignore i; id = n->id; } return make<R>(id); } };
// behaviours of a continuation: 0 get and transform, 1/2 throw, 3 recover whatever the antecedent is, 4 ignore the antecedent
template <class R, class F, class T> struct Cont {
  typedef R result_type; T t; explicit Cont(Nd* n) : t(n) {}
  R operator()(F f) {
    t.chk("call"); Nd* n = t.n; Nd* p; int b, id, pw; { Ignore i; p = E->n[n->parent]; b = n->beh; id = n->id; pw = p->want; }
    if (!f.valid() || !f.is_ready()) fail("the continuation of node %d receives a future with valid=%d ready=%d", n->idx, f.valid(), f.is_ready());
    if (f.has_exception() != (pw >= 1000)) fail("the continuation of node %d sees has_exception=%d", n->idx, f.has_exception());
    see(p); enter(n);
    if (b == 0) { int v = outcome([&] { return Tr<R>::get(f); }); if (v != pw) fail("the continuation of node %d reads %d instead of %d from its antecedent", n->idx, v, pw);
      if (v >= 1000) { if (v == BROKEN) boost::throw_exception(boost::broken_promise()); if (v == E_UNINIT) throw boost::enable_current_exception(boost::future_uninitialized()); if (v >= 2000) throw boost::enable_current_exception(Ex2(v - 2000)); throw boost::enable_current_exception(Ex1(v - 1000)); } }
    else if (b == 3) { int v = outcome([&] { return Tr<R>::get(f); }); if (v != pw) fail("the continuation of node %d reads %d instead of %d from its antecedent", n->idx, v, pw); }
    t.chk("after"); return make<R>(id);
  }
};
struct Ex { unsigned kind;
#if WITH_EX
  boost::basic_thread_pool* pool; boost::inline_executor* inl; boost::loop_executor* loop; boost::thread_executor* thr; Threads* th;
  void open() { pool = 0; inl = 0; loop = 0; thr = 0; th = 0; kind = pick(4); { Ignore i; E->exkind = kind; }
    int lo = fiber_count();
    if (kind == 0) { pool = new boost::basic_thread_pool(range(1, 2)); Ignore i; E->pool_lo = lo; E->pool_hi = fiber_count(); }
    else if (kind == 1) inl = new boost::inline_executor; else if (kind == 2) { loop = new boost::loop_executor; th = new Threads; auto l = loop; int f = th->add([l] { l->loop(); }); Ignore i; E->loop_fid = f; } else thr = new boost::thread_executor; }
  void close() { if (pool) pool->close(); if (loop) { loop->close(); th->join(); delete th; } delete pool; delete inl; delete loop; delete thr; }
#else
  void open() {} void close() {}
#endif
};
template <class R> struct G {
  typedef typename Fut<R>::type F; typedef shared_future<R> S; typedef typename Fut<F>::type FF;
  struct Slot { F* u; S* s; } sl[16]; struct SrcH { promise<R>* p; promise<F>* pp; packaged_task<R()>* t; F* inner; int worker; } src[16];
  G() { for (auto& x : sl) x = Slot{0, 0}; for (auto& x : src) x = SrcH{0, 0, 0, 0, -1}; }
};
template <class R> static int mix(Nd* n, Nd* p) { if (n->beh == 0 && p->want >= 1000) return p->want; if (n->beh == 3 || n->beh == 4 || n->beh == 0) return norm<R>(n->id); return own(n, false); }
static bool effective_lazy(Nd* p, int pol) { if (pol == P_DEFERRED) return true; if (pol == P_DEFAULT || pol == P_INHERIT) return p->lazy; return false; }

template <class R> struct Case {
  Priv<Env> env; Priv<G<R>> gp; G<R>& g; Ex ex; Workers w; int nid; bool any_race, chain;
  typedef typename Fut<R>::type F; typedef shared_future<R> S;
  enum { NS = 3, NWT = 3 }; int nsrc;
  Case() : g(*gp), w(NS + NWT), nid(0), any_race(false), chain(false), nsrc(0) { Env* e = &*env; memset(e, 0, sizeof *e); E = e; for (int i = 0; i < NS + NWT; i++) e->is_harness[w.fid(i)] = true; e->is_harness[0] = true; ex.open(); }
  Nd* node(int kind, int parent) { Ignore i; Nd* n = new Nd(); n->idx = E->nn; E->n[E->nn++] = n; n->kind = kind; n->parent = parent; n->id = 1 + nid++ % 60; n->inner = -1; n->ready_fid = -1; n->fid = -1; n->attach_fid = fid(); n->count_before = fiber_count(); n->thr = T_ANY; return n; }
  void put(Nd* n, F x) { if (!x.valid()) fail("%s returned an invalid future", kname[n->kind]); F* u = new F(boost::move(x)); g.sl[n->idx].u = u; }
  void share(int i) { F* u = g.sl[i].u; S* s = new S(u->share()); if (u->valid()) fail("a shared future leaves the unique one valid"); delete u; g.sl[i].u = 0; g.sl[i].s = s; }
  bool has(int i) { return (g.sl[i].u || g.sl[i].s) && !E->n[i]->waiting; }
  void drop(int i) { delete g.sl[i].u; delete g.sl[i].s; g.sl[i].u = 0; g.sl[i].s = 0; }
  void source() {
    int k = weighted((const unsigned[]){5, 1, 2, 2, 2, (unsigned)WITH_EX}, 6); Nd* n = node(k, -1); { Ignore i; n->beh = weighted((const unsigned[]){4, 1, 1}, 3); n->want = own(n, std::is_void<R>::value); if (!(n->want >= 1000)) n->want = norm<R>(n->id); }
    int id = n->id; note("n%d = %s, outcome %d", n->idx, kname[k], n->want); auto& h = g.src[n->idx];
    switch (k) {
      case K_PROMISE: { if (chance(1, 6)) { Ignore i; n->beh = 5; n->want = BROKEN; } promise<R>* p = new promise<R>; h.p = p; h.worker = nsrc++; put(n, p->get_future()); break; }
      case K_READY: { promise<R> p; F f(p.get_future()); int b = n->beh; if (b == 0) Tr<R>::set(p, 0, id); else if (b == 1) p.set_exception(boost::copy_exception(Ex1(id))); else p.set_exception(boost::copy_exception(Ex2(id))); { Ignore i; n->fired = true; n->ready_fid = fid(); } put(n, boost::move(f)); break; }
      case K_TASK: {
        packaged_task<R()>* t = new packaged_task<R()>(Src<R>(n)); h.t = t; h.worker = nsrc++; put(n, t->get_future()); break; }
      case K_ASYNC: case K_DEFERRED: { if (k == K_ASYNC && flip()) { Counter* c = new Counter; Ignore i; n->gate = c; } { Ignore i; n->lazy = k == K_DEFERRED; n->thr = k == K_ASYNC ? T_FRESH : T_WAITER; n->fired = k == K_DEFERRED || !n->gate; n->count_before = fiber_count(); } put(n, boost::async(k == K_ASYNC ? launch::async : launch::deferred, Src<R>(n))); break; }
#if WITH_EX
      case K_EXEC: { if (ex.kind != 1 && ex.kind != 2 && flip()) { Counter* c = new Counter; Ignore i; n->gate = c; } { Ignore i; n->thr = T_EX; n->fired = !n->gate; n->has_ex = true; n->count_before = fiber_count(); }
        if (ex.pool) put(n, boost::async(*ex.pool, Src<R>(n))); else if (ex.inl) put(n, boost::async(*ex.inl, Src<R>(n))); else if (ex.loop) put(n, boost::async(*ex.loop, Src<R>(n))); else put(n, boost::async(*ex.thr, Src<R>(n))); break; }
#endif
    }
  }
  bool firable(int i) { Nd* n = E->n[i]; return (n->kind < K_THEN || n->kind == K_UNWRAP) && !n->fired; }
  void fire(int i) {                                         // asynchronously
    Nd* n = E->n[i]; auto& h = g.src[i]; note("fire n%d", i); { Ignore ig; n->fired = true; }
    if (n->gate) { n->gate->add(); return; }
    if (h.worker < 0) return;
    int b = n->beh, id = n->id;
    if (n->kind == K_PROMISE) { auto* p = h.p; w.post(h.worker, [n, p, b, id] { { Ignore ig; n->ready_fid = fid(); } if (b == 0) Tr<R>::set(*p, 0, id); else if (b == 1) p->set_exception(boost::copy_exception(Ex1(id))); else if (b == 2) p->set_exception(boost::copy_exception(Ex2(id))); delete p; }); h.p = 0; }
    else if (n->kind == K_TASK) { auto* t = h.t; bool del = flip(); w.post(h.worker, [n, t] { { Ignore ig; n->ready_fid = fid(); } (*t)(); delete t; }); h.t = 0; (void)del; }
    else if (n->kind == K_UNWRAP) { auto* p = h.pp; F* in = h.inner; h.inner = 0; h.pp = 0; w.post(h.worker, [n, p, in, b, id] { { Ignore ig; n->ready_fid = fid(); } if (b == 0) { p->set_value(boost::move(*in)); } else if (b == 1) p->set_exception(boost::copy_exception(Ex1(id))); else if (b == 2) p->set_exception(boost::copy_exception(Ex2(id))); else if (b == 3) { F none; p->set_value(boost::move(none)); } delete in; delete p; }); }
  }
  template <class Fn> F attach_u(F& u, Nd* n, Fn fn) {
    switch (n->pol) { case P_DEFAULT: return u.then(boost::move(fn)); case P_ASYNC: return u.then(launch::async, boost::move(fn)); case P_DEFERRED: return u.then(launch::deferred, boost::move(fn)); case P_SYNC: return u.then(launch::sync, boost::move(fn)); case P_INHERIT: return u.then(launch::inherit, boost::move(fn)); case P_NONE: return u.then(launch::none, boost::move(fn));
#if WITH_EX
      case P_LEXEC: return u.then(launch::executor, boost::move(fn));
      case P_EX: if (ex.pool) return u.then(*ex.pool, boost::move(fn)); if (ex.inl) return u.then(*ex.inl, boost::move(fn)); if (ex.loop) return u.then(*ex.loop, boost::move(fn)); return u.then(*ex.thr, boost::move(fn));
#endif
    } return F(); }
  template <class Fn> F attach_s(S& u, Nd* n, Fn fn) {
    switch (n->pol) { case P_DEFAULT: return u.then(boost::move(fn)); case P_ASYNC: return u.then(launch::async, boost::move(fn)); case P_DEFERRED: return u.then(launch::deferred, boost::move(fn)); case P_SYNC: return u.then(launch::sync, boost::move(fn)); case P_INHERIT: return u.then(launch::inherit, boost::move(fn)); case P_NONE: return u.then(launch::none, boost::move(fn));
#if WITH_EX
      case P_LEXEC: return u.then(launch::executor, boost::move(fn));
      case P_EX: if (ex.pool) return u.then(*ex.pool, boost::move(fn)); if (ex.inl) return u.then(*ex.inl, boost::move(fn)); if (ex.loop) return u.then(*ex.loop, boost::move(fn)); return u.then(*ex.thr, boost::move(fn));
#endif
    } return F(); }
  void then(int pi) {
    Nd* p = E->n[pi]; bool sh = g.sl[pi].s; int pol;
    if (p->lazy && !sh) { unsigned k = pick(3); pol = k == 0 ? P_DEFAULT : k == 1 ? P_DEFERRED : P_INHERIT; }
    else { pol = pick(WITH_EX ? 8 : 6); if (pol == P_LEXEC && !p->has_ex) pol = P_EX; }
    Nd* n = node(K_THEN, pi); bool mo = flip();
    { Ignore i; n->pol = pol; n->beh = weighted((const unsigned[]){5, 1, 1, 2, 1}, 5); n->shared_parent = sh; n->want = mix<R>(n, p); n->lazy = effective_lazy(p, pol);
      n->has_ex = pol == P_EX || pol == P_LEXEC || ((pol == P_INHERIT || pol == P_DEFAULT) && p->has_ex);
      n->thr = n->lazy ? T_WAITER : pol == P_ASYNC ? T_FRESH : pol == P_SYNC ? T_SYNC : pol == P_EX || pol == P_LEXEC || (pol == P_INHERIT && p->has_ex) ? T_EX : T_ANY; n->count_before = fiber_count(); }
    note("n%d = n%d.then(%s)%s behaviour %d, outcome %d", n->idx, pi, pname[pol], sh ? " shared" : "", n->beh, n->want); if (pi >= 1 && p->kind == K_THEN) chain = true;
    if (!sh) { F& u = *g.sl[pi].u; if (mo) put(n, attach_u(u, n, Cont<R, F, MTag>(n))); else { put(n, attach_u(u, n, Cont<R, F, Tag>(n))); }
      if (u.valid()) fail("then leaves the original future valid"); delete g.sl[pi].u; g.sl[pi].u = 0; }
    else { S& s = *g.sl[pi].s; put(n, attach_s(s, n, Cont<R, S, Tag>(n))); if (!s.valid()) fail("then invalidates a shared future"); }
    launch lp = g.sl[n->idx].u->launch_policy(); (void)lp;
    if (pol == P_ASYNC && lp != launch::async) fail("a then(launch::async) future reports another policy"); if (pol == P_DEFERRED && lp != launch::deferred) fail("a then(launch::deferred) future reports another policy");
#if WITH_EX
    if ((pol == P_EX || pol == P_LEXEC) && lp != launch::executor) fail("a continuation on an executor reports another policy");
#endif
  }
  void fallback(int pi, std::true_type) {
    Nd* p = E->n[pi]; if (!g.sl[pi].u) return; Nd* n = node(K_FALLBACK, pi); { Ignore i; n->want = p->want >= 1000 ? norm<R>(n->id) : p->want; n->lazy = p->lazy; n->has_ex = p->has_ex; } note("n%d = n%d.fallback_to(%d)", n->idx, pi, n->id);
    put(n, fb(*g.sl[pi].u, n->id)); if (g.sl[pi].u->valid()) fail("fallback_to leaves the original future valid"); delete g.sl[pi].u; g.sl[pi].u = 0;
  }
  F fb(Fut<Val>::type& f, int id) { if (flip()) { const Val v(id); F r(f.fallback_to(v)); if (v.id != id) fail("fallback_to changed its argument"); return r; } return f.fallback_to(Val(id)); }
  F fb(Fut<Mo>::type& f, int id) { return f.fallback_to(Mo(id)); }
  void fallback(int, std::false_type) {}
  void unwrap(int pi) {                                       // pi: the inner future (unique, not lazy), or -1
    Nd* n = node(K_UNWRAP, -1); auto& h = g.src[n->idx]; promise<F>* pp = new promise<F>; h.pp = pp; h.worker = nsrc++;
    { Ignore i; n->beh = pi >= 0 ? weighted((const unsigned[]){6, 1, 1, 1, 1}, 5) : weighted((const unsigned[]){0, 1, 1, 2, 1}, 5); n->inner = n->beh == 0 ? pi : -1; n->want = n->beh == 0 ? E->n[pi]->want : n->beh == 1 ? 1000 + n->id : n->beh == 2 ? 2000 + n->id : BROKEN; }
    if (n->beh == 0) { h.inner = new F(boost::move(*g.sl[pi].u)); delete g.sl[pi].u; g.sl[pi].u = 0; }
    note("n%d = unwrap of a promised future, %s n%d, outcome %d", n->idx, n->beh == 0 ? "inner" : n->beh == 3 ? "invalid inner" : "exception", n->inner, n->want);
    typename G<R>::FF ff(pp->get_future()); if (flip()) { fire(n->idx); if (flip()) wait_quiescent(); }
    if (flip()) put(n, ff.unwrap()); else { F x(boost::move(ff)); put(n, boost::move(x)); }
    if (ff.valid()) fail("unwrap leaves the original future valid");
  }
  void mark_waited(int i) { Ignore ig; Nd* n = E->n[i]; n->waited = true; if (n->lazy && n->parent >= 0) mark_waited(n->parent); }
  // does the node become ready once every source has fired?
  bool will_be_ready(int i) { Nd* n = E->n[i]; if (n->lazy) return n->waited; if (n->kind == K_UNWRAP) return n->inner < 0 || will_be_ready(n->inner); if (n->parent >= 0) return will_be_ready(n->parent); return true; }
  void wait_on(int i, int wk) {                               // asynchronously on a waiter
    Nd* n = E->n[i]; unsigned what = pick(5); int nt = pick(2); int64_t d = pick64(0, 100000); F* u = g.sl[i].u; S* s = g.sl[i].s; bool fin = u != 0; mark_waited(i); { Ignore ig; n->waiting = true; } note("wait (%u) on n%d", what, i); g.sl[i].u = 0; g.sl[i].s = 0; S* keep = s ? new S(*s) : 0; g.sl[i].s = keep; { Ignore ig; if (keep) n->waiting = false; }
    w.post(wk, [this, n, u, s, what, nt, d, fin] { (void)fin;
      for (int k = 0; k < nt; k++) { auto st = u ? u->wait_for(bc::nanoseconds(d)) : s->wait_for(bc::nanoseconds(d)); if (st == boost::future_status::deferred) { Ignore ig; if (!n->lazy) fail("a timed wait reports deferred for node %d, which is not deferred", n->idx); } else if (st == boost::future_status::ready) see(n); }
      if (what == 1) { if (u) u->wait(); else s->wait(); see(n); } else if (what == 2) { boost::exception_ptr e = u ? u->get_exception_ptr() : s->get_exception_ptr(); int c = e ? code_of(e) : 0; if (n->want >= 1000 ? c != n->want && !(n->want < 1000) : (bool)e) fail("get_exception_ptr of node %d gives %d instead of %d", n->idx, c, n->want); }
      int o = outcome([&] { return u ? Tr<R>::get(*u) : Tr<R>::get(*s); }); see(n);
      if (o != n->want) fail("node %d yields %d instead of %d", n->idx, o, n->want);
      delete u; delete s; Ignore ig; n->consumed++; });
  }
  void observe(int i) {
    Nd* n = E->n[i]; auto& sl = g.sl[i]; bool r = sl.u ? sl.u->is_ready() : sl.s->is_ready(); bool v = sl.u ? sl.u->valid() : sl.s->valid(); if (!v) fail("node %d is not valid", i);
    if (r) { see(n); bool he = sl.u ? sl.u->has_exception() : sl.s->has_exception(); if (he != (n->want >= 1000)) fail("node %d reports has_exception=%d", i, he); if (n->lazy) { Ignore ig; if (!n->waited) fail("deferred node %d is ready although nobody waited", i); } }
    if (n->lazy && !n->waited) { auto st = sl.u ? sl.u->wait_for(bc::nanoseconds(10)) : sl.s->wait_for(bc::nanoseconds(10)); if (st != boost::future_status::deferred) fail("a timed wait on deferred node %d does not report deferred", i); if (n->calls) fail("a timed wait runs deferred node %d", i); }
  }
  void run() {
    allow_spurious(pick(3)); if (flip()) allow_early_time(true);
    int nops = range(2, 14); source();
    for (int op = 0; op < nops; op++) {
      unsigned k = pick(16); int nn = E->nn, i = pick(nn); if (!has(i)) for (int j = nn - 1; j >= 0; j--) if (has(j)) { i = j; break; }
      if (k == 0) { if (nsrc < NS && nn < 9) source(); }
      else if (k <= 5) { if (has(i) && nn < 10) then(i); }
      else if (k == 6) { if (has(i) && nn < 10 && g.sl[i].u) fallback(i, std::integral_constant<bool, Tr<R>::has_or>()); }
      else if (k == 7) { if (nsrc < NS && nn < 10) { bool ok = has(i) && g.sl[i].u && !E->n[i]->lazy; unwrap(ok ? i : -1); any_race = true; } }
      else if (k == 8) { if (has(i) && g.sl[i].u) share(i); }
      else if (k <= 10) { for (int t = 0; t < nn; t++) { int j = (i + t) % nn; if (firable(j)) { fire(j); any_race = true; break; } } }
      else if (k == 11) { for (int t = 0; t < NWT; t++) if (!w.busy(NS + t) && has(i)) { wait_on(i, NS + t); break; } }
      else if (k == 12) { if (has(i)) observe(i); }
      else if (k == 13) { if (has(i) && chance(1, 2) && !needs_wait(i)) { note("drop n%d", i); drop(i); } }
      else if (k == 14) wait_quiescent();
      else { int64_t d = pick64(0, 1000000); delay(d); }
    }
    nontrivial(any_race && E->nn >= 3); if (chain) label("chain"); bool settle = flip();
    for (;;) { bool any = false; for (int j = 0; j < E->nn; j++) if (firable(j) && (flip() || true)) { fire(j); any = true; } if (!any) break; }
    if (settle) wait_quiescent();
    int nn = E->nn, start = pick(nn);
    for (int i = 0; i < nn; i++) if (needs_wait(i)) { note("wait on n%d", i); mark_waited(i); g.sl[i].s->wait(); see(E->n[i]); }
    for (int t = 0; t < nn; t++) { int i = (start + t) % nn; if (!has(i)) continue; if (chance(3, 4)) { int wk = -1;
          for (int q = 0; q < NWT; q++) if (!w.busy(NS + q)) wk = NS + q;
          if (wk < 0) { wait_quiescent(); for (int q = 0; q < NWT; q++) if (!w.busy(NS + q)) wk = NS + q; }
          if (wk < 0) fail("a wait blocks although every source has fired");
          wait_on(i, wk); }
      else { note("drop n%d", i); drop(i); } }
    wait_quiescent(); for (int q = 0; q < NS + NWT; q++) if (w.busy(q)) fail(q < NS ? "making a source ready blocks" : "a wait blocks although every source has fired");
    for (int i = 0; i < nn; i++) if (g.sl[i].u || g.sl[i].s) { observe(i); drop(i); }
    wait_quiescent(); delay(1); wait_quiescent();
    w.finish(); ex.close(); wait_quiescent();
    for (int i = 0; i < nn; i++) { Nd* n = E->n[i]; hb_acquire(n); if (n->kind == K_PROMISE || n->kind == K_READY || n->kind == K_UNWRAP || n->kind == K_FALLBACK) continue;
      int want = n->lazy ? n->waited : n->parent >= 0 ? will_be_ready(n->parent) : 1;
      if (n->calls != want) fail("the callable of node %d (%s, %s) ran %d times instead of %d", i, kname[n->kind], pname[n->pol], n->calls, want);
      if (n->live) fail("%d copies of the callable of node %d are still alive", n->live, i);
      if (n->gate) delete n->gate; }
    { Ignore ig; for (int i = 0; i < nn; i++) delete E->n[i]; E = 0; }
  }
  // a shared deferred future with non-deferred continuations attached needs somebody to wait for it
  bool needs_wait(int i) { if (!E->n[i]->lazy || !g.sl[i].s || E->n[i]->waited) return false; for (int j = 0; j < E->nn; j++) if (E->n[j]->parent == i && !E->n[j]->lazy) return true; return false; }
};
template <class R> static void go() { check_leaks(true); Case<R> c; c.run(); }
SCENARIO(tree_value, 4) { go<Val>(); }
SCENARIO(tree_void, 2) { go<void>(); }
SCENARIO(tree_moveonly, 2) { go<Mo>(); }

// ---------------------------------------------------------------- several threads attach to one shared future racing with its setter
template <class R> static void race() {
  typedef typename Fut<R>::type F; typedef shared_future<R> S; check_leaks(true); allow_spurious(pick(3)); if (flip()) allow_early_time(true);
  Priv<Env> env; { Env* e = &*env; memset(e, 0, sizeof *e); E = e; }
  auto node = [](int parent) { Ignore i; Nd* n = new Nd(); n->idx = E->nn; E->n[E->nn++] = n; n->parent = parent; n->kind = parent < 0 ? K_PROMISE : K_THEN; n->inner = n->ready_fid = n->fid = -1; n->id = 1 + n->idx; return n; };
  Nd* root = node(-1); promise<R>* p = new promise<R>; S* sf = new S(p->get_future().share()); unsigned how = pick(5); { Ignore i; root->want = how == 0 ? 1000 : how == 1 ? BROKEN : norm<R>(root->id); } int na = range(2, 4); nontrivial();
  Threads th; F* fs[4][2] = {}; Nd* ns[4][2] = {}; bool atexit = how > 2 && flip();
  for (int a = 0; a < na; a++) for (int k = range(1, 2) - 1; k >= 0; k--) { Nd* n = node(0); ns[a][k] = n; Ignore i; n->pol = pick(4); n->pol = n->pol == 0 ? P_ASYNC : n->pol == 1 ? P_SYNC : n->pol == 2 ? P_DEFAULT : P_DEFERRED; n->beh = weighted((const unsigned[]){4, 1, 1, 1}, 4); n->want = mix<R>(n, root); n->thr = n->pol == P_SYNC ? T_SYNC : n->pol == P_DEFERRED ? T_WAITER : T_ANY; n->lazy = n->pol == P_DEFERRED; }
  for (int a = 0; a < na; a++) { S* c = new S(*sf); bool get[2] = {chance(2, 3), chance(2, 3)};
    int f = th.add([&, a, c, get] { for (int k = 0; k < 2; k++) { Nd* n = ns[a][k]; if (!n) continue; { Ignore i; n->attach_fid = fid(); }
        F x(n->pol == P_ASYNC ? c->then(launch::async, Cont<R, S, Tag>(n)) : n->pol == P_SYNC ? c->then(launch::sync, Cont<R, S, Tag>(n)) : n->pol == P_DEFERRED ? c->then(launch::deferred, Cont<R, S, Tag>(n)) : c->then(Cont<R, S, Tag>(n))); fs[a][k] = new F(boost::move(x)); }
      delete c;
      for (int k = 1; k >= 0; k--) { Nd* n = ns[a][k]; if (!n) continue; if (get[k]) { { Ignore i; n->waited = true; } int o = outcome([&] { return Tr<R>::get(*fs[a][k]); }); see(n); if (o != n->want) fail("a continuation yields %d instead of %d", o, n->want); } delete fs[a][k]; } });
    Ignore i; E->is_harness[f] = true; }
  delete sf;
  auto setter = [&] { { Ignore i; root->ready_fid = fid(); } if (how == 0) p->set_exception(boost::copy_exception(Ex1(0))); else if (how != 1) { if (atexit) Tr<R>::set_exit(*p, 0, root->id); else Tr<R>::set(*p, 0, root->id); } delete p; };
  if (how > 2) { boost::thread bt(setter); bt.join(); } else { th.add(setter); }
  th.join(); wait_quiescent(); delay(1); wait_quiescent();
  for (int i = 1; i < E->nn; i++) { Nd* n = E->n[i]; hb_acquire(n); int want = n->lazy ? n->waited : 1; if (n->calls != want) fail("a continuation (%s) ran %d times instead of %d", pname[n->pol], n->calls, want); if (n->live) fail("%d copies of a continuation are still alive", n->live); }
  Ignore ig; for (int i = 0; i < E->nn; i++) delete E->n[i]; E = 0;
}
SCENARIO(shared_race_value, 3) { race<Val>(); }
SCENARIO(shared_race_void, 1) { race<void>(); }

#ifdef BOOST_THREAD_PROVIDES_INTERRUPTIONS
// ---------------------------------------------------------------- a waiter of a deferred continuation is interrupted
SCENARIO(interrupted, 2) {
  typedef shared_future<Val> S; check_leaks(true); allow_spurious(pick(3)); if (flip()) allow_early_time(true);
  Priv<Env> env; { Env* e = &*env; memset(e, 0, sizeof *e); E = e; }
  Nd *a, *b; { Ignore i; for (int k = 0; k < 2; k++) { Nd* n = new Nd(); n->idx = k; E->n[E->nn++] = n; n->parent = k - 1; n->kind = k ? K_THEN : K_PROMISE; n->id = k + 1; n->fid = n->ready_fid = -1; n->lazy = k; n->waited = true; } a = E->n[0]; b = E->n[1]; a->want = 1; b->want = 2; }
  promise<Val>* p = new promise<Val>; S* s; { S f(p->get_future().share()); bool uniq = flip(); (void)uniq; s = new S(f.then(launch::deferred, Cont<Val, S, Tag>(b)).share()); }
  bool interrupted = false, got = false; int nw = range(0, 2), order = pick(3); bool ww[2] = {flip(), flip()}; nontrivial();
  boost::thread* t = new boost::thread([&] { try { int o = Tr<Val>::get(*s); { Ignore i; got = true; } if (o != 2) fail("get yields %d", o); } catch (boost::thread_interrupted&) { Ignore i; interrupted = true; } });
  Threads th; for (int k = 0; k < nw; k++) th.add([&, k] { if (ww[k]) { s->wait(); see(b); } int o = Tr<Val>::get(*s); see(b); if (o != 2) fail("another waiter receives %d", o); });
  auto setit = [&] { p->set_value(Val(1)); };
  if (order == 0) { if (flip()) wait_quiescent(); t->interrupt(); setit(); } else if (order == 1) { if (flip()) wait_quiescent(); t->interrupt(); t->join(); if (flip()) wait_quiescent(); setit(); } else { setit(); t->interrupt(); }
  if (t->joinable()) t->join(); delete t; th.join();
  int o = Tr<Val>::get(*s); if (o != 2) fail("get yields %d", o); see(b); if (b->calls != 1) fail("the continuation ran %d times", b->calls); if (interrupted) label("interrupted");
  delete s; delete p; wait_quiescent(); if (b->live) fail("%d copies of the continuation are still alive", b->live);
  Ignore ig; for (int i = 0; i < E->nn; i++) delete E->n[i]; E = 0;
}
#endif

// ---------------------------------------------------------------- known finding: unwrapping deferred futures
SCENARIO(kf_unwrap_deferred, 0) {
  typedef Fut<Val>::type F; bool outer = flip(); promise<F> p; Fut<F>::type ff;
  if (outer) ff = boost::async(launch::deferred, [] { return F(boost::make_ready_future(Val(3))); }); else { ff = p.get_future(); p.set_value(boost::async(launch::deferred, [] { return Val(3); })); }
  F x(ff.unwrap()); if (Tr<Val>::get(x) != 3) fail("wrong value");
}
int main(int argc, char** argv) { return pbt_main(argc, argv, "at least three futures in the tree and a source made ready while it was being built"); }
