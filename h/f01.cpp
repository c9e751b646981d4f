// F01: a promise's result reaches every future once, intact and in time
#include "futil.h"
template <class P> static void set_ex(P& p, int kind, int how, int id) {   // kind 0: now, 1: deferred, 2: at thread exit
  if (how == 0) { if (kind == 0) p.set_exception(Ex1(id)); else if (kind == 1) p.set_exception_deferred(Ex1(id)); else p.set_exception_at_thread_exit(Ex1(id)); return; }
  boost::exception_ptr e = how == 1 ? boost::copy_exception(Ex2(id)) : boost::exception_ptr();
  if (how == 2) { try { throw boost::enable_current_exception(Ex1(id)); } catch (...) { e = boost::current_exception(); } }
  if (kind == 0) p.set_exception(e); else if (kind == 1) p.set_exception_deferred(e); else p.set_exception_at_thread_exit(e);
}
static int ex_code(int how, int id) { return (how == 1 ? 2000 : 1000) + id; }

// ---------------------------------------------------------------- history: model-based, blocking calls on workers
struct St {                      // model of a shared state
  bool ready, constructed; int res; bool is_ex; bool cb; int cb_calls, cb_action, cb_id; int promise; bool consumed, invalid, exit_pending; void* cb_addr;
  St() : ready(0), constructed(0), res(0), is_ex(0), cb(0), cb_calls(0), cb_action(0), cb_id(0), promise(-1), consumed(0), invalid(0), exit_pending(0), cb_addr(0) {}
};
template <class R> struct H {
  typedef promise<R> P; typedef typename Fut<R>::type F; typedef shared_future<R> S;
  static const int NP = 3, NF = 4, NW = 3;
  struct PS { P* p; int st; bool got; bool busy; } ps[NP];     // st: -1 none
  struct FS { F* u; S* s; int st; int busy; } fs[NF];
  std::vector<St*> sts; int next_id;
  struct Pend { bool active, done, timed; int what, slot, st; int64_t deadline; int out; int clk; } pend[NW];
  struct Exiter { pthread_t h; Counter* setdone; Counter* go; int st; bool live; bool native; boost::thread* bt; int fid; int out; } ex; bool ex_used;
  H() : next_id(1), ex_used(false) { for (auto& x : ps) { x.p = 0; x.st = -1; x.got = x.busy = 0; } for (auto& x : fs) { x.u = 0; x.s = 0; x.st = -1; x.busy = 0; } for (auto& x : pend) x.active = false; }
  int new_state() { Ignore i; sts.push_back(new St()); return (int)sts.size() - 1; }
  St& st(int i) { return *sts[i]; }
  void done(int s, int res, bool isex) { St& t = st(s); t.ready = true; t.constructed = true; t.res = res; t.is_ex = isex; }
  bool can_set(int s) { return !st(s).ready && !st(s).constructed; }
};
template <class R> struct Cb { typedef void result_type; H<R>* h; int s; void operator()(promise<R>& p) const {
  St& t = h->st(s); int act, id; { Ignore i; t.cb_calls++; act = t.cb_action; id = t.cb_id; if (t.cb_addr != &p) fail("wait callback called with another promise"); if (t.ready) fail("wait callback called although ready"); if (t.constructed) act = 0; }
  if (act == 1 && t.promise >= 0) { { Ignore i; t.cb_action = 0; h->done(s, norm<R>(id), false); } Tr<R>::set(*h->ps[t.promise].p, id % 3, id); }
  else if (act == 2 && t.promise >= 0) { { Ignore i; t.cb_action = 0; h->done(s, ex_code(0, id), true); } set_ex(*h->ps[t.promise].p, 0, 0, id); } } };
template <class R> static void history() {
  check_leaks(true);
  Priv<H<R>> hp; H<R>& h = *hp; typedef H<R> HH; typedef typename HH::P P; typedef typename HH::F F; typedef typename HH::S S;
  Workers w(HH::NW);
  int nops = range(3, 14); allow_spurious(pick(3)); bool blocked_some = false, raced = false;
  auto expected_wait = [&](typename HH::FS& f, int what, int fb) -> int {   // outcome of a wait on a ready state
    St& t = h.st(f.st);
    switch (what) {
      case W_GET: { if (!t.is_ex && t.consumed && Tr<R>::consumes) return -1; return t.res; }
      case W_GETOR: return t.is_ex ? fb : (t.consumed && Tr<R>::consumes) ? -1 : t.res;
      case W_EXPTR: return t.is_ex ? t.res : -2;
      case W_WAIT: return -3;
      default: return READY;
    }
  };
  auto finish_wait = [&](int slot, int what, int got, int fb) {
    auto& f = h.fs[slot]; St& t = h.st(f.st); int want = expected_wait(f, what, fb);
    if (got != want) fail("%s on %s returned %d instead of %d", wt_name[what], f.u ? "future" : "shared_future", got, want);
    if (f.u && (what == W_GET || what == W_GETOR)) { Ignore i; if (!t.is_ex && Tr<R>::consumes) t.consumed = true; if (invalid_after_get) t.invalid = true; }
  };
  auto observe = [&](int slot) {
    auto& f = h.fs[slot];
    bool v, r, hv, he; int gs; boost::launch lp;
    if (f.u) { v = f.u->valid(); r = f.u->is_ready(); hv = f.u->has_value(); he = f.u->has_exception(); gs = f.u->get_state(); lp = f.u->launch_policy(); }
    else { v = f.s->valid(); r = f.s->is_ready(); hv = f.s->has_value(); he = f.s->has_exception(); gs = f.s->get_state(); lp = f.s->launch_policy(); }
    (void)lp;
    if (f.st < 0) { if (v || r || hv || he || gs != boost::future_state::uninitialized) fail("a future without state reports valid=%d ready=%d value=%d exception=%d state=%d", v, r, hv, he, gs); return; }
    St& t = h.st(f.st);
    if (v != !t.invalid) fail("valid() is %d", v);
    if (r != t.ready || gs != (t.ready ? boost::future_state::ready : boost::future_state::waiting)) fail("is_ready()=%d get_state()=%d but the state is %s", r, gs, t.ready ? "ready" : "not ready");
    if (hv != (t.ready && !t.is_ex) || he != (t.ready && t.is_ex)) fail("has_value()=%d has_exception()=%d, ready=%d exceptional=%d", hv, he, t.ready, t.is_ex);
  };
  auto settle = [&](bool all) {       // compare every pending wait with the model
    wait_quiescent();
    for (int i = 0; i < HH::NW; i++) {
      auto& p = h.pend[i]; if (!p.active) continue;
      auto& f = h.fs[p.slot]; St& t = h.st(f.st);
      bool finished = !w.busy(i);
      int64_t now = p.clk ? real_now() : mono_now();
      if (finished) {
        hb_acquire(&p);
        if (p.timed && p.out == TIMEOUT) { if (t.ready && false) {} if (now < p.deadline) fail("%s timed out %lld ns early", wt_name[p.what], (long long)(p.deadline - now)); }
        else if (!t.ready) fail("%s returned %d although nothing was set", wt_name[p.what], p.out);
        else finish_wait(p.slot, p.what, p.out, 7);
        { Ignore g; p.active = false; f.busy--; }
      } else {
        if (t.ready) fail("%s still blocks although the state is ready", wt_name[p.what]);
        blocked_some = true;
      }
    }
    (void)all;
  };
  auto settled_timeouts = [&]() {};
  (void)settled_timeouts;
  for (int op = 0; op < nops; op++) {
    unsigned k = pick(12);
    int pi = pick(HH::NP), fi = pick(HH::NF);
    auto& p = h.ps[pi]; auto& f = h.fs[fi];
    if (k == 0 || k == 1) {                            // create a promise / take its future
      if (!p.p) {
#ifdef BOOST_THREAD_PROVIDES_FUTURE_CTOR_ALLOCATORS
        if (flip()) { P* q = new P(boost::allocator_arg, std::allocator<int>()); Ignore i; p.p = q; }
        else
#endif
        { P* q = new P(); Ignore i; p.p = q; }
        { Ignore i; p.got = false; p.st = h.new_state(); h.st(p.st).promise = pi; } note("p%d: create", pi);
      } else if (!p.busy && !f.busy) {
        bool shared = flip();
        note("f%d = p%d.get_future()%s", fi, pi, shared ? ".share()" : "");
        int want = p.st < 0 && !lazy ? E_MOVED : p.got ? E_RETRIEVED : 0;
        F* nu = 0; S* ns = 0;
        int got = outcome([&] { F x(p.p->get_future()); if (shared) ns = new S(x.share()); else nu = new F(boost::move(x)); return 0; });
        if (got != want) fail("get_future gave %d instead of %d", got, want);
        if (!want) {
          if (p.st < 0) { Ignore i; p.st = h.new_state(); h.st(p.st).promise = pi; }
          delete f.u; delete f.s; Ignore i; f.u = nu; f.s = ns; f.st = p.st; p.got = true;
        }
      }
    } else if (k == 2 || k == 3) {                     // satisfy
      if (!p.p || p.busy) continue;
      int id = range(1, 40), how = pick(3), kind = pick(3); bool ex = flip();
      if (kind == 2) kind = 0;
      if (kind == 1 && p.st >= 0 && h.st(p.st).exit_pending) kind = 0;
      if (p.st < 0 && lazy) { Ignore i; p.st = h.new_state(); h.st(p.st).promise = pi; }
      int want = p.st < 0 ? E_MOVED : h.can_set(p.st) ? 0 : E_SATISFIED;
      note("p%d.set_%s%s(%d)", pi, ex ? "exception" : "value", kind ? "_deferred" : "", id);
      bool by_other = flip(); int got = 0;
      auto act = [&, kind, how, id, ex] { int o = outcome([&] { if (ex) set_ex(*p.p, kind, how, id); else if (kind) Tr<R>::set_deferred(*p.p, how, id); else Tr<R>::set(*p.p, how, id); return 0; }); Ignore g; got = o; hb_release(&got); };
      int fw = -1; for (int i = 0; i < HH::NW; i++) if (!w.busy(i) && !h.pend[i].active) fw = i;
      if (by_other && fw >= 0) { w.post(fw, act); wait_quiescent(); if (w.busy(fw)) fail("setting blocks"); hb_acquire(&got); } else act();
      if (got != want) fail("%s gave %d instead of %d", ex ? "set_exception" : "set_value", got, want);
      if (!want) { Ignore i; St& t = h.st(p.st); t.constructed = true; t.is_ex = ex; t.res = ex ? ex_code(how, id) : norm<R>(id); if (!kind) t.ready = true; raced = true; }
    } else if (k == 4) {                               // notify a deferred result
      if (!p.p || p.busy) continue;
      if (p.st < 0) { if (outcome([&] { p.p->notify_deferred(); return 0; }) != E_MOVED) fail("notify_deferred without a state does not raise promise_moved"); continue; }
      St& t = h.st(p.st); if (!t.constructed || t.ready || t.exit_pending) continue;
      note("p%d.notify_deferred", pi);
      p.p->notify_deferred(); { Ignore i; t.ready = true; }
    } else if (k == 5) {                               // destroy, move or swap a promise
      if (!p.p || p.busy) continue;
      int qi = pick(HH::NP); auto& q = h.ps[qi];
      unsigned m = pick(3);
      auto unnotified = [&](int s) { return s >= 0 && h.st(s).constructed && !h.st(s).ready && !h.st(s).exit_pending; };   // notify_deferred is the user's duty
      if (unnotified(p.st) || (m == 1 && unnotified(q.st))) continue;
      auto breaks = [&](int s) { if (s >= 0) { Ignore i; St& t = h.st(s); t.promise = -1; if (!t.ready && !t.constructed) { h.done(s, BROKEN, true); } } };
      if (m == 0 || !q.p || qi == pi) {
        note("destroy p%d", pi); P* d = p.p; { Ignore i; p.p = 0; } breaks(p.st); { Ignore i; p.st = -1; } delete d;
      } else if (q.busy) continue;
      else if (m == 1) {
        if (p.st >= 0 && h.st(p.st).cb) continue;      // the callback refers to the promise object
        if (q.st >= 0 && h.st(q.st).cb && false) continue;
        note("p%d = move(p%d)", qi, pi); breaks(q.st);
        *q.p = boost::move(*p.p);
        Ignore i; q.st = p.st; q.got = p.got; p.st = -1; p.got = false; if (q.st >= 0) h.st(q.st).promise = qi;
      } else {
        if ((p.st >= 0 && h.st(p.st).cb) || (q.st >= 0 && h.st(q.st).cb)) continue;
        note("swap(p%d, p%d)", qi, pi); if (flip()) q.p->swap(*p.p); else { P tmp(boost::move(*p.p)); *p.p = boost::move(*q.p); *q.p = boost::move(tmp); }
        Ignore i; std::swap(q.st, p.st); std::swap(q.got, p.got); if (p.st >= 0) h.st(p.st).promise = pi; if (q.st >= 0) h.st(q.st).promise = qi;
      }
    } else if (k == 6) {                               // wait callback
      if (!p.p || p.busy) continue;
      if (p.st < 0) { if (lazy) continue; if (outcome([&] { p.p->set_wait_callback(Cb<R>{&h, 0}); return 0; }) != E_MOVED) fail("set_wait_callback without a state does not raise promise_moved"); continue; }
      bool someone = false; for (auto& x : h.pend) if (x.active && h.fs[x.slot].st == p.st) someone = true;
      if (someone) continue;
      St& t = h.st(p.st); { Ignore i; t.cb = true; t.cb_addr = p.p; t.cb_action = pick(3); t.cb_id = range(1, 40); if (t.constructed) t.cb_action = 0; }
      note("p%d.set_wait_callback(%d)", pi, t.cb_action);
      p.p->set_wait_callback(Cb<R>{&h, p.st});
    } else if (k == 7) {                               // move, copy, share, destroy futures
      int gi = pick(HH::NF); auto& g = h.fs[gi]; if (f.busy || g.busy || (!f.u && !f.s)) continue;
      unsigned m = pick(5);
      note("future op %u f%d f%d", m, fi, gi);
      if (m == 0) { delete f.u; delete f.s; Ignore i; f.u = 0; f.s = 0; f.st = -1; }
      else if (m == 1 && gi != fi && f.u && (!g.u && !g.s)) { F* n = new F(boost::move(*f.u)); Ignore i; g.u = n; g.st = f.st; f.st = -1; }
      else if (m == 1 && gi != fi && f.s && (!g.u && !g.s)) { bool cp = flip(); S* n = cp ? new S(*f.s) : new S(boost::move(*f.s)); Ignore i; g.s = n; g.st = f.st; if (!cp) f.st = -1; }
      else if (m == 2 && gi != fi && f.u && g.u) { if (flip()) { *g.u = boost::move(*f.u); Ignore i; g.st = f.st; f.st = -1; } else { g.u->swap(*f.u); Ignore i; std::swap(g.st, f.st); } }
      else if (m == 2 && gi != fi && f.s && g.s) { unsigned c = pick(3); if (c == 0) { *g.s = boost::move(*f.s); Ignore i; g.st = f.st; f.st = -1; } else if (c == 1) { g.s->swap(*f.s); Ignore i; std::swap(g.st, f.st); } else { *g.s = *f.s; Ignore i; g.st = f.st; } }
      else if (m == 3 && gi != fi && f.u && g.s) { if (f.st >= 0 && h.st(f.st).invalid) continue; *g.s = boost::move(*f.u); Ignore i; g.st = f.st; f.st = -1; }
      else if (m == 4 && f.u) { if (f.st >= 0 && h.st(f.st).invalid) continue; S* n = flip() ? new S(f.u->share()) : new S(boost::move(*f.u)); if (f.u->valid() || f.u->is_ready()) fail("share() left the future with a state"); delete f.u; Ignore i; f.u = 0; f.s = n; }
    } else if (k == 8) {                               // at thread exit
      if (!p.p || p.busy || h.ex_used) continue;
      if (p.st < 0 && lazy) { Ignore i; p.st = h.new_state(); h.st(p.st).promise = pi; }
      bool cs = p.st >= 0 && h.can_set(p.st); int want = p.st < 0 ? E_MOVED : cs ? 0 : E_SATISFIED;
      { Ignore i; h.ex_used = true; }
      h.ex.setdone = new Counter; h.ex.go = new Counter; h.ex.st = p.st; h.ex.native = flip(); h.ex.live = true; h.ex.out = -1;
      int id = range(1, 40), how = pick(3); bool exc = flip();
      note("p%d.set_%s_at_thread_exit(%d) on a %s thread", pi, exc ? "exception" : "value", id, h.ex.native ? "native" : "boost");
      P* q = p.p; auto body = [&h, q, id, how, exc] {
        int o = outcome([&] { if (exc) set_ex(*q, 2, how, id); else Tr<R>::set_exit(*q, how, id); return 0; });
        { Ignore i; h.ex.out = o; }
        h.ex.setdone->add(); h.ex.go->wait(1);
      };
      if (h.ex.native) { auto* fn = new std::function<void()>(body); pthread_create(&h.ex.h, 0, [](void* a) -> void* { std::function<void()>* f = (std::function<void()>*)a; (*f)(); delete f; return 0; }, fn); h.ex.bt = 0; }
      else h.ex.bt = new boost::thread(body);
      h.ex.setdone->wait(1);
      if (h.ex.out != want) fail("set at thread exit gave %d instead of %d", h.ex.out, want);
      if (!want) { Ignore i; St& t = h.st(p.st); t.constructed = true; t.exit_pending = true; t.is_ex = exc; t.res = exc ? ex_code(how, id) : norm<R>(id); label("at_thread_exit"); }
      else { Ignore i; h.ex.st = -1; }
    } else if (k == 9 && h.ex_used && h.ex.live) {     // let that thread exit
      note("the setting thread exits"); int s = h.ex.st;
      h.ex.go->add(); if (h.ex.bt) { h.ex.bt->join(); delete h.ex.bt; } else pthread_join(h.ex.h, 0);
      delete h.ex.setdone; delete h.ex.go; { Ignore i; h.ex.live = false; if (s >= 0) { h.st(s).ready = true; h.st(s).exit_pending = false; } }
    } else {                                           // wait / get
      if ((!f.u && !f.s) || f.busy) continue;
      unsigned what = pick(W_N);
#ifndef BOOST_THREAD_USES_DATETIME
      if (what >= W_TIMED) what -= 4;
#endif
      if (what == W_GETOR && !Tr<R>::has_or) what = W_GET;
      if (what == W_GETOR && f.s && std::is_same<R, Mo>::value) what = W_GET;
      int64_t d = pick64(-1000000, 3000000000ll); if (what == W_TIMED || what == W_TIMED_UNTIL) d = d / 1000 * 1000;
      int clk = flip();
      int want_err = 0;
      if (f.st < 0) want_err = what == W_EXPTR ? -2 : E_UNINIT;
      else if (f.u && h.st(f.st).invalid && (what == W_GET || what == W_GETOR)) want_err = E_UNINIT;
      else if (f.u && h.st(f.st).invalid) { observe(fi); continue; }
      if (want_err) { int got = outcome([&] { return f.u ? do_wait<R>(*f.u, what, d, clk, 7) : do_wait<R>(*f.s, what, d, clk, 7); }); if (got != want_err) fail("%s on an invalid future gave %d instead of %d", wt_name[what], got, want_err); continue; }
      int pre = h.st(f.st).cb_calls; bool was_ready = h.st(f.st).ready, cb = h.st(f.st).cb;
      note("%s on f%d (%s)", wt_name[what], fi, f.u ? "future" : "shared_future");
      bool direct = was_ready && flip();
      if (direct) { int got = outcome([&] { return f.u ? do_wait<R>(*f.u, what, d, clk, 7) : do_wait<R>(*f.s, what, d, clk, 7); }); finish_wait(fi, what, got, 7); }
      else {
        int fw = -1; for (int i = 0; i < HH::NW; i++) if (!w.busy(i) && !h.pend[i].active) fw = i;
        if (fw < 0) continue;
        auto& q = h.pend[fw];
        { Ignore i; q.active = true; q.done = false; q.what = what; q.slot = fi; q.timed = what >= W_FOR; q.clk = what == W_UNTIL ? clk : what == W_TIMED_UNTIL ? 1 : 0; q.deadline = now_on(q.clk) + d; f.busy++; }
        if (what == W_TIMED_UNTIL) { Ignore i; q.deadline = real_now() / 1000 * 1000 + d; }
        F* u = f.u; S* s = f.s;
        w.post(fw, [&h, fw, u, s, what, d, clk] { int o = outcome([&] { return u ? do_wait<R>(*u, what, d, clk, 7) : do_wait<R>(*s, what, d, clk, 7); }); hb_release(&h.pend[fw]); Ignore i; h.pend[fw].out = o; });
      }
      wait_quiescent();
      St& t = h.st(f.st);
      if (t.cb_calls - pre != (cb && !was_ready ? 1 : 0)) fail("%s called the wait callback %d times", wt_name[what], t.cb_calls - pre);
    }
    settle(false);
    int oi = pick(HH::NF); if (h.fs[oi].u || h.fs[oi].s) observe(oi);
    if (chance(1, 6)) {                                // let time pass
      int64_t d = pick64(0, 2000000000ll); note("time passes: %lld", (long long)d); delay(d); wait_quiescent();
      settle(false);
      for (int i = 0; i < HH::NW; i++) { auto& q = h.pend[i]; if (q.active && q.timed && now_on(q.clk) > q.deadline + 101000000) fail("%s still blocks after its deadline", wt_name[q.what]); }
    }
  }
  if (blocked_some && raced) nontrivial();
  // let everything finish: break what is left
  if (h.ex_used && h.ex.live) { int s = h.ex.st; h.ex.go->add(); if (h.ex.bt) { h.ex.bt->join(); delete h.ex.bt; } else pthread_join(h.ex.h, 0); delete h.ex.setdone; delete h.ex.go; Ignore i; if (s >= 0) { h.st(s).ready = true; h.st(s).exit_pending = false; } }
  for (auto& p : h.ps) if (p.p) {
    if (p.st >= 0) { St& t = h.st(p.st); if (t.constructed && !t.ready) { p.p->notify_deferred(); Ignore i; t.ready = true; } else if (!t.ready) { Ignore i; h.done(p.st, BROKEN, true); } t.promise = -1; }
    delete p.p; Ignore i; p.p = 0; p.st = -1;
  }
  settle(true);
  for (int i = 0; i < HH::NF; i++) if (h.fs[i].u || h.fs[i].s) observe(i);
  for (auto& q : h.pend) if (q.active) fail("%s blocks at the end", wt_name[q.what]);
  w.finish();
  for (auto& f : h.fs) { delete f.u; delete f.s; }
  Ignore i; for (auto s : h.sts) delete s; std::vector<St*>().swap(h.sts);
}
SCENARIO(history_value, 4) { history<Val>(); }
SCENARIO(history_moveonly, 2) { history<Mo>(); }
SCENARIO(history_ref, 2) { history<int&>(); }
SCENARIO(history_void, 2) { history<void>(); }

// ---------------------------------------------------------------- race: setters, readers and destruction in any interleaving
template <class R> struct Race { bool started[4], won[4]; int outc[4]; int res[4]; uint64_t s0[4], s1[4]; bool setdone; uint64_t fin; int nset; int pre[64]; };
template <class R> static void race() {
  check_leaks(true);
  Priv<Race<R>> rp; Race<R>& r = *rp; r.fin = 0;
  promise<R>* p = new promise<R>(); typedef shared_future<R> S;
  int ns = range(1, 3), nr = range(1, 3); bool destroy_only = chance(1, 5); if (destroy_only) ns = 1;
  bool lazy_race = lazy && !destroy_only && chance(1, 3);                       // get_future races with the first set
  S* sf = lazy_race ? 0 : new S(p->get_future().share());
  allow_spurious(pick(3)); if (flip()) allow_early_time(true);
  nontrivial(ns + nr > 2);
  r.nset = ns;
  for (int i = 0; i < 64; i++) r.pre[i] = 0;
  struct Plan { int how, id, kind; bool ex; }; Plan pl[3];
  for (int i = 0; i < ns; i++) { pl[i].how = pick(3); pl[i].id = 1 + i + 4 * pick(8); pl[i].ex = chance(1, 3); pl[i].kind = chance(1, 4) ? 2 : 0; r.s0[i] = 0; r.s1[i] = 0; r.outc[i] = -1; }
  Counter setters_done; bool any_exit = false;
  for (int i = 0; i < ns; i++) if (pl[i].kind == 2) any_exit = true;
  std::vector<S*> sfs; { Ignore i; sfs.resize(nr); }
  if (sf) for (int i = 0; i < nr; i++) { S* x = new S(*sf); Ignore g; sfs[i] = x; }
  Threads th;
  for (int i = 0; i < ns; i++) th.add([&, i] {
    r.pre[pl[i].id] = pl[i].id;                                // must be visible to whoever receives the value
    { Ignore g; r.s0[i] = next_stamp(); if (pl[i].ex) r.res[i] = ex_code(pl[i].how, pl[i].id); else r.res[i] = norm<R>(pl[i].id); if (destroy_only) r.res[i] = BROKEN; }
    if (destroy_only) { delete p; { Ignore g; r.outc[i] = 0; r.s1[i] = next_stamp(); } }
    else {
      int o = outcome([&] { if (pl[i].ex) set_ex(*p, pl[i].kind, pl[i].how, pl[i].id); else if (pl[i].kind) Tr<R>::set_exit(*p, pl[i].how, pl[i].id); else Tr<R>::set(*p, pl[i].how, pl[i].id); return 0; });
      { Ignore g; r.outc[i] = o; r.s1[i] = next_stamp(); }
      if (o && o != E_SATISFIED) fail("set gave %d", o);
      setters_done.add();
    }
  });
  std::vector<int> outs; { Ignore i; outs.resize(nr, -99); }
  if (lazy_race) { S x(p->get_future().share()); for (int i = 0; i < nr; i++) { S* c = new S(x); Ignore g; sfs[i] = c; } }
  auto fulfilled_before = [&](uint64_t t) -> bool { for (int i = 0; i < ns; i++) if (r.outc[i] == 0 && pl[i].kind == 0 && r.s1[i] && r.s1[i] < t) return true; return false; };
  auto begun_before = [&](uint64_t t) -> bool { for (int i = 0; i < ns; i++) if (r.s0[i] && r.s0[i] < t) return true; return false; };
  for (int i = 0; i < nr; i++) { th.add([&, i] {
    S& f = *sfs[i]; bool ready_seen = false; int n = range(1, 4);
    for (int k = 0; k < n; k++) {
      unsigned what = k == n - 1 ? W_GET : pick(8);
      uint64_t b; { Ignore g; b = next_stamp(); }
      if (what == 1 || what == 6 || what == 7) {             // non-blocking observers
        bool o = what == 1 ? f.is_ready() : what == 6 ? (f.has_value() || f.has_exception()) : f.get_state() == boost::future_state::ready;
        Ignore g; uint64_t e = next_stamp();
        if (o) { if (!begun_before(e)) fail("reported ready before anything was set"); ready_seen = true; }
        else { if (ready_seen) fail("ready, then not ready"); if (fulfilled_before(b)) fail("reported not ready after the set had returned"); }
        continue;
      }
      int64_t d = pick64(0, 1000000);
      int o = outcome([&] { return do_wait<R>(f, what, d, 0, 7); });
      Ignore g;
      if (what == W_FOR || what == W_UNTIL) {
        if (o == READY) { ready_seen = true; uint64_t e = next_stamp(); if (!begun_before(e)) fail("a timed wait reported ready before anything was set"); }
        else if (o == TIMEOUT) { if (ready_seen) fail("timeout after ready"); if (fulfilled_before(b)) fail("timeout although the state was ready before the call"); }
        else fail("timed wait gave %d", o);
      } else {
        ready_seen = true; uint64_t e = next_stamp();
        if (!begun_before(e)) fail("%s returned before anything was set", wt_name[what]);
        if (what == W_GET) outs[i] = o; else if (what == W_EXPTR && o != -2) outs[i] = o;
      }
    }
    // the data written before the set are visible
    if (outs[i] >= 0 && outs[i] < 64 && !std::is_void<R>::value) { int v = r.pre[outs[i]]; if (v != outs[i]) fail("what was written before the set is not visible"); }
    S* x = sfs[i]; delete x;
  }); }
  if (!destroy_only && flip()) { setters_done.wait(ns); delete p; p = 0; delete sf; sf = 0; }
  th.join();
  if (!destroy_only) delete p;
  int winners = 0, wi = -1; for (int i = 0; i < ns; i++) if (r.outc[i] == 0) { winners++; wi = i; }
  if (winners != 1) fail("%d of %d attempts to set the result succeeded", winners, ns);
  for (int i = 0; i < nr; i++) if (outs[i] != r.res[wi]) fail("a reader received %d although %d was set", outs[i], r.res[wi]);
  delete sf; Ignore i; std::vector<S*>().swap(sfs); std::vector<int>().swap(outs);
}
SCENARIO(race_value, 4) { race<Val>(); }
SCENARIO(race_ref, 1) { race<int&>(); }
SCENARIO(race_void, 2) { race<void>(); }

// ---------------------------------------------------------------- one consumer: the future dies while the producer is still in its call
SCENARIO(handoff, 3) {
  check_leaks(true);
  bool ex = flip(), brk = chance(1, 4); int id = range(1, 40), how = pick(3); allow_spurious(pick(2));
  promise<Val>* p = new promise<Val>(); typedef Fut<Val>::type F; F* f = new F(p->get_future());
  bool boostthread = flip(); int out = -99; nontrivial();
  Threads th; unsigned what = pick(4);
  int pre = 0;
  th.add([&] { pre = id; if (!brk) { if (ex) set_ex(*p, 0, how, id); else Tr<Val>::set(*p, how, id); } delete p; });
  auto reader = [&] { if (what == 1) f->wait(); else if (what == 2) while (f->wait_for(bc::nanoseconds(500)) != boost::future_status::ready) {} out = outcome([&] { return Tr<Val>::get(*f); }); if (pre != id) fail("stale"); delete f; };
  if (boostthread) { boost::thread t(reader); t.join(); } else reader();
  th.join();
  int want = brk ? BROKEN : ex ? ex_code(how, id) : id;
  if (out != want) fail("get gave %d instead of %d", out, want);
}

// ---------------------------------------------------------------- at thread exit: after everything else the thread does
struct Exit { bool body_done, tss_done; int handlers; shared_future<Val>* f; };
static Exit* EX;
static void check_unready(const char* where) { bool r = EX->f->is_ready(); if (r) fail("ready %s", where); }
struct Tsd { ~Tsd() { check_unready("while thread-specific data are destroyed"); Ignore i; EX->tss_done = true; } };
SCENARIO(thread_exit, 2) {
  check_leaks(true);
  Priv<Exit> e; EX = &*e; e->body_done = e->tss_done = false; e->handlers = 0;
  promise<Val>* p = new promise<Val>(); shared_future<Val>* f = new shared_future<Val>(p->get_future().share()); e->f = f;
  boost::thread_specific_ptr<Tsd>* key = new boost::thread_specific_ptr<Tsd>;
  bool with_tss = flip(), with_handler = flip(), ex = flip(), early_gone = flip(), throws = chance(1, 5); (void)throws; int id = range(1, 40), how = pick(3);
  int n2 = pick(3); std::vector<promise<int>*> more; { Ignore i; more.resize(n2); } std::vector<shared_future<int>*> moref; { Ignore i; moref.resize(n2); }
  for (int i = 0; i < n2; i++) { auto* q = new promise<int>(); auto* g = new shared_future<int>(q->get_future().share()); Ignore z; more[i] = q; moref[i] = g; }
  nontrivial(with_tss || with_handler || n2);
  auto body = [&] {
    if (with_tss) key->reset(new Tsd);
    if (with_handler) boost::this_thread::at_thread_exit([&] { check_unready("while at_thread_exit functions run"); Ignore i; e->handlers++; });
    if (ex) set_ex(*p, 2, how, id); else Tr<Val>::set_exit(*p, how, id);
    for (int i = 0; i < n2; i++) more[i]->set_value_at_thread_exit(i);
    if (early_gone) { delete p; { Ignore i; p = 0; } }
    check_unready("while the setting thread runs"); point(); check_unready("while the setting thread runs");
    { Ignore i; e->body_done = true; }
#ifdef BOOST_THREAD_PROVIDES_INTERRUPTIONS
    if (throws) throw boost::thread_interrupted();
#endif
  };
  Threads th;
  th.add([&] {
    int o = outcome([&] { return Tr<Val>::get(*f); }); int want = ex ? ex_code(how, id) : id;
    if (o != want) fail("get gave %d instead of %d", o, want);
    if (!e->body_done || (with_tss && !e->tss_done) || (with_handler && !e->handlers)) fail("ready before the setting thread was through");
  });
  boost::thread t(body); t.join();
  if (!f->is_ready()) fail("not ready although the setting thread has exited");
  for (int i = 0; i < n2; i++) { if (!moref[i]->is_ready() || moref[i]->get() != i) fail("a second result set at thread exit is missing"); delete moref[i]; delete more[i]; }
  th.join();
  delete p; delete f; delete key; Ignore i; std::vector<promise<int>*>().swap(more); std::vector<shared_future<int>*>().swap(moref);
}
#ifdef BOOST_THREAD_PROVIDES_INTERRUPTIONS
// ---------------------------------------------------------------- an interrupted get or wait leaves the result obtainable
SCENARIO(interrupted, 2) {
  check_leaks(true);
  promise<Val>* p = new promise<Val>(); Fut<Val>::type* f = new Fut<Val>::type(p->get_future());
  int id = range(1, 40), what = pick(4); bool interrupted = false; int first = -99, second = -99; nontrivial();
  Counter c;
  boost::thread t([&] {
    try { first = outcome([&] { return do_wait<Val>(*f, what == 3 ? W_FOR : what, 5000000000ll, 0, 7); }); }
    catch (boost::thread_interrupted&) { interrupted = true; }
    c.add();
    if (interrupted) { boost::this_thread::disable_interruption d; second = outcome([&] { return Tr<Val>::get(*f); }); }
  });
  if (flip()) wait_quiescent();
  t.interrupt();
  if (flip()) c.wait(1);
  p->set_value(Val(id));
  t.join();
  if (interrupted) { label("interrupted"); if (second != id) fail("after an interrupted wait get gives %d instead of %d", second, id); }
  delete f; delete p;
}
#endif
int main(int argc, char** argv) { return pbt_main(argc, argv, "a reader blocked or raced with the setting of the result"); }
