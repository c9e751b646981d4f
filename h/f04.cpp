// F04: waiting for several futures: wait_for_any, wait_for_all, when_any, when_all
#include "futil.h"
#include <list>
using boost::packaged_task; using boost::launch;
struct St { int idx, want, kind, calls, running, cbs; bool fired, ready_mark, started; int by; };     // kind 0 promise, 1 task, 2 ready, 3 gated async, 4 deferred
static int want_code(int how, int id) { return how == 1 ? 1000 + id : how == 2 ? BROKEN : how == 3 ? 2000 + id : id; }
struct Fn { St* s; int how, id; Counter* gate; bool isvoid;
  void enter() { { Ignore i; if (s->calls++) fail("source %d runs twice", s->idx); s->started = true; s->by = fid(); } if (gate) { gate->wait(1); hb_release(gate); } { Ignore i; s->ready_mark = true; } if (how == 1) throw boost::enable_current_exception(Ex1(id)); if (how == 3) throw boost::enable_current_exception(Ex2(id)); } };
template <class R> struct FnR : Fn { typedef R result_type; explicit FnR(const Fn& f) : Fn(f) {} R operator()(); };
template <> Val FnR<Val>::operator()() { int i = id; enter(); return Val(i); }
template <> void FnR<void>::operator()() { enter(); }
#ifdef BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
template <class R> struct PT { typedef packaged_task<R()> type; };
#else
template <class R> struct PT { typedef packaged_task<R> type; };
#endif
static const bool has_deferred =
#if defined BOOST_THREAD_PROVIDES_VARIADIC_THREAD && defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
  true;
#else
  false;
#endif
// one source: makes a future and can be fired later
template <class R> struct Source {
  typedef typename Fut<R>::type F; St st; promise<R>* p; typename PT<R>::type* t; Counter* gate; int how, id;
  F open(int idx, bool allow_deferred, bool allow_ready = true) {
    p = 0; t = 0; gate = 0; id = idx + 1; how = weighted((const unsigned[]){4, 1, 1}, 3); st = St(); st.idx = idx;
    int k = weighted((const unsigned[]){5, 2, 2, 2, (unsigned)(allow_deferred && has_deferred ? 4 : 0)}, 5); if (k == 2 && !allow_ready) k = 0; st.kind = k; if (k && how == 2) how = 3; st.want = want_code(how, std::is_void<R>::value ? 0 : id); if (how == 1) st.want = 1000 + id; if (how == 3) st.want = 2000 + id;
    note("source %d: kind %d, outcome %d", idx, k, st.want);
    switch (k) {
      case 0: p = new promise<R>; return p->get_future();
      case 1: t = new typename PT<R>::type(FnR<R>(Fn{&st, how, id, 0, false})); return t->get_future();
      case 2: { promise<R> q; F f(q.get_future()); set(q); st.fired = st.ready_mark = true; return f; }
      case 3: gate = new Counter; return boost::async(launch::async, FnR<R>(Fn{&st, how, id, gate, false}));
      default: return defer(std::integral_constant<bool, has_deferred>());
    }
  }
  F defer(std::true_type) { st.fired = true; return boost::async(launch::deferred, FnR<R>(Fn{&st, how, id, 0, false})); }
  F defer(std::false_type) { return F(); }
  void set(promise<R>& q) { if (how == 1) q.set_exception(boost::copy_exception(Ex1(id))); else if (how == 3) q.set_exception(boost::copy_exception(Ex2(id))); else if (how == 0) Tr<R>::set(q, 0, id); }
  // run by some thread
  void fire() { note("fire %d", st.idx); { Ignore i; st.fired = true; } if (gate) gate->add(); else if (p) { { Ignore i; st.ready_mark = true; } set(*p); delete p; p = 0; } else if (t) { (*t)(); delete t; t = 0; } }
  void close() { if (gate) { hb_acquire(gate); delete gate; } gate = 0; }
};
// ---------------------------------------------------------------- wait_for_any / wait_for_all on overlapping sets of shared futures
template <class R> struct Cb { typedef void result_type; Source<R>* s; bool thr; void operator()(promise<R>&) const { bool t; { Ignore i; s->st.cbs++; t = thr && s->st.cbs == 1; } if (t) throw Ex1(77); } };
template <class R> static void wait_sets() {
  typedef shared_future<R> S; check_leaks(true); allow_spurious(pick(3)); if (flip()) allow_early_time(true);
  int ns = range(1, 4), nw = range(1, 3); bool all_kinds = true; (void)all_kinds; Source<R> src[4]; S* sf[4]; bool defd = false;
  for (int i = 0; i < ns; i++) { sf[i] = new S(src[i].open(i, chance(1, 4)).share()); if (src[i].st.kind == 4) defd = true; }
  Threads th; nontrivial(nw > 1 || ns > 1); boost::thread* bt[3] = {}; bool interrupt_some = flip();
  struct W { int n, what, form, idx[4]; bool fin, interruptible; int fid; int res; }; Priv<std::vector<W>> ws;
  { Ignore g; ws->resize(3); }
  for (int k = 0; k < nw; k++) { W& w = (*ws)[k]; w.n = range(1, 4); w.what = pick(3) == 2; w.form = pick(3); w.fin = false; w.res = -1; bool any_valid = false; std::string d;
    for (int j = 0; j < w.n; j++) { w.idx[j] = pick(ns); if (!w.what && chance(1, 8)) w.idx[j] = -1; if (!w.what && w.idx[j] >= 0 && src[w.idx[j]].st.kind == 4) w.idx[j] = -1; if (w.idx[j] >= 0) any_valid = true; }
    if (!any_valid) { int c = -1; for (int i = 0; i < ns; i++) if (src[i].st.kind != 4) c = i; if (c < 0) w.what = 1, w.idx[0] = 0, w.n = 1; else w.idx[0] = c; if (w.what) for (int j = 0; j < w.n; j++) if (w.idx[j] < 0) w.idx[j] = 0; }
    { Ignore g; for (int j = 0; j < w.n; j++) d += " " + std::to_string(w.idx[j]); } note("waiter %d: %s form %d of%s", k, w.what ? "all" : "any", w.form, d.c_str()); { Ignore g; std::string().swap(d); }
    w.interruptible = interrupt_some && k == 0;
    S* c[4]; for (int j = 0; j < w.n; j++) c[j] = w.idx[j] < 0 ? new S() : new S(*sf[w.idx[j]]);
    int n = w.n; W* wp = &w; S *c0 = c[0], *c1 = n > 1 ? c[1] : 0, *c2 = n > 2 ? c[2] : 0, *c3 = n > 3 ? c[3] : 0;
    auto body = [wp, n, c0, c1, c2, c3, &src] {
      S* c[4] = {c0, c1, c2, c3}; bool before[4]; { Ignore g; wp->fid = fid(); }
      for (int j = 0; j < n; j++) before[j] = c[j]->valid() && c[j]->is_ready();
      int r = -1; bool intr = false;
      try {
        if (wp->what == 0) {
          if (wp->form == 0) { if (n == 1) r = (int)boost::wait_for_any(*c[0]); else if (n == 2) r = (int)boost::wait_for_any(*c[0], *c[1]); else if (n == 3) r = (int)boost::wait_for_any(*c[0], *c[1], *c[2]); else r = (int)boost::wait_for_any(*c[0], *c[1], *c[2], *c[3]); }
          else if (wp->form == 1) { std::vector<S> v; for (int j = 0; j < n; j++) v.push_back(*c[j]); typename std::vector<S>::iterator it = boost::wait_for_any(v.begin(), v.end()); r = (int)(it - v.begin()); }
          else { std::list<S> v; for (int j = 0; j < n; j++) v.push_back(*c[j]); typename std::list<S>::iterator it = boost::wait_for_any(v.begin(), v.end()); r = (int)std::distance(v.begin(), it); }
        } else {
          if (wp->form == 0) { if (n == 1) boost::wait_for_all(*c[0]); else if (n == 2) boost::wait_for_all(*c[0], *c[1]); else if (n == 3) boost::wait_for_all(*c[0], *c[1], *c[2]); else boost::wait_for_all(*c[0], *c[1], *c[2], *c[3]); }
          else if (wp->form == 1) { std::vector<S> v; for (int j = 0; j < n; j++) v.push_back(*c[j]); boost::wait_for_all(v.begin(), v.end()); }
          else { std::list<S> v; for (int j = 0; j < n; j++) v.push_back(*c[j]); boost::wait_for_all(v.begin(), v.end()); }
        }
      } catch (boost::thread_interrupted&) { intr = true; }
      if (intr) { if (!wp->interruptible) fail("a wait is interrupted although nobody asked for it"); label("interrupted"); }
      else if (wp->what == 0) {
        if (r < 0 || r >= n) fail("wait_for_any returns %d of %d", r, n);
        if (wp->idx[r] < 0) fail("wait_for_any returns the position of an invalid future");
        if (!c[r]->is_ready()) fail("wait_for_any returns position %d, which is not ready", r);
        for (int j = 0; j < r; j++) if (before[j] ) fail("wait_for_any returns position %d although position %d was ready before", r, j);
        auto* s = &src[wp->idx[r]]; int o = outcome([&] { return Tr<R>::get(*c[r]); }); int want; { Ignore g; want = s->st.want; } if (o != want) fail("future %d yields %d instead of %d", wp->idx[r], o, want);
      } else for (int j = 0; j < n; j++) { if (!c[j]->is_ready()) fail("wait_for_all returns although position %d is not ready", j); int o = outcome([&] { return Tr<R>::get(*c[j]); }); int want; { Ignore g; want = src[wp->idx[j]].st.want; } if (o != want) fail("future %d yields %d instead of %d", wp->idx[j], o, want); }
      for (int j = 0; j < n; j++) delete c[j];
      Ignore g; wp->fin = true; wp->res = r; };
    if (w.interruptible) bt[k] = new boost::thread(body); else th.add(body);
  }
  bool drop_early = flip(); if (drop_early) for (int i = 0; i < ns; i++) { delete sf[i]; sf[i] = 0; }
  // fire in random order, checking at quiescence that exactly the right waiters still block
  int order[4], no = 0; for (int i = 0; i < ns; i++) if (!src[i].st.fired) order[no++] = i; for (int i = no - 1; i > 0; i--) std::swap(order[i], order[pick(i + 1)]);
  auto settled = [&] { wait_quiescent();
    for (int k = 0; k < nw; k++) { W& w = (*ws)[k]; bool any = false, all = true; for (int j = 0; j < w.n; j++) if (w.idx[j] >= 0) { auto& s = src[w.idx[j]].st; bool r = s.kind == 4 ? true : s.fired; if (r) any = true; else all = false; }
      bool may = w.what ? all : any, fin; { Ignore g; fin = w.fin; }
      if (may && !fin) fail("waiter %d still blocks although %s", k, w.what ? "all its futures are ready" : "one of its futures is ready");
      if (!may && fin && !w.interruptible) fail("waiter %d returned early", k); } };
  if (interrupt_some && flip()) { if (flip()) settled(); note("interrupt"); bt[0]->interrupt(); }
  for (int i = 0; i < no; i++) {
    if (chance(1, 2)) settled();
    auto* s = &src[order[i]]; if (flip()) s->fire(); else th.add([s] { s->fire(); });
    if (interrupt_some && i == 0 && flip()) bt[0]->interrupt();
  }
  settled(); th.join(); for (auto t : bt) if (t) { t->join(); delete t; }
  for (int i = 0; i < ns; i++) { delete sf[i]; } wait_quiescent(); for (int i = 0; i < ns; i++) src[i].close();
  Ignore g; std::vector<W>().swap(*ws);
}
SCENARIO(wait_value, 4) { wait_sets<Val>(); }
SCENARIO(wait_void, 2) { wait_sets<void>(); }
// wait callbacks: called once per pending future; one that throws ends the wait and leaves no registration behind
SCENARIO(wait_callback, 1) {
  typedef shared_future<Val> S; check_leaks(true); int n = range(1, 3), thr = pick(n + 1); Source<Val> src[3]; promise<Val>* p[3]; S* f[3]; nontrivial();
  for (int i = 0; i < n; i++) { src[i].st = St(); p[i] = new promise<Val>; f[i] = new S(p[i]->get_future().share()); p[i]->set_wait_callback(Cb<Val>{&src[i], i == thr}); }
  bool done = false; Threads th; int form = pick(2); th.add([&] { std::vector<S> v; for (int i = 0; i < n; i++) v.push_back(*f[i]); int r = -1;
    int o = outcome([&] { if (form) r = (int)(boost::wait_for_any(v.begin(), v.end()) - v.begin()); else r = n == 1 ? (int)boost::wait_for_any(v[0]) : n == 2 ? (int)boost::wait_for_any(v[0], v[1]) : (int)boost::wait_for_any(v[0], v[1], v[2]); return 0; });
    if (thr < n ? o != 1077 : o != 0 || r != 0) fail("wait_for_any gives %d, position %d", o, r); Ignore g; done = true; });
  wait_quiescent(); { Ignore g; if (done != (thr < n)) fail("a throwing wait callback does not end the wait"); for (int i = 0; i < n; i++) if (src[i].st.cbs != (i <= thr)) fail("wait callback %d called %d times", i, src[i].st.cbs); }
  p[0]->set_value(Val(1)); th.join(); for (int i = 0; i < n; i++) { delete p[i]; delete f[i]; }
}
#ifdef BOOST_THREAD_PROVIDES_FUTURE_WHEN_ALL_WHEN_ANY
// ---------------------------------------------------------------- when_all / when_any
template <class X> static int get_of(X& f, Val*) { return Tr<Val>::get(f); }
template <class X> static int get_of(X& f, void*) { return Tr<void>::get(f); }
struct Ctx { bool all; int n; St* s[4]; };
// what each input looks like when the call starts, what must have been started when it returns
static void check_started(Ctx& c, const bool* ready_before, int by) {
  if (c.all) { for (int i = 0; i < c.n; i++) if (c.s[i]->kind == 4 && c.s[i]->calls != 1) fail("when_all returned although deferred input %d has run %d times", i, c.s[i]->calls); }
  else { bool stop = false; for (int i = 0; i < c.n; i++) { bool dup = false; for (int j = 0; j < i; j++) dup = dup || c.s[j] == c.s[i]; if (c.s[i]->kind == 4 && !dup) { if (stop ? c.s[i]->calls && !ready_before[i] : c.s[i]->calls != 1) fail("when_any: deferred input %d has run %d times, %s", i, c.s[i]->calls, stop ? "but an earlier input was ready or deferred" : "but it is the first ready or deferred one"); } if (ready_before[i] || c.s[i]->kind == 4) stop = true; } }
  (void)by;
}
template <class F> static void check_one(F& f, St& s, int i, bool must_ready) {
  typedef typename F::value_type V;
  if (!f.valid()) fail("output %d is not valid", i); bool r = f.is_ready(); if (must_ready && !r) fail("output %d is not ready", i);
  if (r) { bool m; { Ignore g; m = s.ready_mark || s.kind == 0; } if (!m) fail("output %d is ready although its source is not", i); }
}
template <class F> static void finish_one(F& f, St& s, int i) { typedef typename F::value_type V; if (s.kind == 4 && !s.calls) { if (f.wait_for(bc::nanoseconds(5)) != boost::future_status::deferred) fail("output %d lost its deferred function", i); } int o = outcome([&] { return get_of(f, (typename std::remove_reference<V>::type*)0); }); int w; { Ignore g; w = s.want; } if (o != w) fail("output %d yields %d instead of %d", i, o, w); }
template <class E> static bool expected_ready(Ctx& c) { bool any = false, all = true; for (int i = 0; i < c.n; i++) { bool r = c.s[i]->kind == 4 ? c.s[i]->calls > 0 : c.s[i]->fired; if (r) any = true; else all = false; } return c.all ? all : any; }
// fires the sources in random order on other threads or here, checking readiness in between
template <class Res, class FireFn> static void drive(Ctx& c, Res& res, FireFn fire, bool waiter_running) {
  int order[4], no = 0; for (int i = 0; i < c.n; i++) { bool dup = false; for (int k = 0; k < no; k++) if (c.s[order[k]] == c.s[i]) dup = true; if (!dup && !c.s[i]->fired) order[no++] = i; } for (int i = no - 1; i > 0; i--) std::swap(order[i], order[pick(i + 1)]);
  bool concurrent = flip(); Threads th;
  for (int i = 0; i < no; i++) { if (!concurrent) { wait_quiescent(); bool e = expected_ready<int>(c); if (res && res->is_ready() != e) fail("the combined future is%s ready although %s inputs are", e ? " not" : "", e ? "enough" : "not enough"); } int k = order[i]; if (concurrent) th.add([&, k] { fire(k); }); else fire(k); }
  th.join(); wait_quiescent(); if (res && !res->is_ready()) fail("the combined future is not ready although every input is"); (void)waiter_running;
}
template <class R> static void add(std::vector<boost::BOOST_THREAD_FUTURE<R> >& v, boost::BOOST_THREAD_FUTURE<R>& u) { v.push_back(boost::move(u)); }
template <class R> static void add(std::vector<shared_future<R> >& v, boost::BOOST_THREAD_FUTURE<R>& u) { v.push_back(u.share()); }
template <class R> static void dup(std::vector<shared_future<R> >& v) { v.push_back(shared_future<R>(v.back())); }
template <class V> static void dup(V&) {}
template <class R, bool SH> static void when_range() {
  typedef typename Fut<R>::type U; typedef typename std::conditional<SH, shared_future<R>, U>::type F; typedef std::vector<F> V; typedef typename Fut<boost::csbl::vector<F> >::type RF;
  check_leaks(true); allow_spurious(pick(3)); if (flip()) allow_early_time(true);
  Ctx c; c.all = flip(); int n = range(0, 4), nsrc = n; Source<R> src[4]; V v; nontrivial(n > 1); c.n = n; std::vector<shared_future<R>*> keep; int map[4];
  std::vector<shared_future<R> > pool;
  for (int i = 0; i < n; i++) { map[i] = SH && i && chance(1, 5) ? map[i - 1] : i; if (map[i] != i) { dup(v); c.s[i] = c.s[i - 1]; continue; } U u(src[i].open(i, true)); c.s[i] = &src[i].st; add(v, u); }
  (void)nsrc; bool rb[4]; for (int i = 0; i < n; i++) rb[i] = v[i].is_ready(); note("%s of %d", c.all ? "when_all" : "when_any", n);
  RF* res; bool lst = flip();
  if (lst) { std::list<F> l; for (auto& x : v) l.push_back(boost::move(x)); F* probe = n ? &l.front() : 0; res = new RF(c.all ? boost::when_all(l.begin(), l.end()) : boost::when_any(l.begin(), l.end())); for (auto& x : l) if (x.valid() != SH) fail(SH ? "an input shared_future is no longer valid" : "an input future is still valid"); (void)probe; v.clear(); }
  else { res = new RF(c.all ? boost::when_all(v.begin(), v.end()) : boost::when_any(v.begin(), v.end())); for (auto& x : v) if (x.valid() != SH) fail(SH ? "an input shared_future is no longer valid" : "an input future is still valid"); }
  if (!res->valid()) fail("the result is not valid"); if (n) check_started(c, rb, 0); if (!n && !res->is_ready()) fail("the future of an empty range is not ready");
  for (auto& x : v) if (SH && !x.valid()) fail("an input shared_future is not valid");
  v.clear(); V().swap(v);
  bool drop = chance(1, 6), early = !drop && chance(1, 3); boost::csbl::vector<F> out; Threads th; bool got = false;
  auto take = [&](RF& r) { int o = outcome([&] { out = r.get(); return 0; }); if (o) fail("get of the combined future throws (%d)", o); if ((int)out.size() != n) fail("%d outputs for %d inputs", (int)out.size(), n); int nr = 0; for (int i = 0; i < n; i++) { check_one(out[i], *c.s[i], i, c.all); if (out[i].is_ready()) nr++; } if (!c.all && n && !nr) fail("no output of when_any is ready"); };
  if (drop) { note("drop"); delete res; res = 0; } else if (early) { RF* r = res; res = 0; th.add([&, r] { take(*r); delete r; hb_release(&got); Ignore g; got = true; }); }
  drive(c, res, [&](int i) { src[map[i]].fire(); }, early);
  th.join(); if (early) hb_acquire(&got);
  if (res) { take(*res); delete res; }
  if (!drop) for (int i = 0; i < n; i++) finish_one(out[i], *c.s[i], i);
  boost::csbl::vector<F>().swap(out); wait_quiescent(); delay(1); wait_quiescent(); for (int i = 0; i < n; i++) if (map[i] == i) src[i].close();
}
SCENARIO(when_unique_value, 2) { when_range<Val, false>(); }
SCENARIO(when_shared_value, 2) { when_range<Val, true>(); }
SCENARIO(when_unique_void, 1) { when_range<void, false>(); }
SCENARIO(when_shared_void, 1) { when_range<void, true>(); }
SCENARIO(when_tuple, 3) {
  typedef Fut<Val>::type F; typedef shared_future<Val> S; typedef Fut<void>::type FV; typedef boost::csbl::tuple<F, S, FV> T; typedef Fut<T>::type RF;
  check_leaks(true); allow_spurious(pick(3)); if (flip()) allow_early_time(true); nontrivial();
  Ctx c; c.all = flip(); c.n = 3; Source<Val> a, b; Source<void> d; F f0(a.open(0, true)); S f1(b.open(1, true).share()); FV f2(d.open(2, true)); c.s[0] = &a.st; c.s[1] = &b.st; c.s[2] = &d.st;
  bool rb[3] = {f0.is_ready(), f1.is_ready(), f2.is_ready()}; note(c.all ? "when_all" : "when_any");
  RF* res = new RF(c.all ? boost::when_all(boost::move(f0), f1, boost::move(f2)) : boost::when_any(boost::move(f0), f1, boost::move(f2)));
  if (f0.valid() || f2.valid() || !f1.valid() || !res->valid()) fail("validity after the call is wrong"); check_started(c, rb, 0);
  bool drop = chance(1, 6), early = !drop && chance(1, 3), then = !drop && !early && chance(1, 3); T out; Threads th; bool got = false; FV* tf = 0; int tcalls = 0; (void)tcalls;
  auto check = [&] { check_one(boost::csbl::get<0>(out), a.st, 0, c.all); check_one(boost::csbl::get<1>(out), b.st, 1, c.all); check_one(boost::csbl::get<2>(out), d.st, 2, c.all); if (!c.all && !boost::csbl::get<0>(out).is_ready() && !boost::csbl::get<1>(out).is_ready() && !boost::csbl::get<2>(out).is_ready()) fail("no output of when_any is ready"); };
  auto take = [&](RF& r) { int o = outcome([&] { out = r.get(); return 0; }); if (o) fail("get of the combined future throws (%d)", o); check(); };
  if (drop) { delete res; res = 0; } else if (early) { RF* r = res; res = 0; th.add([&, r] { take(*r); delete r; hb_release(&got); Ignore g; got = true; }); }
  else if (then) { tf = new FV(res->then([&](RF r) { take(r); hb_release(&got); Ignore g; got = true; })); delete res; res = 0; }
  drive(c, res, [&](int i) { if (i == 0) a.fire(); else if (i == 1) b.fire(); else d.fire(); }, early);
  th.join(); if (tf) { tf->get(); delete tf; if (!got) fail("the continuation of the combined future did not run"); } if (early || then) hb_acquire(&got);
  if (res) { take(*res); delete res; }
  if (!drop) { finish_one(boost::csbl::get<0>(out), a.st, 0); finish_one(boost::csbl::get<1>(out), b.st, 1); finish_one(boost::csbl::get<2>(out), d.st, 2); }
  { T e; out = boost::move(e); } f1 = S(); wait_quiescent(); delay(1); wait_quiescent(); a.close(); b.close(); d.close();
}
#endif
int main(int argc, char** argv) { return pbt_main(argc, argv, "several inputs or several concurrent waiters"); }
