// E01: executors: every accepted closure runs exactly once, where and when it may; close and destruction drain
#include "common.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#include <boost/thread/executors/serial_executor_cont.hpp>
#include <boost/thread/executors/executor.hpp>
#include <boost/thread/executors/executor_adaptor.hpp>
#include <boost/thread/executors/generic_executor_ref.hpp>
using namespace boost::executors;
enum Kind { POOL, THREAD, LOOP, INLINE, SERIAL, CONT };
static const char* const KIND[] = {"basic_thread_pool", "thread_executor", "loop_executor", "inline_executor", "serial_executor", "serial_executor_cont"};
struct Rec { int id, by, runs, ran_on, kids, act; bool started, done, accepted, refused; uint64_t s, e, rs, re; int* in; int out; };
struct Ex { virtual ~Ex() {} virtual void dispose() = 0; virtual void submit(Rec* r, int form) = 0; virtual void close() = 0; virtual bool closed() = 0; virtual bool help() = 0; virtual bool until(std::function<bool()> p) = 0; };
struct G {                                 // the state of one case (outside the tracked heap)
  Kind kind; Ex* ex; Rec recs[24]; int n, running; bool gone, concurrent_ok; uint64_t close_s, close_e; int helping[64], ranby[64]; std::set<int>* loopers; int maxsub; bool nest_help, may_submit; uint64_t destroy_s;
};
static G g;
static void submit(int by, int form, int act);
static void do_help();
static void run(Rec* r) {                  // the body of every task
  { Ignore i; if (r->started) fail("task %d runs a second time", r->id); r->started = true; r->runs++; r->ran_on = fid(); r->rs = next_stamp(); g.ranby[fid() & 63]++;
    if (g.gone) fail("task %d runs after the destructor of the executor returned", r->id);
    if (r->refused) fail("task %d was refused but runs", r->id);
    if (!g.concurrent_ok && g.running > 0) fail("task %d of a serial executor starts while another task is running", r->id);
    g.running++;
    if (g.kind == INLINE && r->by != fid()) fail("inline_executor runs task %d on another thread", r->id);
    if (g.kind == THREAD && r->by == fid()) fail("thread_executor runs task %d on the submitting thread", r->id);
    if ((g.kind == POOL || g.kind == LOOP) && !g.helping[fid() & 63] && g.kind == LOOP && !g.loopers->count(fid())) fail("task %d of a loop_executor runs on a thread that neither loops nor helps", r->id);
    if (g.kind == POOL && r->by == fid() && fid() == 0 && !g.helping[0]) fail("task %d of the pool runs on the submitting thread", r->id); }
  int v = *r->in; point(); r->out = v + 1;     // unordered hand-over is a data race
  switch (r->act) { case 1: submit(fid(), r->id, 0); break; case 2: do_help(); break; case 3: { uint64_t s; { Ignore i; s = next_stamp(); if (!g.close_s) g.close_s = s; } g.ex->close(); Ignore i; if (!g.close_e) g.close_e = next_stamp(); break; }
    case 4: { bool had; { Ignore i; had = g.close_e != 0; } bool c = g.ex->closed(); Ignore i; if (had && !c) fail("closed() is false after close()"); if (c && !g.close_s && !g.destroy_s) fail("closed() is true before close()"); break; } default: point(); }
  Ignore i; g.running--; r->done = true; r->re = next_stamp();
}
struct Fun { Rec* r; int* own; Fun(Rec* x) : r(x), own(new int(1)) {} Fun(const Fun& o) : r(o.r), own(new int(*o.own)) {} Fun(Fun&& o) : r(o.r), own(o.own) { o.own = 0; } Fun& operator=(const Fun&) = delete; ~Fun() { delete own; own = (int*)8; }
  void operator()() { if (!own || *own != 1) fail("task %d: the stored closure is damaged", r->id); run(r); } };
struct MFun { Rec* r; int* own; MFun(Rec* x) : r(x), own(new int(1)) {} MFun(const MFun&) = delete; MFun(MFun&& o) : r(o.r), own(o.own) { o.own = 0; } ~MFun() { delete own; own = (int*)8; }
  void operator()() { if (!own || *own != 1) fail("task %d: the stored closure is damaged", r->id); run(r); } };
static Rec* g_fp[4]; template <int I> static void fp() { Rec* r; { Ignore i; r = g_fp[I]; } run(r); }
static void (*const FP[4])() = {fp<0>, fp<1>, fp<2>, fp<3>};
static int fp_slot(Rec* r) { Ignore i; for (int k = 0; k < 4; k++) if (!g_fp[k]) { g_fp[k] = r; return k; } return -1; }
template <class E> static void submit_to(E& e, Rec* r, int form, bool erased) {
  switch (form % 5) {
    case 0: { Fun f(r); e.submit(f); break; }
    case 1: e.submit(Fun(r)); break;
    case 2: e.submit(MFun(r)); break;
    case 3: { int k = fp_slot(r); if (k >= 0) { e.submit(FP[k]); break; } e.submit(Fun(r)); break; }
    default: { typename E::work w((Fun(r))); e.submit(boost::move(w)); break; }
  }
}
static bool counted_help(std::function<bool()> f, const char* what, bool exact) {
  int before; { Ignore i; before = g.ranby[fid() & 63]; g.helping[fid() & 63]++; }
  bool r = f();
  Ignore i; g.helping[fid() & 63]--; int did = g.ranby[fid() & 63] - before;
  if (exact && r != (did > 0)) fail("%s returns %d, but %d tasks ran in the call", what, (int)r, did);
  return r;
}
template <class E> struct ExT : Ex { E* e; bool own; ExT(E* x, bool o) : e(x), own(o) {} void dispose() { if (own) delete e; }
  void submit(Rec* r, int f) { submit_to(*e, r, f, false); } void close() { e->close(); } bool closed() { return e->closed(); } bool help() { return e->try_executing_one(); } bool until(std::function<bool()> p) { return until_(e, p, 0); }
  template <class X> static auto until_(X* x, std::function<bool()> p, int) -> decltype(x->reschedule_until(p)) { return x->reschedule_until(p); } template <class X> static bool until_(X*, std::function<bool()>, long) { return false; } };
// wrapped: the executor interface through adaptor / reference classes
template <class E> struct Wrapped : Ex { E* e; generic_executor_ref* ref; Wrapped(E* x) : e(x), ref(new generic_executor_ref(*x)) {} void dispose() { delete e; delete ref; }
  void submit(Rec* r, int f) { generic_executor_ref* first = new generic_executor_ref(*ref); generic_executor_ref copy(*first); delete first; submit_to(copy, r, f, true); } void close() { ref->close(); } bool closed() { return ref->closed(); } bool help() { return ref->try_executing_one(); } bool until(std::function<bool()> p) { return ref->reschedule_until(p); } };
template <class E> struct Based : Ex { executor* e; Based(executor* x) : e(x) {} void dispose() { delete e; }
  void submit(Rec* r, int f) { submit_to(*e, r, f, true); } void close() { e->close(); } bool closed() { return e->closed(); } bool help() { return e->try_executing_one(); } bool until(std::function<bool()> p) { return e->reschedule_until(p); } };
template <class E> struct Refd : Ex { E* e; executor_ref<E>* r; Refd(E* x) : e(x), r(new executor_ref<E>(*x)) {} void dispose() { delete e; delete r; }
  void submit(Rec* c, int f) { executor& b = *r; submit_to(b, c, f, true); } void close() { r->close(); } bool closed() { return r->closed(); } bool help() { return r->try_executing_one(); } bool until(std::function<bool()> p) { return r->reschedule_until(p); } };

static void submit(int by, int form, int act) {
  Rec* r; { Ignore i; if (g.n >= g.maxsub) return; r = &g.recs[g.n]; memset(r, 0, sizeof *r); r->id = g.n++; r->by = by; r->act = act; }
  r->in = new int(r->id * 10); { Ignore i; r->s = next_stamp(); }
  try { g.ex->submit(r, form); Ignore i; r->accepted = true; r->e = next_stamp(); if (g.close_e && g.close_e < r->s) fail("task %d is accepted after close()", r->id); if (g.kind == INLINE && !r->done) fail("inline_executor: submit returned before task %d ran", r->id); }
  catch (boost::concurrent::sync_queue_is_closed&) { Ignore i; r->refused = true; if (r->started) fail("task %d ran although its submission failed", r->id); uint64_t e = next_stamp(); if (!g.close_s && !g.destroy_s) fail("task %d is refused by an open executor", r->id); (void)e; }
}
static void do_help() {
  if (!g.nest_help) { point(); return; }
  int stop; { Ignore i; int done = 0; for (int k = 0; k < g.n; k++) done += g.recs[k].done; stop = done + 1; }
  // a task helps: run other tasks until some more are done
  if (stop & 1) counted_help([] { return g.ex->help(); }, "try_executing_one", true);
  else { bool last = false; bool* lp = &last;
    bool r = counted_help([stop, lp] { return g.ex->until([stop, lp] { Ignore i; if (*lp) fail("reschedule_until goes on after its predicate was true"); int done = 0; for (int k = 0; k < g.n; k++) done += g.recs[k].done; return *lp = done >= stop; }); }, "reschedule_until", false);
    if (r != last) fail("reschedule_until returns %d, its predicate last gave %d", (int)r, (int)last); }
}
// the type-erased closure itself: a value whose copies all stand for the closure it was made from
struct Obs { int id, *own; Obs(int i) : id(i), own(new int(i)) {} Obs(const Obs& o) : id(o.id), own(new int(*o.own)) {} Obs(Obs&& o) : id(o.id), own(o.own) { o.own = 0; } Obs& operator=(const Obs&) = delete; ~Obs() { delete own; own = (int*)8; }
  void operator()(); };
static int g_called; void Obs::operator()() { if (!own || *own != id) fail("closure %d is damaged", id); Ignore i; g_called = id; }
static void ofp1() { Ignore i; g_called = 101; } static void ofp2() { Ignore i; g_called = 102; }
SCENARIO(closures, 2) {
  check_leaks(true); int n = range(1, 3), ops = range(1, 10); work* w[3]; int m[3]; for (int k = 0; k < n; k++) { w[k] = new work; m[k] = 0; } int next = 1; nontrivial(ops > 3);
  for (int o = 0; o < ops; o++) { int a = pick(n), b = pick(n), op = pick(9); note("op %d on %d, %d", op, a, b);
    switch (op) {
      case 0: delete w[a]; w[a] = new work(Obs(next)); m[a] = next++; break;
      case 1: { Obs x(next); delete w[a]; w[a] = new work(x); m[a] = next++; if (!x.own) fail("making a closure moved from an lvalue"); break; }
      case 2: { void (*f)() = flip() ? ofp1 : ofp2; delete w[a]; w[a] = new work(f); m[a] = f == ofp1 ? 101 : 102; break; }
      case 3: *w[a] = *w[b]; m[a] = m[b]; break;
      case 4: if (a != b) { *w[a] = boost::move(*w[b]); m[a] = m[b]; delete w[b]; w[b] = new work; m[b] = 0; } break;
      case 5: if (a != b) { delete w[a]; w[a] = new work(*w[b]); m[a] = m[b]; } break;
      case 6: if (a != b) { delete w[a]; w[a] = new work(boost::move(*w[b])); m[a] = m[b]; delete w[b]; w[b] = new work; m[b] = 0; } break;
      case 7: { const work& c = *w[b]; if (a != b) { delete w[a]; w[a] = new work(c); m[a] = m[b]; } break; }
      default: { { Ignore i; g_called = 0; } (*w[a])(); Ignore i; if (g_called != m[a]) fail("calling the closure object runs closure %d instead of %d", g_called, m[a]); }
    } }
  for (int k = 0; k < n; k++) { { Ignore i; g_called = 0; } (*w[k])(); { Ignore i; if (g_called != m[k]) fail("calling the closure object runs closure %d instead of %d", g_called, m[k]); } delete w[k]; }
}
static void begin(Kind k) { Ignore i; memset(&g, 0, sizeof g); g.kind = k; g.maxsub = 24; g.concurrent_ok = true; g.loopers = new std::set<int>; memset(g_fp, 0, sizeof g_fp); }
static void finish() {
  { Ignore i; for (int k = 0; k < g.n; k++) { Rec& r = g.recs[k]; if (r.accepted && r.runs != 1) fail("accepted task %d has run %d times when the executor is gone", k, r.runs); if (r.started && !r.done) fail("task %d is still running when the executor is gone", k); if (!r.accepted && !r.refused) fail("harness: task %d undecided", k); } }
  for (int k = 0; k < g.n; k++) { Rec& r = g.recs[k]; bool ran; { Ignore i; ran = r.done; } if (ran && r.out != *r.in + 1) fail("task %d: effects not visible", k); delete r.in; }
  Ignore i; g.gone = true; delete g.loopers; g.loopers = 0;
}
static void dispose() {                     // by this thread, or by one with an interruption pending
  if (!chance(1, 4)) { { Ignore i; g.destroy_s = next_stamp(); } g.ex->dispose(); return; }
  Counter* go = new Counter; bool w = flip(); boost::thread o([=] { { boost::this_thread::disable_interruption di; go->wait(1); } { Ignore i; g.destroy_s = next_stamp(); } g.ex->dispose(); }); if (w) wait_quiescent(); o.interrupt(); go->add(); o.join(); delete go;
}
static void check_serial_order() {
  Ignore i; for (int a = 0; a < g.n; a++) for (int b = 0; b < g.n; b++) { Rec &x = g.recs[a], &y = g.recs[b]; if (x.accepted && y.accepted && x.e < y.s && x.rs > y.rs) fail("serial executor: task %d was submitted before task %d but runs after it", a, b); }
}
static int pick_act(bool close_ok) { static const unsigned w[] = {5, 3, 2, 1, 1}; int a = weighted(w, 5); return a == 3 && !close_ok ? 0 : a; }
// submitters, helpers and closers around an executor; the caller then drains and destroys it
struct Load { Threads th; int ns, per; };
static void load(Load& l, bool outside_help, bool close_in_tasks) {
  l.ns = range(1, 3); l.per = range(1, 3); nontrivial(l.ns > 1 || l.per > 1);
  for (int t = 0; t < l.ns; t++) { int acts[3], forms[3], helps[3]; for (int k = 0; k < l.per; k++) { acts[k] = pick_act(close_in_tasks); forms[k] = pick(5); helps[k] = outside_help && chance(1, 3); }
    note("submitter %d: %d tasks, actions %d %d %d", t, l.per, acts[0], l.per > 1 ? acts[1] : -1, l.per > 2 ? acts[2] : -1);
    int per = l.per; l.th.add([=] { for (int k = 0; k < per; k++) { submit(fid(), forms[k], acts[k]); if (helps[k]) counted_help([] { return g.ex->help(); }, "try_executing_one", true); } }); }
  if (chance(1, 3)) l.th.add([] { { Ignore i; if (!g.close_s) g.close_s = next_stamp(); } g.ex->close(); { Ignore i; if (!g.close_e) g.close_e = next_stamp(); } if (!g.ex->closed()) fail("closed() is false after close()"); });
}
template <class T> static Ex* wrap(T* e) { switch (pick(3)) { case 0: return new ExT<T>(e, true); case 1: return new Wrapped<T>(e); default: return new Refd<T>(e); } }
static int g_entries, g_pools; static void at_entry(basic_thread_pool&) { Ignore i; g_entries++; }
SCENARIO(pool, 4) {
  check_leaks(true); begin(POOL); { Ignore i; g.nest_help = true; g_entries = 0; } int nt = range(1, 3), how = pick(5); bool entry = false; int ent = -1;
  struct Entry { int* n; void operator()(basic_thread_pool&) { Ignore i; ++*n; } }; int* cnt; { Ignore i; cnt = new int(0); }
  if (how == 0) g.ex = new ExT<basic_thread_pool>(new basic_thread_pool(nt), true);
  else if (how == 1) { g.ex = new Wrapped<basic_thread_pool>(new basic_thread_pool(nt, at_entry)); ent = 0; }
  else if (how == 2) { Entry e = {cnt}; g.ex = new Refd<basic_thread_pool>(new basic_thread_pool(nt, boost::move(e))); ent = 1; }
  else if (how == 3) g.ex = new Based<basic_thread_pool>(new executor_adaptor<basic_thread_pool>(boost::move(nt)));
  else g.ex = new ExT<basic_thread_pool>(new basic_thread_pool(nt), true);
  note("pool of %d, wrapping %d", nt, how); (void)entry;
  Load l; load(l, true, true); l.th.join(); bool j = how == 0 && flip();
  if (j) { { Ignore i; if (!g.close_s) g.close_s = next_stamp(); } g.ex->close(); { Ignore i; if (!g.close_e) g.close_e = next_stamp(); } ((ExT<basic_thread_pool>*)g.ex)->e->join(); Ignore i; for (int k = 0; k < g.n; k++) if (g.recs[k].accepted && !g.recs[k].done) fail("close() and join() returned before accepted task %d has run", k); }
  dispose(); delete g.ex; finish();
  { Ignore i; if (ent == 0 && g_entries != nt) fail("the function at thread entry ran %d times for %d threads", g_entries, nt); if (ent == 1 && *cnt != nt) fail("the function at thread entry ran %d times for %d threads", *cnt, nt); delete cnt; }
}
SCENARIO(threads, 2) {
  check_leaks(true); begin(THREAD); int how = pick(4);
  if (how == 3) g.ex = new Based<thread_executor>(new executor_adaptor<thread_executor>()); else g.ex = wrap(new thread_executor());
  Load l; load(l, true, true); l.th.join(); dispose(); delete g.ex; finish();
}
SCENARIO(inlined, 1) {
  check_leaks(true); begin(INLINE); if (chance(1, 4)) g.ex = new Based<inline_executor>(new executor_adaptor<inline_executor>()); else g.ex = wrap(new inline_executor());
  Load l; load(l, true, true); l.th.join(); dispose(); delete g.ex; finish();
}
SCENARIO(loop, 3) {
  check_leaks(true); begin(LOOP); { Ignore i; g.nest_help = true; } loop_executor* le = new loop_executor; g.ex = wrap(le);
  int nl = pick(3); Load l; load(l, true, true); Threads loops; int early = range(0, nl);
  auto looper = [le] { { Ignore i; g.loopers->insert(fid()); } le->loop(); Ignore i; bool c = g.close_s != 0; if (!c) fail("loop() returned although the executor was never closed"); };
  for (int k = 0; k < early; k++) loops.add(looper); l.th.join(); for (int k = early; k < nl; k++) loops.add(looper);
  if (nl == 0 && flip()) { { Ignore i; g.helping[0]++; } le->run_queued_closures(); Ignore i; g.helping[0]--; for (int k = 0; k < g.n; k++) if (g.recs[k].accepted && g.recs[k].act != 1 && !g.recs[k].done && g.recs[k].by != 0) fail("run_queued_closures left task %d", k); }
  { Ignore i; if (!g.close_s) g.close_s = next_stamp(); } g.ex->close(); { Ignore i; if (!g.close_e) g.close_e = next_stamp(); }
  if (nl == 0) { { Ignore i; g.loopers->insert(0); } le->loop(); } loops.join(); // every loop has returned: everything accepted has run
  { Ignore i; for (int k = 0; k < g.n; k++) if (g.recs[k].accepted && !g.recs[k].done) fail("loop() returned before accepted task %d has run", k); } dispose(); delete g.ex; finish();
}
// what serial executors run on
struct Under { int k; basic_thread_pool* p; thread_executor* t; inline_executor* in; loop_executor* l; Threads th;
  Under(bool allow_inline) : p(0), t(0), in(0), l(0) { k = pick(allow_inline ? 4 : 3); note("underlying %d", k); if (k == 0) p = new basic_thread_pool(range(1, 2)); else if (k == 1) t = new thread_executor; else if (k == 2) { l = new loop_executor; loop_executor* x = l; th.add([x] { x->loop(); }); } else in = new inline_executor; }
  template <class S> S* make() { return k == 0 ? new S(*p) : k == 1 ? new S(*t) : k == 2 ? new S(*l) : new S(*in); }
  ~Under() { if (l) l->close(); th.join(); delete p; delete t; delete in; delete l; } };
SCENARIO(serial, 3) {
  check_leaks(true); begin(SERIAL); { Ignore i; g.concurrent_ok = false; } { Under u(true); serial_executor* s = u.make<serial_executor>(); g.ex = wrap(s);
  Load l; load(l, false, true); l.th.join(); dispose(); delete g.ex; finish(); check_serial_order(); }
}
#if defined BOOST_THREAD_PROVIDES_FUTURE_CONTINUATION
SCENARIO(serial_cont, 3) {
  check_leaks(true); begin(CONT); { Ignore i; g.concurrent_ok = false; } { Under u(false); serial_executor_cont* s = u.make<serial_executor_cont>(); g.ex = new ExT<serial_executor_cont>(s, true);
  Load l; load(l, false, true); l.th.join(); dispose(); delete g.ex; finish(); check_serial_order(); }
}
#endif
int main(int c, char** v) { return pbt_main(c, v, "two or more submissions (from one or several threads, or nested in tasks)"); }
