// H02: thread-specific data is private and cleaned up exactly once at thread exit
#include "timeutil.h"
#include "common.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/tss.hpp>
#include <boost/thread/future.hpp>
static const int NK = 5;
struct V;
struct Info { V* v; int th, key; int cleaned; bool released, current, exiting_set; };
struct World;
static World* W;
struct V { int id; int payload; explicit V(int id) : id(id), payload(id * 3 + 1) { } ~V(); };
typedef boost::thread_specific_ptr<V> Tss;
enum Kind { DEFDEL, CUSTOM, NONE };
static void cleaned(V* v);
V::~V() { cleaned(this); }
static void custom(V* v) { delete v; }
struct TM { V* cur[NK]; int fid; int handlers_reg, handlers_run; bool exiting, tss_started; int budget; bool native; int epoch; bool unwinding; TM() : fid(-1), handlers_reg(0), handlers_run(0), exiting(false), tss_started(false), budget(0), native(false), epoch(0) { for (auto& c : cur) c = 0; } };
struct World {
  Tss* k[NK]; Kind kind[NK]; std::vector<Info*> info; TM t[4]; bool finishing; std::vector<V*> nocleanup;
  World() : finishing(false) { }
};
static int me() { int f = sim::fid(); for (int i = 0; i < 4; i++) if (W->t[i].fid == f) return i; return -1; }
static void set_value(int th, int key, bool null);
static void maybe_more(int th, int key);
static void cleaned(V* v) {
  int th, key; bool act;
  {
    Ignore i; if (!W || W->finishing) return;
    Info* n = W->info[v->id]; th = n->th; key = n->key;
    if (v->payload != v->id * 3 + 1) fail("cleanup got a damaged value");
    if (++n->cleaned > 1) fail("value %d of key %d cleaned up %d times", v->id, key, n->cleaned);
    if (n->released) fail("a released value was cleaned up");
    if (W->kind[key] == NONE) fail("cleanup although none was given");
    TM& t = W->t[th];
    if (sim::fid() != t.fid) fail("value of thread %d cleaned up on another thread", th);
    if (t.exiting) { if (!n->exiting_set && !t.tss_started && t.handlers_run < t.handlers_reg) fail("thread-specific data destroyed before the %d at_thread_exit functions ran (%d did)", t.handlers_reg, t.handlers_run); t.tss_started = true; if (t.cur[key] != v) fail("a value that is not the stored one was cleaned up at exit"); t.cur[key] = 0; }
    else if (!t.unwinding) fail("value cleaned up although still stored and its thread not exiting");
    act = t.exiting && t.budget > 0;
  }
  if (act) maybe_more(th, key);
}
static V* mk(int th, int key) { Ignore ig; Info* n = new Info(); n->th = th; n->key = key; n->exiting_set = W->t[th].exiting; int id = (int)W->info.size(); W->info.push_back(n); { } return (V*)(intptr_t)id; }
static V* newv(int th, int key) { int id = (int)(intptr_t)mk(th, key); V* v = new V(id); Ignore ig; W->info[id]->v = v; if (W->kind[key] == NONE) W->nocleanup.push_back(v); return v; }
// values without cleanup vanish silently once the destruction at exit has begun
static void sync(int th, int key) { TM& t = W->t[th]; if (t.exiting && t.tss_started && W->kind[key] == NONE && t.cur[key] && !W->k[key]->get()) { Ignore i; t.cur[key] = 0; } }
static void do_get(int th, int key) {
  sync(th, key);
  V* g = W->k[key]->get(); TM& t = W->t[th]; V* want = t.cur[key];
  if (g != want) fail("thread %d sees %s through key %d instead of %s", th, !g ? "null" : W->info[g->id]->th != th ? "another thread's value" : "an old value", key, want ? "its own value" : "null");
  if (g && ((**W->k[key]).id != g->id || (*W->k[key])->payload != g->id * 3 + 1)) fail("dereferencing gives something else");
}
static void set_value(int th, int key, bool null) {
  sync(th, key);
  TM& t = W->t[th]; V* old = t.cur[key]; int old_id = old ? old->id : -1; V* n = null ? 0 : newv(th, key);
  note("thread %d%s: key %d reset(%s)", th, t.exiting ? " (exiting)" : "", key, null ? "0" : "new");
  bool ex; { Ignore i; ex = t.exiting; t.unwinding = true; t.exiting = false; }   // an explicit reset during exit cleans up the old value at once
  W->k[key]->reset(n);
  { Ignore i; t.exiting = ex; t.unwinding = false; t.cur[key] = n; if (old && W->kind[key] != NONE && W->info[old_id]->cleaned != 1) fail("reset() cleaned the previous value up %d times", W->info[old_id]->cleaned); }
}
static void do_release(int th, int key) {
  sync(th, key); TM& t = W->t[th]; V* old = t.cur[key]; note("thread %d: key %d release", th, key);
  V* r = W->k[key]->release(); if (r != old) fail("release() returned something else");
  { Ignore i; t.cur[key] = 0; if (r) W->info[r->id]->released = true; }
  if (W->k[key]->get()) fail("value still there after release()");
  if (r && W->kind[key] != NONE) { Ignore i; if (W->info[r->id]->cleaned) fail("release() cleaned up"); W->nocleanup.push_back(r); }
}
struct Handler { int th; int depth; void operator()() const; };
static void add_handler(int th, int depth) { { Ignore i; W->t[th].handlers_reg++; } note("thread %d: at_thread_exit", th); boost::this_thread::at_thread_exit(Handler{th, depth}); }
void Handler::operator()() const {
  TM& t = W->t[th];
  { Ignore i; t.handlers_run++; if (sim::fid() != t.fid) fail("at_thread_exit function ran on another thread"); if (!t.exiting && !t.native) { } t.exiting = true; if (t.handlers_run > t.handlers_reg) fail("an at_thread_exit function ran twice"); }
  int key = pick(NK); do_get(th, key);     // the data are still there
  if (t.budget > 0) { { Ignore i; t.budget--; } unsigned k = pick(4); if (k == 1) add_handler(th, depth + 1); else if (k == 2) set_value(th, key, false); else if (k == 3) do_release(th, pick(NK)); }
}
static void maybe_more(int th, int key) {
  TM& t = W->t[th]; unsigned k = pick(5); if (!k) return; { Ignore i; t.budget--; }
  int o = pick(NK); if (o == key) return;
  if (k == 1 || k == 2) { set_value(th, o, k == 2 && flip()); }
  else if (k == 3) add_handler(th, 0);
  else do_get(th, o);
}
static void thread_prog(int th, int end) {
  { Ignore i; W->t[th].fid = sim::fid(); W->t[th].budget = 3; }
  for (int k = 0; k < NK; k++) if (W->k[k]->get()) fail("a new thread sees a value through key %d", k);
  int n = range(0, 8);
  for (int s = 0; s < n; s++) {
    int key = pick(NK); unsigned op = pick(8);
    if (op <= 2) set_value(th, key, false);
    else if (op == 3) set_value(th, key, true);
    else if (op == 4) { V* c = W->t[th].cur[key]; W->k[key]->reset(c); Ignore i; if (c && W->info[c->id]->cleaned) fail("reset to the same value cleaned it up"); }
    else if (op == 5) do_release(th, key);
    else if (op == 6) add_handler(th, 0);
    else for (int k = 0; k < NK; k++) do_get(th, k);
    do_get(th, key);
  }
  for (int k = 0; k < NK; k++) do_get(th, k);
  { Ignore i; W->t[th].exiting = true; }
  if (end == 1) {
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
    throw boost::thread_interrupted();
#endif
  }
}
SCENARIO(private_data, 6) {
  check_leaks(true);
  World* w; { Ignore i; w = W = new World; }
  std::vector<int> ord; { Ignore i; for (int i = 0; i < NK; i++) ord.push_back(i); }
  for (int i = 0; i < NK; i++) { int j = pick(NK - i); int k = ord[i + j]; std::swap(ord[i], ord[i + j]); unsigned kd = pick(4); w->kind[k] = kd <= 1 ? DEFDEL : kd == 2 ? CUSTOM : NONE; w->k[k] = kd <= 1 ? new Tss : kd == 2 ? new Tss(&custom) : new Tss((void (*)(V*))0); }
  int nt = range(1, 3); std::vector<boost::thread> bt; Threads nat; { Ignore i; bt.reserve(4); }
  for (int i = 0; i < nt; i++) {
    int kind = pick(3);
    if (kind == 0) { bt.push_back(boost::thread([i] { thread_prog(i, 0); })); }
    else if (kind == 1) { bt.push_back(boost::thread([i] { thread_prog(i, 1); })); }
    else { w->t[i].native = true; nat.add([i] { thread_prog(i, 0); }); }
  }
  for (auto& t : bt) t.join();
  nat.join();
  bool some = false;
  {
    Ignore i;
    for (size_t q = 0; q < w->info.size(); q++) {
      Info* n = w->info[q]; some = true;
      int want = n->released || w->kind[n->key] == NONE ? 0 : 1;
      if (n->cleaned != want) fail("value %zu (thread %d, key %d%s) was cleaned up %d times, expected %d", q, n->th, n->key, n->released ? ", released" : "", n->cleaned, want);
    }
    for (int i = 0; i < nt; i++) if (w->t[i].handlers_run != w->t[i].handlers_reg) fail("%d at_thread_exit functions registered, %d ran", w->t[i].handlers_reg, w->t[i].handlers_run);
    w->finishing = true;
  }
  if (some) nontrivial();
  for (auto v : w->nocleanup) { hb_acquire(w); Ignore i; }
  for (auto v : w->nocleanup) delete v;
  for (int k = 0; k < NK; k++) { if (w->k[k]->get()) fail("main sees a value"); delete w->k[k]; }
  std::vector<boost::thread>().swap(bt);
  Ignore i; for (auto n : w->info) delete n; delete w; W = 0; std::vector<int>().swap(ord);
}
// destruction of the thread_specific_ptr cleans the destroying thread's own value, once
SCENARIO(pointer_destroyed, 2) {
  check_leaks(true);
  static int dels; { Ignore i; dels = 0; }
  struct D { int x; static void f(D* d) { { Ignore i; dels++; } delete d; } };
  bool native = flip(); int mode = pick(4), again = pick(3);
  auto body = [=] {
    int want = 0;
    for (int r = 0; r <= again; r++) {      // a later pointer at the same address must not see anything
      boost::thread_specific_ptr<D>* p = new boost::thread_specific_ptr<D>(&D::f);
      if (p->get()) fail("a new thread_specific_ptr is not null");
      if (mode >= 1) { p->reset(new D()); want++; if (mode == 2) { delete p->release(); want--; } if (mode == 3) p->reset(); }
      delete p;
      Ignore i; if (dels != want) fail("destroying the pointer: %d cleanups, expected %d", dels, want);
    }
  };
  if (native) { Threads t; t.add(body); t.join(); } else { boost::thread t(body); t.join(); }
  if (mode) nontrivial();
}
// notify_all_at_thread_exit: the lock is held until exit and released after thread-specific data are gone
SCENARIO(notify_at_exit, 3) {
  check_leaks(true); if (chance(1, 3)) allow_spurious(2);
  struct S { boost::mutex m[2]; boost::condition_variable cv[2]; bool ready[2]; int tssdone, exdone; boost::thread_specific_ptr<S> p; S() : tssdone(0), exdone(0), p(&clean) { ready[0] = ready[1] = false; } static void clean(S* s) { s->tssdone = 1; } };
  S* s = new S; bool native = flip(), usetss = flip(), useex = flip(); int nreg = range(1, 2); int nw = range(1, 3);
  Counter holds; Counter* ph = &holds;
  auto body = [=] {
    if (usetss) s->p.reset(s);
    if (useex) boost::this_thread::at_thread_exit([s] { s->exdone = 1; });
    for (int k = 0; k < nreg; k++) { boost::unique_lock<boost::mutex> l(s->m[k]); s->ready[k] = true; boost::notify_all_at_thread_exit(s->cv[k], boost::move(l)); if (l.owns_lock()) fail("lock still owned by the caller"); if (s->m[k].try_lock()) fail("the lock was released before the thread's exit"); }
    ph->add(); if (flip()) point();
  };
  Threads T;
  for (int i = 0; i < nw; i++) { int k = i % nreg; T.add([=] { bool first = flip(); if (!first) ph->wait(1); boost::unique_lock<boost::mutex> l(s->m[k]); while (!s->ready[k]) s->cv[k].wait(l); if (usetss && !s->tssdone) fail("notified before thread-specific data were destroyed"); if (useex && !s->exdone) fail("notified before the exit functions ran"); }); }
  if (native) { Threads t; t.add(body); t.join(); } else { boost::thread t(body); t.join(); }
  T.join(); for (int k = 0; k < nreg; k++) { if (!s->m[k].try_lock()) fail("lock still held after the thread's exit"); s->m[k].unlock(); if (!s->ready[k]) fail("not ready"); }
  delete s; nontrivial();
}
int main(int argc, char** argv) { return pbt_main(argc, argv, "non-trivial: at least one value was stored in a thread (or an exit notification was awaited)"); }
