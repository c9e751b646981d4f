// M01: mutex, timed_mutex, recursive_mutex, recursive_timed_mutex (+ try_mutex / recursive_try_mutex typedefs, no-interruption build)
#include "common.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/locks.hpp>
#include <boost/thread/lock_guard.hpp>
#include <boost/chrono/chrono.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
namespace bc = boost::chrono; namespace pt = boost::posix_time;

struct AnyM {
  virtual ~AnyM() {}
  virtual void lock() = 0; virtual void unlock() = 0; virtual bool try_lock() = 0;
  virtual bool timed() const = 0; virtual bool recursive() const = 0; virtual const char* name() const = 0;
  // clk: filled with the clock the deadline lives on, dl: the deadline
  virtual bool timed_try(int, int64_t, int&, int64_t&) { return false; }
};
static pt::ptime to_ptime(int64_t ns) {   // exact only for microseconds
  return pt::ptime(boost::gregorian::date(1970, 1, 1)) + pt::seconds((long)(ns / 1000000000)) + pt::microseconds((ns % 1000000000) / 1000);
}
template <class M, bool Rec> struct Basic : AnyM {
  M m; const char* n; Basic(const char* n_) : n(n_) {}
  void lock() { m.lock(); } void unlock() { m.unlock(); } bool try_lock() { return m.try_lock(); }
  bool timed() const { return false; } bool recursive() const { return Rec; } const char* name() const { return n; }
};
static const char* const TK[] = {"try_lock_for", "try_lock_until(steady)", "try_lock_until(system)", "timed_lock(duration)", "timed_lock(ptime)", "try_lock_for(ms)"};
template <class M, bool Rec> struct Timed : Basic<M, Rec> {
  Timed(const char* n_) : Basic<M, Rec>(n_) {}
  bool timed() const { return true; }
  bool timed_try(int k, int64_t d, int& clk, int64_t& dl) {
    M& m = this->m;
    switch (k) {
      case 0: clk = 0; dl = mono_now() + d; return m.try_lock_for(bc::nanoseconds(d));
      case 1: clk = 0; dl = mono_now() + d; return m.try_lock_until(bc::steady_clock::time_point(bc::nanoseconds(dl)));
      case 2: clk = 1; dl = real_now() + d; return m.try_lock_until(bc::system_clock::time_point(bc::duration_cast<bc::system_clock::duration>(bc::nanoseconds(dl))));
      case 3: clk = 0; d = d / 1000 * 1000; dl = mono_now() + d; return m.timed_lock(pt::microseconds(d / 1000));
      case 4: clk = 1; dl = (real_now() + d) / 1000 * 1000; return m.timed_lock(to_ptime(dl));
      default: clk = 0; d = d / 1000000 * 1000000; dl = mono_now() + d; return m.try_lock_for(bc::milliseconds(d / 1000000));
    }
  }
};
static AnyM* make_mutex(int k) {
  switch (k) {
    case 0: return new Basic<boost::mutex, false>("mutex");
    case 1: return new Timed<boost::timed_mutex, false>("timed_mutex");
    case 2: return new Basic<boost::recursive_mutex, true>("recursive_mutex");
    case 3: return new Timed<boost::recursive_timed_mutex, true>("recursive_timed_mutex");
    case 4: return new Basic<boost::try_mutex, false>("try_mutex");
    default: return new Basic<boost::recursive_try_mutex, true>("recursive_try_mutex");
  }
}
static const int64_t DUR[] = {0, 1, 1000, 700000, 30000000, 99999999, 100000000, 150000000, 1000000000, -1, -1000000000};

struct Ev { int tid, kind; uint64_t s, e; int64_t e_time[2]; bool ok; int64_t dl; int clk; uint64_t rel_e; int64_t rel_time[2]; };
struct Hist {
  std::vector<Ev> v; int owner = -1, depth = 0; int contended = 0, failures = 0, timeouts = 0; int max_depth = 0;
};
static uint64_t stamp() { return next_stamp(); }

static void check_history(Hist& h, const char* name) {
  Ignore ig;
  for (auto& f : h.v) if (!f.ok) {
    bool legit = false;
    for (auto& a : h.v) if (a.ok && a.tid != f.tid && a.s < f.e && a.rel_e > f.s) {
      if (f.kind == 0) { legit = true; break; }
      // a timed attempt may fail only if the mutex could still be owned when the deadline was reached
      if (a.rel_time[f.clk] >= f.dl) { legit = true; break; }
    }
    if (!legit) fail("%s: %s by thread %d failed although no other thread could own the mutex %s", name, f.kind ? TK[f.kind - 1] : "try_lock", f.tid,
                     f.kind ? "at its deadline" : "during the call");
  }
}

struct Sh { AnyM* m; long value; long data[3]; };

static void critical(Sh* s, Hist& h, int tid, int deep) {
  { Ignore i;
    if (h.owner >= 0 && h.owner != tid) fail("%s: two owners: thread %d acquired while thread %d owns it", s->m->name(), tid, h.owner);
    h.owner = tid; h.depth++; if (h.depth > h.max_depth) h.max_depth = h.depth; }
  s->value++;                 // plain data: the race detector requires the hand-over to order memory
  long k = s->data[0]; point(); s->data[1] = k; if (deep) { delay(deep); } s->data[0] = k + 1; 
  if (s->data[1] != k) fail("%s: data changed inside the critical section", s->m->name());
}
// returns via history; op: 0 lock, 1 try_lock, 2.. timed
static void session(Sh* s, Hist& h, int tid, std::vector<int>& prog, size_t& pc, int depth);
struct Op { int kind; int64_t d; int hold; int nested; };

static void do_op(Sh* s, Hist& h, int tid, const Op& o, int nest) {
  Ev ev; { Ignore i; ev.tid = tid; ev.kind = o.kind == 0 ? -1 : o.kind - 1; ev.clk = 0; ev.dl = 0; ev.s = stamp(); }
  bool mine; { Ignore i; mine = h.owner == tid; }
  bool ok = true;
  if (o.kind == 0) s->m->lock();
  else if (o.kind == 1) ok = s->m->try_lock();
  else { ok = s->m->timed_try(o.kind - 2, o.d, ev.clk, ev.dl); }
  { Ignore i; ev.e = stamp(); ev.e_time[0] = mono_now(); ev.e_time[1] = real_now(); ev.ok = ok; }
  if (!ok) {
    Ignore i;
    h.failures++;
    if (o.kind >= 2) { h.timeouts++; if (ev.e_time[ev.clk] < ev.dl) fail("%s: %s reported a timeout %lld ns before the deadline", s->m->name(), TK[o.kind - 2], (long long)(ev.dl - ev.e_time[ev.clk])); }
    if (mine) fail("%s: attempt by the recursive owner failed", s->m->name());
    h.v.push_back(ev);
    return;
  }
  critical(s, h, tid, o.hold);
  if (nest > 0 && s->m->recursive()) { Op n = o; n.kind = o.nested % (s->m->timed() ? 8 : 2); n.hold = 0; do_op(s, h, tid, n, nest - 1); }
  s->data[2]++;
  { Ignore i; if (h.owner != tid) fail("%s: ownership lost inside the critical section", s->m->name()); if (--h.depth == 0) h.owner = -1; }
  s->m->unlock();
  { Ignore i; ev.rel_e = stamp(); ev.rel_time[0] = mono_now(); ev.rel_time[1] = real_now(); if (!mine) h.v.push_back(ev); }
}

SCENARIO(concurrent, 6) {
  check_leaks(true); allow_spurious(pick(3)); allow_early_time(pick(2) != 0);
  Sh* s = new Sh; s->m = make_mutex(pick(6)); s->value = 0; s->data[0] = s->data[1] = s->data[2] = 0;
  Priv<Hist> h;
  int nt = range(2, 4); long expect = 0;
  note("%s, %d threads", s->m->name(), nt);
  std::vector<std::vector<Op> > progs(nt);
  bool mixed = false;
  for (int t = 0; t < nt; t++) {
    int n = range(1, 4);
    for (int i = 0; i < n; i++) {
      Op o; o.kind = pick(s->m->timed() ? 8 : 2); o.d = DUR[pick(11)]; o.hold = pick(4) == 3 ? 1 + (int)pick(2) * 120000000 : 0; o.nested = s->m->recursive() ? pick(24) : 0;
      progs[t].push_back(o); if (o.kind) mixed = true;
      note(" T%d: %s d=%lld hold=%d nested=%d", t, o.kind == 0 ? "lock" : o.kind == 1 ? "try_lock" : TK[o.kind - 2], (long long)o.d, o.hold, o.nested / 8);
    }
  }
  {
    Threads th; Hist* hp = h.p;
    for (int t = 0; t < nt; t++) { std::vector<Op>* p = &progs[t]; th.add([=] { for (auto& o : *p) do_op(s, *hp, t, o, o.nested / 8); }); }
    th.join();
  }
  { Ignore i; if (h->owner >= 0) fail("harness: owner left"); }
  check_history(*h, s->m->name());
  (void)expect;
  SIM_CHECK(s->value == s->data[2], "%s: %ld acquisitions but %ld completed sections", s->m->name(), s->value, s->data[2]);
  if (!s->m->try_lock()) fail("%s: left locked after every owner released it", s->m->name());
  s->m->unlock();
  if (h->failures) label("failed-attempt"); if (h->timeouts) label("timed-out"); if (h->max_depth > 1) label("recursion"); if (mixed) label("mixed-ops");
  nontrivial(h->v.size() > 2);
  delete s->m; delete s;
}

// Driven by a model: after every command the system is run to quiescence and compared.
SCENARIO(granted, 3) {
  check_leaks(true); allow_spurious(pick(3));
  AnyM* m = make_mutex(pick(6));
  int nt = range(2, 4);
  note("%s, %d workers", m->name(), nt);
  struct St { int state; int kind; bool ret; bool done; int64_t dl; int clk; int64_t ret_at[2]; };   // 0 idle 1 waiting 2 owner
  Priv<std::vector<St> > st; { Ignore i; St z = {0, 0, false, false, 0, 0, {0, 0}}; st->assign(nt, z); }
  Workers w(nt);
  int depth = 0, owner = -1; int waits = 0, grants = 0;
  int n = range(3, 12);
  for (int step = 0; step < n; step++) {
    int t = pick(nt); St* x = &(*st)[t];
    unsigned c = pick(6);
    if (c == 5) {   // let time pass
      int64_t d = pick(2) ? 2000000000 : 50000000; delay(d); note(" %lld ns pass", (long long)d);
    } else if (x->state == 2 && c >= 2) {
      note(" T%d unlock", t);
      w.post(t, [=] { m->unlock(); });
      if (--depth == 0) { owner = -1; x->state = 0; }
    } else if (x->state == 0 || (x->state == 2 && m->recursive())) {
      int k = c == 0 || !m->timed() ? (c & 1) : 2 + (int)pick(6); int64_t d = DUR[4 + pick(5)];
      note(" T%d %s d=%lld", t, k == 0 ? "lock" : k == 1 ? "try_lock" : TK[k - 2], (long long)d);
      bool mine = x->state == 2; bool freeb = owner < 0 || mine;
      x->done = false; x->kind = k; x->dl = INT64_MAX; x->clk = 0;
      w.post(t, [=] { bool r = true; int clk = 0; int64_t dl = 0;
        if (k == 0) m->lock(); else if (k == 1) r = m->try_lock(); else { { Ignore i; x->dl = mono_now() + d; } r = m->timed_try(k - 2, d, clk, dl); }
        Ignore i; x->clk = clk; if (k >= 2) x->dl = dl; x->ret = r; x->ret_at[0] = mono_now(); x->ret_at[1] = real_now(); x->done = true; });
      wait_quiescent();
      if (freeb) {
        if (!x->done) fail("%s: %s blocks although the mutex is %s", m->name(), k == 0 ? "lock" : k == 1 ? "try_lock" : TK[k - 2], mine ? "owned by the caller" : "free");
        if (!x->ret) fail("%s: %s failed although the mutex is %s", m->name(), k == 1 ? "try_lock" : TK[k - 2], mine ? "owned by the caller" : "free");
        owner = t; depth++; x->state = 2;
      } else if (k == 1) {
        if (!x->done) fail("%s: try_lock blocks", m->name());
        if (x->ret) fail("%s: try_lock succeeded although thread %d owns the mutex", m->name(), owner);
      } else { if (!x->done) { x->state = 1; waits++; } }
    }
    wait_quiescent();
    // every waiter: still blocked iff somebody owns the mutex and its deadline is not over
    int newowner = -1;
    for (int i = 0; i < nt; i++) { St* y = &(*st)[i];
      if (y->state == 1 && y->done) {
        if (y->ret) { if (owner >= 0 || newowner >= 0) fail("%s: thread %d acquired while owned", m->name(), i); newowner = i; y->state = 2; grants++; }
        else { if (y->ret_at[y->clk] < y->dl) fail("%s: timed attempt of thread %d failed before its deadline", m->name(), i); y->state = 0; }
      } else if (y->state == 1 && y->kind >= 2 && mono_now() > y->dl + 200000000 && y->clk == 0) fail("%s: timed attempt of thread %d still blocked %lld ns after its deadline", m->name(), i, (long long)(mono_now() - y->dl));
    }
    if (newowner >= 0) { owner = newowner; depth = 1; }
    if (owner < 0) for (int i = 0; i < nt; i++) if ((*st)[i].state == 1) fail("%s: thread %d stays blocked although the mutex is free", m->name(), i);
  }
  // release everything
  for (int guard = 0; guard < 100 && owner >= 0; guard++) {
    int o = owner; note(" final unlock by T%d", o); w.post(o, [=] { m->unlock(); });
    wait_quiescent();
    if (--depth == 0) { owner = -1; (*st)[o].state = 0;
      for (int i = 0; i < nt; i++) { St* y = &(*st)[i]; if (y->state == 1 && y->done) { if (y->ret) { if (owner >= 0) fail("%s: two waiters acquired at once", m->name()); owner = i; depth = 1; y->state = 2; grants++; } else y->state = 0; } }
      if (owner < 0) for (int i = 0; i < nt; i++) if ((*st)[i].state == 1) fail("%s: thread %d stays blocked although the mutex is free", m->name(), i);
    }
  }
  w.finish();
  nontrivial(waits > 0); if (grants) label("handover-to-waiter");
  delete m;
}

int main(int c, char** v) { return pbt_main(c, v, "concurrent: more than two acquisition attempts in the history; granted: at least one attempt had to wait"); }
