// Q01: sync_queue, sync_deque, sync_bounded_queue, adaptors and views: linearizable FIFO histories
#include "lin.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/concurrent_queues/sync_queue.hpp>
#include <boost/thread/concurrent_queues/sync_deque.hpp>
#include <boost/thread/concurrent_queues/sync_bounded_queue.hpp>
#include <boost/thread/concurrent_queues/queue_adaptor.hpp>
#include <boost/thread/concurrent_queues/queue_views.hpp>
#include <boost/thread/concurrent_queues/deque_adaptor.hpp>
#undef BOOST_THREAD_QUEUE_VIEWS_HPP   // deque_views.hpp uses the same include guard
#include <boost/thread/concurrent_queues/deque_views.hpp>
#include <new>
typedef boost::concurrent::queue_op_status St;

// ---- elements: own heap data (so that an unordered hand-over is a data race), copies may throw on request
static int g_arm[64];                      // per fiber: countdown to a throwing copy/assignment, 0 = off
static int g_threw[64];
struct ElemError { };
static void maybe_throw() { bool t = false; { Ignore i; int f = fid() & 63; if (g_arm[f] && --g_arm[f] == 0) { t = true; g_threw[f]++; } } if (t) throw ElemError(); }
static int g_afail[64];
struct AllocArm { AllocArm() { int n; { Ignore i; n = g_afail[fid() & 63]; } if (n) fail_alloc_in_fiber(n, fid()); } ~AllocArm() { int n; { Ignore i; n = g_afail[fid() & 63]; } if (n) fail_alloc_in_fiber(0, -1); } };
struct Elem {
  int* p;
  Elem() : p(0) {}
  explicit Elem(int v) : p(new int(v)) {}
  Elem(const Elem& o) : p(0) { maybe_throw(); p = o.p ? new int(*o.p) : 0; }
  Elem(Elem&& o) noexcept : p(o.p) { o.p = 0; }
  Elem& operator=(const Elem& o) { maybe_throw(); int* n = o.p ? new int(*o.p) : 0; delete p; p = n; return *this; }
  Elem& operator=(Elem&& o) { maybe_throw(); if (this != &o) { delete p; p = o.p; o.p = 0; } return *this; }
  ~Elem() { delete p; }
  int get() const { return p ? *p : -1; }
};
struct MElem {                             // move-only
  int* p;
  MElem() : p(0) {}
  explicit MElem(int v) : p(new int(v)) {}
  MElem(const MElem&) = delete; MElem& operator=(const MElem&) = delete;
  MElem(MElem&& o) noexcept : p(o.p) { o.p = 0; }
  MElem& operator=(MElem&& o) { maybe_throw(); if (this != &o) { delete p; p = o.p; o.p = 0; } return *this; }
  ~MElem() { delete p; }
  int get() const { return p ? *p : -1; }
};

enum R { OK, EMPTY, FULL, CLOSED, BUSY, NOTNOW, USER, ALLOC, INTR };
static const char* const RN[] = {"ok", "empty", "full", "closed", "busy", "false", "threw(user)", "threw(bad_alloc)", "interrupted"};
enum K { PUSH, TPUSH, NPUSH, PULL, TPULL, NPULL, QEMPTY, QFULL, QSIZE, QCLOSED, CLOSE, DRAIN, PROBE };
static const char* const KN[] = {"push", "try_push", "nonblocking_push", "pull", "try_pull", "nonblocking_pull", "empty?", "full?", "size?", "closed?", "close", "underlying_queue", "blocked-probe"};
struct Op { int tid, kind, form, v; int res; long val; std::vector<int> all; uint64_t s, e; int blocked_pull, blocked_push; };

static int from(St s) {
  switch (s) { case St::success: return OK; case St::empty: return EMPTY; case St::full: return FULL; case St::closed: return CLOSED; case St::busy: return BUSY;
    default: fail("queue: unexpected status %d", (int)s); }
}
#define ST(...) ([&]() -> int { try { return from(__VA_ARGS__); } catch (boost::concurrent::sync_queue_is_closed&) { fail("queue: an operation that returns a status threw sync_queue_is_closed"); } }())
struct AnyQ {
  const char* n; size_t cap; bool oldapi;
  AnyQ() : n(""), cap(~size_t(0)), oldapi(false) {}
  virtual ~AnyQ() {}
  virtual int push(int kind, int form, int v) = 0;
  virtual int pull(int kind, int form, int& v) = 0;
  virtual long obs(int kind) = 0;
  virtual bool drain(std::vector<int>&) { return false; }
};
// names differ: queue (push/pull), deque (push_back/pull_front)
#define PUSH_FORMS(E, q, P, TP, NP, WP) \
  E e(v); AllocArm aa; \
  switch (kind) { \
    case PUSH: switch (form % 4) { case 0: q.P(static_cast<const E&>(e)); return OK; case 1: q.P(boost::move(e)); return OK; \
                                   case 2: return ST(q.WP(static_cast<const E&>(e))); default: return ST(q.WP(boost::move(e))); } \
    case TPUSH: return form & 1 ? ST(q.TP(boost::move(e))) : ST(q.TP(static_cast<const E&>(e))); \
    default: return form & 1 ? ST(q.NP(boost::move(e))) : ST(q.NP(static_cast<const E&>(e))); }
#define PUSH_FORMS_M(E, q, P, TP, NP, WP) \
  E e(v); AllocArm aa; \
  switch (kind) { \
    case PUSH: if (form & 1) { q.P(boost::move(e)); return OK; } return ST(q.WP(boost::move(e))); \
    case TPUSH: return ST(q.TP(boost::move(e))); default: return ST(q.NP(boost::move(e))); }
#define PULL_FORMS(E, q, P, TP, NP, WP) \
  E e; int r; AllocArm aa; \
  switch (kind) { \
    case PULL: switch (form % 3) { case 0: q.P(e); r = OK; break; case 1: { E x(q.P()); v = x.get(); return OK; } default: r = ST(q.WP(e)); } break; \
    case TPULL: r = ST(q.TP(e)); break; \
    default: r = ST(q.NP(e)); } \
  if (r == OK) v = e.get(); else if (e.get() != -1) fail("queue: a pull that reports %s changed its argument", RN[r]); \
  return r;
template <class Q> long obs_of(Q& q, int kind) {
  switch (kind) { case QEMPTY: return q.empty(); case QFULL: return q.full(); case QSIZE: return (long)q.size(); case QCLOSED: return q.closed(); default: q.close(); return 0; }
}
template <class D> static void drain_dev(D& d, std::vector<int>& out) { while (!d.empty()) { int x = d.front().get(); { Ignore i; out.push_back(x); } d.pop_front(); } }

template <class E, class Q> struct QQ : AnyQ {           // sync_queue
  Q q; QQ(const char* nn) { n = nn; }
  int push(int kind, int form, int v) {
    if (form >= 10 && kind == PUSH) { E e(v); if (form & 1) q << boost::move(e); else q << static_cast<const E&>(e); return OK; }
    PUSH_FORMS(E, q, push, try_push, nonblocking_push, wait_push) }
  int pull(int kind, int form, int& v) {
    if (form >= 10 && kind == PULL) { E e; q >> e; v = e.get(); return OK; }
    PULL_FORMS(E, q, pull, try_pull, nonblocking_pull, wait_pull) }
  long obs(int kind) { return obs_of(q, kind); }
  bool drain(std::vector<int>& out) { typename Q::underlying_queue_type d = q.underlying_queue(); drain_dev(d, out); return true; }
};
struct MQ : AnyQ {                                       // sync_queue of a move-only type behind queue_adaptor
  boost::concurrent::queue_adaptor<boost::sync_queue<MElem> > q; MQ() { n = "queue_adaptor<sync_queue<move-only>>"; }
  int push(int kind, int form, int v) { boost::queue_base<MElem>& b = q; PUSH_FORMS_M(MElem, b, push, try_push, nonblocking_push, wait_push) }
  int pull(int kind, int form, int& v) { boost::queue_base<MElem>& b = q; PULL_FORMS(MElem, b, pull, try_pull, nonblocking_pull, wait_pull) }
  long obs(int kind) { return obs_of(q, kind); }
};
struct AQ : AnyQ {                                       // queue_adaptor + type-erased views
  boost::concurrent::queue_adaptor<boost::sync_queue<Elem> > q; boost::queue_back<Elem> b; boost::queue_front<Elem> f; AQ() : b(q), f(q) { n = "queue_back/queue_front over queue_adaptor<sync_queue>"; }
  int push(int kind, int form, int v) { PUSH_FORMS(Elem, b, push, try_push, nonblocking_push, wait_push) }
  int pull(int kind, int form, int& v) { PULL_FORMS(Elem, f, pull, try_pull, nonblocking_pull, wait_pull) }
  long obs(int kind) { return kind & 1 ? obs_of(b, kind) : obs_of(f, kind); }
};
struct DD : AnyQ {                                       // sync_deque
  boost::sync_deque<Elem, std::deque<Elem> > q; DD() { n = "sync_deque"; }
  int push(int kind, int form, int v) {
    if (form >= 10 && kind == PUSH) { Elem e(v); if (form & 1) q << boost::move(e); else q << static_cast<const Elem&>(e); return OK; }
    PUSH_FORMS(Elem, q, push_back, try_push_back, nonblocking_push_back, wait_push_back) }
  int pull(int kind, int form, int& v) {
    if (form >= 10 && kind == PULL) { Elem e; q >> e; v = e.get(); return OK; }
    PULL_FORMS(Elem, q, pull_front, try_pull_front, nonblocking_pull_front, wait_pull_front) }
  long obs(int kind) { return obs_of(q, kind); }
  bool drain(std::vector<int>& out) { std::deque<Elem> d = q.underlying_queue(); drain_dev(d, out); return true; }
};
template <class Q> struct DV : AnyQ {                    // views directly over a deque-like queue
  Q q; boost::concurrent::deque_back_view<Q> b; boost::concurrent::deque_front_view<Q> f;
  DV(const char* nn) : b(q), f(q) { n = nn; }
  DV(const char* nn, size_t c) : q(c), b(q), f(q) { n = nn; cap = c; }
  int push(int kind, int form, int v) { PUSH_FORMS(Elem, b, push, try_push, nonblocking_push, wait_push) }
  int pull(int kind, int form, int& v) { PULL_FORMS(Elem, f, pull, try_pull, nonblocking_pull, wait_pull) }
  long obs(int kind) { return kind & 1 ? obs_of(b, kind) : obs_of(f, kind); }
};
struct BQ : AnyQ {                                       // sync_bounded_queue, new and old interface
  boost::sync_bounded_queue<Elem> q;
  BQ(size_t c) : q(c) { n = "sync_bounded_queue"; cap = c; oldapi = true; if (q.capacity() != c) fail("sync_bounded_queue: capacity() is %zu, constructed with %zu", q.capacity(), c); }
  int push(int kind, int form, int v) {
    if (form >= 10) {
      Elem e(v); bool mv = form & 1; AllocArm aa;
      switch (kind) {
        case PUSH: if (form >= 15) { if (mv) q << boost::move(e); else q << static_cast<const Elem&>(e); } else if (mv) q.push(boost::move(e)); else q.push(static_cast<const Elem&>(e)); return OK;
        case TPUSH: return (mv ? q.try_push(boost::move(e)) : q.try_push(static_cast<const Elem&>(e))) ? OK : FULL;
        default: return (mv ? q.try_push(boost::no_block, boost::move(e)) : q.try_push(boost::no_block, static_cast<const Elem&>(e))) ? OK : NOTNOW;
      }
    }
    PUSH_FORMS(Elem, q, push_back, try_push_back, nonblocking_push_back, wait_push_back) }
  int pull(int kind, int form, int& v) {
    if (form >= 10) {
      Elem e; AllocArm aa;
      switch (kind) {
        case PULL: switch (form % 4) { case 0: q.pull(e); break; case 1: { Elem x(q.pull()); v = x.get(); return OK; } case 2: { boost::shared_ptr<Elem> x = q.ptr_pull(); v = x->get(); return OK; } default: q >> e; } v = e.get(); return OK;
        case TPULL: if (form & 1) { boost::shared_ptr<Elem> x = q.try_pull(); if (!x) return EMPTY; v = x->get(); return OK; } if (!q.try_pull(e)) return EMPTY; v = e.get(); return OK;
        default: if (!q.try_pull(boost::no_block, e)) return NOTNOW; v = e.get(); return OK;
      }
    }
    PULL_FORMS(Elem, q, pull_front, try_pull_front, nonblocking_pull_front, wait_pull_front) }
  long obs(int kind) { return obs_of(q, kind); }
};
struct DA : AnyQ {                                       // deque_adaptor, virtual interface
  boost::concurrent::deque_adaptor<boost::sync_deque<Elem, std::deque<Elem> > > q; DA() { n = "deque_adaptor<sync_deque>"; }
  int push(int kind, int form, int v) { boost::deque_base<Elem>& b = q; PUSH_FORMS(Elem, b, push_back, try_push_back, nonblocking_push_back, wait_push_back) }
  int pull(int kind, int form, int& v) { boost::deque_base<Elem>& b = q; PULL_FORMS(Elem, b, pull_front, try_pull_front, nonblocking_pull_front, wait_pull_front) }
  long obs(int kind) { return obs_of(q, kind); }
};
static AnyQ* make_q() {
  switch (pick(11)) {
    case 0: return new QQ<Elem, boost::sync_queue<Elem> >("sync_queue");
    case 1: case 2: case 3: case 4: return new BQ(range(1, 4));
    case 5: return new DD;
    case 6: return new AQ;
    case 7: return new MQ;
    case 8: return new DA;
    case 9: return new DV<boost::sync_bounded_queue<Elem> >("deque views over sync_bounded_queue", range(1, 3));
    default: return new QQ<Elem, boost::sync_queue<Elem, std::deque<Elem> > >("sync_queue<std::deque>");
  }
}

// ---- specification
struct QState { std::deque<int> q; bool closed; };
struct QSpec {
  size_t cap;
  bool apply(QState& s, const Op& o) const {
    bool full = s.q.size() >= cap;
    switch (o.kind) {
      case PUSH: case TPUSH: case NPUSH:
        switch (o.res) {
          case OK: if (s.closed || full) return false; s.q.push_back(o.v); return true;
          case FULL: return !s.closed && full && o.kind != PUSH;
          case CLOSED: return s.closed;
          case BUSY: return o.kind == NPUSH;
          case NOTNOW: return true;                    // checked separately
          case USER: case ALLOC: return !s.closed && !full;
          default: return true;                        // interrupted: nothing happened
        }
      case PULL: case TPULL: case NPULL:
        switch (o.res) {
          case OK: if (s.q.empty() || s.q.front() != o.v) return false; s.q.pop_front(); return true;
          case EMPTY: return s.q.empty() && !s.closed && o.kind != PULL;
          case CLOSED: return s.q.empty() && s.closed;
          case BUSY: return o.kind == NPULL;
          case NOTNOW: return true;
          case USER: case ALLOC: return !s.q.empty();
          default: return true;
        }
      case QEMPTY: return o.val == s.q.empty();
      case QFULL: return o.val == full;
      case QSIZE: return o.val == (long)s.q.size();
      case QCLOSED: return o.val == s.closed;
      case CLOSE: s.closed = true; return true;
      case DRAIN: if (!(o.all.size() == s.q.size() && std::equal(s.q.begin(), s.q.end(), o.all.begin()))) return false; s.q.clear(); return true;
      case PROBE: if (s.closed) return !o.blocked_pull && !o.blocked_push; if (o.blocked_pull && !s.q.empty()) return false; if (o.blocked_push && !full) return false; return true;
    }
    return false;
  }
  void key(const QState& s, std::string& k) const { k.push_back(s.closed); for (int v : s.q) k.push_back((char)v); }
};

struct Run {
  AnyQ* q; std::vector<Op> h; std::map<int, Op> pending; bool throwing, has_alloc; int mine;
};
static std::string describe(const std::vector<Op>& h) {
  std::string s; char b[200]; std::vector<const Op*> v; for (auto& o : h) v.push_back(&o);
  std::sort(v.begin(), v.end(), [](const Op* a, const Op* b) { return a->s < b->s; });
  for (auto o : v) {
    if (o->kind == PROBE) snprintf(b, sizeof b, "\n   [%llu] quiescent: %d pulls and %d pushes blocked", (unsigned long long)o->s, o->blocked_pull, o->blocked_push);
    else if (o->kind >= QEMPTY) snprintf(b, sizeof b, "\n   [%llu-%llu] T%d %s = %ld", (unsigned long long)o->s, (unsigned long long)o->e, o->tid, KN[o->kind], o->kind == DRAIN ? (long)o->all.size() : o->val);
    else snprintf(b, sizeof b, "\n   [%llu-%llu] T%d %s/%d(%d) %s", (unsigned long long)o->s, (unsigned long long)o->e, o->tid, KN[o->kind], o->form, o->v, RN[o->res]);
    s += b;
  }
  return s;
}
struct Cmd { int kind, form, v, arm, afail; };
static Cmd gen(Run& r, int& next, bool closing) {
  static const unsigned w[] = {24, 10, 6, 24, 10, 6, 3, 3, 5, 2, 0, 2};
  Cmd c; unsigned ww[12]; memcpy(ww, w, sizeof w); if (closing) ww[CLOSE] = 3;
  c.kind = weighted(ww, 12); c.form = pick(r.q->oldapi ? 20 : 14); c.v = 0; c.arm = c.afail = 0;
  if (c.kind <= NPUSH) c.v = next++;
  if (r.throwing && c.kind <= NPULL && chance(1, 4)) { if (r.has_alloc && flip()) c.afail = 1 + pick(2); else c.arm = 1 + pick(2); }
  return c;
}
static void exec(Run* r, int tid, Cmd c) {
  Op o; { Ignore i; o.tid = tid; o.kind = c.kind; o.form = c.form; o.v = c.v; o.res = OK; o.val = 0; o.blocked_pull = o.blocked_push = 0; o.s = next_stamp(); o.e = ~0ull; r->pending[tid] = o; g_arm[fid() & 63] = c.arm; g_afail[fid() & 63] = c.afail; }
  std::vector<int>* all; { Ignore i; all = new std::vector<int>(); }
  bool push = c.kind <= NPUSH, pull = c.kind >= PULL && c.kind <= NPULL;
  try {
    if (push) o.res = r->q->push(c.kind, c.form, c.v);
    else if (pull) o.res = r->q->pull(c.kind, c.form, o.v);
    else if (c.kind == DRAIN) { if (!r->q->drain(*all)) { o.kind = QSIZE; o.val = r->q->obs(QSIZE); } }
    else o.val = r->q->obs(c.kind);
  }
  catch (boost::concurrent::sync_queue_is_closed&) { o.res = CLOSED; }
  catch (ElemError&) { o.res = USER; }
  catch (std::bad_alloc&) { o.res = ALLOC; }
  catch (boost::thread_interrupted&) { o.res = INTR; }
  Ignore i; g_arm[fid() & 63] = 0; o.all.swap(*all); delete all;
  if ((o.res == USER || o.res == ALLOC) && !(push || pull)) fail("queue: %s threw", KN[c.kind]);
  o.e = next_stamp(); r->pending.erase(tid); r->h.push_back(o);
}
static void check(Run& r) {
  Ignore ig;
  if (r.h.size() > 60) fail("harness: history too long");
  // busy / no_block refusals: only while another operation is in progress (or, for no_block, full/empty at some point: linearised as such when nothing overlaps)
  std::vector<Op> h = r.h; int overl = 0;
  for (auto& o : h) {
    bool over = false; for (auto& p : r.h) if (p.tid != o.tid && p.kind != PROBE && p.s < o.e && p.e > o.s) over = true;
    overl += over;
    if (o.res == BUSY && !over) fail("%s: busy reported although no other operation was in progress", r.q->n);
    if (o.res == NOTNOW && !over) o.res = o.kind == NPUSH ? FULL : EMPTY;
  }
  QSpec sp; sp.cap = r.q->cap; QState st; st.closed = false;
  Lin<QSpec, QState, Op> L(sp, h);
  if (!L.check(st)) fail("%s: history is not a FIFO queue history (capacity %ld):%s", r.q->n, (long)r.q->cap, describe(r.h).c_str());
  if (L.nodes > 400000) label("search-cut");
  nontrivial(overl >= 2);
}
static void probe(Run& r) {
  Ignore i; Op o; o.tid = -1; o.kind = PROBE; o.form = o.v = o.res = 0; o.val = 0; o.blocked_pull = o.blocked_push = 0;
  for (auto& p : r.pending) {
    if (p.second.kind <= NPUSH) { if (p.second.kind != PUSH) fail("%s: %s blocks", r.q->n, KN[p.second.kind]); o.blocked_push++; }
    else if (p.second.kind <= NPULL) { if (p.second.kind != PULL) fail("%s: %s blocks", r.q->n, KN[p.second.kind]); o.blocked_pull++; }
    else fail("%s: %s blocks", r.q->n, KN[p.second.kind]);
  }
  if (o.blocked_pull || o.blocked_push) label("blocked-at-quiescence");
  o.s = next_stamp(); o.e = next_stamp(); r.h.push_back(o);
}
static void drain_and_check(Run& r) {
  for (int k = 0; k < 40; k++) { Cmd c = {TPULL, 0, 0, 0, 0}; exec(&r, 0, c); bool stop; { Ignore i; stop = r.h.back().res != OK; } if (stop) break; }
  check(r);
}
// phases of posted operations; quiescence probes between them
SCENARIO(phases, 4) {
  check_leaks(true); allow_spurious(pick(4)); { Ignore i; memset(g_arm, 0, sizeof g_arm); memset(g_afail, 0, sizeof g_afail); }
  Priv<Run> rp; Run& r = *rp; r.q = make_q(); r.throwing = chance(1, 3); r.has_alloc = true;
  int nt = range(1, 4), next = 1; note("%s capacity %ld, %d threads%s", r.q->n, (long)r.q->cap, nt, r.throwing ? ", throwing elements" : "");
  {
    Workers wk(nt); int ops = range(2, 18); bool slow = chance(1, 3), closed = false;
    for (int k = 0; k < ops; k++) {
      int t = pick(nt);
      if (wk.busy(t)) { if (!slow || flip()) { wait_quiescent(); probe(r); } if (wk.busy(t)) continue; }
      Cmd c = gen(r, next, k > 3); Run* p = &r; note(" T%d %s/%d %d arm=%d,%d", t + 1, KN[c.kind], c.form, c.v, c.arm, c.afail);
      if (c.kind == CLOSE) closed = true;
      wk.post(t, [=] { exec(p, t + 1, c); });
      if (slow) { wait_quiescent(); probe(r); }
    }
    wait_quiescent(); probe(r);
    Cmd cl = {CLOSE, 0, 0, 0, 0}; exec(&r, 0, cl); (void)closed;
    wait_quiescent(); probe(r);
    wk.finish();
  }
  drain_and_check(r); label(r.q->n); delete r.q;
}
// free-running threads, optionally boost threads that get interrupted
SCENARIO(free_running, 4) {
  check_leaks(true); allow_spurious(pick(4)); { Ignore i; memset(g_arm, 0, sizeof g_arm); memset(g_afail, 0, sizeof g_afail); }
  Priv<Run> rp; Run& r = *rp; r.q = make_q(); r.throwing = chance(1, 4); r.has_alloc = true; Run* p = &r;
  int nt = range(2, 5), next = 1; note("%s capacity %ld, %d threads%s", r.q->n, (long)r.q->cap, nt, r.throwing ? ", throwing elements" : "");
  std::vector<std::vector<Cmd> > prog(nt); bool intr = chance(1, 4);
  for (int t = 0; t < nt; t++) { int n = range(1, 4); for (int i = 0; i < n; i++) { prog[t].push_back(gen(r, next, false)); Cmd& c = prog[t].back(); note(" T%d %s/%d %d arm=%d,%d", t + 1, KN[c.kind], c.form, c.v, c.arm, c.afail); } }
  Priv<std::set<int> > left;
  auto body = [&](int t) { for (auto& c : prog[t]) exec(p, t + 1, c); };
  Cmd cl = {CLOSE, 0, 0, 0, 0};
  if (!intr) {
    Threads th;
    for (int t = 0; t < nt; t++) th.add([&, t] { body(t); });
    if (chance(1, 3)) { for (int i = pick(20); i > 0; i--) point(); note(" main closes early"); exec(&r, 0, cl); }
    wait_quiescent(); probe(r);
    exec(&r, 0, cl);
    th.join();
  } else {
    label("interruptions"); std::vector<boost::thread*> th;
    for (int t = 0; t < nt; t++) th.push_back(new boost::thread([&, t] { body(t); }));
    int k = range(1, 3); for (int i = 0; i < k; i++) { int v = pick(nt); if (flip()) wait_quiescent(); note(" interrupt T%d", v + 1); th[v]->interrupt(); }
    wait_quiescent(); probe(r);
    exec(&r, 0, cl);
    for (auto t : th) { t->join(); delete t; }
  }
  drain_and_check(r); label(r.q->n); delete r.q;
}
// several threads blocked on the same side, one of them interrupted or throwing while it is being served
SCENARIO(handover, 2) {
  check_leaks(true); allow_spurious(pick(2)); { Ignore i; memset(g_arm, 0, sizeof g_arm); memset(g_afail, 0, sizeof g_afail); }
  Priv<Run> rp; Run& r = *rp; r.q = chance(3, 4) ? (AnyQ*)new BQ(range(1, 2)) : make_q(); r.throwing = false; r.has_alloc = true; Run* p = &r;
  bool pulls = r.q->cap > 10 || flip(); int nt = range(2, 3), next = 1; note("%s capacity %ld: %d blocked %s", r.q->n, (long)r.q->cap, nt, pulls ? "pulls" : "pushes");
  Cmd cl = {CLOSE, 0, 0, 0, 0};
  if (!pulls) for (size_t k = 0; k < r.q->cap; k++) { Cmd c = {TPUSH, 0, next++, 0, 0}; exec(p, 0, c); }
  std::vector<boost::thread*> th;
  for (int t = 0; t < nt; t++) { Cmd c = {pulls ? PULL : PUSH, (int)pick(r.q->oldapi ? 20 : 14), pulls ? 0 : next++, chance(1, 4) ? 1 : 0, 0}; note(" T%d form %d arm %d", t + 1, c.form, c.arm); th.push_back(new boost::thread([=] { exec(p, t + 1, c); })); }
  wait_quiescent(); probe(r);
  {
    Threads sv; int victim = pick(nt), serves = range(1, nt - 1), base = next; next += serves;
    sv.add([=] { for (int k = 0; k < serves; k++) { Cmd c = {pulls ? TPUSH : TPULL, 0, base + k, 0, 0}; exec(p, nt + 1, c); } });
    if (chance(3, 4)) { note(" interrupt T%d", victim + 1); boost::thread* v = th[victim]; sv.add([=] { v->interrupt(); }); }
    sv.join();
  }
  wait_quiescent(); probe(r);
  exec(&r, 0, cl);
  for (auto t : th) { t->join(); delete t; }
  drain_and_check(r); label(r.q->n); delete r.q;
}
int main(int c, char** v) { return pbt_main(c, v, "at least two operations overlapped another one in real time"); }
