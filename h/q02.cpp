// Q02: sync_priority_queue and sync_timed_queue: linearizable histories over priorities / due times
#include "lin.h"
#include "timeutil.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
typedef boost::concurrent::queue_op_status St;
static int g_arm[64], g_afail[64];
struct ElemError { };
static void maybe_throw() { bool t = false; { Ignore i; int f = fid() & 63; if (g_arm[f] && --g_arm[f] == 0) t = true; } if (t) throw ElemError(); }
struct AllocArm { AllocArm() { int n; { Ignore i; n = g_afail[fid() & 63]; } if (n) fail_alloc_in_fiber(n, fid()); } ~AllocArm() { int n; { Ignore i; n = g_afail[fid() & 63]; } if (n) fail_alloc_in_fiber(0, -1); } };
struct Elem {
  int* p; int prio;
  Elem() : p(0), prio(0) {}
  Elem(int v, int pr) : p(new int(v)), prio(pr) {}
  Elem(const Elem& o) : p(0), prio(o.prio) { maybe_throw(); p = o.p ? new int(*o.p) : 0; }
  Elem(Elem&& o) noexcept : p(o.p), prio(o.prio) { o.p = 0; }
  Elem& operator=(const Elem& o) { maybe_throw(); int* n = o.p ? new int(*o.p) : 0; delete p; p = n; prio = o.prio; return *this; }
  Elem& operator=(Elem&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = 0; prio = o.prio; } return *this; }
  ~Elem() { delete p; }
  int get() const { return p ? *p : -1; }
};
static bool operator<(const Elem& a, const Elem& b) { if (a.p && *a.p < 0) fail("x"); return a.prio < b.prio; }
struct Greater { bool operator()(const Elem& a, const Elem& b) const { return b.prio < a.prio; } };
struct MElem {
  int* p; int prio;
  MElem() : p(0), prio(0) {}
  MElem(int v, int pr) : p(new int(v)), prio(pr) {}
  MElem(const MElem&) = delete; MElem& operator=(const MElem&) = delete;
  MElem(MElem&& o) noexcept : p(o.p), prio(o.prio) { o.p = 0; }
  MElem& operator=(MElem&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = 0; prio = o.prio; } return *this; }
  ~MElem() { delete p; }
  int get() const { return p ? *p : -1; }
  bool operator<(const MElem& o) const { return prio < o.prio; }
};
enum R { OK, EMPTY, FULL, CLOSED, BUSY, TIMEOUT, NOTREADY, USER, ALLOC, INTR };
static const char* const RN[] = {"ok", "empty", "full", "closed", "busy", "timeout", "not_ready", "threw(user)", "threw(bad_alloc)", "interrupted"};
enum K { PUSH, TPUSH, PULL, TPULL, NPULL, UPULL, QEMPTY, QFULL, QSIZE, QCLOSED, CLOSE, DRAIN, PROBE };
static const char* const KN[] = {"push", "try_push", "pull", "try_pull", "nonblocking_pull", "timed_pull", "empty?", "full?", "size?", "closed?", "close", "underlying_queue", "blocked-probe"};
// key: priority queue: priority (greater first); timed queue: time bounds
struct Item { int id; int64_t lo, hi; };
struct Op { int tid, kind, form, v, clk; int64_t key, dl; int res; long val; std::vector<int> all; uint64_t s, e; int blocked; Item item; int64_t tmin, tmax; };
static int from(St s) {
  switch (s) { case St::success: return OK; case St::empty: return EMPTY; case St::full: return FULL; case St::closed: return CLOSED; case St::busy: return BUSY; case St::timeout: return TIMEOUT; case St::not_ready: return NOTREADY; }
  fail("queue: unexpected status %d", (int)s);
}
#define ST(...) ([&]() -> int { try { return from(__VA_ARGS__); } catch (boost::concurrent::sync_queue_is_closed&) { fail("queue: an operation that returns a status threw sync_queue_is_closed"); } }())
static int64_t ms_trunc(int64_t t) { return t / 1000000 * 1000000; }
// clk: 0 steady, 1 system, 2 ms_clock
static int64_t cnow(int clk) { return clk == 1 ? real_now() : clk == 2 ? ms_trunc(mono_now()) : mono_now(); }

struct AnyQ {
  const char* n; bool timed, greater; int clk;
  AnyQ() : n(""), timed(false), greater(false), clk(0) {}
  virtual ~AnyQ() {}
  virtual int push(Op& o) = 0;
  virtual int pull(Op& o) = 0;
  virtual long obs(int kind) = 0;
  virtual bool drain(std::vector<int>&) { return false; }
};
template <class Q> long obs_of(Q& q, int kind) {
  switch (kind) { case QEMPTY: return q.empty(); case QFULL: return q.full(); case QSIZE: return (long)q.size(); case QCLOSED: return q.closed(); default: q.close(); return 0; }
}
template <class E, class Q> int common_pull(Q& q, Op& o, E& e, bool& direct) {
  switch (o.kind) {
    case PULL: switch (o.form % 3) { case 0: q.pull(e); return OK; case 1: { E x(q.pull()); o.v = x.get(); direct = true; return OK; } default: return ST(q.wait_pull(e)); }
    case TPULL: return ST(q.try_pull(e));
    default: return ST(q.nonblocking_pull(e));
  }
}
template <class E, class Q> int cp_push(Q& q, Op& o, int v, int prio) {
  E e(v, prio); AllocArm aa;
  if (o.kind == PUSH) { if (o.form & 1) q.push(boost::move(e)); else if constexpr (std::is_copy_constructible<E>::value) q.push(static_cast<const E&>(e)); else q.push(boost::move(e)); return OK; }
  if (o.form & 1) return ST(q.try_push(boost::move(e)));
  if constexpr (std::is_copy_constructible<E>::value) return ST(q.try_push(static_cast<const E&>(e))); else return ST(q.try_push(boost::move(e)));
}
template <class E, class Q> struct PQ : AnyQ {
  Q q; PQ(const char* nn, bool g) { n = nn; greater = g; }
  int push(Op& o) { return cp_push<E>(q, o, o.v, (int)o.key); }
  int pull(Op& o) {
    E e; AllocArm aa; int r; bool direct = false;
    if (o.kind == UPULL) {
      int64_t d = o.dl;
      switch (o.form % 5) {
        case 0: o.clk = 0; o.dl = mono_now() + d; r = ST(q.pull_until(steady_tp(o.dl), e)); break;
        case 1: o.clk = 1; o.dl = real_now() + d; r = ST(q.pull_until(system_tp(o.dl), e)); break;
        case 2: { o.clk = 2; ms_clock::time_point tp = ms_clock::time_point(bc::milliseconds((mono_now() + d) / 1000000)); o.dl = tp.time_since_epoch().count() * 1000000; r = ST(q.pull_until(tp, e)); break; }
        case 3: o.clk = 0; o.dl = mono_now() + d; r = ST(q.pull_for(bc::nanoseconds(d), e)); break;
        default: o.clk = 0; d = d / 1000000 * 1000000; o.dl = mono_now() + d; r = ST(q.pull_for(bc::milliseconds(d / 1000000), e)); break;
      }
    } else r = common_pull(q, o, e, direct);
    if (!direct) { if (r == OK) o.v = e.get(); else if (e.get() != -1) fail("queue: a pull that reports %s changed its argument", RN[r]); }
    return r;
  }
  long obs(int kind) { return obs_of(q, kind); }
  bool drain(std::vector<int>& out) { auto d = q.underlying_queue(); while (!d.empty()) { E x = d.pull(); Ignore i; out.push_back(x.get()); } return true; }
};
template <class C> struct Mk;
template <> struct Mk<bc::steady_clock> { static bc::steady_clock::time_point tp(int64_t t) { return steady_tp(t); } };
template <> struct Mk<bc::system_clock> { static bc::system_clock::time_point tp(int64_t t) { return system_tp(t); } };
template <> struct Mk<ms_clock> { static ms_clock::time_point tp(int64_t t) { return ms_clock::time_point(bc::milliseconds(t / 1000000)); } };
template <class E, class C> struct TQ : AnyQ {
  boost::sync_timed_queue<E, C> q; TQ(const char* nn, int c) { n = nn; timed = true; clk = c; }
  template <class T> int ptp(Op& o, E& e, T const& t) {
    if (o.kind == PUSH) { if (o.form & 1) q.push(boost::move(e), t); else if constexpr (std::is_copy_constructible<E>::value) q.push(static_cast<const E&>(e), t); else q.push(boost::move(e), t); return OK; }
    if (o.form & 1) return ST(q.try_push(boost::move(e), t));
    if constexpr (std::is_copy_constructible<E>::value) return ST(q.try_push(static_cast<const E&>(e), t)); else return ST(q.try_push(boost::move(e), t));
  }
  int push(Op& o) {
    E e(o.v, 0); AllocArm aa; int64_t d = clk == 2 ? o.key / 1000000 * 1000000 : o.key;
    if (o.form & 2) { if constexpr (std::is_same<C, ms_clock>::value) return ptp(o, e, bc::milliseconds(d / 1000000)); else return ptp(o, e, bc::nanoseconds(d)); }   // bounds of the due time filled by exec
    int64_t t = cnow(clk) + d; { Ignore i; o.item.lo = o.item.hi = t; }
    return ptp(o, e, Mk<C>::tp(t));
  }
  int pull(Op& o) {
    E e; AllocArm aa; int r; bool direct = false; int64_t d = o.dl;
    if (o.kind == UPULL) {
      switch (o.form % 4) {
        case 0: o.clk = clk; o.dl = cnow(clk) + d; if (clk == 2) o.dl = ms_trunc(o.dl); r = ST(q.pull_until(Mk<C>::tp(o.dl), e)); break;
        case 1: o.clk = 0; o.dl = mono_now() + d; r = ST(q.pull_for(bc::nanoseconds(d), e)); break;
        case 2: o.clk = 0; d = d / 1000000 * 1000000; o.dl = mono_now() + d; r = ST(q.pull_for(bc::milliseconds(d / 1000000), e)); break;
        default: o.clk = clk; o.dl = cnow(clk) + d; r = ST(q.pull_until(bc::time_point<C, bc::nanoseconds>(bc::nanoseconds(o.dl)), e)); break;   // finer than the clock
      }
    } else r = common_pull(q, o, e, direct);
    if (!direct) { if (r == OK) o.v = e.get(); else if (e.get() != -1) fail("queue: a pull that reports %s changed its argument", RN[r]); }
    return r;
  }
  long obs(int kind) { return obs_of(q, kind); }
};
static AnyQ* make_q() {
  switch (pick(8)) {
    case 0: return new PQ<Elem, boost::sync_priority_queue<Elem> >("sync_priority_queue", false);
    case 1: return new PQ<Elem, boost::sync_priority_queue<Elem, std::vector<Elem>, Greater> >("sync_priority_queue<greater>", true);
    case 2: return new PQ<MElem, boost::sync_priority_queue<MElem> >("sync_priority_queue<move-only>", false);
    case 3: case 4: return new TQ<Elem, bc::steady_clock>("sync_timed_queue<steady>", 0);
    case 5: case 6: return new TQ<Elem, bc::system_clock>("sync_timed_queue<system>", 1);
    default: return new TQ<Elem, ms_clock>("sync_timed_queue<ms clock>", 2);
  }
}
struct QState { std::vector<Item> v; bool closed; };
struct QSpec {
  bool timed, greater;
  bool best(const QState& s, const Item& x) const {          // nothing present is certainly ahead of x
    for (auto& y : s.v) if (y.id != x.id) { if (timed ? y.hi < x.lo : greater ? y.lo < x.lo : y.lo > x.lo) return false; }
    return true;
  }
  bool none_due(const QState& s, int64_t t) const { for (auto& y : s.v) if (y.hi <= t) return false; return true; }
  bool apply(QState& s, const Op& o) const {
    bool emp = s.v.empty();
    switch (o.kind) {
      case PUSH: case TPUSH:
        switch (o.res) {
          case OK: if (s.closed) return false; s.v.push_back(o.item); return true;
          case CLOSED: return s.closed;
          case USER: return true;                                   // sync_timed_queue copies the element before it looks at the queue
          case ALLOC: return true;
          default: return o.res == INTR;
        }
      case PULL: case TPULL: case NPULL: case UPULL:
        switch (o.res) {
          case OK: for (size_t i = 0; i < s.v.size(); i++) if (s.v[i].id == o.v) { if (!best(s, s.v[i])) return false; if (timed && s.v[i].lo > o.tmax) return false; s.v.erase(s.v.begin() + i); return true; } return false;
          case EMPTY: return (o.kind == TPULL || o.kind == NPULL) && emp && !s.closed;
          case NOTREADY: return timed && o.kind != PULL && !emp && !s.closed && none_due(s, o.kind == UPULL ? std::max(o.tmin, o.dl) : o.tmin);
          case TIMEOUT: return o.kind == UPULL && emp && !s.closed;
          case CLOSED: return s.closed && (timed ? none_due(s, o.tmin) : emp);
          case BUSY: return o.kind == NPULL;
          case INTR: return o.kind == PULL || o.kind == UPULL;
          default: return false;
        }
      case QEMPTY: return o.val == emp;
      case QFULL: return o.val == 0;
      case QSIZE: return o.val == (long)s.v.size();
      case QCLOSED: return o.val == s.closed;
      case CLOSE: s.closed = true; return true;
      case DRAIN: {
        if (o.all.size() != s.v.size()) return false;
        for (int id : o.all) { bool f = false; for (size_t i = 0; i < s.v.size(); i++) if (s.v[i].id == id) { if (!best(s, s.v[i])) return false; s.v.erase(s.v.begin() + i); f = true; break; } if (!f) return false; }
        return true; }
      case PROBE: return !o.blocked || (!s.closed && (timed ? none_due(s, o.tmin) : emp));
    }
    return false;
  }
  void key(const QState& s, std::string& k) const { k.push_back(s.closed); std::vector<char> ids; for (auto& y : s.v) ids.push_back((char)y.id); std::sort(ids.begin(), ids.end()); k.append(ids.begin(), ids.end()); }
};
struct Sample { uint64_t stamp; int64_t t[3]; };
struct Run { AnyQ* q; std::vector<Op> h; std::map<int, Op> pending; std::vector<Sample> smp; bool throwing, jumps, early; int64_t last_jump; };
static uint64_t sample(Run* r) { Sample s; s.stamp = next_stamp(); for (int c = 0; c < 3; c++) s.t[c] = cnow(c); r->smp.push_back(s); return s.stamp; }
static void minmax(Run& r, int clk, uint64_t a, uint64_t b, int64_t& lo, int64_t& hi) { lo = INT64_MAX; hi = INT64_MIN; for (auto& s : r.smp) if (s.stamp >= a && s.stamp <= b) { lo = std::min(lo, s.t[clk]); hi = std::max(hi, s.t[clk]); } }
static std::string describe(Run& r) {
  std::string s; char b[256]; std::vector<const Op*> v; for (auto& o : r.h) v.push_back(&o);
  std::sort(v.begin(), v.end(), [](const Op* a, const Op* b) { return a->s < b->s; });
  for (auto o : v) {
    long long t = (o->tmin - r.smp[0].t[r.q->timed ? r.q->clk : 0]), t2 = o->tmax - r.smp[0].t[r.q->timed ? r.q->clk : 0];
    if (o->kind == PROBE) snprintf(b, sizeof b, "\n   [%llu] t=%lld quiescent: %d pulls blocked", (unsigned long long)o->s, t, o->blocked);
    else if (o->kind >= QEMPTY) snprintf(b, sizeof b, "\n   [%llu-%llu] T%d %s = %ld", (unsigned long long)o->s, (unsigned long long)o->e, o->tid, KN[o->kind], o->kind == DRAIN ? (long)o->all.size() : o->val);
    else if (o->kind <= TPUSH) snprintf(b, sizeof b, "\n   [%llu-%llu] t=%lld T%d %s/%d(%d; key %lld) %s", (unsigned long long)o->s, (unsigned long long)o->e, t, o->tid, KN[o->kind], o->form, o->v, (long long)(r.q->timed ? o->item.lo - r.smp[0].t[r.q->clk] : o->item.lo), RN[o->res]);
    else snprintf(b, sizeof b, "\n   [%llu-%llu] t=%lld..%lld T%d %s/%d -> %s %d", (unsigned long long)o->s, (unsigned long long)o->e, t, t2, o->tid, KN[o->kind], o->form, RN[o->res], o->res == OK ? o->v : 0);
    s += b;
  }
  return s;
}
struct Cmd { int kind, form, v, arm, afail; int64_t key, d; };
static const int64_t DL[] = {0, 1000000, 5000000, 99000000, 100000000, 250000000, 1, -1000000, 700000, 2000000000};
static Cmd gen(Run& r, int& next) {
  static const unsigned w[] = {22, 8, 20, 10, 6, 12, 2, 1, 4, 2, 0, 2};
  Cmd c; c.kind = weighted(w, 12); c.form = pick(12); c.v = 0; c.arm = c.afail = 0; c.key = 0; c.d = 0;
  if (c.kind <= TPUSH) { c.v = next++; c.key = r.q->timed ? DL[pick(10)] : (int64_t)pick(5); }
  if (c.kind == UPULL) c.d = DL[pick(10)];
  if (r.throwing && c.kind <= TPUSH && chance(1, 4)) { if (flip()) c.afail = 1 + pick(2); else c.arm = 1 + pick(2); }
  return c;
}
static void exec(Run* r, int tid, Cmd c) {
  Op o = Op(); { Ignore i; o.tid = tid; o.kind = c.kind; o.form = c.form; o.v = c.v; o.clk = 0; o.key = c.key; o.dl = c.d; o.res = OK; o.val = 0; o.blocked = 0; o.item.id = c.v; o.item.lo = INT64_MIN; o.item.hi = 0; o.s = sample(r); o.e = ~0ull; r->pending[tid] = o; g_arm[fid() & 63] = c.arm; g_afail[fid() & 63] = c.afail; }
  std::vector<int>* all; { Ignore i; all = new std::vector<int>(); }
  bool push = c.kind <= TPUSH, pull = c.kind >= PULL && c.kind <= UPULL;
  try {
    if (push) o.res = r->q->push(o);
    else if (pull) o.res = r->q->pull(o);
    else if (c.kind == DRAIN) { if (!r->q->drain(*all)) { o.kind = QSIZE; o.val = r->q->obs(QSIZE); } }
    else o.val = r->q->obs(c.kind);
  }
  catch (boost::concurrent::sync_queue_is_closed&) { o.res = CLOSED; }
  catch (ElemError&) { o.res = USER; }
  catch (std::bad_alloc&) { o.res = ALLOC; }
  catch (boost::thread_interrupted&) { o.res = INTR; }
  Ignore i; g_arm[fid() & 63] = 0; g_afail[fid() & 63] = 0; o.all.swap(*all); delete all;
  if ((o.res == USER || o.res == ALLOC) && !push) fail("queue: %s threw", KN[c.kind]);
  o.e = sample(r); minmax(*r, r->q->timed ? r->q->clk : 0, o.s, o.e, o.tmin, o.tmax);
  if (push) {
    if (!r->q->timed) o.item.lo = o.item.hi = c.key;
    else if (o.item.lo == INT64_MIN) { int64_t d = r->q->clk == 2 ? c.key / 1000000 * 1000000 : c.key; o.item.lo = o.tmin + d; o.item.hi = o.tmax + d; }
  }
  if (o.kind == UPULL && (o.res == TIMEOUT || o.res == NOTREADY)) { int64_t lo, hi; minmax(*r, o.clk, o.s, o.e, lo, hi); if (hi < o.dl) fail("%s: timed pull (form %d) reports %s %lld ns before its deadline", r->q->n, o.form, RN[o.res], (long long)(o.dl - hi)); }
  if (o.kind == UPULL && o.clk != (r->q->timed ? r->q->clk : 0)) o.dl = INT64_MIN;     // not comparable with due times
  r->pending.erase(tid); r->h.push_back(o);
}
static void check(Run& r) {
  Ignore ig;
  if (r.h.size() > 62) fail("harness: history too long");
  int overl = 0;
  for (auto& o : r.h) {
    bool over = false; for (auto& p : r.h) if (p.tid != o.tid && p.kind != PROBE && p.s < o.e && p.e > o.s) over = true;
    overl += over;
    if (o.res == BUSY && !over) fail("%s: busy reported although no other operation was in progress", r.q->n);
    if (o.kind == UPULL) o.dl = r.jumps || r.early ? INT64_MIN : o.dl == INT64_MIN ? o.dl : o.dl - 2000;   // due and deadline are judged by separate clock readings
  }
  QSpec sp; sp.timed = r.q->timed; sp.greater = r.q->greater; QState st; st.closed = false;
  Lin<QSpec, QState, Op> L(sp, r.h);
  if (!L.check(st)) fail("%s: history is not explained by any order of its operations:%s", r.q->n, describe(r).c_str());
  if (L.nodes > 400000) label("search-cut");
  nontrivial(overl >= 2);
}
static void probe(Run& r) {
  Ignore i; Op o = Op(); o.tid = -1; o.kind = PROBE;
  bool settling = r.jumps && mono_now() - r.last_jump < 220000000;
  int64_t slack[3] = {2000, r.jumps ? 220000000 : 2000, 1102000};   // ms clock: waits are rounded up to its tick; stepped system clock: two polling intervals
  for (auto& p : r.pending) {
    int k = p.second.kind;
    if (k == PULL || k == UPULL) o.blocked++; else fail("%s: %s blocks", r.q->n, KN[k]);
  }
  o.s = sample(&r); o.tmin = o.tmax = cnow(r.q->timed ? r.q->clk : 0) - slack[r.q->timed ? r.q->clk : 0]; o.e = sample(&r);
  if (o.blocked) label("blocked-at-quiescence");
  if (settling || (r.early && r.q->timed && r.q->clk)) o.blocked = 0;   // early time: a waiter may be delayed between reading its clock and starting a relative wait
  r.h.push_back(o);
}
static void late(Run& r) {
  if (r.early) return;   // the call may have begun long after its first stamp
       // deadlines are at most 2 s after the call (plus clock steps of at most 9 s)
  Ignore i;
  for (auto& p : r.pending) if (p.second.kind == UPULL) for (auto& s : r.smp) if (s.stamp == p.second.s && mono_now() - s.t[0] > 2050000000ll + (r.jumps ? 10000000000ll : 0)) fail("%s: a timed pull is still blocked after its deadline", r.q->n);
}
static void finish(Run& r) {
  check(r); label(r.q->n); delete r.q;
}
static void jump(Run& r) {
  if (!r.jumps) return;
  static const int64_t J[] = {50000000, -50000000, 3000000000ll, -3000000000ll, 1000000, -1000000};
  int64_t j = J[pick(6)]; note(" system clock steps by %lld", (long long)j);
  Ignore i; sample(&r); jump_real(j); sample(&r); r.last_jump = mono_now();
}
SCENARIO(phases, 4) {
  check_leaks(true); allow_spurious(pick(4)); bool early = chance(1, 5); allow_early_time(early); { Ignore i; memset(g_arm, 0, sizeof g_arm); memset(g_afail, 0, sizeof g_afail); }
  Priv<Run> rp; Run& r = *rp; r.q = make_q(); r.early = early; r.throwing = chance(1, 4); r.jumps = r.q->clk == 1 && chance(1, 3); r.last_jump = INT64_MIN / 2; { Ignore i; sample(&r); }
  int nt = range(1, 4), next = 1; note("%s, %d threads%s", r.q->n, nt, r.throwing ? ", throwing copies" : "");
  {
    Workers wk(nt); int ops = range(2, 18); bool slow = chance(1, 3);
    for (int k = 0; k < ops; k++) {
      int t = pick(nt);
      if (chance(1, 6)) { int64_t d = DL[1 + pick(5)]; note(" %lld ns pass", (long long)d); delay(d); wait_quiescent(); probe(r); }
      if (r.jumps && chance(1, 5)) jump(r);
      if (wk.busy(t)) { if (!slow || flip()) { wait_quiescent(); probe(r); } if (wk.busy(t)) continue; }
      Cmd c = gen(r, next); Run* p = &r; note(" T%d %s/%d %d key=%lld d=%lld arm=%d,%d", t + 1, KN[c.kind], c.form, c.v, (long long)c.key, (long long)c.d, c.arm, c.afail);
      wk.post(t, [=] { exec(p, t + 1, c); });
      if (slow) { wait_quiescent(); probe(r); }
    }
    wait_quiescent(); probe(r);
    if (flip()) { delay(2100000000); wait_quiescent(); probe(r); late(r); }
    Cmd cl = {CLOSE, 0, 0, 0, 0, 0, 0}; exec(&r, 0, cl);
    wait_quiescent(); probe(r); { Ignore i; if (!r.pending.empty()) fail("%s: a pull stays blocked after close()", r.q->n); }
    wk.finish();
  }
  if (r.q->timed) { delay(4200000000ll); if (r.jumps) { Ignore i; r.jumps = true; } }
  for (int k = 0; k < 30; k++) { Cmd c = {TPULL, 0, 0, 0, 0, 0, 0}; exec(&r, 0, c); bool stop; { Ignore i; stop = r.h.back().res != OK; } if (stop) break; }
  finish(r);
}
SCENARIO(free_running, 4) {
  check_leaks(true); allow_spurious(pick(4)); bool early = chance(1, 3); allow_early_time(early); { Ignore i; memset(g_arm, 0, sizeof g_arm); memset(g_afail, 0, sizeof g_afail); }
  Priv<Run> rp; Run& r = *rp; r.q = make_q(); r.early = early; r.throwing = chance(1, 6); r.jumps = r.q->clk == 1 && chance(1, 3); r.last_jump = INT64_MIN / 2; { Ignore i; sample(&r); } Run* p = &r;
  int nt = range(2, 5), next = 1; note("%s, %d threads", r.q->n, nt);
  std::vector<std::vector<Cmd> > prog(nt); std::vector<std::vector<int64_t> > pre(nt);
  for (int t = 0; t < nt; t++) { int n = range(1, 4); for (int i = 0; i < n; i++) { prog[t].push_back(gen(r, next)); pre[t].push_back(chance(1, 4) ? DL[1 + pick(5)] : 0); Cmd& c = prog[t].back(); note(" T%d (+%lld) %s/%d %d key=%lld d=%lld", t + 1, (long long)pre[t].back(), KN[c.kind], c.form, c.v, (long long)c.key, (long long)c.d); } }
  Cmd cl = {CLOSE, 0, 0, 0, 0, 0, 0};
  {
    Threads th;
    for (int t = 0; t < nt; t++) th.add([&, t] { for (size_t i = 0; i < prog[t].size(); i++) { if (pre[t][i]) delay(pre[t][i]); exec(p, t + 1, prog[t][i]); } });
    if (r.jumps) { int k = range(1, 3); for (int i = 0; i < k; i++) { if (flip()) delay(DL[1 + pick(5)]); else for (int m = pick(8); m > 0; m--) point(); jump(r); } }
    if (chance(1, 3)) { delay(DL[1 + pick(5)]); note(" main closes early"); exec(&r, 0, cl); }
    else { delay(9000000000ll); wait_quiescent(); probe(r); late(r); exec(&r, 0, cl); }
    th.join();
  }
  if (r.q->timed) delay(13000000000ll);
  for (int k = 0; k < 30; k++) { Cmd c = {TPULL, 0, 0, 0, 0, 0, 0}; exec(&r, 0, c); bool stop; { Ignore i; stop = r.h.back().res != OK; } if (stop) break; }
  finish(r);
}
// the system clock is stepped back around the moment a pull_until gives up
SCENARIO(step_at_deadline, 1) {
  check_leaks(true); allow_spurious(pick(2)); allow_early_time(false); { Ignore i; memset(g_arm, 0, sizeof g_arm); memset(g_afail, 0, sizeof g_afail); }
  Priv<Run> rp; Run& r = *rp; r.q = new TQ<Elem, bc::system_clock>("sync_timed_queue<system>", 1); r.early = false; r.throwing = false; r.jumps = true; r.last_jump = INT64_MIN / 2; { Ignore i; sample(&r); } Run* p = &r;
  int nt = range(1, 2), next = 1; bool item = chance(1, 3); note("%d pullers%s", nt, item ? ", one item" : "");
  static const int64_t D[] = {1000000, 50000000, 99000000, 100000000, 101000000, 250000000};
  {
    Threads th; int64_t d = D[pick(6)]; int form = flip() ? 0 : 3;
    if (item) { Cmd c = {PUSH, 0, next++, 0, 0, D[pick(6)], 0}; exec(p, 0, c); }
    for (int t = 0; t < nt; t++) th.add([=] { Cmd c = {UPULL, form, 0, 0, 0, 0, d}; exec(p, t + 1, c); });
    int64_t pass = d + (int64_t)pick(3) * 40; note(" deadline %lld, passes %lld", (long long)d, (long long)pass);
    delay(pass); for (int m = pick(12); m > 0; m--) point();
    jump(r);
    delay(12000000000ll); wait_quiescent(); probe(r); late(r);
    Cmd cl = {CLOSE, 0, 0, 0, 0, 0, 0}; exec(p, 0, cl); th.join();
  }
  delay(13000000000ll);
  for (int k = 0; k < 3; k++) { Cmd c = {TPULL, 0, 0, 0, 0, 0, 0}; exec(&r, 0, c); bool stop; { Ignore i; stop = r.h.back().res != OK; } if (stop) break; }
  finish(r); nontrivial(true);
}
int main(int c, char** v) { return pbt_main(c, v, "at least two operations overlapped another one in real time"); }
