// M03: boost::lock / boost::try_lock over 2..5 lockables and ranges, make_unique_locks
#include "common.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/locks.hpp>
#include <boost/thread/lock_algorithms.hpp>
#include <boost/thread/lock_factories.hpp>
#include <list>
struct Boom { };
static const char* const MK[] = {"mutex", "timed_mutex", "recursive_mutex", "recursive_timed_mutex", "shared_mutex"};
struct TM;
struct Ctx { int armed, refuse, calls, locks; bool in_call; std::vector<TM*> refused; };
static Ctx cx[64];
// A lockable over a real mutex of the library that checks how it is used, refuses and throws on demand.
struct TM {
  int kind, idx; boost::mutex a; boost::timed_mutex b; boost::recursive_mutex c; boost::recursive_timed_mutex d; boost::shared_mutex e;
  int owner, depth, data;
  TM() : kind(0), idx(0), owner(-1), depth(0), data(0) {}
  TM(const TM&) = delete;
  bool rec() const { return kind == 2 || kind == 3; }
  void got() {
    { Ignore i; if (owner != -1 && owner != fid()) fail("lockable %d (%s): two owners", idx, MK[kind]); owner = fid(); depth++; if (depth > 1 && !rec()) fail("lockable %d: locked twice", idx); }
    data++;      // happens-before between owners is checked here
  }
  void pre(bool is_try) {
    bool t = false;
    { Ignore i; Ctx& k = cx[fid()]; if (owner == fid() && !rec()) fail("lockable %d (%s): %s called by the thread that holds it", idx, MK[kind], is_try ? "try_lock" : "lock");
      if (k.in_call) { k.calls++; if (!is_try) k.locks++; if (k.armed && k.calls == k.armed) t = true; } }
    if (t) throw Boom();
  }
  void lock() {
    pre(false);
    switch (kind) { case 0: a.lock(); break; case 1: b.lock(); break; case 2: c.lock(); break; case 3: d.lock(); break; default: e.lock(); }
    got();
  }
  bool try_lock() {
    pre(true);
    bool r, refuse = false; { Ignore i; Ctx& k = cx[fid()]; if (k.in_call && k.refuse > 0 && (k.calls + idx) % 3 == 0) { k.refuse--; refuse = true; } }
    if (refuse) r = false;
    else switch (kind) { case 0: r = a.try_lock(); break; case 1: r = b.try_lock(); break; case 2: r = c.try_lock(); break; case 3: r = d.try_lock(); break; default: r = e.try_lock(); }
    if (r) got(); else { Ignore i; cx[fid()].refused.push_back(this); }
    return r;
  }
  void unlock() {
    { Ignore i; if (owner != fid()) fail("lockable %d (%s): unlocked by a thread that does not hold it", idx, MK[kind]); if (!--depth) owner = -1; }
    switch (kind) { case 0: a.unlock(); break; case 1: b.unlock(); break; case 2: c.unlock(); break; case 3: d.unlock(); break; default: e.unlock(); }
  }
};
struct Ref { TM* p; void lock() { p->lock(); } bool try_lock() { return p->try_lock(); } void unlock() { p->unlock(); } };
typedef boost::unique_lock<TM> UL;
// one lockable per mutex class, for calls over different lockable types
template <int N> struct Het { TM* p; void lock() { p->lock(); } bool try_lock() { return p->try_lock(); } void unlock() { p->unlock(); } };

template <class F> static auto call_n(const std::vector<TM*>& s, F f) -> decltype(f(*s[0], *s[0])) {
  switch (s.size()) { case 2: return f(*s[0], *s[1]); case 3: return f(*s[0], *s[1], *s[2]); case 4: return f(*s[0], *s[1], *s[2], *s[3]); default: return f(*s[0], *s[1], *s[2], *s[3], *s[4]); }
}
struct DoLock { template <class... A> int operator()(A&... a) const { boost::lock(a...); return -1; } };
struct DoTry { template <class... A> int operator()(A&... a) const { return boost::try_lock(a...); } };
template <class F> static int hetero(const std::vector<TM*>& s, F f) {
  Het<0> h0; Het<1> h1; Het<2> h2; Het<3> h3; UL u;
  h0.p = s[0]; h1.p = s[1]; h2.p = s.size() > 2 ? s[2] : 0; h3.p = s.size() > 3 ? s[3] : 0; if (s.size() > 4) u = UL(*s[4], boost::defer_lock);
  struct Rel { UL& u; ~Rel() { u.release(); } } rel = {u};   // keeps the fifth one locked if the call locked it (a leftover is found by the ownership check)
  switch (s.size()) { case 2: return f(h0, h1); case 3: return f(h0, h1, h2); case 4: return f(h0, h1, h2, h3); default: return f(h0, h1, h2, h3, u); }
}
enum Form { VARIADIC, HETERO, RANGE_REF, RANGE_UL, RANGE_LIST, FACTORY, NFORM };
static const char* const FN[] = {"", "(mixed types)", "(range of handles)", "(range of unique_lock)", "(list range)", "make_unique_locks"};
struct Cmd { bool is_try; int form; std::vector<int> set; int armed, refuse; bool prehold; int hold; unsigned order; };
struct World { std::vector<TM*> m; int overlaps, fails, throws; };
// returns index of the refused one or -1
static int perform(const Cmd& c, const std::vector<TM*>& s) {
  if (c.form == HETERO) return c.is_try ? hetero(s, DoTry()) : hetero(s, DoLock());
  if (c.form == RANGE_REF) {
    std::vector<Ref> v; for (auto p : s) { Ref r = {p}; v.push_back(r); }
    if (c.is_try) { auto it = boost::try_lock(v.begin(), v.end()); return it == v.end() ? -1 : (int)(it - v.begin()); }
    boost::lock(v.begin(), v.end()); return -1;
  }
  if (c.form == RANGE_UL) {
    std::vector<UL> v; for (auto p : s) v.push_back(UL(*p, boost::defer_lock));
    struct Rel { std::vector<UL>& v; bool ok; ~Rel() { for (auto& u : v) { bool o = u.owns_lock(); if (o != ok) fail("lock over unique_locks: one %s", o ? "was left owning" : "does not own"); u.release(); } } } rel = {v, false};
    if (c.is_try) { auto it = boost::try_lock(v.begin(), v.end()); rel.ok = it == v.end(); return it == v.end() ? -1 : (int)(it - v.begin()); }
    boost::lock(v.begin(), v.end()); rel.ok = true; return -1;
  }
  if (c.form == RANGE_LIST) {
    std::list<Ref> v; for (auto p : s) { Ref r = {p}; v.push_back(r); }
    if (c.is_try) { auto it = boost::try_lock(v.begin(), v.end()); return it == v.end() ? -1 : (int)std::distance(v.begin(), it); }
    boost::lock(v.begin(), v.end()); return -1;
  }
  if (c.form == FACTORY && !c.is_try) {
    return call_n(s, [](auto&... a) { auto t = boost::make_unique_locks(a...);
      std::apply([](auto&... u) { bool ok = (u.owns_lock() && ...); if (!ok) fail("make_unique_locks: a lock does not own its mutex"); (u.release(), ...); }, t); return -1; });
  }
  return c.is_try ? call_n(s, DoTry()) : call_n(s, DoLock());
}
static int held(World& w, int me) { int n = 0; for (auto m : w.m) if (m->owner == me) n++; return n; }
static void exec(World& w, const Cmd& c) {
  std::vector<TM*> s; std::vector<int> pre;
  int me = fid(); { Ignore i; for (int k : c.set) s.push_back(w.m[k]); }
  if (c.set.size() == 1) {      // a plain user of one of them
    s[0]->lock(); for (int i = 0; i < c.hold; i++) point(); s[0]->data++; s[0]->unlock(); { Ignore i; std::vector<TM*>().swap(s); } return;
  }
  bool ph = c.prehold && c.is_try && s[c.order % s.size()]->rec() && s[c.order % s.size()]->try_lock();
  int r = -1; bool threw = false;
  { Ignore i; for (auto m : s) pre.push_back(m->owner == me ? m->depth : 0); Ctx& k = cx[me]; k.armed = c.armed; k.refuse = c.refuse; k.calls = k.locks = 0; k.refused.clear(); k.in_call = true; }
  try { r = perform(c, s); } catch (Boom&) { threw = true; }
  int before = ph ? 1 : 0;
  {
    Ignore i; Ctx& k = cx[me]; k.in_call = false;
    const char* n = c.is_try ? "try_lock" : "lock";
    bool fired = k.armed && k.calls >= k.armed;
    if (threw != fired) fail("%s%s: %s", n, FN[c.form], threw ? "threw without cause" : "swallowed the exception of a lockable");
    if (c.is_try && k.locks) fail("try_lock%s called the blocking lock() of a lockable", FN[c.form]);
    if (!c.is_try && r != -1) fail("lock%s: harness", FN[c.form]);
    bool locked = !threw && r == -1;
    for (size_t x = 0; x < s.size(); x++) {
      int d = s[x]->owner == me ? s[x]->depth : 0;
      if (d != pre[x] + (locked ? 1 : 0)) fail("%s%s %s, but lockable %d of %d is held %d times by the caller (it was held %d times before)", n, FN[c.form], threw ? "threw" : locked ? "succeeded" : "failed", (int)x, (int)s.size(), d, pre[x]);
    }
    if (held(w, me) != (locked ? (int)s.size() : before)) fail("%s%s: the caller holds a lockable that was not among the arguments", n, FN[c.form]);
    if (c.is_try && !threw && r >= 0) {
      bool f = false; if (r < (int)s.size()) for (auto p : k.refused) if (p == s[r]) f = true;
      if (!f) fail("try_lock%s returned %d, which is not a lockable whose try_lock failed", FN[c.form], r);
      w.fails++;
    }
    if (c.is_try && locked && !k.refused.empty()) fail("try_lock%s reports success although a try_lock failed", FN[c.form]);
    if (k.refused.size()) w.overlaps++;
    if (threw) w.throws++;
    std::vector<TM*>().swap(k.refused); std::vector<int>().swap(pre);
    if (!locked) { Ignore ii; if (!ph) std::vector<TM*>().swap(s); }
  }
  if (!threw && r == -1) {
    for (int i = 0; i < c.hold; i++) point();
    for (auto m : s) m->data++;
    unsigned o = c.order; std::vector<TM*> left; { Ignore i; left = s; }
    while (!left.empty()) { size_t x = o % left.size(); o = o / 2 + 1; TM* m = left[x]; { Ignore i; left.erase(left.begin() + x); } m->unlock(); }
    { Ignore i; std::vector<TM*>().swap(left); }
  }
  if (ph) s[c.order % s.size()]->unlock();
  Ignore i; std::vector<TM*>().swap(s);
}
static Cmd gen(World& w, bool throwing, bool refusing) {
  static const unsigned FW[] = {8, 2, 4, 2, 1, 2};
  Cmd c; c.is_try = chance(1, 3); c.form = weighted(FW, 6); int n = (int)w.m.size();
  int k = chance(1, 6) ? 1 : range(2, std::min(5, n));
  if (k != 1 && c.form >= RANGE_REF && c.form <= RANGE_LIST && n > 5 && chance(1, 4)) k = n;
  std::vector<int> all; { Ignore i; for (int i = 0; i < n; i++) all.push_back(i); }
  for (int i = 0; i < k; i++) { int x = pick((unsigned)all.size()); Ignore ig; c.set.push_back(all[x]); all.erase(all.begin() + x); }
  { Ignore i; std::vector<int>().swap(all); }
  c.armed = throwing && chance(1, 3) ? range(1, 8) : 0; c.refuse = refusing && chance(1, 2) ? range(1, 3) : 0;
  c.prehold = chance(1, 4); c.hold = pick(4); c.order = pick(64);
  note("  %s%s/%d throw at %d refuse %d hold %d:%s", c.set.size() == 1 ? "single " : c.is_try ? "try_lock" : "lock", FN[c.form], (int)c.set.size(), c.armed, c.refuse, c.hold, [&] { std::string s; for (int x : c.set) { s += ' '; s += std::to_string(x); } return s; }().c_str());
  return c;
}
struct Prog { std::vector<std::vector<Cmd> > p; };
SCENARIO(overlapping, 1) {
  check_leaks(true); allow_spurious(pick(3)); { Ignore i; for (auto& k : cx) { k.armed = k.refuse = k.calls = k.locks = 0; k.in_call = false; std::vector<TM*>().swap(k.refused); } }
  Priv<World> wp; World& w = *wp; w.overlaps = w.fails = w.throws = 0;
  int n = range(2, 7), nt = range(1, 4); bool throwing = chance(1, 3), refusing = chance(1, 4);
  for (int i = 0; i < n; i++) { TM* m = new TM(); m->idx = i; m->kind = pick(5); Ignore ig; w.m.push_back(m); }
  note("%d lockables, %d threads", n, nt);
  Priv<Prog> pp; { Ignore i; pp->p.resize(nt); }
  for (int t = 0; t < nt; t++) { int ops = range(1, 4); note(" T%d", t + 1); for (int i = 0; i < ops; i++) { Cmd c; { Ignore ig; c = Cmd(gen(w, throwing, refusing)); pp->p[t].push_back(c); } } }
  { Threads th; for (int t = 0; t < nt; t++) { World* q = &w; Prog* pr = &*pp; th.add([=] { for (auto& c : pr->p[t]) exec(*q, c); }); } th.join(); }
  for (auto m : w.m) { { Ignore i; if (m->owner != -1) fail("lockable %d is still locked at the end", m->idx); } delete m; }
  if (w.throws) label("lockable-threw"); if (w.fails) label("try_lock-failed");
  nontrivial(w.overlaps || w.throws || w.fails);
}
int main(int c, char** v) { return pbt_main(c, v, "at least one lockable refused (was contended) or threw during a multi-lock call"); }
