// S01: synchronized_value, externally_locked, externally_locked_stream
#include "lin.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/strict_lock.hpp>
#include <boost/thread/synchronized_value.hpp>
#include <boost/thread/externally_locked.hpp>
#include <boost/thread/externally_locked_stream.hpp>

// ---- a mutex that knows its holder (on top of the real one)
static int g_lthrow[64];                   // per fiber: countdown to a throwing lock()/try_lock()
struct LockThrow { };
struct AnyTM { int owner, depth; long locks, unlocks; AnyTM() : owner(-1), depth(0), locks(0), unlocks(0) {}
  void took() { Ignore g; owner = fid(); depth++; locks++; }
  void maybe() const { bool t = false; { Ignore g; int f = fid() & 63; if (g_lthrow[f] && --g_lthrow[f] == 0) t = true; } if (t) throw LockThrow(); } };
template <class M> struct TM : AnyTM {
  M m;
  void lock() { maybe(); m.lock(); took(); }
  bool try_lock() { maybe(); if (!m.try_lock()) return false; took(); return true; }
  void unlock() { { Ignore g; if (owner != fid() || depth <= 0) fail("a mutex is unlocked by a thread that does not hold it"); unlocks++; if (--depth == 0) owner = -1; } m.unlock(); }
  ~TM() { Ignore g; if (depth || locks != unlocks) fail("a synchronized_value is destroyed with its mutex locked (%ld locks, %ld unlocks)", locks, unlocks); }
};
// ---- the protected value: every operation on a registered one is checked
struct V; struct RegE { const V* v; const AnyTM* m; }; static RegE g_reg[4]; static int g_nreg;
static int g_vthrow[64]; struct ValThrow { };
static void acc(const V* a) { Ignore g; for (int i = 0; i < g_nreg; i++) if (g_reg[i].v == a) { const AnyTM* m = g_reg[i].m; if (m->owner != fid()) fail("value %d is accessed by a thread that does not hold its mutex", i); if (m->depth != 1) fail("value %d is accessed with its mutex locked %d times", i, m->depth); } }
static void vmay() { bool t = false; { Ignore g; int f = fid() & 63; if (g_vthrow[f] && --g_vthrow[f] == 0) t = true; } point(); if (t) throw ValThrow(); }
struct V {
  int x;
  V() : x(0) {}
  explicit V(int v) : x(v) {}
  V(const V& o) : x((acc(&o), vmay(), o.x)) {}
  V(V&& o) : x((acc(&o), vmay(), o.x)) { o.x = -1; }
  V& operator=(const V& o) { acc(this); acc(&o); vmay(); x = o.x; return *this; }
  V& operator=(V&& o) { acc(this); acc(&o); vmay(); if (this != &o) { x = o.x; o.x = -1; } return *this; }
  int add(int k) { acc(this); vmay(); int r = x; x += k; return r; }
  int read() const { acc(this); vmay(); return x; }
  friend void swap(V& a, V& b) { acc(&a); acc(&b); vmay(); int t = a.x; a.x = b.x; b.x = t; }
};
#define REL(o) static bool operator o(const V& a, const V& b) { acc(&a); acc(&b); vmay(); return a.x o b.x; }
REL(==) REL(!=) REL(<) REL(<=) REL(>) REL(>=)
struct Str { int out, in; std::vector<int>* log; };
static Str& operator<<(Str& s, const V& v) { s.out = v.read(); return s; }
static Str& operator>>(Str& s, V& v) { acc(&v); vmay(); v.x = s.in; return s; }

enum K { ASSIGN, SET, GET, CONV, SWAP, SWAPV, CMP, CMPV, CALL, CCALL, ARROW, CARROW, DREAD, DWRITE, SYNC, CSYNC, USYNC, TRYS, SYNC2, SYNC3, CCOPY, CMOVE, SAVE, LOAD, NK };
static const char* const KN[] = {"assign", "set", "get", "convert", "swap", "swap value", "compare", "compare value", "call", "const call", "->add", "const ->read", "*read", "*write", "synchronize", "const synchronize", "unique_synchronize", "try_to_synchronize", "synchronize 2", "synchronize 3", "copy construct", "move construct", "save", "load"};
enum { VTHROW = -2000000001, LTHROW, NOTGOT };
struct Op { int tid, k, i, j, l, x, form; long r; uint64_t s, e; };
struct State { int v[3]; };
static bool rel(int f, int a, int b) { switch (f) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; } }
struct Spec {
  bool apply(State& s, const Op& o) const {
    if (o.r == VTHROW || o.r == LTHROW || o.r == NOTGOT) return true;
    int& a = s.v[o.i]; int& b = s.v[o.j];
    switch (o.k) {
      case ASSIGN: a = b; return true;
      case SET: case DWRITE: a = o.x; return true;
      case GET: case CONV: case CARROW: case DREAD: case CSYNC: case CCALL: case CCOPY: case SAVE: return o.r == a;
      case SWAP: std::swap(a, b); return true;
      case SWAPV: if (o.r != a) return false; a = o.x; return true;
      case CMP: return o.r == rel(o.form % 6, a, b);
      case CMPV: return o.r == (o.form / 6 % 2 ? rel(o.form % 6, o.x, a) : rel(o.form % 6, a, o.x));
      case CALL: case ARROW: case SYNC: case USYNC: case TRYS: if (o.r != a) return false; a += o.x; return true;
      case SYNC2: { if (o.r != a * 1000 + b) return false; int t = a; a = b; b = t + o.x; return true; }
      case SYNC3: { int& c = s.v[o.l]; if (o.r != (a * 1000 + b) * 1000 + c) return false; int t = a; a = b; b = c; c = t + o.x; return true; }
      case CMOVE: if (o.r != a) return false; a = -1; return true;
      case LOAD: a = o.x; return true;
    }
    return false;
  }
  void key(const State& s, std::string& k) const { k.append((const char*)s.v, sizeof s.v); }
};
template <class SV> static bool rel_sv(int f, const SV& a, const SV& b) { switch (f) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; } }
template <class SV> static bool rel_v(int f, bool rev, const SV& a, const V& b) { if (rev) switch (f) { case 0: return b == a; case 1: return b != a; case 2: return b < a; case 3: return b <= a; case 4: return b > a; default: return b >= a; }
  switch (f) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; } }
template <class SV, class L> static long run_op(SV** sv, const Op& o) {
  SV &a = *sv[o.i], &b = *sv[o.j]; const SV& ca = a;
  switch (o.k) {
    case ASSIGN: { SV& r = (a = b); if (&r != &a) fail("operator= does not return *this"); return 0; }
    case SET: { V v(o.x); SV& r = (a = v); if (&r != &a) fail("operator= does not return *this"); return 0; }
    case GET: return ca.get().x;
    case CONV: return static_cast<V>(ca).x;
    case SWAP: if (o.form & 1) a.swap(b); else swap(a, b); return 0;
    case SWAPV: { V v(o.x); switch (o.form % 3) { case 0: a.swap(v); break; case 1: swap(a, v); break; default: swap(v, a); } return v.x; }
    case CMP: return rel_sv(o.form % 6, ca, b);
    case CMPV: return rel_v(o.form % 6, o.form / 6 % 2, ca, V(o.x));
    case CALL: { int x = o.x; return a([x](V& v) { return v.add(x); }); }
    case CCALL: return ca([](V const& v) { return v.read(); });
    case ARROW: return a->add(o.x);
    case CARROW: return ca->read();
    case DREAD: if (o.form & 1) { V v = *ca; return v.x; } else { V v = *a; return v.x; }
    case DWRITE: *a = V(o.x); return 0;
    case SYNC: { auto p = a.synchronize(); auto q = boost::move(p); if (o.form & 1) return q->add(o.x); int r = (*q).read(); *q = V(r + o.x); return r; }
    case CSYNC: { auto p = ca.synchronize(); return o.form & 1 ? p->read() : (*p).read(); }
    case USYNC: {
      boost::unique_lock_ptr<V, L> p = (o.form & 3) == 0 ? a.unique_synchronize() : (o.form & 3) == 1 ? a.unique_synchronize(boost::defer_lock) : (o.form & 3) == 2 ? a.defer_synchronize() : ((void)const_cast<L&>(a.mutex()).lock(), a.adopt_synchronize());
      bool d = (o.form & 3) == 1 || (o.form & 3) == 2; if (p.owns_lock() == d) fail("unique_synchronize form %d: owns_lock() is %d", o.form & 3, (int)p.owns_lock());
      if (d) p.lock(); boost::unique_lock_ptr<V, L> q = boost::move(p); if (p.owns_lock() || !q.owns_lock()) fail("moving a unique_lock_ptr does not move the ownership");
      long r = q->read(); if (o.form & 4) { *q = V((int)r + o.x); } else q->add(o.x); if (o.form & 8) q.unlock(); return r; }
    case TRYS: if (o.form & 1) { auto p = a.try_to_synchronize(); return p.owns_lock() ? (long)p->add(o.x) : NOTGOT; } else { auto p = ca.try_to_synchronize(); if (!p.owns_lock()) return NOTGOT; const_cast<V&>(*p).x += o.x; return (*p).x - o.x; }
    case SYNC2: { auto t = boost::synchronize(a, b); int x = std::get<0>(t)->read(), y = std::get<1>(t)->read(); { Ignore g; } V& va = *std::get<0>(t); V& vb = *std::get<1>(t); acc(&va); acc(&vb); va.x = y; point(); vb.x = x + o.x; return x * 1000 + y; }
    case SYNC3: { auto t = boost::synchronize(a, b, *sv[o.l]); int x = std::get<0>(t)->read(), y = std::get<1>(t)->read(), z = std::get<2>(t)->read(); V &va = *std::get<0>(t), &vb = *std::get<1>(t), &vc = *std::get<2>(t); acc(&va); acc(&vb); acc(&vc); va.x = y; point(); vb.x = z; vc.x = x + o.x; return ((long)x * 1000 + y) * 1000 + z; }
    case CCOPY: { SV t(ca); return t.value().x; }
    case CMOVE: { SV t(boost::move(a)); return t.value().x; }
    case SAVE: { Str s = {0, 0, 0}; if (o.form & 1) ca.save(s); else s << ca; return s.out; }
    case LOAD: { Str s = {0, o.x, 0}; if (o.form & 1) a.load(s); else s >> a; return 0; }
  }
  return 0;
}
template <class M> static void values() {
  typedef TM<M> L; typedef boost::synchronized_value<V, L> SV; check_leaks(true);
  SV* sv[3]; State st; int nt = range(1, 3), per = nt == 1 ? 6 : nt == 2 ? 4 : 3; Priv<std::vector<Op> > h;
  { Ignore g; h->clear(); memset(g_lthrow, 0, sizeof g_lthrow); memset(g_vthrow, 0, sizeof g_vthrow); g_nreg = 0; }
  for (int i = 0; i < 3; i++) { st.v[i] = range(1, 3); if (flip()) sv[i] = new SV(V(st.v[i])); else { V v(st.v[i]); sv[i] = new SV(v); } }
  for (int i = 0; i < 3; i++) { Ignore g; g_reg[i].v = &sv[i]->value(); g_reg[i].m = &sv[i]->mutex(); } g_nreg = 3;
  bool faults = chance(1, 3), pairs = chance(1, 3); nontrivial(nt > 1);
  Threads th;
  std::vector<std::vector<Op> > prog(nt); std::vector<std::vector<int> > arm(nt);
  for (int t = 0; t < nt; t++) for (int n = range(1, per); n > 0; n--) {
    static const int two[] = {ASSIGN, SWAP, CMP, SYNC2, SYNC3};
    Op o; o.tid = t; o.k = pairs && !chance(1, 4) ? two[pick(5)] : (int)pick(NK); o.i = pick(3); o.j = pick(3); o.l = 3 - o.i - o.j; o.x = range(1, 4); o.form = pick(16); o.r = 0;
    if (o.k == SYNC2 || o.k == SYNC3) { if (o.i == o.j) o.j = (o.i + 1) % 3; o.l = 3 - o.i - o.j; }
    int ar = faults && flip() ? (int)pick(5) : 0; Ignore g; prog[t].push_back(o); arm[t].push_back(ar); }
  for (int t = 0; t < nt; t++) for (size_t n = 0; n < prog[t].size(); n++) note("thread %d: %s i=%d j=%d x=%d form=%d%s", t, KN[prog[t][n].k], prog[t][n].i, prog[t][n].j, prog[t][n].x, prog[t][n].form, arm[t][n] ? " (fault armed)" : "");
  for (int t = 0; t < nt; t++) th.add([&, t] {
    for (size_t n = 0; n < prog[t].size(); n++) {
      Op o; { Ignore g; o = prog[t][n]; int f = fid() & 63, a = arm[t][n]; g_vthrow[f] = a > 2 ? a - 2 : 0; g_lthrow[f] = a == 1 || a == 2 ? a : 0; if (o.k == TRYS) g_lthrow[f] = 0; if (o.k == TRYS && !(o.form & 1)) g_vthrow[f] = 0; o.s = next_stamp(); }
      try { o.r = run_op<SV, L>(sv, o); } catch (ValThrow&) { o.r = VTHROW; } catch (LockThrow&) { o.r = LTHROW; }
      { Ignore g; int f = fid() & 63; g_vthrow[f] = g_lthrow[f] = 0; o.e = next_stamp();
        for (int i = 0; i < 3; i++) if (g_reg[i].m->owner == fid()) fail("%s left the mutex of value %d locked", KN[o.k], i);
        // a throwing temporary (copy made after the effect) leaves the effect undecided: results that are copied out
        h->push_back(o); }
    } });
  th.join();
  if (nt == 1) { Ignore g; for (auto& o : *h) if (o.r == NOTGOT) fail("try_to_synchronize fails although nobody holds the mutex"); }
  { Op o; o.tid = -1; o.j = o.l = 0; o.x = 0; o.form = 0; for (int i = 0; i < 3; i++) { o.k = GET; o.i = i; o.s = next_stamp(); o.r = sv[i]->get().x; o.e = next_stamp(); Ignore g; h->push_back(o); } }
  { Ignore g; Spec sp; Lin<Spec, State, Op> lin(sp, *h); bool ok = lin.check(st); if (lin.nodes > 400000) label("lin gave up");
    if (!ok) { for (auto& o : *h) note("  [%d,%d] T%d %s i=%d j=%d l=%d x=%d form=%d -> %ld", (int)o.s, (int)o.e, o.tid, KN[o.k], o.i, o.j, o.l, o.x, o.form, o.r); fail("the results are not explained by any order of the operations as atomic steps"); } }
  { Ignore g; g_nreg = 0; prog.clear(); arm.clear(); }
  for (int i = 0; i < 3; i++) delete sv[i];
  { Ignore g; std::vector<std::vector<Op> >().swap(prog); std::vector<std::vector<int> >().swap(arm); std::vector<Op>().swap(*h); }
}
SCENARIO(values_mutex, 4) { values<boost::mutex>(); }
SCENARIO(values_recursive, 1) { values<boost::recursive_mutex>(); }
SCENARIO(values_timed, 1) { values<boost::timed_mutex>(); }

// ---- externally_locked: sequential model over a history
template <class F> static int lk_error(F f) { try { f(); return 0; } catch (boost::lock_error&) { return 1; } }
SCENARIO(external, 2) {
  typedef boost::mutex M; typedef boost::externally_locked<int, M> EL; typedef boost::externally_locked<int&, M> ER; typedef boost::strict_lock<M> SL; typedef boost::nested_strict_lock<boost::unique_lock<M> > NL;
  check_leaks(true); nontrivial(); M* m[3]; int obj[3]; EL* e[2]; ER* r[2]; int em[2], ev[2], rm[2], ro[2], ov[3];
  for (int i = 0; i < 3; i++) { m[i] = new M; obj[i] = ov[i] = 10 + i; }
  for (int i = 0; i < 2; i++) { em[i] = pick(3); ev[i] = range(1, 9); int f = pick(3); if (f == 0) e[i] = new EL(*m[em[i]], ev[i]); else if (f == 1) { int t = ev[i]; e[i] = new EL(*m[em[i]], boost::move(t)); } else { ev[i] = 0; e[i] = new EL(*m[em[i]]); } rm[i] = pick(3); ro[i] = pick(3); r[i] = new ER(obj[ro[i]], *m[rm[i]]); }
  for (int n = range(1, 10); n > 0; n--) {
    int w = pick(2), k = pick(8); note("step %d: op %d on %d", n, k, w);
    switch (k) {
      case 0: case 1: case 2: {   // access with a lock of some mutex
        int l = pick(3), nv = range(20, 90), kind = pick(2); bool byref = k == 1; int* got = 0; const int* cgot = 0; int want = byref ? rm[w] : em[w];
        int er = lk_error([&] {
          if (kind == 0) { SL lk(*m[l]); if (byref) { got = &r[w]->get(lk); cgot = &static_cast<const ER&>(*r[w]).get(lk); } else { got = &e[w]->get(lk); cgot = &static_cast<const EL&>(*e[w]).get(lk); } if (got) *got = nv; }
          else { boost::unique_lock<M> ul(*m[l]); { NL lk(ul); if (byref) { got = &r[w]->get(lk); cgot = &static_cast<const ER&>(*r[w]).get(lk); } else { got = &e[w]->get(lk); cgot = &static_cast<const EL&>(*e[w]).get(lk); } if (got) *got = nv; } if (!ul.owns_lock()) fail("nested_strict_lock did not give the lock back"); } });
        if (er != (l != want)) fail("get() with a lock of mutex %d (associated: %d) %s", l, want, er ? "raises lock_error" : "gives access");
        if (!er) { if (got != cgot) fail("const and non-const get() differ"); if (byref) { if (got != &obj[ro[w]]) fail("get() does not give the cloaked object"); ov[ro[w]] = nv; } else ev[w] = nv; }
        break; }
      case 3: { if (e[w]->mutex() != m[em[w]] || r[w]->mutex() != m[rm[w]]) fail("mutex() is not the associated mutex"); break; }
      case 4: if (flip()) e[0]->swap(*e[1]); else swap(*e[0], *e[1]); std::swap(em[0], em[1]); std::swap(ev[0], ev[1]); break;
      case 5: if (flip()) r[0]->swap(*r[1]); else swap(*r[0], *r[1]); std::swap(rm[0], rm[1]); std::swap(ro[0], ro[1]); break;
      case 6: { int o = pick(2), f = pick(4); if (f == 0) *e[w] = *e[o]; else if (f == 1) *e[w] = boost::move(*e[o]); else if (f == 2) { EL t(*e[o]); *e[w] = t; } else { EL t(boost::move(*e[o])); *e[w] = boost::move(t); } ev[w] = ev[o]; em[w] = em[o]; break; }
      default: { int o = pick(2), f = pick(4); if (f == 0) *r[w] = *r[o]; else if (f == 1) *r[w] = boost::move(*r[o]); else if (f == 2) { ER t(*r[o]); *r[w] = t; } else { ER t(boost::move(*r[o])); *r[w] = boost::move(t); } rm[w] = rm[o]; ro[w] = ro[o]; break; }
    }
    // the lockable interface of the object locks exactly the associated mutex
    if (flip()) { bool ref = flip(); int l = ref ? rm[w] : em[w]; bool t = flip(), ok = true; if (ref) { if (t) ok = r[w]->try_lock(); else r[w]->lock(); } else { if (t) ok = e[w]->try_lock(); else e[w]->lock(); }
      if (!ok) fail("try_lock() fails on a free object"); bool held[3]; Threads th; th.add([&] { for (int i = 0; i < 3; i++) { held[i] = !m[i]->try_lock(); if (!held[i]) m[i]->unlock(); } }); th.join();
      for (int i = 0; i < 3; i++) if (held[i] != (i == l)) fail("locking the object: mutex %d is%s locked (associated: %d)", i, held[i] ? "" : " not", l); if (ref) r[w]->unlock(); else e[w]->unlock(); }
  }
  for (int i = 0; i < 2; i++) { SL lk(*m[em[i]]); if (e[i]->get(lk) != ev[i]) fail("object %d holds %d, the history says %d", i, e[i]->get(lk), ev[i]); }
  for (int i = 0; i < 2; i++) { SL lk(*m[rm[i]]); if (&r[i]->get(lk) != &obj[ro[i]]) fail("reference %d refers to the wrong object", i); }
  for (int i = 0; i < 3; i++) if (obj[i] != ov[i]) fail("referenced object %d holds %d, the history says %d", i, obj[i], ov[i]);
  for (int i = 0; i < 2; i++) { delete e[i]; delete r[i]; }
  for (int i = 0; i < 3; i++) { if (!m[i]->try_lock()) fail("mutex %d is still locked", i); m[i]->unlock(); delete m[i]; }
}
// ---- streams: statements are not interleaved
struct OS { std::vector<int> log; };
static OS& operator<<(OS& s, int v) { int n = (int)s.log.size(); point(); Ignore g; if ((int)s.log.size() != n) fail("two threads write to the stream at once"); s.log.push_back(v); return s; }
static OS& operator>>(OS& s, int& v) { int n = (int)s.log.size(); point(); Ignore g; if ((int)s.log.size() != n) fail("two threads use the stream at once"); s.log.push_back(-1); v = 7; return s; }
static OS& mark(OS& s) { return s << 9999; }
static OS& operator<<(OS& s, OS& (*f)(OS&)) { return f(s); }
SCENARIO(stream, 2) {
  typedef boost::externally_locked_stream<OS, boost::recursive_mutex> S; typedef boost::stream_guard<OS, boost::recursive_mutex> G; check_leaks(true);
  OS* os; { Ignore g; os = new OS; } boost::recursive_mutex* m = new boost::recursive_mutex; S* s = new S(*os, *m); int nt = range(2, 3); nontrivial();
  int touch = 0; (void)touch; Threads th; Priv<std::vector<std::vector<std::vector<int> > > > want; { Ignore g; want->resize(nt); }
  for (int t = 0; t < nt; t++) { int n = range(1, 3); std::vector<int> forms; for (int i = 0; i < n; i++) { int f = pick(6); Ignore g; forms.push_back(f); }
    th.add([=, &want] { for (int i = 0; i < n; i++) { int b = (t + 1) * 1000 + i * 10; std::vector<int> w; int in = 0; int f; { Ignore g; f = forms[i]; }
      switch (f) {
        case 0: *s << b << b + 1 << b + 2; { Ignore g; w = {b, b + 1, b + 2}; } break;
        case 1: { G g = s->hold(); g << b; point(); g << b + 1 << b + 2; Ignore gg; w = {b, b + 1, b + 2}; break; }
        case 2: { G g(*s); G g2(boost::move(g)); *s << b + 3; g2.get() << b; g2.bypass() << b + 1; Ignore gg; w = {b + 3, b, b + 1}; break; }
        case 3: *s << b << mark << b + 1; { Ignore g; w = {b, 9999, b + 1}; } break;
        case 4: *s >> in >> in; if (in != 7) fail("operator>> did not reach the stream"); { Ignore g; w = {-1, -1}; } break;
        default: { s->lock(); boost::stream_guard<OS, boost::recursive_mutex> g(*s, boost::adopt_lock); g << b << mark; Ignore gg; w = {b, 9999}; break; } }
      Ignore g; (*want)[t].push_back(w); w.clear(); std::vector<int>().swap(w); } });
  { Ignore g; std::vector<int>().swap(forms); } }
  th.join();
  { Ignore g; size_t pos = 0; std::vector<size_t> at(nt, 0); // greedy is exact up to statements that look alike: search
    std::function<bool(size_t)> go = [&](size_t p) -> bool { if (p == os->log.size()) { for (int t = 0; t < nt; t++) if (at[t] != (*want)[t].size()) return false; return true; }
      for (int t = 0; t < nt; t++) if (at[t] < (*want)[t].size()) { auto& w = (*want)[t][at[t]]; if (p + w.size() <= os->log.size() && std::equal(w.begin(), w.end(), os->log.begin() + p)) { at[t]++; if (go(p + w.size())) return true; at[t]--; } } return false; };
    if (!go(pos)) { for (int v : os->log) note("out %d", v); fail("the output of statements on a locked stream is interleaved, lost or reordered"); } }
  if (!m->try_lock()) fail("the stream's mutex is still locked"); m->unlock(); bool freed = false; { Threads t2; t2.add([&] { freed = m->try_lock(); if (freed) m->unlock(); }); } if (!freed) fail("the stream's mutex is still locked");
  delete s; delete m; Ignore g; delete os; for (auto& a : *want) std::vector<std::vector<int> >().swap(a); std::vector<std::vector<std::vector<int> > >().swap(*want);
}
int main(int c, char** v) { return pbt_main(c, v, "two or more threads operate on the synchronized values / the stream, or a history of operations on externally_locked objects"); }
