// O01: call_once
#include "common.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/once.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/condition_variable.hpp>

struct MyEx { int id; };
struct FlagState {      // per flag model
  int attempts, throwing, active, completed, done_stamp; long data; int plan[6]; int who[8];   // plan: 0 succeed, 1 throw MyEx, 2 runtime_error, 3 interrupted, 4 int
  int thrown_to[8];
};
struct Flag { boost::once_flag f; FlagState s; Flag* inner; int inner_thread_op; int work; bool hold; };
struct MoveOnly { int v; explicit MoveOnly(int x) : v(x) {} MoveOnly(MoveOnly&& o) : v(o.v) { o.v = -1; } MoveOnly(const MoveOnly&) = delete; };

static Counter* g_gate; static int g_at[8], g_in[8];     // per thread: flag it calls, whether it is inside the function
static std::vector<Flag*>* FL; static const char* const PN[] = {"succeeds", "throws MyEx", "throws runtime_error", "is interrupted", "throws int"};
static int call(int fi, int form);
static void body(int fi, int token) {
  Flag& F = *(*FL)[fi]; FlagState& s = F.s; int at;
  {
    Ignore i;
    if (token != 1000 + fi) fail("flag %d: function received argument %d instead of %d", fi, token, 1000 + fi);
    if (s.completed) fail("flag %d: function run again after it had completed", fi);
    if (s.active) fail("flag %d: two invocations of the function overlap", fi);
    s.active = 1; at = s.attempts++;
  }
  { Ignore i; g_in[fid() & 7] = fi; }
  s.data++; point();
  if (F.hold && g_gate) g_gate->wait(1);
  if (F.work) delay(F.work);
  if (F.inner_thread_op >= 0 && fi + 1 < (int)FL->size()) call(fi + 1, F.inner_thread_op);
  point(); s.data++; { Ignore i; g_in[fid() & 7] = -1; }
  int p; { Ignore i; p = at < 6 ? s.plan[at] : 0; s.active = 0; if (p) { s.throwing++; s.thrown_to[fid() & 7]++; } else s.completed = 1; }
  switch (p) { case 1: throw MyEx{fi * 100 + at}; case 2: throw std::runtime_error("x"); case 3: throw boost::thread_interrupted(); case 4: throw (int)(fi * 100 + at); }
}
struct Fn0 { int fi; void operator()() const { body(fi, 1000 + fi); } };
struct Fn1 { int fi; int operator()(int t) const { body(fi, t); return 7; } };
struct Fn1M { int fi; void operator()(MoveOnly m) const { body(fi, m.v); } };
struct FnMO { std::unique_ptr<int> p; FnMO(int f) : p(new int(f)) {} FnMO(FnMO&& o) : p(std::move(o.p)) {} void operator()() { body(*p, 1000 + *p); } };
struct Fn2 { int fi; void operator()(int& t, const std::string& s) const { if (s != "arg") fail("call_once: string argument changed"); body(fi, t); t = 5; } };
struct Fn3 { int fi; void operator()(int a, int b, int c) const { if (b != a + 1 || c != a + 2) fail("call_once: arguments %d %d %d permuted or changed", a, b, c); body(fi, a); } };
struct Obj { int fi; void mf(int t) { body(fi, t); } };
static int g_fi; static void plain0() { body(0, 1000); }
enum { NFORMS = 9 };
// returns 1 if an exception came out
static int call1(int fi, int form);
static int call(int fi, int form) { int was; { Ignore i; was = g_at[fid() & 7]; g_at[fid() & 7] = fi; } int r = call1(fi, form); Ignore i; g_at[fid() & 7] = was; if (was >= 0) g_in[fid() & 7] = was; return r; }
static int call1(int fi, int form) {
  Flag& F = *(*FL)[fi]; int before, tid = fid() & 7, mine; { Ignore i; before = F.s.thrown_to[tid]; }
  int got = 0; int ref = 1000 + fi;
  try {
    switch (form) {
      case 0: boost::call_once(F.f, Fn0{fi}); break;
      case 1: boost::call_once(F.f, Fn1{fi}, 1000 + fi); break;
      case 2: boost::call_once(F.f, Fn1M{fi}, MoveOnly(1000 + fi)); break;
      case 3: boost::call_once(F.f, FnMO(fi)); break;
      case 4: boost::call_once(F.f, Fn2{fi}, boost::ref(ref), "arg"); break;
      case 5: { Obj o{fi}; boost::call_once(F.f, &Obj::mf, &o, 1000 + fi); } break;
      case 6: if (fi == 0) boost::call_once(&plain0, F.f); else boost::call_once(Fn0{fi}, F.f); break;
      case 7: boost::call_once(F.f, Fn3{fi}, 1000 + fi, 1001 + fi, 1002 + fi); break;
      default: { int a = 1000 + fi; Fn1 f = {fi}; boost::call_once(F.f, f, a); if (a != 1000 + fi) fail("call_once: lvalue argument changed"); } break;
    }
  } catch (MyEx& e) { got = 1; if (e.id / 100 != fi) fail("flag %d: exception of flag %d came out", fi, e.id / 100); }
  catch (int e) { got = 4; if (e / 100 != fi) fail("flag %d: exception of flag %d came out", fi, e / 100); }
  catch (boost::thread_interrupted&) { got = 3; }
  catch (std::runtime_error& e) { got = 2; if (std::string(e.what()) != "x") fail("flag %d: exception text changed", fi); }
  { Ignore i; mine = F.s.thrown_to[tid] - before;
    if (got && mine != 1) fail("flag %d: call_once threw in a thread whose function invocation did not throw", fi);
    if (!got && mine) fail("flag %d: the exception thrown by the function did not reach the caller", fi);
    if (!got && !F.s.completed) fail("flag %d: call_once returned although no invocation has completed", fi); }
  if (!got) {
    long want; { Ignore i; want = 2L * F.s.attempts; }
    if (F.s.data != want) fail("flag %d: effects of the function not visible after call_once", fi);      // race detector checks visibility
  }
  return got;
}
SCENARIO(concurrent, 1) {
  allow_spurious(pick(3)); allow_early_time(chance(1, 3)); check_leaks(true);
  int nf = range(1, 3), nt = range(1, 5);
  Priv<std::vector<Flag*> > fl; FL = fl.p;
  for (int i = 0; i < nf; i++) {
    static const boost::once_flag init = BOOST_ONCE_INIT;
    Flag* f = new Flag(); memset((void*)&f->s, 0, sizeof f->s); memcpy((void*)&f->f, (const void*)&init, sizeof init);
#ifdef BOOST_THREAD_DONT_USE_ATOMIC
    ignore_range((void*)&f->f, sizeof f->f);      // pseudo-atomic by design
#endif
    f->inner_thread_op = pick(4) == 3 ? (int)pick(NFORMS) : -1; f->work = pick(5) == 4 ? 5000000 : 0; f->hold = chance(1, 4);
    int nthrow = pick(4); for (int k = 0; k < nthrow; k++) f->s.plan[k] = 1 + pick(4);
    if (pick(4) == 3) for (int k = 0; k < nthrow; k++) if (pick(2)) f->s.plan[k] = 0;
    note(" flag %d:%s%s", i, f->hold ? " (held up)" : "", f->inner_thread_op >= 0 ? " (calls the next flag)" : ""); for (int k = 0; k < nthrow; k++) note("  attempt %d %s", k, PN[f->s.plan[k]]);
    Ignore ig; FL->push_back(f);
  }
  // An inner call may throw out of an outer function: keep that in the model by only nesting onto flags whose plan never throws.
  for (int i = 0; i + 1 < nf; i++) if ((*FL)[i]->inner_thread_op >= 0) { bool th = false; for (int k = 0; k < 6; k++) if ((*FL)[i + 1]->s.plan[k]) th = true; if (th) (*FL)[i]->inner_thread_op = -1; }
  int throws = 0, waited = 0; int *pt_ = &throws; Counter gate; g_gate = &gate; for (int k = 0; k < 8; k++) g_at[k] = g_in[k] = -1;
  {
    Threads th;
    for (int t = 0; t < nt; t++) {
      int n = range(1, 4); std::vector<std::pair<int, int> > ops; for (int k = 0; k < n; k++) ops.push_back({(int)pick(nf), (int)pick(NFORMS)});
      for (auto& o : ops) note(" T%d: call_once(flag %d, form %d)", t, o.first, o.second);
      th.add([=] { for (auto& o : ops) { int g = call(o.first, o.second); Ignore i; if (g) ++*pt_; } });
    }
    wait_quiescent();
    { Ignore i; for (int t = 0; t < 8; t++) if (g_at[t] >= 0 && g_in[t] != g_at[t]) { waited = 1; if (!(*FL)[g_at[t]]->s.active) fail("thread %d stays blocked in call_once(flag %d) although no invocation of its function is in progress (%s)", t, g_at[t], (*FL)[g_at[t]]->s.completed ? "it has completed" : "it has not completed"); } }
    gate.add(1); th.join();
  }
  g_gate = 0; if (waited) label("waited");
  int att = 0;
  for (int i = 0; i < nf; i++) {
    FlagState& s = (*FL)[i]->s; att += s.attempts;
    // a later call either finds it done or succeeds eventually
    for (int k = 0; k < 8; k++) if (!call(i, pick(NFORMS))) break;
    SIM_CHECK(s.completed, "flag %d: never completed", i);
    int a = s.attempts; call(i, 0); SIM_CHECK(s.attempts == a, "flag %d: run again", i);
  }
  nontrivial(nt > 1 && att > 0); if (throws) label("threw");
  for (auto f : *FL) delete f;
}
int main(int c, char** v) { return pbt_main(c, v, "at least two threads called call_once and a function ran"); }
