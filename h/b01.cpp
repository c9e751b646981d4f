// B01: barrier, latch, completion_latch
#include "common.h"
#include "timeutil.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/barrier.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/completion_latch.hpp>

// ---------------------------------------------------------------- barrier
struct Bar {
  boost::barrier* b; int nt, gens; unsigned sizes[12]; int arrived[12], left[12], told[12], ran[12], completions; int slot[12][6]; int made[12]; bool dynamic, hasfn; long cdata;
};
static Bar* B;
static void completion() {
  int g; { Ignore i; g = B->completions++; if (g >= 12) fail("barrier: completion function runs too often");
    if ((unsigned)B->arrived[g] != B->sizes[g]) fail("barrier: completion function of generation %d ran after %d of %u arrivals", g, B->arrived[g], B->sizes[g]);
    if (B->left[g]) fail("barrier: completion function of generation %d ran after a thread had left", g);
    B->ran[g]++; }
  B->cdata++;
  for (int t = 0; t < B->nt; t++) if (B->made[g] & (1 << t)) if (B->slot[g][t] != g + 1) fail("barrier: arrival not visible to the completion function");
}
static void vfn() { completion(); }
static unsigned ufn() { completion(); int g; { Ignore i; g = B->completions; } return B->sizes[g]; }
struct VF { void operator()() { completion(); } };
struct UF { unsigned operator()() { return ufn(); } };
static boost::barrier* make_bar(unsigned n, int form) {
  switch (form) {
    case 1: return new boost::barrier(n, VF());
    case 2: { VF f; return new boost::barrier(n, f); }
    case 3: return new boost::barrier(n, &vfn);
    case 4: return new boost::barrier(n, (void (*)())0);
    case 5: return new boost::barrier(n, UF());
    case 6: { UF f; return new boost::barrier(n, f); }
    case 7: return new boost::barrier(n, &ufn);
    case 8: return new boost::barrier(n, (unsigned (*)())0);
    default: return new boost::barrier(n);
  }
}
static bool form_dynamic(int f) { return f >= 5 && f <= 7; }
static bool form_fn(int f) { return f != 0 && f != 4 && f != 8; }
SCENARIO(barrier_rounds, 3) {
  check_leaks(true); allow_spurious(pick(4)); allow_early_time(chance(1, 4));
  Priv<Bar> bp; B = bp.p; memset((void*)B, 0, sizeof *B);
  int form = pick(9); int nt = range(1, 5); B->nt = nt; B->dynamic = form_dynamic(form); B->hasfn = form_fn(form);
  int rounds[6]; int gens = range(1, 5); B->gens = gens;
  for (int t = 0; t < nt; t++) rounds[t] = B->dynamic ? range(1, gens) : gens;
  if (B->dynamic) rounds[0] = gens;
  for (int g = 0; g < 12; g++) { for (int t = 0; t < nt; t++) if (rounds[t] > g || g >= gens) { B->sizes[g]++; if (g < gens) B->made[g] |= 1 << t; } }
  note("barrier(%u), constructor form %d, %d threads, %d rounds", B->sizes[0], form, nt, gens);
  B->b = make_bar(B->sizes[0], form);
  {
    Threads th;
    for (int t = 0; t < nt; t++) { int r = rounds[t]; int how = pick(4), work = pick(4) == 3 ? 1000000 : 0; th.add([=] {
      for (int g = 0; g < r; g++) {
        if (work) delay(work);
        B->slot[g][t] = g + 1;
        { Ignore i; B->arrived[g]++; }
        bool told = false, cd = how == 3;
        if (cd) B->b->count_down_and_wait(); else told = B->b->wait();
        {
          Ignore i;
          if ((unsigned)B->arrived[g] < B->sizes[g]) fail("barrier: thread %d left generation %d after %d of %u arrivals", t, g, B->arrived[g], B->sizes[g]);
          if (B->hasfn && !B->ran[g]) fail("barrier: thread %d left generation %d before the completion function ran", t, g);
          B->left[g]++; if (told) B->told[g]++; if (cd) B->told[g] += 100;
        }
        for (int u = 0; u < B->nt; u++) if (B->made[g] & (1 << u)) if (B->slot[g][u] != g + 1) fail("barrier: arrival of thread %d not visible after the barrier", u);
        if (B->hasfn && B->cdata < g + 1) fail("barrier: effects of the completion function not visible");
        if (B->hasfn) { Ignore i; if (B->completions < g + 1) fail("barrier: completion ran %d times before generation %d was left", B->completions, g); }
      }
    }); }
    th.join();
  }
  for (int g = 0; g < gens; g++) {
    int cds = B->told[g] / 100, tl = B->told[g] % 100;
    SIM_CHECK(tl <= 1 && (cds || tl == 1), "barrier: %d threads of generation %d were told they completed it", tl, g);
    if (B->hasfn) SIM_CHECK(B->ran[g] == 1, "barrier: completion function ran %d times for generation %d", B->ran[g], g);
  }
  nontrivial(nt > 1); label(B->dynamic ? "dynamic-count" : B->hasfn ? "completion" : "plain");
  delete B->b;
}
// exact model: arrivals one at a time, checked at quiescence
static unsigned g_next[64]; static int g_calls;
static unsigned next_size() { Ignore i; return g_next[g_calls++ & 63]; }
SCENARIO(barrier_model, 2) {
  check_leaks(true); allow_spurious(pick(4));
  int nt = range(2, 6); bool dyn = flip(); { Ignore i; g_calls = 0; for (auto& x : g_next) x = 1; }
  unsigned n0 = range(1, nt);
  for (int i = 0; i < 16; i++) g_next[i] = range(1, nt);
  boost::barrier* b = dyn ? new boost::barrier(n0, &next_size) : new boost::barrier(n0);
  note("barrier(%u)%s", n0, dyn ? " with changing count" : "");
  struct S { bool waiting, done, res; }; Priv<std::vector<S> > sp; { Ignore i; sp->assign(nt, S()); } std::vector<S>& s = *sp;
  Workers wk(nt); unsigned left = n0; int gens = 0, ops = range(2, 20), calls = 0, multi = 0;
  for (int k = 0; k < ops; k++) {
    int t = pick(nt); if (s[t].waiting) continue;
    S* x = &s[t]; x->done = false; x->waiting = true; note(" T%d waits", t);
    wk.post(t, [=] { bool r = b->wait(); Ignore i; x->res = r; x->done = true; });
    wait_quiescent();
    if (--left == 0) {
      int told = 0; gens++;
      for (int u = 0; u < nt; u++) if (s[u].waiting) { if (!s[u].done) fail("barrier: thread %d stays blocked although the last thread of its generation arrived", u); s[u].waiting = false; told += s[u].res; if (u != t) multi++; }
      if (told != 1) fail("barrier: %d threads told that they completed the generation", told);
      if (dyn) { if (g_calls != ++calls) fail("barrier: completion function ran %d times for %d generations", g_calls, calls); left = g_next[(calls - 1) & 63]; } else left = n0;
    } else for (int u = 0; u < nt; u++) if (s[u].waiting && s[u].done) fail("barrier: thread %d left although %u more threads have to arrive", u, left);
  }
  while (true) {   // let everybody out
    bool any = false; int idle = -1; for (int u = 0; u < nt; u++) { if (s[u].waiting) any = true; else idle = u; }
    if (!any) break;
    if (idle < 0) { fail("barrier: all %d threads wait in a barrier that lets %u more arrive", nt, left); }
    S* x = &s[idle]; x->done = false; x->waiting = true;
    wk.post(idle, [=] { bool r = b->wait(); Ignore i; x->res = r; x->done = true; });
    wait_quiescent();
    if (--left == 0) { for (auto& y : s) { if (y.waiting && !y.done) fail("barrier: a thread stays blocked after the last arrival"); y.waiting = false; } break; }
  }
  wk.finish(); nontrivial(multi > 0); delete b;
}
SCENARIO(barrier_zero, 1) {
  int f = pick(9); Bar* b0 = B; Priv<Bar> bp; B = bp.p; bool threw = false; note("barrier(0), form %d", f);
  try { delete make_bar(0, f); } catch (boost::thread_exception& e) { threw = e.native_error() == boost::system::errc::invalid_argument; }
  SIM_CHECK(threw, "barrier: a count of zero is not refused with thread_exception(invalid_argument)"); B = b0; nontrivial();
}
// ---------------------------------------------------------------- latch
struct Lat { boost::latch* l; int n, begun, done; int data[8]; int nslots; };
enum { W_WAIT, W_TRY, W_FOR, W_STEADY, W_SYSTEM, W_MS, W_N };
static const char* const WN[] = {"wait", "try_wait", "wait_for", "wait_until(steady)", "wait_until(system)", "wait_until(ms_clock)"};
static bool latch_wait(boost::latch& l, int form, int64_t d, int& clk, int64_t& dl) {
  clk = 0; dl = mono_now() + d;
  switch (form) {
    case W_WAIT: l.wait(); return true; case W_TRY: return l.try_wait();
    case W_FOR: return l.wait_for(bc::nanoseconds(d)) == boost::cv_status::no_timeout;
    case W_STEADY: return l.wait_until(steady_tp(dl)) == boost::cv_status::no_timeout;
    case W_SYSTEM: clk = 1; dl = real_now() + d; return l.wait_until(system_tp(dl)) == boost::cv_status::no_timeout;
    default: dl = (mono_now() + d) / 1000000 * 1000000; return l.wait_until(ms_clock::time_point(bc::milliseconds(dl / 1000000))) == boost::cv_status::no_timeout;
  }
}
static const int64_t DUR[] = {50000000, 0, 1000, -1000000, 2000000, 5000000000ll};
SCENARIO(latch_concurrent, 4) {
  check_leaks(true); allow_spurious(pick(4)); allow_early_time(chance(1, 3));
  Priv<Lat> lp; Lat* L = lp.p; memset((void*)L, 0, sizeof *L);
  L->l = 0; int rounds = range(1, 2), blocked_waits = 0, timeouts = 0, total = 0; int *bwp = &blocked_waits, *top = &timeouts;
  for (int rd = 0; rd < rounds; rd++) {
    int nd = range(1, 4), nw = range(0, 3); int extra = pick(3) == 2 ? 1 : 0;  // extra: a try_count_down beyond zero
    L->n = nd; L->begun = L->done = 0; for (auto& x : L->data) x = 0;
    if (!L->l) L->l = new boost::latch(nd); else L->l->reset(nd);
    note("%s(%d), %d waiters%s", rd ? "reset" : "latch", nd, nw, extra ? ", one try_count_down too many" : "");
    {
      Threads th;
      for (int i = 0; i < nd; i++) { int how = extra ? 2 : pick(5); int work = pick(3) == 2 ? 3000000 : 0; note(" D%d: %s", i, how == 0 ? "count_down" : how == 1 ? "signal" : how == 2 ? "try_count_down" : how == 3 ? "count_down_and_wait" : "sync"); th.add([=] {
        if (work) delay(work);
        L->data[i] = 1 + i; bool r = false, after;
        { Ignore g; L->begun++; }
        switch (how) { case 0: L->l->count_down(); break; case 1: L->l->signal(); break; case 2: r = L->l->try_count_down(); break; case 3: L->l->count_down_and_wait(); break; default: L->l->sync(); }
        { Ignore g; L->done++; after = L->begun >= L->n; }
        if ((how >= 3 || r) && !after) fail("latch: %s although only %d of %d threads counted down", r ? "try_count_down reports zero" : "count_down_and_wait returned", L->begun, L->n);
        if (how >= 3) for (int k = 0; k < nd; k++) if (L->data[k] != 1 + k) fail("latch: arrival not visible after count_down_and_wait");
      }); }
      if (extra) th.add([=] { bool r = false; { Ignore g; L->begun++; } int before; { Ignore g; before = L->done; } r = L->l->try_count_down(); Ignore g; if (!r && before >= nd) fail("latch: try_count_down on a latch at zero reports that it is not zero"); L->done++; });
      for (int i = 0; i < nw; i++) { int form = pick(W_N); int64_t d = DUR[pick(6)]; note(" W%d: %s (%lld ns)", i, WN[form], (long long)d); th.add([=] {
        int clk, was, beg; int64_t dl; { Ignore g; was = L->done; }
        bool ok = latch_wait(*L->l, form, d, clk, dl);
        { Ignore g; beg = L->begun; if (was < nd) ++*bwp; if (!ok) ++*top; }
        if (ok) {
          if (beg < nd) fail("latch: %s reports zero although only %d of %d threads counted down", WN[form], beg, nd);
          if (!extra) for (int k = 0; k < nd; k++) if (L->data[k] != 1 + k) fail("latch: arrival not visible after %s", WN[form]);
        } else {
          if (was >= nd) fail("latch: %s does not see that the count is zero", WN[form]);
          if (form != W_TRY && now_on(clk) < dl) fail("latch: %s timed out %lld ns early", WN[form], (long long)(dl - now_on(clk)));
        }
      }); }
      th.join();
    }
    total += nw;
    SIM_CHECK(L->l->try_wait(), "latch: not at zero after all threads counted down");
    L->l->wait();
  }
  nontrivial(blocked_waits > 0); if (timeouts) label("timeout");
  delete L->l;
}
SCENARIO(latch_model, 3) {
  check_leaks(true); allow_spurious(pick(4));
  int n = range(0, 3), nt = range(2, 5); boost::latch* l = new boost::latch(n); note("latch(%d)", n);
  struct S { bool waiting, done, ok; int clk; int64_t dl; int form; int64_t at[2]; }; Priv<std::vector<S> > sp; { Ignore i; sp->assign(nt, S()); } std::vector<S>& s = *sp;
  Workers wk(nt); int released = 0, gave = 0;
  int ops = range(2, 14);
  for (int k = 0; k < ops; k++) {
    unsigned c = pick(6); bool zero_now = false; const char* what = "";
    if (c == 0 && n > 0) { l->count_down(); if (--n == 0) zero_now = true; what = "count_down"; }
    else if (c == 1) { bool r = l->try_count_down(); if (n > 0 && --n == 0) zero_now = true; if (r != (n == 0)) fail("latch: try_count_down returned %d at count %d", r, n); what = "try_count_down"; }
    else if (c == 2) { if (l->try_wait() != (n == 0)) fail("latch: try_wait wrong at count %d", n); what = "try_wait"; }
    else if (c == 3) { bool any = false, cdwait = false; for (auto& x : s) if (x.waiting) { any = true; cdwait |= x.form == 6; } if (!cdwait) { n = range(any, 3); l->reset(n); note(" reset(%d)", n); } if (!any) continue; what = "reset"; }
    else {
      int t = pick(nt); if (s[t].waiting) continue;
      S* x = &s[t]; x->waiting = true; x->done = false; x->form = pick(7); int64_t d = pick(2) ? 3000000000ll : 40000000; if (x->form == W_TRY) x->form = W_WAIT; bool cdw = x->form == 6 && n > 0; if (x->form == 6 && !cdw) x->form = W_WAIT;
      note(" T%d: %s", t, cdw ? "count_down_and_wait" : WN[x->form]);
      x->dl = INT64_MAX; int form = x->form;
      if (!cdw && form != W_WAIT) { x->clk = form == W_SYSTEM; x->dl = now_on(x->clk) + d; }
      wk.post(t, [=] { int clk = 0; int64_t dl = INT64_MAX; bool ok = true; if (cdw) l->count_down_and_wait(); else ok = latch_wait(*l, form, d, clk, dl); Ignore i; x->ok = ok; x->clk = clk; if (form != W_WAIT && form != 6) x->dl = dl; x->at[0] = mono_now(); x->at[1] = real_now(); x->done = true; });
      wait_quiescent();
      if (cdw && --n == 0) zero_now = true;
      if (!cdw && n == 0 && !x->done) fail("latch: %s blocks at zero", WN[form]);
      if (!cdw && n == 0) { if (!x->ok) fail("latch: %s reports a timeout at zero", WN[form]); x->waiting = false; }
      what = "waiting";
    }
    if (zero_now && chance(1, 3)) {       // used again before the released waiters got to run
      bool cdwait = false; for (auto& x : s) if (x.waiting) cdwait |= x.form == 6;
      if (!cdwait) { n = range(1, 3); l->reset(n); note(" immediate reset(%d)", n); }
    }
    if (pick(5) == 4) { int64_t d = pick(2) ? 60000000 : 4000000000ll; note(" %lld ns pass", (long long)d); delay(d); }
    wait_quiescent();
    for (int u = 0; u < nt; u++) if (s[u].waiting) {
      if (zero_now && !s[u].done) fail("latch: thread %d stays blocked although the count reached zero", u);
      if (s[u].done) {
        if (s[u].ok && !zero_now) fail("latch: thread %d was released at count %d", u, n);
        if (!s[u].ok && s[u].at[s[u].clk] < s[u].dl) fail("latch: thread %d timed out early", u);
        if (s[u].ok) released++; else gave++;
        s[u].waiting = false;
      } else if (s[u].form != W_WAIT && s[u].form != 6 && now_on(s[u].clk) > s[u].dl + 200000000) fail("latch: thread %d still blocked after its deadline", u);
    }
    (void)what;
  }
  while (n > 0) { l->count_down(); n--; }
  wait_quiescent();
  for (int u = 0; u < nt; u++) if (s[u].waiting && !s[u].done) fail("latch: thread %d stays blocked although the count reached zero", u);
  wk.finish(); nontrivial(released > 0); if (gave) label("timeout"); delete l;
}
// ---------------------------------------------------------------- completion_latch
struct CL { int done, begun, ran, n, left; int data[6]; long cd; }; static CL* C;
static void cfn() { { Ignore i; C->ran++; if (C->begun < C->n) fail("completion_latch: completion function ran after %d of %d count-downs", C->begun, C->n); } C->cd++; }
static void cfn2() { cfn(); { Ignore i; C->ran += 100; } }
SCENARIO(completion_latch_rounds, 2) {
  check_leaks(true); allow_spurious(pick(4));
  Priv<CL> cp; C = cp.p; memset((void*)C, 0, sizeof *C);
  int rounds = range(1, 3); boost::completion_latch* l = 0; bool second = false; int form = pick(2);
  for (int rd = 0; rd < rounds; rd++) {
    int nd = range(1, 4), nw = range(1, 3); C->n = nd; C->begun = C->done = C->ran = C->left = 0; for (auto& x : C->data) x = 0;
    if (!l) l = form ? new boost::completion_latch(nd, &cfn) : new boost::completion_latch(nd); else l->reset(nd);
    if (rd == 0 && !form) l->then(&cfn);
    if (rd && flip()) { l->then(&cfn2); second = true; }
    note("round %d: completion_latch(%d), %d waiters", rd, nd, nw);
    Threads th; 
    for (int i = 0; i < nw; i++) { int wf = pick(3); th.add([=] {
      bool ok = true; int64_t dl = mono_now() + 3000000000ll;
      if (wf == 0) l->wait(); else if (wf == 1) ok = l->wait_for(bc::seconds(20)) == boost::cv_status::no_timeout; else ok = l->wait_until(steady_tp(dl + 17000000000ll)) == boost::cv_status::no_timeout;
      { Ignore g; if (C->begun < C->n) fail("completion_latch: a waiter left after %d of %d count-downs", C->begun, C->n); if (!ok) fail("completion_latch: waiter timed out"); }
      for (int k = 0; k < nd; k++) if (C->data[k] != k + 1) fail("completion_latch: arrival not visible to a waiter");
    }); }
    wait_quiescent();
    for (int i = 0; i < nd; i++) { bool sg = flip(); th.add([=] { C->data[i] = i + 1; { Ignore g; C->begun++; } if (sg) l->signal(); else l->count_down(); { Ignore g; C->done++; } }); }
    th.join();
    SIM_CHECK(C->ran % 100 == 1 && (C->ran >= 100) == second, "completion_latch: completion function ran %d times", C->ran % 100);
    SIM_CHECK(C->cd == rd + 1, "completion_latch: effects of the completion function lost");
  }
  nontrivial(); delete l;
}
int main(int c, char** v) { return pbt_main(c, v, "barriers: at least two participants released together; latches: at least one waiter present before zero; completion_latch: every case"); }
