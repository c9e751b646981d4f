// R01: task_region returns when every task has finished, and reports every exception exactly once
#include "common.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/experimental/task_region.hpp>
#include <boost/thread/experimental/exception_list.hpp>
#if defined BOOST_THREAD_PROVIDES_EXECUTORS
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/executor_adaptor.hpp>
using namespace boost::executors;
#endif
namespace par = boost::experimental::parallel;
struct Oops { int id; };
struct StdOops : std::runtime_error { int id; StdOops(int i) : std::runtime_error("oops"), id(i) {} };
enum { RUN, WAIT, NEST, THROW, POINT };
enum { DEFAULT, POOL, THREADS, INLINE, ERASED, NKINDS };
static const int INTR = -5;
struct Node; struct Step { int what; Node* node; bool swallow; int id, form; };
struct Node { int id, kind, level; bool task, final_; std::vector<Step> steps; // of a region: its body; of a task: what it does
  bool accepted, started, done; int by; int* in; int out; std::multiset<int> thrown; bool some_threw; bool live; };
struct G { std::vector<Node*> all; int nodes, next_id, defaults; bool interrupts; } ;
static G* g;
static Node* gen(bool task, int level) {
  Node* n; { Ignore i; n = new Node(); g->all.push_back(n); n->id = g->nodes++; } n->task = task; n->level = level; n->final_ = flip();
  if (!task) {
#if defined BOOST_THREAD_PROVIDES_EXECUTORS
    n->kind = (int)pick(NKINDS - 1) + 1; if (!g->defaults && chance(1, 6)) { n->kind = DEFAULT; g->defaults++; }
#else
    n->kind = DEFAULT;
#endif
  }
  n->in = new int(n->id * 3);
  int k = task ? (int)pick(3) : range(1, 5);
  for (int j = 0; j < k; j++) {
    Step s; s.node = 0; s.swallow = flip(); s.id = 0; s.form = pick(4);
    static const unsigned wb[] = {6, 2, 1, 1, 1}, wt[] = {0, 0, 2, 2, 3};
    s.what = weighted(task ? wt : wb, 5);
    if (s.what == NEST && (level >= 2 || g->nodes > 9)) s.what = POINT; if (s.what == RUN && g->nodes > 12) s.what = POINT;
    if (s.what == RUN) s.node = gen(true, level); else if (s.what == NEST) s.node = gen(false, level + 1); else if (s.what == THROW) s.id = ++g->next_id;
    { Ignore i; n->steps.push_back(s); } if (s.what == THROW) break;
  }
  return n;
}
static void show(Node* n, int ind) {
  for (Step& s : n->steps) switch (s.what) { case RUN: note("%*srun task %d (form %d)", ind, "", s.node->id, s.form); show(s.node, ind + 2); break; case WAIT: note("%*swait (%s)", ind, "", s.swallow ? "catches" : "passes on"); break;
    case NEST: note("%*sregion %d on %d (%s)", ind, "", s.node->id, s.node->kind, s.swallow ? "catches" : "passes on"); show(s.node, ind + 2); break; case THROW: note("%*sthrow %d", ind, "", s.id); break; default: ; }
}
static void ids(std::multiset<int>& out) {              // of the exception being handled
  try { throw; }
  catch (par::v2::task_canceled_exception&) { }
  catch (par::v1::exception_list& l) { size_t n = 0; for (par::v1::exception_list::const_iterator i = l.begin(); i != l.end(); ++i) { n++; try { boost::rethrow_exception(*i); } catch (...) { ids(out); } } if (n != l.size()) fail("exception_list::size() is %d for %d exceptions", (int)l.size(), (int)n); }
  catch (Oops& o) { Ignore i; out.insert(o.id); }
  catch (StdOops& o) { Ignore i; out.insert(o.id); }
  catch (boost::thread_interrupted&) { if (!g->interrupts) fail("thread_interrupted out of nowhere"); Ignore i; out.insert(INTR); }
}
static void merge(std::multiset<int>& to, const std::multiset<int>& from) { Ignore i; to.insert(from.begin(), from.end()); }
struct Ids { std::multiset<int>* p; Ids() { Ignore i; p = new std::multiset<int>; } ~Ids() { Ignore i; delete p; } };
static std::string str(const std::multiset<int>& s) { std::string r = "{"; for (int i : s) r += " " + std::to_string(i); return r + " }"; }
static void throw_it(int id) { if (id & 1) throw Oops{id}; throw StdOops(id); }
static void region(Node* n);
static void nested(Step& s) {
  if (!s.swallow) { region(s.node); return; }
  try { region(s.node); } catch (boost::thread_interrupted&) { fail("thread_interrupted left a region by itself"); } catch (par::v1::exception_list&) { }
}
static void task_body(Node* parent, Node* t) {
  { Ignore i; if (t->started) fail("task %d runs a second time", t->id); t->started = true; if (!parent->live) fail("task %d runs although its region has ended", t->id); }
  int v = *t->in; point();
  try { for (Step& s : t->steps) { if (s.what == NEST) nested(s); else if (s.what == THROW) throw_it(s.id); else point(); } t->out = v + 1; }
  catch (...) { t->out = v + 1; Ids x; ids(*x.p); merge(parent->thrown, *x.p); { Ignore i; if (!x.p->empty()) parent->some_threw = true; if (!parent->live) fail("region %d ended before task %d", parent->id, t->id); t->done = true; } throw; }
  Ignore i; if (!parent->live) fail("region %d ended before task %d", parent->id, t->id); t->done = true;
}
struct Fun { Node *p, *t; int* own; Fun(Node* a, Node* b) : p(a), t(b), own(new int(1)) {} Fun(const Fun& o) : p(o.p), t(o.t), own(o.own ? new int(*o.own) : 0) {} Fun(Fun&& o) noexcept : p(o.p), t(o.t), own(o.own) { o.own = 0; } Fun& operator=(const Fun&) = delete; ~Fun() { delete own; own = (int*)8; }
  void operator()() const { if (!own || *own != 1) fail("the callable of task %d is damaged", t->id); task_body(p, t); } };
struct MFun { Node *p, *t; int* own; MFun(Node* a, Node* b) : p(a), t(b), own(new int(1)) {} MFun(const MFun&) = delete; MFun(MFun&& o) noexcept : p(o.p), t(o.t), own(o.own) { o.own = 0; } ~MFun() { delete own; own = (int*)8; }
  void operator()() { if (!own || *own != 1) fail("the callable of task %d is damaged", t->id); task_body(p, t); } };
template <class H> static void body(H& h, Node* r) {
  auto all_done = [&](const char* what) { Ignore i; for (Step& s : r->steps) if (s.what == RUN && s.node->accepted && !s.node->done) fail("%s although task %d has not finished", what, s.node->id); };
  auto canceled = [&](const char* what) { Ignore i; if (!r->some_threw) fail("%s is cancelled although no task of the region has thrown", what); };
  try {
    for (Step& s : r->steps) switch (s.what) {
      case RUN: {
        bool must = false; { Ignore i; must = r->kind == INLINE && r->some_threw; s.node->by = fid(); }
        try {
          if (s.form == 0) h.run(Fun(r, s.node)); else if (s.form == 1) { Fun f(r, s.node); h.run(f); if (!f.own) fail("run(lvalue) moved from its argument"); } else if (s.form == 2) { const Fun f(r, s.node); h.run(f); } else h.run(MFun(r, s.node));
        } catch (par::v2::task_canceled_exception&) { canceled("run"); Ignore i; if (s.node->started) fail("a cancelled run() ran task %d", s.node->id); must = false; if (s.swallow) break; throw; }
        if (must) fail("run() accepts a task although the region is cancelled");
        Ignore i; s.node->accepted = true; break; }
      case WAIT:
        try { h.wait(); all_done("wait() returned"); Ignore i; if (!r->thrown.empty()) fail("wait() returned normally although %s were thrown", str(r->thrown).c_str()); }
        catch (par::v2::task_canceled_exception&) { canceled("wait"); if (!s.swallow) throw; }
        catch (par::v1::exception_list&) { all_done("wait() threw an exception_list"); Ids x; ids(*x.p); { Ignore i; if (*x.p != r->thrown) fail("wait() reports %s instead of %s", str(*x.p).c_str(), str(r->thrown).c_str()); r->thrown.clear(); } if (!s.swallow) throw; }
        break;
      case NEST: nested(s); break;
      case THROW: throw_it(s.id); break;
      default: point();
    }
  } catch (...) { Ids x; ids(*x.p); merge(r->thrown, *x.p); throw; }
}
#if defined BOOST_THREAD_PROVIDES_EXECUTORS
static basic_thread_pool* g_pool[3]; static thread_executor* g_te; static inline_executor* g_in; static executor* g_er[3];
template <class E> static void on(E& e, Node* r) { if (r->final_) par::v2::task_region_final(e, [r](par::v2::task_region_handle_gen<E>& h) { body(h, r); }); else { auto f = [r](par::v2::task_region_handle_gen<E>& h) { body(h, r); }; par::v2::task_region(e, f); } }
#endif
static void start(Node* r) {
  switch (r->kind) {
#if defined BOOST_THREAD_PROVIDES_EXECUTORS
    case POOL: on(*g_pool[r->level], r); return; case THREADS: on(*g_te, r); return; case INLINE: on(*g_in, r); return; case ERASED: on(*g_er[r->level], r); return;
#endif
    default: if (r->final_) par::v2::task_region_final([r](par::v2::task_region_handle& h) { body(h, r); }); else par::v2::task_region([r](par::v2::task_region_handle& h) { body(h, r); });
  }
}
static void region(Node* r) {
  { Ignore i; r->live = true; r->started = true; } Ids got; bool threw = false;
  auto over = [&] { Ignore i; r->live = false; for (Step& s : r->steps) if (s.what == RUN) { Node* t = s.node; if (t->accepted && !t->done) fail("region %d returned although task %d has not finished", r->id, t->id); } };
  auto read = [&] { for (Step& s : r->steps) if (s.what == RUN) { bool d; { Ignore i; d = s.node->done; } if (d && s.node->out != *s.node->in + 1) fail("what task %d wrote is not visible after its region", s.node->id); } };
  try { start(r); }
  catch (par::v1::exception_list&) { over(); threw = true; ids(*got.p); { Ignore i; if (*got.p != r->thrown) fail("region %d reports %s instead of %s", r->id, str(*got.p).c_str(), str(r->thrown).c_str()); if (got.p->empty()) fail("region %d threw an empty exception_list", r->id); } read(); throw; }
  catch (boost::thread_interrupted&) { over(); fail("thread_interrupted left region %d", r->id); }
  over(); { Ignore i; if (!r->thrown.empty()) fail("region %d returned normally although %s were thrown", r->id, str(r->thrown).c_str()); } read(); (void)threw;
}
static void program() {
  check_leaks(true); { Ignore i; g = new G(); }
#if defined BOOST_THREAD_PROVIDES_EXECUTORS
  for (int k = 0; k < 3; k++) { g_pool[k] = new basic_thread_pool(range(1, 2)); int n = range(1, 2); g_er[k] = new executor_adaptor<basic_thread_pool>(boost::move(n)); } g_te = new thread_executor; g_in = new inline_executor;
#endif
  g->interrupts = chance(1, 4); allow_spurious(pick(3)); Node* r = gen(false, 0); note("region %d on %d%s", r->id, r->kind, g->interrupts ? ", thread interrupted" : ""); show(r, 2);
  int tasks = 0; { Ignore i; for (Node* n : g->all) tasks += n->task; } nontrivial(tasks >= 2);
  if (g->interrupts) { boost::thread t([r] { try { region(r); } catch (par::v1::exception_list&) { } }); if (flip()) { for (int k = pick(30); k > 0; k--) point(); } else wait_quiescent(); t.interrupt(); t.join(); }
  else try { region(r); } catch (par::v1::exception_list&) { }
#if defined BOOST_THREAD_PROVIDES_EXECUTORS
  for (int k = 0; k < 3; k++) { delete g_pool[k]; delete g_er[k]; } delete g_te; delete g_in;
#endif
  { Ignore i; for (Node* n : g->all) if (n->task) { if (n->accepted && !n->done) fail("task %d never ran", n->id); if (!n->accepted && n->started) fail("task %d was not accepted and ran", n->id); } }
  wait_quiescent(); { std::vector<int*> ins; { Ignore i; for (Node* n : g->all) ins.push_back(n->in); } for (int* p : ins) delete p; Ignore i; for (Node* n : g->all) delete n; std::vector<int*>().swap(ins); delete g; g = 0; }
}
SCENARIO(regions, 1) { program(); }
int main(int c, char** v) { return pbt_main(c, v, "two or more tasks in the tree of regions"); }
