// Shared helpers of the harnesses.
#pragma once
#include "../rt/sim.h"
#include <pthread.h>
#include <functional>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <algorithm>
#include <stdexcept>
#include <typeinfo>
using namespace sim;

// Plain (not created by boost::thread) threads; the program of each is a closure.
struct Threads {
  struct T { std::function<void()> f; pthread_t h; int fid; };
  std::vector<T*> v;
  static void* run(void* p) {
    T* t = (T*)p;
    t->fid = sim::fid();
    try { t->f(); }
    catch (std::exception& e) { fail("unexpected exception escaped a test thread: %s (%s)", typeid(e).name(), e.what()); }
    return 0;
  }
  int add(std::function<void()> f) {        // returns the fiber id
    T* t = new T; t->f = f; t->fid = -1;
    { Ignore i; v.push_back(t); }
    int id = fiber_count();
    if (pthread_create(&t->h, 0, run, t)) fail("harness: pthread_create failed");
    return id;
  }
  void join() {
    for (size_t i = 0; i < v.size(); i++) { pthread_join(v[i]->h, 0); delete v[i]; }
    Ignore i; v.clear();
  }
  ~Threads() { if (!v.empty()) join(); Ignore i; std::vector<T*>().swap(v); }
};

// Bookkeeping allocated outside the tracked heap.
template <class T> struct Priv {
  T* p;
  Priv() { Ignore i; p = new T(); }
  ~Priv() { Ignore i; delete p; }
  T* operator->() { return p; }
  T& operator*() { return *p; }
  Priv(const Priv&) = delete;
};

// A gate driver: workers execute commands one at a time on request of the main thread.
// after each command the driver can wait for quiescence and compare with a model.
struct Workers {
  struct W { std::function<void()> cmd; bool has, stop, busy; pthread_mutex_t m; pthread_cond_t c; int fid; };
  Threads th; std::vector<W*> w;
  explicit Workers(int n) {
    for (int i = 0; i < n; i++) {
      W* x = new W; x->has = x->stop = x->busy = false; pthread_mutex_init(&x->m, 0); pthread_cond_init(&x->c, 0);
      { Ignore ig; w.push_back(x); }
      x->fid = th.add([x] {
        for (;;) {
          std::function<void()> f;
          pthread_mutex_lock(&x->m);
          while (!x->has && !x->stop) pthread_cond_wait(&x->c, &x->m);
          if (!x->has) { pthread_mutex_unlock(&x->m); return; }
          f.swap(x->cmd); x->has = false;
          pthread_mutex_unlock(&x->m);
          f();
          { Ignore ig; x->busy = false; }
        }
      });
    }
  }
  void post(int i, std::function<void()> f) {   // asynchronous
    W* x = w[i];
    { Ignore ig; if (x->busy) fail("harness: command posted to a busy worker"); x->busy = true; }
    pthread_mutex_lock(&x->m); x->cmd = f; x->has = true; pthread_cond_signal(&x->c); pthread_mutex_unlock(&x->m);
  }
  bool busy(int i) { Ignore ig; return w[i]->busy; }
  int fid(int i) { return w[i]->fid; }
  void finish() {
    for (auto x : w) { pthread_mutex_lock(&x->m); x->stop = true; pthread_cond_signal(&x->c); pthread_mutex_unlock(&x->m); }
    th.join();
    for (auto x : w) { pthread_mutex_destroy(&x->m); pthread_cond_destroy(&x->c); delete x; }
    Ignore ig; std::vector<W*>().swap(w);
  }
};

// Blocking counter on plain pthread primitives (no time passes while waiting on it).
struct Counter {
  pthread_mutex_t m; pthread_cond_t c; int n;
  Counter() : n(0) { pthread_mutex_init(&m, 0); pthread_cond_init(&c, 0); }
  ~Counter() { pthread_mutex_destroy(&m); pthread_cond_destroy(&c); }
  void add(int k = 1) { pthread_mutex_lock(&m); n += k; pthread_cond_broadcast(&c); pthread_mutex_unlock(&m); }
  void wait(int k) { pthread_mutex_lock(&m); while (n < k) pthread_cond_wait(&c, &m); pthread_mutex_unlock(&m); }
};
