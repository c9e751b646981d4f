// H03: thread ids are one consistent identity; attributes reach the native thread; concurrency queries report what the system says
#include "common.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/tss.hpp>
#include <boost/thread/detail/string_to_unsigned.hpp>
#include <boost/thread/detail/string_trim.hpp>
#include <boost/functional/hash.hpp>
#include <sstream>
#include <iomanip>
#include <limits.h>
#include <stdio.h>
#include <errno.h>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/mman.h>
typedef boost::thread::id Id;
// ---- identities
struct Rec { Id id; int fid; int64_t native; boost::thread* obj; bool alive; int serial; };
struct IdBody {
  Rec* r; Counter *ready, *gate; int* exits;
  void operator()() const {
    Id me = boost::this_thread::get_id();
    { Ignore i; r->id = me; r->fid = fid(); r->native = (int64_t)pthread_self(); }
    Rec* rr = r; int* e = exits;
    boost::this_thread::at_thread_exit([rr, e] { Id now = boost::this_thread::get_id(); if (!(now == rr->id)) fail("another id in an at_thread_exit function"); Ignore i; ++*e; });
    ready->add(); gate->wait(1);
    if (boost::this_thread::get_id() != me) fail("the id of a thread changed while it was running");
  }
};
static std::string show(Id const& id, bool fancy, bool wide) {
  std::string r; 
  if (wide) { std::wostringstream o; o << id; std::wstring w = o.str(); for (wchar_t c : w) r += (char)c; return r; }
  std::ostringstream o; if (fancy) { o << std::oct << std::showbase << std::uppercase; o << std::noshowbase << std::nouppercase; } std::ios::fmtflags f = o.flags(); o << id; if (o.flags() != f) fail("printing an id changes the stream's format"); return o.str();
}
SCENARIO(identities, 4) {
  check_leaks(true); int nb = range(1, 4), nn = range(0, 2); note("%d threads, %d native threads", nb, nn);
  Counter* ready = new Counter; Counter* gate = new Counter; int* exits; { Ignore i; exits = new int(0); }
  Priv<std::vector<Rec*>> recs; std::vector<boost::thread*> objs; { Ignore i; }
  std::vector<boost::thread>* ts = new std::vector<boost::thread>(); Threads nat;
  auto rec = [&]() { Ignore i; Rec* r = new Rec(); r->alive = true; r->serial = (int)recs->size(); recs->push_back(r); return r; };
  Rec* mainr = rec(); { Id m = boost::this_thread::get_id(); Ignore i; mainr->id = m; mainr->fid = fid(); mainr->native = (int64_t)pthread_self(); }
  std::vector<Rec*>* own; { Ignore i; own = new std::vector<Rec*>; }
  for (int i = 0; i < nb; i++) {
    Rec* r = rec(); IdBody b; b.r = r; b.ready = ready; b.gate = gate; b.exits = exits; ts->push_back(boost::thread(b)); Ignore g; own->push_back(r);
  }
  for (int i = 0; i < nn; i++) { Rec* r = rec(); nat.add([=] { Id m = boost::this_thread::get_id(); { Ignore i; r->id = m; r->fid = fid(); r->native = (int64_t)pthread_self(); } ready->add(); gate->wait(1); if (boost::this_thread::get_id() != m) fail("the id of a native thread changed"); }); }
  ready->wait(nb + nn);
  // move the handles about: ids follow
  int moves = range(0, 4); for (int i = 0; i < moves; i++) { int a = (int)pick((unsigned)nb), b = (int)pick((unsigned)nb); if (a == b) continue; if (flip()) (*ts)[a].swap((*ts)[b]); else { boost::thread t(boost::move((*ts)[a])); if ((*ts)[a].get_id() != Id()) fail("a moved-from thread object has an id"); (*ts)[a] = boost::move((*ts)[b]); (*ts)[b] = boost::move(t); } Ignore g; std::swap((*own)[a], (*own)[b]); }
  for (int i = 0; i < nb; i++) {
    if ((*ts)[i].get_id() != (*own)[i]->id) fail("get_id() of a thread object is not the id of its thread");
    if ((int64_t)(*ts)[i].native_handle() != (*own)[i]->native) fail("native_handle() is not the thread's handle");
  }
  // one total order over all live threads and the id of no thread
  Rec none; none.serial = -1; none.id = Id(); none.fid = -1; none.native = 0; none.alive = true; none.obj = 0;
  int n; Rec* a[16]; { Ignore i; n = 0; for (auto r : *recs) a[n++] = r; a[n++] = &none; }
  for (int i = 0; i < n; i++) {
    if (!(a[i]->id == Id(a[i]->id)) || a[i]->id < a[i]->id || a[i]->id != a[i]->id || !(a[i]->id <= a[i]->id)) fail("an id does not equal itself");
    for (int j = 0; j < n; j++) {
      bool same = i == j; Id const &x = a[i]->id, &y = a[j]->id;
      if ((x == y) != same) fail("ids of two live threads (%d, %d) compare %s", a[i]->serial, a[j]->serial, same ? "different" : "equal");
      if ((x != y) == (x == y)) fail("== and != of ids agree");
      if ((x < y) + (y < x) + (x == y) != 1) fail("ids are not totally ordered");
      if ((x > y) != (y < x) || (x <= y) != !(y < x) || (x >= y) != !(x < y)) fail("comparisons of ids disagree");
      for (int k = 0; k < n; k++) if (x < y && y < a[k]->id && !(x < a[k]->id)) fail("the order of ids is not transitive");
      if (same) { Id c(x); if (hash_value(c) != hash_value(x) || boost::hash<Id>()(c) != boost::hash<Id>()(x)) fail("equal ids have different hashes"); }
      bool eq = show(x, flip(), false) == show(y, false, false); if (eq != same) fail("%s ids are printed %s", same ? "equal" : "different", eq ? "alike" : "differently");
    }
    if (show(a[i]->id, false, true) != show(a[i]->id, false, false)) fail("an id is printed differently to a wide stream");
  }
  if (show(Id(), false, false) != "{Not-any-thread}") fail("the id of no thread is printed as %s", show(Id(), false, false).c_str());
  gate->add(); nat.join();
  for (int i = 0; i < nb; i++) { (*ts)[i].join(); if ((*ts)[i].get_id() != Id()) fail("a joined thread object has an id"); }
#if !defined BOOST_THREAD_PROVIDES_BASIC_THREAD_ID
  // an id kept beyond its thread is never used again
  { Counter* rd = new Counter; Counter* g2 = new Counter; Rec* r = rec(); IdBody b; b.r = r; b.ready = rd; b.gate = g2; b.exits = exits; boost::thread t(b); rd->wait(1);
    for (int i = 0; i < n; i++) if (a[i]->id == r->id) fail("the id of a finished thread is used again"); g2->add(); t.join(); delete rd; delete g2; Ignore g; --*exits; }
#endif
  { Ignore i; if (*exits != nb) fail("%d of %d exit functions ran", *exits, nb); delete exits; delete own; }
  { Rec* all[16]; int m = 0; { Ignore i; for (auto r : *recs) all[m++] = r; recs->clear(); recs->shrink_to_fit(); } for (int i = 0; i < m; i++) { all[i]->id = Id(); Ignore g; delete all[i]; } }
  none.id = Id(); delete ts; delete ready; delete gate; if (nb + nn > 1) nontrivial();
}
// ---- attributes
SCENARIO(attributes, 2) {
  check_leaks(true); boost::thread::attributes* a = new boost::thread::attributes; size_t def = a->get_stack_size(), want = def; size_t page = (size_t)getpagesize(), mn = (size_t)PTHREAD_STACK_MIN; int n = range(1, 5);
  for (int i = 0; i < n; i++) {
    if (flip()) {
      size_t s; switch (pick(5)) { case 0: s = 0; break; case 1: s = pick(40000); break; case 2: s = page * pick(3000) + pick(3); break; case 3: s = (size_t)1 << pick(40); break; default: s = mn + pick(3) - 1; }
      note("set_stack_size(%zu) ", s); a->set_stack_size(s); size_t g = a->get_stack_size();
      if (s) { want = std::max(s, mn); want = (want + page - 1) / page * page; }
      if (g != want) fail("stack size %zu becomes %zu instead of %zu", s, g, want); nontrivial();
    } else {
      size_t plain = chance(1, 3); bool det = flip(); note("start%s%s ", plain ? " without attributes" : "", det ? " detached" : "");
      if (!plain) pthread_attr_setdetachstate(a->native_handle(), det ? PTHREAD_CREATE_DETACHED : PTHREAD_CREATE_JOINABLE);
      size_t* seen; Counter* c = new Counter; { Ignore g; seen = new size_t(0); } auto f = [=] { { Ignore g; *seen = attr_stack(fid()); } c->add(); };
      boost::thread::attributes const& ca = *a; boost::thread t = plain ? boost::thread(f) : boost::thread(ca, f);
      if (!plain && t.joinable() == det) fail("a thread started %s is %sjoinable", det ? "detached" : "joinable", det ? "" : "not ");
      c->wait(1); { Ignore g; size_t w = plain ? 0 : want; if (*seen != w) fail("the thread was created with a stack of %zu bytes instead of %zu", *seen, w); }
      if (t.joinable()) t.join(); wait_quiescent(); hb_acquire(c); { Ignore g; delete seen; } delete c;
    }
  }
  delete a;
}
// ---- concurrency queries: a generated /proc/cpuinfo and number of processors
static std::string* cpuinfo; static bool have_cpuinfo; static long nproc; static bool faking;
extern "C" long sysconf(int name) noexcept { if (faking && name == _SC_NPROCESSORS_ONLN) return nproc; static long (*real)(int); if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf"); return real(name); }
static FILE* my_open(const char* p, const char* m, const char* fn) {
  if (faking && !strcmp(p, "/proc/cpuinfo")) {
    if (!have_cpuinfo) { errno = ENOENT; return 0; }
    int fd = memfd_create("cpuinfo", 0); if (fd < 0) return 0; if (write(fd, cpuinfo->data(), cpuinfo->size()) != (ssize_t)cpuinfo->size()) { close(fd); return 0; } lseek(fd, 0, SEEK_SET); return fdopen(fd, m);
  }
  FILE* (*real)(const char*, const char*) = (FILE* (*)(const char*, const char*))dlsym(RTLD_NEXT, fn); return real(p, m);
}
extern "C" FILE* fopen(const char* p, const char* m) { return my_open(p, m, "fopen"); }
extern "C" FILE* fopen64(const char* p, const char* m) { return my_open(p, m, "fopen64"); }
static std::string blanks(bool sp) { Ignore i; std::string s; int n = (int)pick(3); for (int k = 0; k < n; k++) s += sp && flip() ? ' ' : '\t'; return s; }
SCENARIO(concurrency, 2) {
  Ignore whole; faking = false; cpuinfo = new std::string; have_cpuinfo = !chance(1, 12); static const long NP[] = {1, 2, 8, 64, 0, -1, 1000}; nproc = NP[pick(7)];
  unsigned hw = nproc > 0 ? (unsigned)nproc : 0; std::set<std::pair<unsigned, unsigned>> cores; bool bad = !have_cpuinfo, phys = !chance(1, 5), core = !chance(1, 8); int n = (int)pick(7);
  for (int i = 0; i < n && have_cpuinfo; i++) {
    unsigned p = flip() ? pick(3) : (unsigned)pick64(0, UINT_MAX), c = flip() ? pick(4) : (unsigned)pick64(0, UINT_MAX);
    auto line = [&](const char* k, std::string const& v) { *cpuinfo += blanks(true) + k + blanks(true) + ":" + blanks(true) + v + blanks(true) + "\n"; };
    line("processor", std::to_string(i)); if (flip()) line("model name", "Some CPU: 3 GHz"); if (flip()) line("core ids", "7"); if (flip()) line("siblings", "x");
    // something that is not in the expected format
    auto spoil = [&](std::string v) { if (!chance(1, 25)) return v; bad = true; switch (pick(6)) { case 0: return std::string(); case 1: return v + "x"; case 2: return std::string("-1"); case 3: return std::string("4294967296"); case 4: return std::string("99999999999999999999"); default: return std::string("0x1"); } };
    bool was = bad;
    if (phys) { line("physical id", spoil(std::to_string(p))); } else p = 0;
    if (core) { line("core id", spoil((flip() ? "" : "00") + std::to_string(c))); if (!bad) cores.insert(std::make_pair(p, c)); }
    (void)was; if (chance(1, 30)) { *cpuinfo += "no separator here\n"; bad = true; } if (flip()) line("flags", ""); if (i + 1 < n || flip()) *cpuinfo += "\n"; else if (flip() && !cpuinfo->empty()) cpuinfo->erase(cpuinfo->size() - 1);
  }
  unsigned want = bad || cores.empty() ? hw : (unsigned)cores.size(); note("processors %ld%s\n%s", nproc, have_cpuinfo ? "" : ", no cpuinfo", cpuinfo->c_str());
  faking = true; unsigned gh = boost::thread::hardware_concurrency(), gp = boost::thread::physical_concurrency(); faking = false;
  if (gh != hw) fail("hardware_concurrency() is %u with %ld processors", gh, nproc);
  if (gp != want) fail("physical_concurrency() is %u instead of %u", gp, want);
  if (cores.size() > 1) nontrivial(); if (bad) label("malformed"); delete cpuinfo;
}
SCENARIO(numbers, 1) {
  Ignore whole; int n = range(1, 10);
  for (int i = 0; i < n; i++) {
    std::string s; switch (pick(4)) { case 0: s = std::to_string((uint64_t)pick64(0, 0x200000000ll)); break; case 1: s = std::to_string(4294967290ull + pick(12)); break; default: { static const char A[] = "0123456789 \t\r\n-+x\v"; int m = (int)pick(12); for (int k = 0; k < m; k++) s += A[pick(sizeof A - 1)]; } }
    if (flip()) s = "0" + s; note("[%s] ", s.c_str());
    bool ok = !s.empty(); unsigned __int128 v = 0; for (char c : s) { if (c < '0' || c > '9') { ok = false; break; } v = v * 10 + (unsigned)(c - '0'); } if (v > UINT_MAX) ok = false;
    unsigned got = 77; bool r = boost::thread_detail::string_to_unsigned(s, got); if (r != ok || (ok && got != (unsigned)v)) fail("string_to_unsigned gives %d, %u", r, got);
    auto sp = [](char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }; size_t b = 0, e = s.size(); while (b < e && sp(s[b])) b++; while (e > b && sp(s[e - 1])) e--;
    if (boost::thread_detail::string_trim(s) != s.substr(b, e - b)) fail("string_trim"); if (ok) nontrivial();
  }
}
int main(int argc, char** argv) { return pbt_main(argc, argv, "several threads were compared, an attribute was set, or the system description had several cores (a number was valid)"); }
