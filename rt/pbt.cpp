// Case engine: generation over choice streams, parallel workers, shrinking in forked children, replay files, summaries.
#include "sim.h"
#include "sim_internal.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <vector>
#include <string>
#include <algorithm>

namespace sim {
static Scenario* scen_head = 0;
static std::vector<Scenario*> scens;
Reg::Reg(Scenario* s) { s->next = scen_head; scen_head = s; }

static uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xBF58476D1CE4E5B9ull; z ^= z >> 29; z *= 0x94D049BB133111EBull; z ^= z >> 32; z *= 0xD6E8FEB86659FD93ull; return z ^ (z >> 31); }
static double wall() { struct timespec t; syscall(228, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Shm* new_shm() { return (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }

static void arm(int sec) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &it, 0); }

static void begin_case(int mode, uint64_t seed) {
  uint32_t keep = 0; (void)keep;
  memset((char*)&X, 0, offsetof(Exec, live_tab));
  memset((char*)&X.nign, 0, sizeof(Exec) - offsetof(Exec, nign));
  X.mode = mode;
  X.mono = MONO0; X.real_off = 1600000000ll * 1000000000ll - MONO0; X.tick = 20;
  X.prng = mix(seed, 1); X.srng = mix(seed, 2);
  X.fail_alloc_fid = -1;
  X.trace_hash = 1469598103934665603ull;
  shm->nprog = shm->nsched = 0; shm->note_len = 0; shm->notes[0] = 0; shm->failed = 0; shm->msg[0] = 0; shm->where[0] = 0;
  uint64_t s = mix(seed, 3);
  auto rn = [&](uint32_t n) { s = mix(s, 77); return (uint32_t)((s >> 33) % n); };
  static const double ps[] = {0.02, 0.08, 0.2, 0.4, 0.7, 0.95}, pa[] = {0, 0.05, 0.3, 1};
  uint32_t k = rn(100);
  X.p_sync = ps[rn(6)]; X.p_atom = X.p_sync * pa[rn(4)];
  static const double pt[] = {0.0, 0.003, 0.03, 0.15}, pu[] = {0.004, 0.04, 0.2}, px[] = {0, 0.3, 0.8};
  X.p_time = pt[rn(4)]; X.p_spur = pu[rn(3)]; X.p_aux = px[rn(3)];
  if (k < 45) X.strat = S_RW;
  else if (k < 80) {
    X.strat = S_PCT; X.npct = (int)rn(7);
    uint32_t len = 1u << (4 + rn(7));
    for (int i = 0; i < X.npct; i++) X.pct_at[i] = 1 + rn(len);
  } else { X.strat = S_STARVE; X.victim = (int)rn(6); }
}

static void run_scn(Scenario* sc) { arm(25); run_exec(sc->fn); }

// Function-local statics, once flags and TSS keys of the library are initialised once per process; running some cases
// before anything counts makes generation and replay start from the same process state.
static const int WARM = 10;
static void warm_case(int i, int k) {
  if (k == 0) begin_case(M_REPLAY, 0); else begin_case(M_GEN, mix(0x5741524d + (uint64_t)i, (uint64_t)k));
  X.warm = true;
  run_scn(scens[i]);
}

struct Failure { int scn; uint64_t case_no; std::vector<uint16_t> prog, sched; std::string msg, where, notes; };

static std::string category(const std::string& m) {
  size_t p = m.find(':'); std::string c = m.substr(0, p == std::string::npos ? 40 : p);
  if (c == "data race" || c == "crash") return "memory"; 
  if (m.find("heap") != std::string::npos) return "memory";
  return c;
}

static bool child_replay(Failure& f, Failure& out, Shm* sh) {
  shm = sh; sh->failed = 0;
  fflush(0);
  pid_t p = fork();
  if (p == 0) {
    begin_case(M_REPLAY, 0);
    X.rprog = f.prog.data(); X.rprog_n = f.prog.size(); X.rsched = f.sched.data(); X.rsched_n = f.sched.size();
    run_scn(scens[f.scn]);
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  if (!sh->failed) { snprintf(sh->msg, sizeof sh->msg, "crash: child ended with status %x", st); }
  out.scn = f.scn; out.case_no = f.case_no;
  out.prog.assign(sh->prog, sh->prog + sh->nprog); out.sched.assign(sh->sched, sh->sched + sh->nsched);
  out.msg = sh->msg; out.where = sh->where; out.notes = sh->notes;
  return true;
}

static size_t cost_of(const std::vector<uint16_t>& v) { size_t c = 0; for (auto x : v) if (x) c++; return c; }
static bool better(const Failure& a, const Failure& b) {  // a simpler than b
  size_t pa = a.prog.size(), pb = b.prog.size();
  if (pa != pb) return pa < pb;
  uint64_t sa = 0, sb = 0; for (auto x : a.prog) sa += x; for (auto x : b.prog) sb += x;
  if (sa != sb) return sa < sb;
  size_t ca = cost_of(a.sched), cb = cost_of(b.sched);
  if (ca != cb) return ca < cb;
  return a.sched.size() < b.sched.size();
}
static void trim(std::vector<uint16_t>& v) { while (!v.empty() && v.back() == 0) v.pop_back(); }

static Failure shrink(Failure best, double budget, int* tries) {
  Shm* sh = new_shm();
  double t0 = wall();
  std::string cat = category(best.msg);
  auto attempt = [&](Failure c) {
    if (wall() - t0 > budget) return false;
    ++*tries;
    Failure o;
    if (!child_replay(c, o, sh)) return false;
    if (category(o.msg) != cat) return false;
    trim(o.sched);
    if (better(o, best)) { best = o; return true; }
    return false;
  };
  bool progress = true;
  while (progress && wall() - t0 < budget) {
    progress = false;
    // schedule: truncate, then zero chunks
    for (size_t k = best.sched.size() / 2; k >= 1; k /= 2) {
      Failure c = best; if (c.sched.size() > k) { c.sched.resize(c.sched.size() - k); if (attempt(c)) progress = true; }
      for (size_t i = 0; i < best.sched.size() && wall() - t0 < budget;) {
        c = best; bool any = false;
        for (size_t j = i; j < i + k && j < c.sched.size(); j++) if (c.sched[j]) { c.sched[j] = 0; any = true; }
        if (any && attempt(c)) { progress = true; } 
        i += k;
      }
      if (k == 1) break;
    }
    // program: delete chunks
    for (size_t k = std::max<size_t>(1, best.prog.size() / 2); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.prog.size() && wall() - t0 < budget;) {
        Failure c = best; c.prog.erase(c.prog.begin() + i, c.prog.begin() + i + k);
        if (attempt(c)) progress = true; else i += k;
      }
      if (k == 1) break;
    }
    // program: lower values
    for (size_t i = 0; i < best.prog.size() && wall() - t0 < budget; i++) {
      if (!best.prog[i]) continue;
      Failure c = best; c.prog[i] = 0; if (attempt(c)) { progress = true; continue; }
      if (i < best.prog.size() && best.prog[i] > 1) { c = best; c.prog[i] /= 2; if (attempt(c)) { progress = true; i--; continue; } c = best; c.prog[i]--; if (attempt(c)) { progress = true; i--; continue; } }
    }
  }
  munmap(sh, sizeof(Shm));
  return best;
}

static void js(FILE* f, const std::string& s) {
  fputc('"', f);
  for (unsigned char c : s) { if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c == '\n') fputs("\\n", f); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
  fputc('"', f);
}

static void write_replay(const char* path, const Failure& f, const char* prop, const char* bin) {
  FILE* o = fopen(path, "w"); if (!o) return;
  fprintf(o, "property %s\nbinary %s\nscenario %s\n", prop, bin, scens[f.scn]->name);
  fprintf(o, "prog"); for (auto x : f.prog) fprintf(o, " %u", x); fprintf(o, "\nsched"); for (auto x : f.sched) fprintf(o, " %u", x);
  fprintf(o, "\n--- message\n%s\n--- where\n%s\n--- program\n%s\n", f.msg.c_str(), f.where.c_str(), f.notes.c_str());
  fclose(o);
}

static void worker(Shm* sh, uint64_t* hashes, uint64_t* nhash, int w, int W, uint64_t seed, uint64_t cases, double tlimit, int only) {
  shm = sh;
  unsigned tot = 0; for (auto s : scens) tot += s->weight;
  double t0 = wall();
  uint64_t n = 0;
  for (uint64_t j = w; j < cases; j += W) {
    if ((++n & 63) == 0 && wall() - t0 > tlimit) break;
    uint64_t cs = mix(seed, j + 1000);
    int si = only;
    if (si < 0) { unsigned r = (unsigned)(mix(cs, 9) % tot); for (si = 0; si < (int)scens.size(); si++) { if (r < scens[si]->weight) break; r -= scens[si]->weight; } }
    sh->scenario = si; sh->case_no = j;
    begin_case(M_GEN, cs);
    run_scn(scens[si]);
    sh->evals++; sh->sc_evals[si]++;
    sh->steps += X.steps; sh->switches += X.switches; sh->contended += X.contended; sh->cwaits += X.cwaits; sh->tadv += X.time_adv; sh->early += X.early_used; sh->spur += X.spur_used;
    if (X.strat == S_RW) sh->execs_rw++; else if (X.strat == S_PCT) sh->execs_pct++; else sh->execs_starve++;
    for (int i = 0; i < X.nlab; i++) {
      int k; for (k = 0; k < sh->nlab; k++) if (!strncmp(sh->lab[k], X.lab[i], 39)) break;
      if (k == sh->nlab && k < 128) { strncpy(sh->lab[k], X.lab[i], 39); sh->nlab++; }
      if (k < 128) sh->labn[k]++;
    }
    if (X.discarded) { sh->discards++; continue; }
    if (X.nontriv) {
      sh->nontriv++;
      uint64_t h = X.trace_hash; h = mix(h, si); for (uint32_t i = 0; i < sh->nprog; i++) h = (h ^ sh->prog[i]) * 0x100000001B3ull;
      hashes[(*nhash)++] = h;
      if (sh->nsamp < 2 || (sh->nsamp < 5 && n > 40 && mix(cs, 5) % 200 == 0)) {
        snprintf(sh->samp[sh->nsamp++], sizeof sh->samp[0], "[%s case %llu: %llu scheduling steps, %llu switches, %u program choices] %s", scens[si]->name, (unsigned long long)j, (unsigned long long)X.steps, (unsigned long long)X.switches, sh->nprog, sh->notes);
      }
    }
  }
  arm(0);
  _exit(0);
}

int pbt_main(int argc, char** argv, const char* rule) {
  uint64_t seed = 1, cases = 1000; int W = 8; double tlimit = 600; const char *out = 0, *replay = 0, *rep_out = "/tmp/replay.txt", *prop = "X", *bin = argv[0], *only = 0;
  double shrink_s = 25;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return argv[++i]; };
    if (a == "--seed") seed = strtoull(nx(), 0, 10); else if (a == "--cases") cases = strtoull(nx(), 0, 10); else if (a == "--workers") W = atoi(nx());
    else if (a == "--time") tlimit = atof(nx()); else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--replay-out") rep_out = nx();
    else if (a == "--prop") prop = nx(); else if (a == "--bin") bin = nx(); else if (a == "--scenario") only = nx(); else if (a == "--shrink") shrink_s = atof(nx());
    else if (a == "--list") { for (Scenario* s = scen_head; s; s = s->next) printf("%s %u\n", s->name, s->weight); return 0; }
  }
  for (Scenario* s = scen_head; s; s = s->next) scens.push_back(s);
  std::sort(scens.begin(), scens.end(), [](Scenario* a, Scenario* b) { return strcmp(a->name, b->name) < 0; });
  int onlyi = -1;
  if (only) { for (size_t i = 0; i < scens.size(); i++) if (!strcmp(scens[i]->name, only)) onlyi = (int)i; if (onlyi < 0) { fprintf(stderr, "no scenario %s\n", only); return 2; } }
  rt_init();
  double t0 = wall();
  Shm* base = new_shm();
  shm = base;
  // warm up in a probe child first: a crash there is a failure of the simplest program
  int failed_warm = -1;
  for (size_t i = 0; i < scens.size(); i++) {
    if (!scens[i]->weight) continue;   // known-finding demonstrations
    pid_t p = fork();
    if (p == 0) { for (int k = 0; k < WARM; k++) { warm_case((int)i, k); base->evals = k + 1; } _exit(0); }
    int st; waitpid(p, &st, 0);
    int good = (int)base->evals; base->evals = 0;
    if (good == 0 || !WIFEXITED(st)) { failed_warm = (int)i; break; }
    for (int k = 0; k < good; k++) warm_case((int)i, k);   // a failing one is left to the search
    arm(0);
    base->failed = 0; base->msg[0] = base->where[0] = base->notes[0] = 0;
  }
  if (replay) {
    FILE* f = fopen(replay, "r"); if (!f) { perror(replay); return 2; }
    Failure fl; fl.scn = -1; fl.case_no = 0; char* line = 0; size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
      if (!strncmp(line, "---", 3)) break;
      if (!strncmp(line, "scenario ", 9)) { std::string n = line + 9; while (!n.empty() && n.back() == '\n') n.pop_back(); for (size_t i = 0; i < scens.size(); i++) if (n == scens[i]->name) fl.scn = (int)i; }
      std::vector<uint16_t>* v = !strncmp(line, "prog", 4) ? &fl.prog : !strncmp(line, "sched", 5) ? &fl.sched : 0;
      if (v) { char* q = strchr(line, ' '); while (q && *q) { char* e; unsigned long x = strtoul(q, &e, 10); if (e == q) break; v->push_back((uint16_t)x); q = e; } }
    }
    if (fl.scn < 0) { fprintf(stderr, "unknown scenario\n"); return 2; }
    Failure o; bool bad = child_replay(fl, o, base);
    printf("%s\n%s\n%s\n%s\n", bad ? "FAILED" : "passed", base->msg, base->where, base->notes);
    return bad ? 1 : 0;
  }
  Failure best; bool have = false;
  std::vector<Shm*> shs; std::vector<uint64_t*> hs, nhs;
  uint64_t per = cases / W + 2;
  if (failed_warm >= 0) {
    best.scn = failed_warm; best.case_no = 0; best.msg = base->failed ? base->msg : "crash: simplest program"; best.where = base->where; best.notes = base->notes; have = true;
  } else {
    std::vector<pid_t> pids;
    fflush(0);
    for (int w = 0; w < W; w++) {
      Shm* s = new_shm(); shs.push_back(s);
      uint64_t* h = (uint64_t*)mmap(0, (per + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      hs.push_back(h);
      pid_t p = fork();
      if (p == 0) worker(s, h + 1, h, w, W, seed, cases, tlimit, onlyi);
      pids.push_back(p);
    }
    int left = W; std::vector<int> bad;
    while (left) {
      int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break; left--;
      int w = (int)(std::find(pids.begin(), pids.end(), p) - pids.begin());
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !bad.empty()) continue;
      if (!shs[w]->failed) snprintf(shs[w]->msg, sizeof shs[w]->msg, "crash: worker ended with status %x", st);
      bad.push_back(w);
      if (bad.size() == 1) for (int k = 0; k < W; k++) if (k != w) kill(pids[k], SIGKILL);
    }
    if (!bad.empty()) {
      int w = bad[0]; for (int b : bad) if (shs[b]->case_no < shs[w]->case_no) w = b;
      Shm* s = shs[w];
      best.scn = s->scenario; best.case_no = s->case_no; best.msg = s->msg; best.where = s->where; best.notes = s->notes;
      best.prog.assign(s->prog, s->prog + s->nprog); best.sched.assign(s->sched, s->sched + s->nsched);
      have = true;
    }
  }
  int repro = 0, tries = 0; std::string orig;
  if (have) {
    orig = best.msg;
    fprintf(stderr, "[pbt] failure in %s case %llu: %s\n", scens[best.scn]->name, (unsigned long long)best.case_no, best.msg.c_str());
    Failure o; Shm* sh = new_shm();
    if (child_replay(best, o, sh) ) {
      Failure cur2 = o; if (category(o.msg) == category(best.msg)) best = o; else best = o;
      best = shrink(best, shrink_s, &tries);
    }
    for (int i = 0; i < 3; i++) if (child_replay(best, o, sh)) { repro++; best.msg = o.msg; best.notes = o.notes; best.where = o.where; }
    write_replay(rep_out, best, prop, bin);
    fprintf(stderr, "[pbt] shrunk to %zu program choices, %zu schedule choices (%d tries), reproduced %d/3\n", best.prog.size(), best.sched.size(), tries, repro);
    fprintf(stderr, "[pbt] %s\n[pbt] %s\n%s\n", best.msg.c_str(), best.where.c_str(), best.notes.c_str());
  }
  if (out) {
    std::vector<uint64_t> all; Shm T; Shm& t = *new (&T) Shm; memset(&t, 0, sizeof t);
    for (size_t w = 0; w < shs.size(); w++) {
      Shm* s = shs[w];
      all.insert(all.end(), hs[w] + 1, hs[w] + 1 + hs[w][0]);
      t.evals += s->evals; t.nontriv += s->nontriv; t.discards += s->discards; t.steps += s->steps; t.switches += s->switches; t.contended += s->contended; t.cwaits += s->cwaits; t.tadv += s->tadv; t.early += s->early; t.spur += s->spur;
      t.execs_pct += s->execs_pct; t.execs_rw += s->execs_rw; t.execs_starve += s->execs_starve;
      for (int i = 0; i < 64; i++) t.sc_evals[i] += s->sc_evals[i];
      for (int i = 0; i < s->nlab; i++) { int k; for (k = 0; k < t.nlab; k++) if (!strcmp(t.lab[k], s->lab[i])) break; if (k == t.nlab && k < 128) { memcpy(t.lab[k], s->lab[i], 40); t.nlab++; } if (k < 128) t.labn[k] += s->labn[i]; }
    }
    std::sort(all.begin(), all.end()); size_t distinct = std::unique(all.begin(), all.end()) - all.begin();
    FILE* f = fopen(out, "w");
    fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %zu, \"discards\": %llu, \"steps\": %llu, \"switches\": %llu, \"lock_contention\": %llu, \"cond_waits\": %llu, \"time_advances\": %llu, \"early_time\": %llu, \"spurious\": %llu, \"strategy\": {\"random\": %llu, \"pct\": %llu, \"starve\": %llu}, \"wall_s\": %.2f, \"rule\": ",
            (unsigned long long)t.evals, (unsigned long long)t.nontriv, distinct, (unsigned long long)t.discards, (unsigned long long)t.steps, (unsigned long long)t.switches, (unsigned long long)t.contended, (unsigned long long)t.cwaits, (unsigned long long)t.tadv, (unsigned long long)t.early, (unsigned long long)t.spur,
            (unsigned long long)t.execs_rw, (unsigned long long)t.execs_pct, (unsigned long long)t.execs_starve, wall() - t0);
    js(f, rule); fprintf(f, ", \"scenarios\": {"); for (size_t i = 0; i < scens.size(); i++) { if (i) fputs(", ", f); js(f, scens[i]->name); fprintf(f, ": %llu", (unsigned long long)t.sc_evals[i]); }
    fprintf(f, "}, \"labels\": {"); for (int i = 0; i < t.nlab; i++) { if (i) fputs(", ", f); js(f, t.lab[i]); fprintf(f, ": %llu", (unsigned long long)t.labn[i]); }
    fprintf(f, "}, \"samples\": ["); int c = 0; for (size_t w = 0; w < shs.size() && c < 4; w++) for (int i = 0; i < shs[w]->nsamp && c < 4; i += (w == 0 ? 1 : 2)) { if (c++) fputs(", ", f); js(f, shs[w]->samp[i]); }
    fprintf(f, "], \"failed\": %d, \"reproduced\": %d, \"message\": ", have ? 1 : 0, repro); js(f, have ? best.msg : ""); fprintf(f, ", \"first_message\": "); js(f, orig); fprintf(f, ", \"program\": "); js(f, have ? best.notes : "");
    fprintf(f, "}\n"); fclose(f);
  }
  return have ? 1 : 0;
}
}
