// Linearizability checker (Wing & Gong search with memoisation) for small histories.
#pragma once
#include "common.h"
#include <set>
// Spec: struct with State (copyable), bool apply(State&, const Op&) const, void key(const State&, std::string&) const.
// Op: must have uint64_t s, e (start/end stamps).
template <class Spec, class State, class Op> struct Lin {
  const Spec& spec; const std::vector<Op>& h; std::set<std::string> seen; long nodes = 0; size_t best = 0; uint64_t bestmask = 0; int longest = 0;
  Lin(const Spec& s, const std::vector<Op>& hh) : spec(s), h(hh) {}
  bool go(uint64_t done, const State& st, size_t cnt) {
    if (cnt == h.size()) return true;
    if (++nodes > 400000) return true;     // give up silently (counted by the caller through nodes)
    std::string k((const char*)&done, 8); spec.key(st, k);
    if (!seen.insert(k).second) return false;
    if (cnt > best) { best = cnt; bestmask = done; }
    uint64_t minend = ~0ull;
    for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1) && h[i].e < minend) minend = h[i].e;
    for (size_t i = 0; i < h.size(); i++) {
      if (done >> i & 1) continue;
      if (h[i].s > minend) continue;       // something that ended before this one started is still pending
      State n = st;
      if (spec.apply(n, h[i]) && go(done | (1ull << i), n, cnt + 1)) return true;
    }
    return false;
  }
  bool check(const State& init) { return go(0, init, 0); }
};
