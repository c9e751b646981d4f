#pragma once
#include "../rt/sim.h"
#include <boost/chrono/chrono.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
namespace bc = boost::chrono; namespace pt = boost::posix_time;
inline pt::ptime to_ptime(int64_t ns) {   // exact only for microseconds
  return pt::ptime(boost::gregorian::date(1970, 1, 1)) + pt::seconds((long)(ns / 1000000000)) + pt::microseconds((ns % 1000000000) / 1000);
}
inline bc::steady_clock::time_point steady_tp(int64_t ns) { return bc::steady_clock::time_point(bc::nanoseconds(ns)); }
inline bc::system_clock::time_point system_tp(int64_t ns) { return bc::system_clock::time_point(bc::duration_cast<bc::system_clock::duration>(bc::nanoseconds(ns))); }
inline int64_t now_on(int clk) { return clk ? sim::real_now() : sim::mono_now(); }
// A user-defined clock: runs at its own epoch, derived from the monotonic clock, millisecond period.
struct ms_clock {
  typedef bc::milliseconds duration; typedef duration::rep rep; typedef duration::period period;
  typedef bc::time_point<ms_clock> time_point; static const bool is_steady = true;
  static time_point now() { return time_point(bc::duration_cast<bc::milliseconds>(bc::steady_clock::now().time_since_epoch())); }
};
