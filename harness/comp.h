// Shared skeleton of the harnesses that drive one component in one process.
#pragma once
#include "mon.h"
#include <functional>
#include <sys/time.h>
#include <stdexcept>
#include <vt/configs/debug/debug_masterconfig.h>
#include <vt/configs/arguments/app_config.h>
#include <cmath>
#include <algorithm>
#include <deque>
#include <limits>

namespace comp {

inline mon::Rng& rng() { static mon::Rng r(mon::mix(mon::seed(), 77)); return r; }

// Fires when a very large amount of CPU time was spent without one monitored event: judged by
// CPU time consumed, so a loaded machine does not matter.
inline void onProf(int) {
  static uint64_t last = ~0ull; static int n = 0;
  if (mon::st().progress != last) { last = mon::st().progress; n = 0; return; }
  if (++n >= 30) mon::hang("30 s of CPU time without a monitored event");
}
inline void start(int rank = 0) {
  mon::start(rank);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = onProf; sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  itimerval t{{1, 0}, {1, 0}};
  setitimer(ITIMER_PROF, &t, nullptr);
}

// stable name for the text of an abort or an exception
inline std::string why(std::string t) {
  std::string o;
  for (auto c : t) { if (isdigit((unsigned char)c)) c = 'N'; if (c == ' ') c = '_'; if (isalnum((unsigned char)c) || strchr("_.:<>=!&|+-", c)) if (!(c == 'N' && !o.empty() && o.back() == 'N')) o += c; if (o.size() > 60) break; }
  return o;
}
// the body runs without a runtime; an assertion or abort in the code under test becomes an exception
inline int run(std::function<void()> body, int rank = 0) {
  start(rank);
  const_cast<vt::arguments::AppConfig*>(vt::debug::preConfig())->vt_throw_on_abort = true;
  try { body(); }
  catch (std::exception const& e) {
    auto sc = mon::st().scenario;
    mon::violation(("abort:" + sc + ":" + why(e.what())).c_str(), "%s", e.what());
  }
  mon::finish();
  return 0;
}
inline std::string show(double d) { return mon::fmt("%.17g", d); }

} // namespace comp
