// Monitor core: what a harness process reports to the driver.
// One file per process, written with O_APPEND and one write per line.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <csignal>

namespace mon {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(x * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); }
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t operator()(uint64_t n) { return n ? next() % n : 0; }          // [0,n)
  int64_t range(int64_t a, int64_t b) { return a + int64_t((*this)(uint64_t(b - a) + 1)); }
  double unit() { return double(next() >> 11) / 9007199254740992.0; }
  bool chance(double p) { return unit() < p; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull + (a << 6) + (a >> 2));
  z = (z ^ (z >> 31)) * 0x94D049BB133111EBull;
  return z ^ (z >> 29);
}
inline uint64_t hashStr(std::string const& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

struct State {
  int fd = -1;
  int rank = 0;
  std::string scenario = "start";
  std::map<std::string, uint64_t> stats;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, int> nviol;
  int nsample = 0;
  uint64_t progress = 0;        // bumped by every monitored event
  bool finished = false;
  std::recursive_mutex mu;
};
inline State& st() { static State* s = new State; return *s; }
using Lock = std::lock_guard<std::recursive_mutex>;

inline void raw(std::string line) {
  for (auto& c : line) if (c == '\n') c = ' ';
  if (line.size() > 3500) line.resize(3500);
  line += '\n';
  int fd = st().fd >= 0 ? st().fd : 1;
  ssize_t r = ::write(fd, line.data(), line.size());
  (void)r;
}
inline std::string vfmt(char const* f, va_list ap) {
  char b[3000];
  vsnprintf(b, sizeof b, f, ap);
  return b;
}
__attribute__((format(printf, 1, 2))) inline std::string fmt(char const* f, ...) {
  va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap); return s;
}

inline char const* arg(char const* name, char const* dflt) {
  auto v = getenv(name);
  return v && *v ? v : dflt;
}
inline uint64_t argi(char const* name, uint64_t dflt) {
  auto v = getenv(name);
  return v && *v ? strtoull(v, nullptr, 10) : dflt;
}
inline uint64_t seed() { static uint64_t s = argi("MON_SEED", 1); return s; }
inline bool thorough() { return !strcmp(arg("MON_TIER", "quick"), "thorough"); }
inline std::string dir() { return arg("MON_DIR", "/tmp"); }

inline void start(int rank) {
  auto& s = st();
  s.rank = rank;
  if (auto d = getenv("MON_DIR")) {
    auto p = fmt("%s/rank%d.log", d, rank);
    s.fd = ::open(p.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
  }
  raw(fmt("MON-START rank=%d pid=%d", rank, int(getpid())));
}
inline void scenario(std::string const& n) {
  Lock l(st().mu);
  st().scenario = n;
  st().progress++;
  raw("MON-SCENARIO " + n);
}
inline void progress() { st().progress++; }
inline void stat(std::string const& k, uint64_t n = 1) { Lock l(st().mu); st().stats[k] += n; }
inline void eval(uint64_t n = 1) { stat("eval", n); st().progress++; }
// one distinct non-trivial case, behaviour or interleaving
inline void distinct(uint64_t h) { Lock l(st().mu); st().distinct.insert(h); }
inline void sample(std::string const& s) {
  Lock l(st().mu);
  if (st().nsample++ < 6) raw("MON-SAMPLE " + s);
}
// key: stable name of what is broken (no addresses, no counts)
__attribute__((format(printf, 2, 3)))
inline void violation(char const* key, char const* f, ...) {
  va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap);
  Lock l(st().mu);
  if (st().nviol[key]++ < 3)
    raw(std::string("MON-VIOLATION ") + key + " | rank " + std::to_string(st().rank) +
        " scenario " + st().scenario + ": " + s);
}
inline uint64_t nviolations() { uint64_t n = 0; for (auto& x : st().nviol) n += x.second; return n; }
#define MON_CHECK(cond, key, ...) do { if (!(cond)) mon::violation(key, __VA_ARGS__); } while (0)

inline void finish() {
  Lock l(st().mu);
  auto& s = st();
  if (s.finished) return;
  s.finished = true;
  for (auto& x : s.stats) raw("MON-STAT " + x.first + " " + std::to_string(x.second));
  if (auto d = getenv("MON_DIR")) {
    auto p = fmt("%s/rank%d.distinct", d, s.rank);
    if (FILE* f = fopen(p.c_str(), "wb")) {
      std::vector<uint64_t> v(s.distinct.begin(), s.distinct.end());
      if (v.size() > 400000) v.resize(400000);
      fwrite(v.data(), 8, v.size(), f);
      fclose(f);
    }
  }
  raw("MON-DONE");
}

inline double now() {
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

// Logical-step watchdog: called from every poll of the message layer.  Fires when nothing
// monitored has happened for a very large number of polls and, too, for a long time.
struct Watch { uint64_t polls = 0, last = 0; double since = 0; uint64_t maxPolls = 200000; double maxS = 25; bool on = true; };
inline Watch& watch() { static Watch w; return w; }
inline void hang(char const* why) {
  raw("MON-HANG " + st().scenario + " | " + why + fmt(" polls=%llu", (unsigned long long)watch().polls));
  _exit(77);
}
inline void poll() {
  auto& w = watch();
  if (!w.on) return;
  if (st().progress != w.last) { w.last = st().progress; w.polls = 0; w.since = 0; return; }
  if ((++w.polls & 1023) == 0) {
    if (w.since == 0) { w.since = now(); return; }
    if (w.polls > w.maxPolls && now() - w.since > w.maxS)
      hang("no monitored event");
  }
}

} // namespace mon
