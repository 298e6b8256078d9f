// C23: containers and statistics against straightforward models.
#include "comp.h"
#include <vt/config.h>
#include <vt/utils/container/circular_buffer.h>
#include <vt/scheduler/queue.h>
#include <vt/scheduler/priority_queue.h>
#include <vt/utils/adt/histogram_approx.h>
#include <vt/utils/stats/linear_regression.h>
#include <vt/utils/ptr/observer.h>
#include <vt/timing/timing_type.h>
#include <vt/vrt/collection/balance/stats_msg.h>
#include <vt/collective/reduce/operators/functors/plus_op.h>
#include <list>
#include <memory>

using comp::rng;

// a value that owns memory: lost, doubled or stale elements show up, also to the sanitizers
struct Box {
  std::unique_ptr<uint64_t> p; static long live;
  Box() { live++; }
  explicit Box(uint64_t v) : p(new uint64_t(v)) { live++; }
  Box(Box&& o) noexcept : p(std::move(o.p)) { live++; }
  Box(Box const& o) : p(o.p ? new uint64_t(*o.p) : nullptr) { live++; }
  Box& operator=(Box&&) = default;
  Box& operator=(Box const& o) { p.reset(o.p ? new uint64_t(*o.p) : nullptr); return *this; }
  ~Box() { live--; }
  uint64_t get() const { return p ? *p : ~0ull; }
  friend bool operator<(Box const& a, Box const& b) { return a.get() < b.get(); }
};
long Box::live = 0;

template <int CAP> static void circular(int ops) {
  mon::scenario("circular-buffer");
  vt::util::container::CircularBuffer<Box, CAP> b;
  std::deque<uint64_t> m; size_t const room = CAP - 1;     // one slot tells full from empty
  std::string k = std::to_string(CAP);
  double bias = rng().unit() * .5 + .25;
  for (int i = 0; i < ops; i++) {
    if (i % 50 == 0) bias = rng().unit() * .7 + .15;
    if (rng().chance(bias)) {
      if (m.size() < room) {
        uint64_t v = rng().next(); m.push_back(v); mon::stat("pushes");
        switch (rng()(3)) { case 0: { Box x(v); b.push(x); break; } case 1: b.push(Box(v)); break; default: b.emplace(v); }
      }
    } else if (!m.empty()) {
      Box x = b.pop(); mon::stat("pops"); mon::eval();
      MON_CHECK(x.get() == m.front(), ("circular:order:" + k).c_str(), "operation %d, %zu elements", i, m.size());
      m.pop_front();
    }
    mon::eval();
    MON_CHECK(size_t(b.size()) == m.size() && b.empty() == m.empty() && b.full() == (m.size() == room) && size_t(b.numFree()) == room - m.size(), ("circular:size:" + k).c_str(),
              "%zu of %zu elements: size %d free %d empty %d full %d", m.size(), room, b.size(), b.numFree(), int(b.empty()), int(b.full()));
    mon::distinct(mon::mix(CAP, m.size() * 4 + (i & 3)));
  }
}
static void queues(int ops) {
  mon::scenario("work-queue");
  { vt::sched::Queue<Box> q; std::deque<uint64_t> m; double bias = .5;
    for (int i = 0; i < ops; i++) {
      if (i % 100 == 0) bias = rng().unit();
      if (rng().chance(bias) && m.size() < 400) { uint64_t v = rng().next(); m.push_back(v); if (rng().chance(.5)) q.push(Box(v)); else q.emplace(Box(v)); }
      else if (!m.empty()) { mon::eval(); Box x = q.pop(); MON_CHECK(x.get() == m.front(), "queue:order", "operation %d, %zu elements", i, m.size()); m.pop_front(); }
      if (q.size() > 64) mon::stat("overflowing_queue");
      MON_CHECK(q.size() == m.size() && q.empty() == m.empty(), "queue:size", "%zu elements: %zu", m.size(), size_t(q.size()));
      mon::distinct(mon::mix(0x55, m.size()));
    }
    while (!m.empty()) { Box x = q.pop(); MON_CHECK(x.get() == m.front(), "queue:order", "draining, %zu elements", m.size()); m.pop_front(); }
    MON_CHECK(q.empty(), "queue:size", "drained");
  }
  { vt::sched::PriorityQueue<Box> q; std::multiset<uint64_t> m; double bias = .5;
    for (int i = 0; i < ops; i++) {
      if (i % 100 == 0) bias = rng().unit();
      if (rng().chance(bias) && m.size() < 300) { uint64_t v = rng()(20); m.insert(v); if (rng().chance(.5)) q.push(Box(v)); else q.emplace(Box(v)); }
      else if (!m.empty()) { mon::eval(); Box x = q.pop(); auto top = std::prev(m.end()); MON_CHECK(x.get() == *top, "priority-queue:order", "%llu popped, greatest %llu", (unsigned long long)x.get(), (unsigned long long)*top); auto it = m.find(x.get()); m.erase(it == m.end() ? top : it); mon::stat("priority_pops"); }
      MON_CHECK(q.size() == m.size() && q.empty() == m.empty(), "priority-queue:size", "%zu elements: %zu", m.size(), size_t(q.size()));
    }
  }
}

template <class T> static void histogram() {
  mon::scenario("histogram");
  bool real = std::is_floating_point<T>::value;
  int cap = rng().chance(.4) ? 200 + int(rng()(100)) : 1 + int(rng()(20));
  vt::adt::HistogramApprox<T, int64_t> h(cap);
  std::map<T, int64_t> m; int64_t total = 0;
  auto val = [&](long span) -> T { T v = T(long(rng()(span * 2)) - (real || rng().chance(.3) ? span : 0)); if (real && rng().chance(.5)) v += T(rng().unit()); return v; };
  auto fill = [&](vt::adt::HistogramApprox<T, int64_t>& g, std::map<T, int64_t>& mm, int64_t& tot, int n, long span) {
    for (int i = 0; i < n; i++) { T v = val(span); int64_t c = rng().chance(.7) ? 1 : 1 + int64_t(rng()(30)); g.add(v, c); mm[v] += c; tot += c; }
  };
  long span = rng().chance(.3) ? 5 : 1 + long(rng()(1000));
  fill(h, m, total, 1 + int(rng()(150)), span);
  bool fits = m.size() <= size_t(cap);
  auto judge = [&](bool exact, char const* how) {
    mon::eval(); mon::stat("histograms"); if (exact) mon::stat("exact_histograms");
    auto& cs = h.getCentroids();
    int64_t sum = 0; bool sorted = true; double mass = 0, want = 0;
    for (size_t i = 0; i < cs.size(); i++) { sum += cs[i].getCount(); mass += double(cs[i].getValue()) * cs[i].getCount(); if (i && cs[i].getValue() < cs[i - 1].getValue()) sorted = false; }
    for (auto& [v, c] : m) want += double(v) * c;
    MON_CHECK(h.getCount() == total && sum == total, "histogram:count", "%s: %lld values, count %lld, centroids hold %lld", how, (long long)total, (long long)h.getCount(), (long long)sum);
    MON_CHECK(h.getMin() == m.begin()->first && h.getMax() == m.rbegin()->first, "histogram:range", "%s: [%g,%g] instead of [%g,%g]", how, double(h.getMin()), double(h.getMax()), double(m.begin()->first), double(m.rbegin()->first));
    MON_CHECK(sorted, "histogram:sorted", "%s: centroids out of order", how);
    MON_CHECK(cs.size() <= size_t(cap) && h.getNumCentroids() == int64_t(cs.size()) && h.getMaxCentroids() == cap, "histogram:capacity", "%s: %zu centroids of %d", how, cs.size(), cap);
    for (auto& c : cs) MON_CHECK(!(c.getValue() < h.getMin()) && !(h.getMax() < c.getValue()) && c.getCount() > 0, "histogram:centroid", "%s: centroid %g outside [%g,%g]", how, double(c.getValue()), double(h.getMin()), double(h.getMax()));
    if (real) MON_CHECK(std::fabs(mass - want) <= 1e-6 * (std::fabs(want) + double(total) * span), "histogram:mass", "%s: the mean moved from %g to %g", how, want / total, mass / total);
    if (exact) {
      bool same = cs.size() == m.size(); size_t i = 0;
      if (same) for (auto& [v, c] : m) { if (cs[i].getValue() != v || cs[i].getCount() != c) same = false; i++; }
      MON_CHECK(same, "histogram:exact", "%s: %zu distinct values, %zu centroids", how, m.size(), cs.size());
    }
    double prev = 0;
    for (int i = 0; i < 30; i++) {
      double p = rng().chance(.5) ? double(val(span)) : double(m.begin()->first) + rng().unit() * (double(m.rbegin()->first) - double(m.begin()->first));
      double e = h.estimateNumValues(p), n = 0; for (auto& [v, c] : m) if (double(v) <= p) n += double(c);
      mon::eval();
      MON_CHECK(e >= -1e-9 && e <= double(total) * (1 + 1e-12), "histogram:estimate-range", "%s: %g of %lld values up to %g", how, e, (long long)total, p);
      if (exact) MON_CHECK(e == n, "histogram:estimate", "%s: %g of %lld values up to %g, not %g", how, e, (long long)total, p, n);
      (void)prev;
    }
    for (int i = 0; i < 15; i++) {
      double p = rng().chance(.2) ? double(rng()(2)) : rng().unit(), q = h.quantile(p);
      mon::eval();
      MON_CHECK(q >= double(h.getMin()) - 1e-6 * span && q <= double(h.getMax()) + 1e-6 * span, "histogram:quantile-range", "%s: quantile %g is %g, outside [%g,%g]", how, p, q, double(h.getMin()), double(h.getMax()));
      if (exact) MON_CHECK(p == 1. || m.count(T(q)), "histogram:quantile-value", "%s: quantile %g is %g, which is not a value", how, p, q);
    }
    mon::distinct(mon::mix(cs.size() * 1000 + cap, uint64_t(total)));
  };
  judge(fits, "filled");
  if (rng().chance(.6)) {
    std::map<T, int64_t> m2; int64_t t2 = 0; int cap2 = 1 + int(rng()(60));
    vt::adt::HistogramApprox<T, int64_t> g(cap2);
    fill(g, m2, t2, 1 + int(rng()(80)), span);
    bool fits2 = m2.size() <= size_t(cap2);
    h.mergeIn(g); total += t2; for (auto& [v, c] : m2) m[v] += c;
    mon::stat("merged_histograms");
    judge(fits && fits2 && m.size() <= size_t(cap), "merged");
  }
}

static void regression() {
  mon::scenario("regression");
  size_t n = 2 + rng()(60);
  double a = (rng().unit() - .5) * 20, b = (rng().unit() - .5) * 200; bool line = rng().chance(.5);
  std::vector<double> x, y;
  double at = (rng().unit() - .5) * 100;
  for (size_t i = 0; i < n; i++) { x.push_back(at); at += .1 + rng().unit() * 3; y.push_back(a * x.back() + b + (line ? 0 : (rng().unit() - .5) * 30)); }
  for (size_t i = n; i > 1; i--) { size_t j = rng()(i); std::swap(x[i - 1], x[j]); std::swap(y[i - 1], y[j]); }
  vt::util::stats::LinearRegression r(x, y);
  double at0 = r.predict(0);
  long double mx = 0, my = 0, sxy = 0, sxx = 0;
  for (size_t i = 0; i < n; i++) { mx += x[i]; my += y[i]; }
  mx /= n; my /= n;
  for (size_t i = 0; i < n; i++) { sxy += (x[i] - mx) * (y[i] - my); sxx += (x[i] - mx) * (x[i] - mx); }
  double sl = double(sxy / sxx), ic = double(my - sxy / sxx * mx);
  double tol = 1e-5 * (1 + std::fabs(sl) + std::fabs(ic));
  mon::eval(); mon::stat("regressions");
  MON_CHECK(std::fabs(r.getSlope() - sl) < tol && std::fabs(r.getIntercept() - ic) < tol, "regression:fit", "%zu points: slope %.12g, not %.12g; intercept %.12g, not %.12g", n, r.getSlope(), sl, r.getIntercept(), ic);
  for (int i = 0; i < 5; i++) { double p = (rng().unit() - .5) * 1000; mon::eval(); MON_CHECK(std::fabs(r.predict(p) - (sl * p + ic)) < tol * (1 + std::fabs(p)), "regression:predict", "at %g", p); }
  MON_CHECK(std::fabs(at0 - ic) < tol, "regression:predict", "at 0");
  vt::util::stats::LinearRegression r2(x, y); r2.compute();
  MON_CHECK(r2.getSlope() == r.getSlope() && r2.getIntercept() == r.getIntercept(), "regression:stable", "computed twice");
  mon::distinct(mon::mix(n, uint64_t(line)));
}

// Load statistics: merged in any order and grouping they are those of all the values together.
static void loadStats() {
  using vt::vrt::collection::balance::LoadData;
  mon::scenario("load-statistics");
  size_t n = rng().chance(.6) ? 1 + rng()(40) : 1 + rng()(6000);
  int shape = int(rng()(5)); double scale = std::pow(10., double(rng()(7)) - 4);
  std::vector<double> v(n);
  for (auto& x : v) x = scale * (shape == 0 ? rng().unit() : shape == 1 ? 1 + rng().unit() : shape == 2 ? std::pow(rng().unit(), 6) * 10 : shape == 3 ? double(rng()(3)) : double(rng()(2) ? 5 : 1) + rng().unit() * .1);
  std::vector<LoadData> parts;
  for (auto x : v) parts.emplace_back(vt::vrt::collection::lb::Statistic::Object_load_raw, x);
  int how = int(rng()(3));
  while (parts.size() > 1) {       // a left-to-right sum, a balanced tree, or any order
    if (how == 0) { auto a = parts[0]; for (size_t i = 1; i < parts.size(); i++) a = a + parts[i]; parts.assign(1, a); }
    else if (how == 1) { std::vector<LoadData> up; for (size_t i = 0; i < parts.size(); i += 2) up.push_back(i + 1 < parts.size() ? parts[i] + parts[i + 1] : parts[i]); parts.swap(up); }
    else { size_t i = rng()(parts.size()); std::swap(parts[i], parts.back()); auto b = parts.back(); parts.pop_back(); size_t j = rng()(parts.size()); parts[j] = parts[j] + b; }
  }
  auto const& d = parts[0];
  long double s = 0, m2 = 0, m3 = 0, m4 = 0; int nz = 0;
  for (auto x : v) { s += x; nz += x != 0; }
  long double mean = s / n;
  for (auto x : v) { long double e = x - mean; m2 += e * e; m3 += e * e * e; m4 += e * e * e * e; }
  auto near = [&](double got, long double want, double tol, char const* what) {
    mon::eval(); MON_CHECK(std::fabs(double(got - want)) <= tol, (std::string("loadstats:") + what).c_str(), "%zu values of shape %d merged in way %d: %.12g, not %.12Lg", n, shape, how, got, want); };
  double lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end());
  near(d.min(), lo, 0, "min"); near(d.max(), hi, 0, "max"); near(d.sum(), s, 1e-9 * std::fabs(double(s)), "sum"); near(d.avg(), mean, 1e-9 * hi, "mean");
  near(d.var(), m2 / n, 1e-7 * double(m2 / n) + 1e-12 * hi * hi, "variance"); near(d.stdv(), sqrtl(m2 / n), 1e-5 * hi, "deviation");
  near(d.N_, n, 0, "count"); near(d.npr(), nz, 0, "nonzero");
  near(d.I(), mean > 0 ? hi / mean - 1 : 0, 1e-7 * (1 + std::fabs(double(hi / (mean ? mean : 1)))), "imbalance");
  if (n > 2 && m2 / n > 1e-6 * hi * hi && m2 > 1e-140) {
    long double sd = sqrtl(m2 / (n - 1)), sk = m3 / (n * sd * sd * sd), ku = m4 / (n * sd * sd * sd * sd) - 3;
    near(d.skew(), sk, 1e-5 * (1 + std::fabs(double(sk))), "skewness"); near(d.krte(), ku, 1e-5 * (1 + std::fabs(double(ku))), "kurtosis");
    mon::stat("load_moments");
  }
  mon::stat("load_statistics"); mon::distinct(mon::mix(n, uint64_t(shape * 4 + how)));
}

static void times() {
  mon::scenario("time-type");
  for (int i = 0; i < 20; i++) {
    double a = (rng().unit() - .3) * std::pow(10., double(rng()(12)) - 6), b = (rng().unit() - .3) * std::pow(10., double(rng()(12)) - 6), s = rng().unit() * 10 + .1;
    if (rng().chance(.2)) b = a;
    vt::TimeType x{a}, y{b}; mon::eval();
    auto eq = [&](vt::TimeType t, double v, char const* what) { MON_CHECK(t.seconds() == v, (std::string("time:") + what).c_str(), "%.17g and %.17g: %.17g, not %.17g", a, b, t.seconds(), v); };
    eq(x + y, a + b, "sum"); eq(x - y, a - b, "difference"); eq(x * y, a * b, "product"); eq(x * s, a * s, "scaled"); eq(s * x, s * a, "scaled"); eq(x / s, a / s, "divided");
    if (b != 0) eq(x / y, a / b, "ratio");
    if (a != 0) eq(s / x, s / a, "inverse");
    auto z = x; z += y; eq(z, a + b, "add"); z = x; z -= y; eq(z, a - b, "subtract"); z = x; z *= s; eq(z, a * s, "multiply"); z = x; z /= s; eq(z, a / s, "divide");
    MON_CHECK((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "time:compare", "%.17g and %.17g", a, b);
    MON_CHECK(std::fabs(x.milliseconds() - a * 1e3) <= 1e-9 * std::fabs(a * 1e3) && std::fabs(x.microseconds() - a * 1e6) <= 1e-9 * std::fabs(a * 1e6) && double(x) == a, "time:units", "%.17g", a);
    if (a >= 0) eq(sqrt(x), std::sqrt(a), "root");
    mon::stat("times");
  }
}

int main() {
  return comp::run([] {
    int n = mon::thorough() ? 1500 : 200;
    for (int i = 0; i < n; i++) {
      circular<2>(60); circular<3>(100); circular<8>(200); circular<64>(500); circular<5>(100);
      mon::eval(); MON_CHECK(Box::live == 0, "container:leaked-elements", "%ld elements still there", Box::live);
      queues(700);
      MON_CHECK(Box::live == 0, "container:leaked-elements", "%ld elements still there", Box::live);
      for (int k = 0; k < 4; k++) { histogram<double>(); histogram<int64_t>(); regression(); loadStats(); }
      times();
      mon::sample(mon::fmt("round %d: circular buffers, queues, histograms, regressions, times", i));
    }
  });
}
