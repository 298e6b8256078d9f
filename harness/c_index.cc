// C18: dense indices, their linearizations and mappings, and the bounded location cache.
#include "comp.h"
#include <vt/config.h>
#include <vt/topos/index/index.h>
#include <vt/topos/mapping/mapping.h>
#include <vt/topos/mapping/dense/dense.h>
#include <vt/topos/mapping/dense/unbounded_default.h>
#include <vt/topos/location/cache/cache.h>
#include <vt/utils/hash/hash_tuple.h>
#include <set>
#include <list>

using comp::rng;
namespace vi = vt::index;
namespace vm = vt::mapping;

template <class T, int8_t N> static std::string show(vi::DenseIndexArray<T, N> const& x) {
  std::string s; for (int i = 0; i < N; i++) s += (i ? "," : "") + std::to_string((long long)x.get(T(i))); return s;
}
static std::vector<long> extents(int n, long cap, bool zero) {
  std::vector<long> e(n);
  long prod = 1;
  for (auto& x : e) {
    switch (rng()(5)) { case 0: x = 1; break; case 1: x = 2; break; default: x = 1 + long(rng()(17)); }
    while (prod * x > cap) x = (x + 1) / 2;
    if (prod * x > cap) x = 1;
    prod *= x;
  }
  if (n == 1) e[0] = 1 + long(rng()(uint64_t(cap)));
  if (zero && rng().chance(.05)) e[rng()(n)] = 0;
  return e;
}
template <class T, int8_t N> static vi::DenseIndexArray<T, N> make(std::vector<long> const& v) {
  std::array<T, N> a; for (int i = 0; i < N; i++) a[i] = T(v[i]);
  return vi::DenseIndexArray<T, N>(a);
}

template <class T, int8_t N> static void indices() {
  using I = vi::DenseIndexArray<T, N>;
  std::string dim = std::to_string(int(N)) + "d";
  mon::scenario("index-" + dim);
  long cap = sizeof(T) == 1 ? 100 : 3000;
  auto e = extents(N, cap, true);
  I max = make<T, N>(e);
  long total = 1; for (auto x : e) total *= x;
  mon::eval();
  MON_CHECK(long(max.getSize()) == total, ("index:size:" + dim).c_str(), "getSize of [%s] is %ld", show<T, N>(max).c_str(), long(max.getSize()));
  // foreach: every point of the box exactly once, the first dimension the fastest
  std::vector<long> want(N, 0); long seen = 0;
  max.foreach([&](I i) {
    mon::eval();
    std::vector<long> got; for (int d = 0; d < N; d++) got.push_back(long(i[T(d)]));
    MON_CHECK(got == want, ("index:foreach:" + dim).c_str(), "element %ld of the range [%s] is [%s]", seen, show<T, N>(max).c_str(), show<T, N>(i).c_str());
    want = got; seen++;
    for (int d = 0; d < N; d++) { if (++want[d] < e[d]) break; want[d] = 0; }
  });
  MON_CHECK(seen == total, ("index:foreach-count:" + dim).c_str(), "range [%s] visited %ld times", show<T, N>(max).c_str(), seen);
  mon::stat("foreach_points", seen);
  mon::distinct(mon::mix(mon::hashStr(show<T, N>(max)), N * 100 + sizeof(T)));
  if (!total) return;
  // linearization: a bijection with [0, size), consistent with the stated major order
  std::vector<char> c(total), r(total);
  std::vector<vt::NodeType> ranks{1, 2, 3, 5, vt::NodeType(1 + rng()(64)), vt::NodeType(1 + rng()(5000))};
  std::sort(ranks.begin(), ranks.end()); ranks.erase(std::unique(ranks.begin(), ranks.end()), ranks.end());
  std::map<vt::NodeType, std::map<vt::NodeType, long>> load;
  std::vector<I> pts; max.foreach([&](I i) { pts.push_back(i); });
  for (auto& p : pts) {
    mon::eval(2);
    long cm = 0, rm = 0;
    for (int d = 0; d < N; d++) cm = cm * e[d] + long(p[T(d)]);
    for (int d = N - 1; d >= 0; d--) rm = rm * e[d] + long(p[T(d)]);
    long gc = long(vm::linearizeDenseIndexColMajor<T, N>(&p, &max)), gr = long(vm::linearizeDenseIndexRowMajor<T, N>(&p, &max));
    MON_CHECK(gc == cm, ("index:linearize-col:" + dim).c_str(), "[%s] of [%s] -> %ld, not %ld", show<T, N>(p).c_str(), show<T, N>(max).c_str(), gc, cm);
    MON_CHECK(gr == rm, ("index:linearize-row:" + dim).c_str(), "[%s] of [%s] -> %ld, not %ld", show<T, N>(p).c_str(), show<T, N>(max).c_str(), gr, rm);
    for (auto n : ranks) {
      vt::NodeType b, rr;
      if constexpr (N == 1) { b = vm::dense1DBlockMap<T>(&p, &max, n); rr = vm::dense1DRoundRobinMap<T>(&p, &max, n); }
      else if constexpr (N == 2) { b = vm::dense2DBlockMap<T>(&p, &max, n); rr = vm::dense2DRoundRobinMap<T>(&p, &max, n); }
      else if constexpr (N == 3) { b = vm::dense3DBlockMap<T>(&p, &max, n); rr = vm::dense3DRoundRobinMap<T>(&p, &max, n); }
      else { b = vm::denseNDBlockMap<T, N>(&p, &max, n); rr = vm::denseNDRoundRobinMap<T, N>(&p, &max, n); }
      mon::eval(2);
      MON_CHECK(b >= 0 && b < n, ("mapping:block-range:" + dim).c_str(), "[%s] of [%s] on %d ranks -> %d", show<T, N>(p).c_str(), show<T, N>(max).c_str(), int(n), int(b));
      MON_CHECK(rr >= 0 && rr < n, ("mapping:rr-range:" + dim).c_str(), "[%s] of [%s] on %d ranks -> %d", show<T, N>(p).c_str(), show<T, N>(max).c_str(), int(n), int(rr));
      MON_CHECK(rr == vt::NodeType(cm % n), ("mapping:rr:" + dim).c_str(), "[%s] of [%s] on %d ranks -> %d", show<T, N>(p).c_str(), show<T, N>(max).c_str(), int(n), int(rr));
      // block map: contiguous blocks, the first (total % n) one larger
      long fl = total / n, rem = total % n;
      long at = cm < rem * (fl + 1) ? cm / (fl + 1) : rem + (cm - rem * (fl + 1)) / std::max(fl, 1l);
      MON_CHECK(b == at, ("mapping:block:" + dim).c_str(), "[%s] of [%s] on %d ranks -> %d, not %ld", show<T, N>(p).c_str(), show<T, N>(max).c_str(), int(n), int(b), at);
      load[n][b]++;
    }
  }
  for (auto& [n, m] : load) {
    long lo = total, hi = 0;
    for (vt::NodeType k = 0; k < n; k++) { long x = m.count(k) ? m[k] : 0; lo = std::min(lo, x); hi = std::max(hi, x); }
    MON_CHECK(hi - lo <= 1, ("mapping:block-balance:" + dim).c_str(), "[%s] on %d ranks: blocks of %ld to %ld elements", show<T, N>(max).c_str(), int(n), lo, hi);
  }
  mon::stat("mapped", pts.size());
  // identity, order, hash and bits of random points
  std::map<uint64_t, std::vector<long>> bits;
  for (int k = 0; k < 40; k++) {
    std::vector<long> a(N), b(N);
    int nb = 64 / N;
    long lim = long(std::min<uint64_t>(uint64_t(std::numeric_limits<T>::max()), nb >= 62 ? 1ull << 62 : (1ull << nb) - 1));
    auto val = [&]() -> long { return rng().chance(.3) ? long(rng()(3)) : rng().chance(.15) ? lim - long(rng()(2)) : long(rng()(uint64_t(lim))); };
    for (auto& x : a) x = val();
    b = a; if (rng().chance(.7)) b[rng()(N)] = val();
    I x = make<T, N>(a), y = make<T, N>(b);
    mon::eval();
    MON_CHECK((x == y) == (a == b), ("index:equal:" + dim).c_str(), "[%s] and [%s] compare %d", show<T, N>(x).c_str(), show<T, N>(y).c_str(), int(x == y));
    if constexpr (sizeof(T) > 1) { std::ostringstream o; o << x; auto w = show<T, N>(x); w.erase(std::remove(w.begin(), w.end(), ' '), w.end()); auto g = o.str(); MON_CHECK(g == "idx(" + w + ")", ("index:print:" + dim).c_str(), "[%s] is printed as %s", w.c_str(), g.c_str()); }
    MON_CHECK(!(x == y) || std::hash<I>()(x) == std::hash<I>()(y), ("index:hash:" + dim).c_str(), "[%s]", show<T, N>(x).c_str());
    std::vector<long> ra(a.rbegin(), a.rend()), rb(b.rbegin(), b.rend());
    MON_CHECK((x < y) == (ra < rb) && (y < x) == (rb < ra), ("index:less:" + dim).c_str(), "[%s] < [%s] is %d, the converse %d", show<T, N>(x).c_str(), show<T, N>(y).c_str(), int(x < y), int(y < x));
    auto back = I::uniqueBitsToIndex(x.uniqueBits());
    MON_CHECK(back == x, ("index:bits:" + dim).c_str(), "[%s] -> %016llx -> [%s]", show<T, N>(x).c_str(), (unsigned long long)x.uniqueBits(), show<T, N>(back).c_str());
    auto [it, fresh] = bits.emplace(x.uniqueBits(), a);
    MON_CHECK(fresh || it->second == a, ("index:bits-unique:" + dim).c_str(), "[%s] has the bits of another index", show<T, N>(x).c_str());
    I copy(x), assigned; assigned = y;
    MON_CHECK(copy == x && assigned == y, ("index:copy:" + dim).c_str(), "[%s]", show<T, N>(x).c_str());
    std::string s = "[" + show<T, N>(x) + "]";
    if (sizeof(T) > 1) MON_CHECK(x.toString() == s, ("index:string:" + dim).c_str(), "[%s] printed as %s", show<T, N>(x).c_str(), x.toString().c_str());
    for (int d = 0; d < N; d++) MON_CHECK(x.get(T(d)) == T(a[d]) && x.raw()[d] == T(a[d]), ("index:get:" + dim).c_str(), "dimension %d of [%s]", d, show<T, N>(x).c_str());
    MON_CHECK(x.x() == T(a[0]), ("index:x:" + dim).c_str(), "[%s]", show<T, N>(x).c_str());
    if constexpr (N >= 2) MON_CHECK(x.y() == T(a[1]), ("index:y:" + dim).c_str(), "[%s]", show<T, N>(x).c_str());
    if constexpr (N >= 3) MON_CHECK(x.z() == T(a[2]), ("index:z:" + dim).c_str(), "[%s]", show<T, N>(x).c_str());
    if constexpr (N >= 4) MON_CHECK(x.u() == T(a[3]), ("index:u:" + dim).c_str(), "[%s]", show<T, N>(x).c_str());
    if constexpr (N >= 5) MON_CHECK(x.v() == T(a[4]), ("index:v:" + dim).c_str(), "[%s]", show<T, N>(x).c_str());
    if constexpr (N >= 6) MON_CHECK(x.w() == T(a[5]), ("index:w:" + dim).c_str(), "[%s]", show<T, N>(x).c_str());
    // sums and differences, dimension by dimension
    std::vector<long> p(N), q(N); for (int d = 0; d < N; d++) { q[d] = long(rng()(50)); p[d] = q[d] + long(rng()(50)); }
    I P = make<T, N>(p), Q = make<T, N>(q), S = P + Q, D = P - Q;
    for (int d = 0; d < N; d++)
      MON_CHECK(S[T(d)] == T(p[d] + q[d]) && D[T(d)] == T(p[d] - q[d]), ("index:arith:" + dim).c_str(), "[%s] and [%s]: sum [%s], difference [%s]", show<T, N>(P).c_str(), show<T, N>(Q).c_str(), show<T, N>(S).c_str(), show<T, N>(D).c_str());
    MON_CHECK((P + Q) - Q == P, ("index:arith:" + dim).c_str(), "sum minus one part");
    I single(vi::DenseIndexArraySingleInitTag{}, T(a[0]));
    for (int d = 0; d < N; d++) MON_CHECK(single[T(d)] == T(a[0]), ("index:single-init:" + dim).c_str(), "dimension %d", d);
    MON_CHECK(x.packedSize() == N * sizeof(T) && x.indexIsByteCopyable(), ("index:packed:" + dim).c_str(), "%zu", size_t(x.packedSize()));
  }
}

// the flat block map with sizes far from those a box can reach
template <class T> static void blockMap() {
  mon::scenario("block-map");
  uint64_t lim = std::numeric_limits<T>::max();
  uint64_t total = rng().chance(.5) ? rng()(std::min<uint64_t>(lim, 300)) : rng()(std::min<uint64_t>(lim, 1ull << 40));
  int n = rng().chance(.5) ? 1 + int(rng()(16)) : 1 + int(rng()(32000));
  T tot = T(total);
  uint64_t fl = total / n, rem = total % n;
  uint64_t at0 = rng()(total ? total : 1);
  vt::NodeType last = 0; bool first = true;
  for (uint64_t i = at0; i < std::min(total, at0 + 60); i++) {
    T f = T(i);
    auto got = vm::blockMapDenseFlatIndex<T, vt::NodeType>(&f, &tot, vt::NodeType(n));
    uint64_t want = i < rem * (fl + 1) ? i / (fl + 1) : rem + (i - rem * (fl + 1)) / fl;
    mon::eval();
    MON_CHECK(uint64_t(got) == want, "mapping:flat-block", "element %llu of %llu on %d -> %lld, not %llu", (unsigned long long)i, (unsigned long long)total, n, (long long)got, (unsigned long long)want);
    MON_CHECK(first || got == last || got == last + 1, "mapping:flat-block-order", "element %llu of %llu on %d", (unsigned long long)i, (unsigned long long)total, n);
    last = got; first = false;
  }
  mon::stat("flat_mapped");
  mon::distinct(mon::mix(total, n));
}

template <class I, class T, int N> static void unbounded() {
  mon::scenario("unbounded-map");
  vm::UnboundedDefaultMap<I> m;
  for (int k = 0; k < 40; k++) {
    std::array<T, N> a; for (auto& x : a) { x = T(rng().next() >> rng()(8 * sizeof(T))); if (rng().chance(.4)) x = T(rng()(20)) - T(rng()(20)); }
    I i(a); int n = 1 + int(rng()(300));
    auto r = m.map(&i, N, vt::NodeType(n)), again = m.map(&i, N, vt::NodeType(n));
    mon::eval(); mon::stat("unbounded_mapped");
    MON_CHECK(r >= 0 && r < n, "mapping:unbounded-range", "index %s on %d ranks -> %d", i.toString().c_str(), n, int(r));
    MON_CHECK(r == again, "mapping:unbounded-stable", "index %s", i.toString().c_str());
    mon::distinct(mon::mix(uint64_t(a[0]), n));
  }
}

// the location cache: at most max entries; the least recently inserted or read one leaves first
template <class K> static void cache(int ops) {
  mon::scenario("location-cache");
  using L = vt::location::LocationCache<K, int>;
  size_t max = rng().chance(.2) ? 1 : 1 + rng()(40);
  L c(max);
  std::list<std::pair<K, int>> model;    // front: most recent
  auto find = [&](K k) { return std::find_if(model.begin(), model.end(), [&](auto& p) { return p.first == k; }); };
  size_t space = 1 + rng()(max * 3);
  auto key = [&] { return K(rng()(space) * 7919 + 3); };
  for (int i = 0; i < ops; i++) {
    K k = key(); auto it = find(k);
    switch (rng()(4)) {
    case 0: case 1: {
      int v = int(rng()(1000));
      c.insert(k, v); mon::stat("cache_inserts");
      if (it != model.end()) model.erase(it); else if (model.size() == max) { model.pop_back(); mon::stat("cache_evictions"); }
      model.emplace_front(k, v);
      break; }
    case 2:
      mon::eval();
      MON_CHECK(c.exists(k) == (it != model.end()), "cache:exists", "key %s: %d (%zu entries of %zu)", std::to_string(k).c_str(), int(c.exists(k)), model.size(), max);
      if (it != model.end() && c.exists(k)) {
        int v = c.get(k);
        MON_CHECK(v == it->second, "cache:value", "key %s holds %d, not %d", std::to_string(k).c_str(), v, it->second);
        model.splice(model.begin(), model, it); mon::stat("cache_hits");
      }
      break;
    default:
      if (rng().chance(.5)) { c.remove(k); if (it != model.end()) model.erase(it); mon::stat("cache_removes"); }
    }
    if (i % 16 == 0 || i == ops - 1) {
      for (size_t s = 0; s < space; s++) {
        K q = K(s * 7919 + 3); mon::eval();
        MON_CHECK(c.exists(q) == (find(q) != model.end()), "cache:contents", "key %s: %d after %d operations (%zu of %zu entries)", std::to_string(q).c_str(), int(c.exists(q)), i + 1, model.size(), max);
      }
      MON_CHECK(c.getSize() == vt::location::LocationSizeType(max), "cache:size", "%ld", long(c.getSize()));
      mon::distinct(mon::mix(model.size() * 100 + max, i));
    }
  }
}

int main() {
  return comp::run([] {
    int n = mon::thorough() ? 400 : 60;
    for (int i = 0; i < n; i++) {
      indices<int, 1>(); indices<int, 2>(); indices<int, 3>(); indices<int, 4>(); indices<int, 5>(); indices<int, 6>();
      indices<int64_t, 1>(); indices<int64_t, 2>(); indices<int64_t, 3>(); indices<int16_t, 2>(); indices<uint64_t, 2>(); indices<int8_t, 2>(); indices<uint32_t, 3>();
      for (int k = 0; k < 10; k++) { blockMap<int>(); blockMap<int64_t>(); blockMap<uint64_t>(); blockMap<int16_t>(); }
      unbounded<vi::DenseIndexArray<int, 1>, int, 1>(); unbounded<vi::DenseIndexArray<int, 3>, int, 3>(); unbounded<vi::DenseIndexArray<int64_t, 2>, int64_t, 2>();
      cache<int>(300); cache<uint64_t>(300);
      mon::sample(mon::fmt("round %d of boxes in 1 to 6 dimensions", i));
    }
  });
}
