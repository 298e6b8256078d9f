// Component packs over many dependency graphs: what is constructed, in which order, polled and torn down.
#include "comp.h"
#include <vt/transport.h>
#include <vt/runtime/component/component_pack.h>
#include <set>
#include <map>
using namespace vt;
using namespace vt::runtime::component;
using comp::rng;

constexpr int N = 10;
constexpr int G = 9;
constexpr uint32_t hsh(uint32_t g, uint32_t i, uint32_t j) {
  uint32_t z = g * 2654435761u ^ (i * 40503u + 977u) ^ (j * 69069u + 12345u);
  z ^= z >> 15; z *= 2246822519u; z ^= z >> 13; z *= 3266489917u; z ^= z >> 16;
  return z;
}
// startup order: a permutation of the components per graph, so that ids do not already sort them
constexpr int pos(int g, int i) { return (i * (g % 2 ? 3 : 7) + g) % N; }
constexpr bool startupDep(int g, int i, int j) { return i != j && pos(g, j) < pos(g, i) && hsh(g, i, j) % uint32_t(2 + g % 5) == 0; }
constexpr bool runtimeDep(int g, int i, int j) { return i != j && hsh(g + 100, i, j) % uint32_t(4 + g % 7) == 0; }

struct Ev { char kind; int i; void* self; int arg; };
static std::vector<Ev> lg;
static void* refs[N];
static bool needs[N], polls[N];
static int polled[N];
static ComponentIDType ids[N];

template <int g, int i>
struct C : Component<C<g, i>> {
  static std::unique_ptr<C> construct(int a, int& b, std::unique_ptr<int> c) {
    auto p = std::make_unique<C>(); p->a = a; b++; p->c = std::move(c);
    lg.push_back({'c', i, p.get(), 0});
    return p;
  }
  ~C() { lg.push_back({'d', i, this, 0}); }
  int a = 0; std::unique_ptr<int> c;
  std::string name() override { return "C" + std::to_string(i); }
  bool pollable() override { return polls[i]; }
  void initialize() override {
    if (*reinterpret_cast<C**>(&refs[i]) != this) mon::violation("pack:reference", "component %d: the outside reference is not set when it is initialized", i);
    if (a != i * 3 || !c || *c != i + 1) mon::violation("pack:arguments", "component %d: constructor arguments differ", i);
    lg.push_back({'i', i, this, 0});
  }
  void startup() override { lg.push_back({'s', i, this, 0}); ids[i] = this->getComponentID(); }
  void finalize() override { lg.push_back({'f', i, this, 0}); }
  int progress(TimeType t) override { polled[i]++; return int(t.seconds()) + i; }
  bool needsCurrentTime() override { return needs[i]; }
};

template <class... Ts> struct L {};
template <int g, int i, bool S, int j, class... Ts>
constexpr auto collect(L<Ts...>) {
  if constexpr (j == N) return L<Ts...>{};
  else if constexpr (S ? startupDep(g, i, j) : runtimeDep(g, i, j)) return collect<g, i, S, j + 1>(L<Ts..., C<g, j>>{});
  else return collect<g, i, S, j + 1>(L<Ts...>{});
}
template <class... Ts> StartupDeps<Ts...> asS(L<Ts...>) { return {}; }
template <class... Ts> RuntimeDeps<Ts...> asR(L<Ts...>) { return {}; }

template <int g, int i>
void reg(ComponentPack& p, int& b) {
  p.registerComponent<C<g, i>>(reinterpret_cast<C<g, i>**>(&refs[i]), asS(collect<g, i, true, 0>(L<>{})), asR(collect<g, i, false, 0>(L<>{})),
                               i * 3, b, std::make_unique<int>(i + 1));
}
template <int g, size_t... I>
void regAll(ComponentPack& p, int& b, std::vector<int> const& order, std::index_sequence<I...>) {
  static void (*f[])(ComponentPack&, int&) = {&reg<g, int(I)>...};
  for (int i : order) f[i](p, b);
}
template <int g, int i> void addOne(ComponentPack& p) { p.add<C<g, i>>(); }
template <int g, size_t... I>
void addSome(ComponentPack& p, std::vector<int> const& which, std::index_sequence<I...>) {
  static void (*f[])(ComponentPack&) = {&addOne<g, int(I)>...};
  for (int i : which) f[i](p);
}
template <int g, int i> std::pair<int, void*> extract(ComponentPack& p, std::string const& n) {
  auto x = p.extractComponent<C<g, i>>(n);
  if (!x) return {0, nullptr};
  void* v = x.get(); int r = x->name() == n; x.reset();
  return {r ? 1 : 2, v};
}
template <int g, size_t... I>
std::pair<int, void*> extractAny(ComponentPack& p, int i, std::index_sequence<I...>) {
  static std::pair<int, void*> (*f[])(ComponentPack&, std::string const&) = {&extract<g, int(I)>...};
  return f[i](p, "C" + std::to_string(i));
}
template <typename T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rng()(i)]); }

template <int g>
void graph() {
  using Seq = std::make_index_sequence<N>;
  std::vector<int> order(N), which;
  for (int i = 0; i < N; i++) { order[i] = i; needs[i] = rng()(8) == 0; polls[i] = rng()(2); polled[i] = 0; refs[i] = nullptr; ids[i] = 0; }
  shuffle(order);
  for (int i = 0; i < N; i++) if (rng()(4) == 0) which.push_back(i);
  shuffle(which);
  std::set<int> expect(which.begin(), which.end());
  for (bool more = true; more;) {
    more = false;
    for (int i : std::vector<int>(expect.begin(), expect.end()))
      for (int j = 0; j < N; j++) if ((startupDep(g, i, j) || runtimeDep(g, i, j)) && expect.insert(j).second) more = true;
  }
  lg.clear();
  int b = 0;
  {
    auto pp = std::make_unique<ComponentPack>(); auto& p = *pp;
    bool addFirst = rng()(2);
    if (addFirst) addSome<g>(p, which, Seq{});
    regAll<g>(p, b, order, Seq{});
    if (rng()(4) == 0) { int c2 = 0; regAll<g>(p, c2, {order[0]}, Seq{}); }   // registering again has no effect
    if (!addFirst) addSome<g>(p, which, Seq{});
    if (p.isLive()) mon::violation("pack:live", "live before construction");
    if (!lg.empty()) mon::violation("pack:early", "something was constructed before construct()");
    p.construct();
    mon::eval();
    if (!p.isLive()) mon::violation("pack:live", "not live after construction");
    std::map<int, int> cAt, iAt, sAt; int lastInit = -1, firstStart = 1 << 30;
    for (int k = 0; k < int(lg.size()); k++) {
      auto& e = lg[k];
      auto& m = e.kind == 'c' ? cAt : e.kind == 'i' ? iAt : sAt;
      if (e.kind == 'd' || e.kind == 'f') { mon::violation("pack:destroyed-early", "component %d torn down during construction", e.i); continue; }
      if (m.count(e.i)) mon::violation("pack:twice", "component %d: step %c twice", e.i, e.kind);
      m[e.i] = k;
      if (e.kind == 'i') lastInit = k;
      if (e.kind == 's') firstStart = std::min(firstStart, k);
      mon::eval();
    }
    for (int i = 0; i < N; i++) {
      bool x = expect.count(i);
      if (cAt.count(i) != x || iAt.count(i) != x || sAt.count(i) != x)
        mon::violation(x ? "pack:missing" : "pack:extra", "graph %d component %d: needed %d, constructed %d initialized %d started %d", g, i, x, int(cAt.count(i)), int(iAt.count(i)), int(sAt.count(i)));
      if (!x) continue;
      for (int j = 0; j < N; j++) if (startupDep(g, i, j) && expect.count(j) && !(iAt[j] < cAt[i]))
        mon::violation("pack:order", "graph %d: component %d was constructed before its dependency %d was initialized", g, i, j);
    }
    if (firstStart < lastInit) mon::violation("pack:startup-early", "a component was started before all were initialized");
    if (b != int(expect.size())) mon::violation("pack:arguments", "%d constructor calls saw the reference argument, not %zu", b, expect.size());
    std::set<ComponentIDType> idset; std::vector<int> live;
    p.foreach([&](BaseComponent* c) { live.push_back(std::stoi(c->name().substr(1))); });
    for (int i : expect) if (!idset.insert(ids[i]).second || ids[i] == 0) mon::violation("pack:id", "component %d has id %llu", i, (unsigned long long)ids[i]);
    if (live.size() != expect.size() || std::set<int>(live.begin(), live.end()) != expect) mon::violation("pack:foreach", "foreach visits %zu components, %zu are live", live.size(), expect.size());
    int np = int(rng()(4));
    for (int k = 0; k < np; k++) {
      int t = int(rng()(5));
      int want = 0; for (int i : expect) if (polls[i]) want += t + i;
      int got = p.progress(TimeType{double(t)});
      if (got != want) mon::violation("pack:progress-total", "progress returns %d, not %d", got, want);
    }
    for (int i = 0; i < N; i++) if (polled[i] != (expect.count(i) && polls[i] ? np : 0)) mon::violation("pack:progress", "component %d polled %d times, not %d", i, polled[i], np);
    bool nt = false; for (int i : expect) nt = nt || (polls[i] && needs[i]);
    if (p.needsCurrentTime() != nt) mon::violation("pack:needs-time", "needsCurrentTime is %d", !nt);
    mon::eval(4);
    std::set<int> gone;
    if (rng()(3) == 0) {
      int i = int(rng()(N));
      auto [r, v] = extractAny<g>(p, i, Seq{});
      if (r == 2 || (r == 1) != bool(expect.count(i)) || (r && v != refs[i])) mon::violation("pack:extract", "extracting component %d by name: result %d, it is %slive", i, r, expect.count(i) ? "" : "not ");
      if (r) gone.insert(i);
      mon::stat("extracted");
    }
    lg.clear();
    bool explicitly = rng()(2);
    if (explicitly) { p.destruct(); if (p.isLive()) mon::violation("pack:live", "live after destruction"); if (p.progress(TimeType{0.}) != 0) mon::violation("pack:progress-after", "progress after destruction"); }
    std::vector<int> cons;
    for (auto& [k, i] : [&] { std::map<int, int> r; for (auto& [i, k] : cAt) r[k] = i; return r; }()) if (!gone.count(i)) cons.push_back(i);
    auto judge = [&] {
      std::vector<int> fin; std::map<int, int> des;
      for (auto& e : lg) {
        if (e.kind == 'f') { fin.push_back(e.i); if (des.count(e.i)) mon::violation("pack:finalize-late", "component %d finalized after it was destroyed", e.i); }
        else if (e.kind == 'd') { if (des[e.i]++) mon::violation("pack:destroyed-twice", "component %d", e.i); }
        else mon::violation("pack:teardown", "step %c during teardown", e.kind);
        mon::eval();
      }
      // a component is finalized while everything it depends on still exists
      std::reverse(fin.begin(), fin.end());
      if (fin != cons) mon::violation("pack:finalize-order", "graph %d: finalized %zu components, not the %zu live ones in the opposite order of construction", g, fin.size(), cons.size());
      if (des.size() != cons.size()) mon::violation("pack:destroy", "%zu of %zu components destroyed", des.size(), cons.size());
    };
    if (explicitly) { judge(); lg.clear(); cons.clear(); }
    mon::distinct(mon::mix(g, mon::mix(which.size(), mon::mix(expect.size(), order[0] * 16 + order[1]))));
    pp.reset();
    if (!explicitly) { judge(); }
    lg.clear();
  }
  if (!lg.empty()) mon::violation("pack:teardown-twice", "%zu steps after the teardown", lg.size());
  mon::stat("packs"); mon::stat("constructed", expect.size());
}
template <size_t... I> void all(std::index_sequence<I...>) {
  static void (*f[])() = {&graph<int(I)>...};
  for (int r = 0; r < (mon::thorough() ? 20000 : 3000); r++) f[rng()(G)]();
}
int main() {
  return comp::run([] { mon::scenario("component-pack"); all(std::make_index_sequence<G>{}); });
}
