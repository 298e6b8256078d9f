// C19: the regions that describe which ranks form a group: each is a set of ranks, whatever is done with it.
#include "comp.h"
#include <vt/config.h>
#include <vt/group/region/group_region.h>
#include <vt/group/region/group_range.h>
#include <vt/group/region/group_list.h>
#include <vt/group/region/group_shallow_list.h>

using comp::rng;
using namespace vt::group::region;
using V = std::vector<vt::NodeType>;
using Ptr = Region::RegionUPtrType;

static std::string show(V const& v) { std::string s; for (size_t i = 0; i < v.size() && i < 30; i++) s += (i ? "," : "") + std::to_string(v[i]); return "{" + s + "}"; }

// the elements of a region by its public interface alone: head and tail until nothing is left
static V members(Region const& r) {
  V out; Ptr c = r.copy();
  while (c->getSize() > 0 && out.size() < 5000) { out.push_back(c->head()); c = c->tail(); }
  return out;
}
static void judge(Region& r, V const& want, std::string const& kind, char const* how, int depth);

static void checkSame(Region& r, V const& want, std::string const& k, char const* how) {
  mon::eval();
  MON_CHECK(r.getSize() == want.size(), ("region:size:" + k).c_str(), "%s: size %zu of %s", how, size_t(r.getSize()), show(want).c_str());
  vt::NodeType lo = want.empty() ? 0 : *std::min_element(want.begin(), want.end()), hi = want.empty() ? 4 : *std::max_element(want.begin(), want.end());
  V probe = want; for (int i = 0; i < 20; i++) probe.push_back(vt::NodeType(std::max<long>(0, long(lo) - 2 + long(rng()(uint64_t(hi - lo + 5))))));
  for (auto n : probe) {
    bool in = std::find(want.begin(), want.end(), n) != want.end();
    mon::eval();
    MON_CHECK(r.contains(n) == in, ("region:contains:" + k).c_str(), "%s: contains(%d) is %d in %s", how, int(n), int(!in), show(want).c_str());
  }
}
static void judge(Region& r, V const& want, std::string const& k, char const* how, int depth) {
  checkSame(r, want, k, how);
  V m = members(r);
  MON_CHECK(m == want, ("region:head-tail:" + k).c_str(), "%s: head and tail yield %s, not %s", how, show(m).c_str(), show(want).c_str());
  { Ptr c = r.copy(); checkSame(*c, want, k, "copy"); }
  if (!want.empty()) MON_CHECK(r.head() == want[0], ("region:head:" + k).c_str(), "%s: head %d of %s", how, int(r.head()), show(want).c_str());
  // split in n: disjoint parts in order that together are the region, none of them empty
  int n = 1 + int(rng()(rng().chance(.5) ? 4 : 40));
  V all; std::vector<Ptr> parts;
  r.splitN(n, [&](Ptr p) { parts.push_back(std::move(p)); });
  size_t mn = ~0ul;
  for (auto& p : parts) { V x = members(*p); mn = std::min(mn, x.size()); all.insert(all.end(), x.begin(), x.end()); }
  mon::eval(); mon::stat("splits");
  MON_CHECK(all == want, ("region:splitN:" + k).c_str(), "%s: %s split in %d parts is %s", how, show(want).c_str(), n, show(all).c_str());
  MON_CHECK(parts.size() == std::min<size_t>(n, want.size()), ("region:splitN-count:" + k).c_str(), "%s: %zu parts of %s asked for %d", how, parts.size(), show(want).c_str(), n);
  MON_CHECK(parts.empty() || mn > 0, ("region:splitN-empty:" + k).c_str(), "%s: an empty part of %s in %d", how, show(want).c_str(), n);
  if (depth > 0) {
    size_t at = 0;
    for (auto& p : parts) { size_t len = members(*p).size(); if (at + len <= want.size()) judge(*p, V(want.begin() + at, want.begin() + at + len), k, "part of splitN", depth - 1); at += len; if (rng().chance(.6)) break; }
  }
  if (want.size() >= 2) {
    auto [a, b] = r.split();
    V x = members(*a), y = members(*b); V both = x; both.insert(both.end(), y.begin(), y.end());
    mon::eval();
    MON_CHECK(both == want, ("region:split:" + k).c_str(), "%s: %s split in two is %s and %s", how, show(want).c_str(), show(x).c_str(), show(y).c_str());
    MON_CHECK(!x.empty() && !y.empty(), ("region:split-empty:" + k).c_str(), "%s: %s", how, show(want).c_str());
    if (depth > 0 && both == want) { judge(*a, x, k, "first half", depth - 1); judge(*b, y, k, "second half", depth - 1); }
    Ptr t = r.tail();
    if (depth > 0) judge(*t, V(want.begin() + 1, want.end()), k, "tail", depth - 1);
  }
  mon::distinct(mon::mix(mon::hashStr(k + how), want.size() * 64 + n));
}

static V randomList(bool sorted) {
  size_t n = rng().chance(.1) ? rng()(2) : 1 + rng()(40);
  std::set<vt::NodeType> s; while (s.size() < n) s.insert(vt::NodeType(rng()(n * 3 + 5)));
  V v(s.begin(), s.end());
  if (!sorted) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rng()(i)]);
  return v;
}

int main() {
  return comp::run([] {
    int n = mon::thorough() ? 6000 : 900;
    for (int i = 0; i < n; i++) {
      { mon::scenario("range"); mon::stat("ranges");
        vt::NodeType lo = vt::NodeType(rng()(20)), len = vt::NodeType(rng()(60)), st = vt::NodeType(rng().chance(.3) ? 1 : 1 + rng()(7));
        Range r(lo, vt::NodeType(lo + len), st);
        V want; for (int x = lo; x < lo + len; x += st) want.push_back(vt::NodeType(x));
        judge(r, want, "range", "range", 2);
        r.sort(); MON_CHECK(!r.isList(), "region:kind:range", "a range says it is a list");
        Ptr before = r.copy();
        MON_CHECK(r.makeList() == want, "region:list:range", "list of [%d,%d) by %d is %s", int(lo), int(lo + len), int(st), show(r.makeList()).c_str());
        judge(r, want, "range", "range after makeList", 1); judge(*before, want, "range", "copied range", 1);
        vt::NodeType cut = vt::NodeType(rng()(want.size() + 1));
        Range rest(Range(lo, vt::NodeType(lo + len), st), cut);
        judge(rest, V(want.begin() + cut, want.end()), "range", "range without its first ranks", 1);
      }
      bool srt = rng().chance(.4);
      V v = randomList(srt), sorted = v; std::sort(sorted.begin(), sorted.end());
      { mon::scenario("list"); mon::stat("lists");
        std::unique_ptr<List> l;
        switch (rng()(3)) { case 0: l = std::make_unique<List>(v); break; case 1: { V w = v; l = std::make_unique<List>(std::move(w)); break; } default: l = std::make_unique<List>(v.data(), v.size(), srt); }
        judge(*l, v, "list", "list", 2);
        MON_CHECK(l->isList() && l->makeList() == v, "region:list:list", "%s", show(v).c_str());
        size_t cut = rng()(v.size() + 1);
        List rest(*l, vt::NodeType(cut)); judge(rest, V(v.begin() + cut, v.end()), "list", "list without its first ranks", 1);
        l->sort(); judge(*l, sorted, "list", "sorted list", 2);
        List rest2(*l, vt::NodeType(cut)); judge(rest2, V(sorted.begin() + cut, sorted.end()), "list", "sorted list without its first ranks", 1);
      }
      if (!v.empty()) { mon::scenario("shallow-list"); mon::stat("shallow_lists");
        ShallowList s(v.data(), v.size()); judge(s, v, "shallow", "shallow list", 2);
        MON_CHECK(s.isList() && s.getBound() == v.data(), "region:kind:shallow", "kind");
        List l(v); ShallowList s2(l); judge(s2, v, "shallow", "shallow list of a list", 1);
        ShallowList s3(v); judge(s3, v, "shallow", "shallow list of a vector", 1);
      }
      // equal lists have equal hashes
      { V w = v; MON_CHECK(ListHash()(w) == ListHash()(v), "region:hash", "%s", show(v).c_str()); mon::eval(); }
      mon::sample(mon::fmt("regions with %zu ranks", v.size()));
    }
  });
}
