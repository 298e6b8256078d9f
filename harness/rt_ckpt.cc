// C07: checkpoints of collections: what was saved is what is restored, where it was, whatever happened since.
#include <vt/transport.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include "chaos.h"
#include "dist.h"
#include "mon.h"

using namespace vt;
using dist::local; using dist::me; using dist::np; using dist::shared;

template <typename... A> static uint64_t mix(uint64_t a, A... b) { ((a = mon::mix(a, uint64_t(b))), ...); return a; }

// the state of an element is one word, from which everything it holds is derived
static std::string word(uint64_t v, uint64_t k) { std::string s; for (uint64_t i = 0, n = mon::mix(v, k) % 23; i < n; i++) s += char('a' + mix(v, k, i) % 26); return s; }

template <typename I> struct El;
template <typename I> using P = vrt::collection::CollectionProxy<El<I>, I>;

template <typename I> struct El : vrt::collection::Collection<El<I>, I> {
  uint64_t v = 0; std::vector<uint64_t> vec; std::string str; std::map<int, std::string> dict; double d = 0; std::unique_ptr<int64_t> ptr; uint32_t reached = 0;
  void become(uint64_t x) {
    v = x; vec.clear(); for (uint64_t i = 0, n = mix(x, 1) % 40; i < n; i++) vec.push_back(mix(x, 2, i));
    str = word(x, 3); dict.clear(); for (uint64_t i = 0, n = mix(x, 4) % 5; i < n; i++) dict[int(mix(x, 5, i) % 1000)] = word(x, 6 + i);
    d = double(mix(x, 7) >> 11); ptr = mix(x, 8) & 1 ? std::make_unique<int64_t>(int64_t(mix(x, 9))) : nullptr;
  }
  bool intact() const {
    El e; e.become(v);
    return vec == e.vec && str == e.str && dict == e.dict && d == e.d && !ptr == !e.ptr && (!ptr || *ptr == *e.ptr);
  }
  template <typename S> void serialize(S& s) {
    vrt::collection::Collection<El<I>, I>::serialize(s);
    s | v | vec | str | dict | d | reached;
    bool has = ptr != nullptr; int64_t x = has ? *ptr : 0; s | has | x; ptr = has ? std::make_unique<int64_t>(x) : nullptr;
  }
  void change(uint64_t salt) { become(mon::mix(v, salt)); }
  void go(int to) { this->migrate(NodeType(to)); }
  void touch(uint64_t want) { reached++; if (v != want) mon::violation("checkpoint:message", "a message for an element in state %llx reached one in state %llx", (unsigned long long)want, (unsigned long long)v); }
};

struct Cell { uint64_t v; int at; };
using State = std::map<uint64_t, Cell>;   // by linear position in the bounds

template <typename I> struct Shape;
template <> struct Shape<Index1D> { static Index1D mk(int a, int, int) { return Index1D(a); } static uint64_t key(Index1D const& i) { return uint64_t(i.x()); } };
template <> struct Shape<Index2D> { static Index2D mk(int a, int b, int) { return Index2D(a, b); } static uint64_t key(Index2D const& i) { return uint64_t(i.x()) | uint64_t(i.y()) << 16; } };
template <> struct Shape<Index3D> { static Index3D mk(int a, int b, int c) { return Index3D(a, b, c); } static uint64_t key(Index3D const& i) { return uint64_t(i.x()) | uint64_t(i.y()) << 16 | uint64_t(i.z()) << 32; } };
template <typename I> I unkey(uint64_t k) { return Shape<I>::mk(int(k & 0xffff), int(k >> 16 & 0xffff), int(k >> 32 & 0xffff)); }

// every element of the model, and no other, exists at its place with its contents
template <typename I> static void audit(P<I> px, State const& st, char const* when, P<I> const* other = nullptr) {
  struct Seen { uint64_t key, v, id; int at; };
  std::vector<Seen> mine;
  for (auto& i : theCollection()->getLocalIndices<El<I>>(px)) {
    auto p = px[i].tryGetLocalPtr();
    if (!p) { mon::violation("checkpoint:local", "%s: a local index without an element", when); continue; }
    if (!p->intact()) mon::violation("checkpoint:contents", "%s: an element's contents do not belong together", when);
    if (!(p->getIndex() == i)) mon::violation("checkpoint:index", "%s: an element thinks it is another", when);
    if (p->getCollectionProxy().getProxy() != px.getProxy()) mon::violation("checkpoint:belongs", "%s: an element thinks it is part of another collection", when);
    if (p->getElmID().getCurrNode() != me()) mon::violation("checkpoint:current", "%s: the id of an element says that it is on node %d", when, int(p->getElmID().getCurrNode()));
    mine.push_back({Shape<I>::key(i), p->v, p->getElmID().id, me()});
  }
  auto all = dist::gather(mine);
  if (other) for (auto& i : theCollection()->getLocalIndices<El<I>>(*other)) mine.push_back({0, 0, (*other)[i].tryGetLocalPtr()->getElmID().id, me()});
  auto both = dist::gather(mine);
  std::map<uint64_t, int> n, ids;
  for (auto& r : both) for (auto& s : r) if (++ids[s.id] == 2) mon::violation("checkpoint:id", "%s: two elements have the same id", when);
  for (auto& r : all) for (auto& s : r) {
    mon::eval(); n[s.key]++;
    auto it = st.find(s.key);
    if (it == st.end()) mon::violation("checkpoint:extra", "%s: an element exists that should not", when);
    else if (it->second.v != s.v) mon::violation("checkpoint:state", "%s: an element has state %llx instead of %llx", when, (unsigned long long)s.v, (unsigned long long)it->second.v);
    else if (it->second.at >= 0 && it->second.at != s.at) mon::violation("checkpoint:place", "%s: an element is on rank %d instead of %d", when, s.at, it->second.at);
  }
  for (auto& c : st) if (n[c.first] != 1) mon::violation("checkpoint:count", "%s: %d copies of an element", when, n[c.first]);
  mon::stat("elements_judged", int64_t(st.size()));
}

// messages from everywhere reach every element once
template <typename I> static void reach(P<I> px, State const& st, char const* when) {
  for (auto& i : theCollection()->getLocalIndices<El<I>>(px)) px[i].tryGetLocalPtr()->reached = 0;
  dist::syncAll();
  runInEpochCollective([&] { for (auto& c : st) px[unkey<I>(c.first)].template send<&El<I>::touch>(c.second.v); });
  for (auto& i : theCollection()->getLocalIndices<El<I>>(px)) if (auto n = px[i].tryGetLocalPtr()->reached; n != uint32_t(np())) mon::violation("checkpoint:reach", "%s: %u of %d messages reached an element", when, n, np());
  mon::stat("messages", int64_t(st.size()));
  dist::syncAll();
}

template <typename I> static void round(int no) {
  int dim = 1 + (sizeof(I) > sizeof(Index1D)) + (sizeof(I) > sizeof(Index2D));
  int X = 1 + int(shared()(dim == 1 ? 24 : 5)), Y = dim > 1 ? 1 + int(shared()(4)) : 1, Z = dim > 2 ? 1 + int(shared()(3)) : 1;
  I bounds = Shape<I>::mk(X, Y, Z);
  bool sparse = shared().chance(0.3);
  State st; std::vector<I> list;
  for (int x = 0; x < X; x++) for (int y = 0; y < Y; y++) for (int z = 0; z < Z; z++) {
    if (sparse && shared().chance(0.5) && !(x == 0 && y == 0 && z == 0)) continue;
    auto i = Shape<I>::mk(x, y, z); st[Shape<I>::key(i)] = {0, -1}; list.push_back(i);
  }
  auto label = mon::fmt("ckpt%d", no);
  mon::scenario(mon::fmt("checkpoint of %dx%dx%d elements", X, Y, Z));
  P<I> px;
  if (sparse) { px = makeCollection<El<I>>(label).bounds(bounds).listInsert(list).wait(); }
  else px = makeCollection<El<I>>(label).bounds(bounds).bulkInsert().wait();
  for (auto& i : theCollection()->getLocalIndices<El<I>>(px)) px[i].tryGetLocalPtr()->become(0);
  { // where they are
    struct At { uint64_t k; int at; }; std::vector<At> mine;
    for (auto& i : theCollection()->getLocalIndices<El<I>>(px)) mine.push_back({Shape<I>::key(i), me()});
    for (auto& r : dist::gather(mine)) for (auto& a : r) if (st.count(a.k)) st[a.k].at = a.at;
  }
  audit<I>(px, st, "made");
  char const* dir = getenv("MON_DIR");
  struct Saved { State st; std::string base; bool sub; };
  std::vector<Saved> saved;
  int steps = 4 + int(shared()(mon::thorough() ? 16 : 8));
  for (int s = 0; s < steps; s++) {
    // work, moves
    uint64_t salt = shared().next();
    if (shared().chance(0.7)) {
      runInEpochCollective([&] { px.template broadcastCollective<&El<I>::change>(salt); });
      for (auto& c : st) c.second.v = mon::mix(c.second.v, salt);
    }
    if (shared().chance(0.6)) {
      std::vector<std::pair<I, int>> moves;
      for (auto& c : st) if (shared().chance(0.5)) { c.second.at = int(shared()(np())); moves.push_back({unkey<I>(c.first), c.second.at}); mon::stat("moves"); }
      runInEpochCollective([&] { if (me() == 0) for (auto& m : moves) px[m.first].template send<&El<I>::go>(m.second); });
    }
    if (shared().chance(0.2)) { // a phase, which may move anything
      auto c = const_cast<vt::arguments::AppConfig*>(theConfig());
      c->vt_lb = true; c->vt_lb_interval = 1; c->vt_lb_name = shared().chance(0.5) ? "RotateLB" : "RandomLB";
      thePhase()->nextPhaseCollective();
      struct At { uint64_t k; int at; }; std::vector<At> mine;
      for (auto& i : theCollection()->getLocalIndices<El<I>>(px)) mine.push_back({Shape<I>::key(i), me()});
      for (auto& r : dist::gather(mine)) for (auto& a : r) if (st.count(a.k)) st[a.k].at = a.at;
      mon::stat("phases");
    }
    audit<I>(px, st, "worked");
    switch (shared()(4)) {
    case 0: case 1: {
      bool over = !saved.empty() && shared().chance(0.3); size_t w = over ? shared()(saved.size()) : saved.size();
      if (!over) saved.push_back({{}, mon::fmt("%s/ckpt.%d.%zu", dir ? dir : "/tmp", no, w), shared().chance(0.5)});
      int per = 1 + int(shared()(6));
      theCollection()->checkpointToFile(px, saved[w].base, saved[w].sub, per);
      saved[w].st = st; mon::stat(over ? "overwritten" : "checkpoints");
      mon::distinct(mix(X, Y, Z, st.size(), saved[w].sub * 8 + per));
      theCollective()->barrier();
      audit<I>(px, st, "saved");
      break; }
    case 2: if (!saved.empty()) {
      auto& f = saved[shared()(saved.size())];
      mon::scenario("restoring a collection in place");
      theCollection()->restoreFromFileInPlace<El<I>>(px, bounds, f.base);
      st = f.st; mon::stat("restored_in_place");
      dist::syncAll();
      audit<I>(px, st, "restored in place");
      reach<I>(px, st, "restored in place");
    } break;
    case 3: if (!saved.empty()) {
      auto& f = saved[shared()(saved.size())];
      mon::scenario("restoring a collection");
      auto q = theCollection()->restoreFromFile<El<I>>(bounds, f.base);
      dist::syncAll();
      if (q.getProxy() == px.getProxy()) mon::violation("checkpoint:proxy", "the restored collection has the proxy of the live one");
      if (theCollection()->getLabel(q.getProxy()) != label) mon::violation("checkpoint:label", "the label of the restored collection is '%s'", theCollection()->getLabel(q.getProxy()).c_str());
      audit<I>(q, f.st, "restored", &px);
      reach<I>(q, f.st, "restored");
      audit<I>(px, st, "restored another");
      mon::stat("restored");
      State qs = f.st;
      uint64_t salt2 = shared().next();
      runInEpochCollective([&] { q.template broadcastCollective<&El<I>::change>(salt2); });
      for (auto& c : qs) c.second.v = mon::mix(c.second.v, salt2);
      std::vector<std::pair<I, int>> moves;
      for (auto& c : qs) if (shared().chance(0.5)) { c.second.at = int(shared()(np())); moves.push_back({unkey<I>(c.first), c.second.at}); }
      runInEpochCollective([&] { if (me() == np() - 1) for (auto& m : moves) q[m.first].template send<&El<I>::go>(m.second); });
      audit<I>(q, qs, "restored and moved", &px);
      reach<I>(q, qs, "restored and moved");
      audit<I>(px, st, "used another");
      if (shared().chance(0.4)) { // go on with the restored one
        px.destroy(); theCollective()->barrier(); px = q; st = qs; mon::stat("continued");
      } else { q.destroy(); theCollective()->barrier(); }
      runInEpochCollective([] { });
    } break;
    }
    mon::progress();
  }
  // what is not there is refused
  bool threw = false;
  try { theCollection()->restoreFromFile<El<I>>(bounds, std::string(dir ? dir : "/tmp") + "/none"); } catch (std::runtime_error const&) { threw = true; }
  if (!threw) mon::violation("checkpoint:missing", "restoring from files that do not exist went well");
  px.destroy(); theCollective()->barrier(); runInEpochCollective([] { });
}

int main(int argc, char** argv) {
  return dist::run(argc, argv, [] {
    int rounds = mon::argi("ROUNDS", mon::thorough() ? 24 : 6);
    for (int r = 0; r < rounds; r++) {
      switch (shared()(3)) { case 0: round<Index1D>(r); break; case 1: round<Index2D>(r); break; case 2: round<Index3D>(r); break; }
      dist::syncAll();
    }
  }, [] { });
}
