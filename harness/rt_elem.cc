// Collections: which elements exist, where they are, what reaches them, what they carry when they move.
#include "dist.h"
#include <vt/vrt/collection/manager.h>
#include <vt/collective/reduce/operators/default_op.h>
#include <map>
#include <set>
using namespace vt;
using dist::local; using dist::shared; using dist::me; using dist::np;

static uint64_t keyOf(Index1D const& i) { return uint32_t(i.x()); }
static uint64_t keyOf(Index2D const& i) { return uint64_t(uint16_t(i.x())) << 16 | uint16_t(i.y()); }
static uint64_t keyOf(Index3D const& i) { return uint64_t(uint16_t(i.x())) << 32 | uint64_t(uint16_t(i.y())) << 16 | uint16_t(i.z()); }
template <typename I> I mkIdx(uint64_t k);
template <> Index1D mkIdx(uint64_t k) { return Index1D(int(k)); }
template <> Index2D mkIdx(uint64_t k) { return Index2D(int(k >> 16), int(k & 0xffff)); }
template <> Index3D mkIdx(uint64_t k) { return Index3D(int(k >> 32), int(k >> 16 & 0xffff), int(k & 0xffff)); }

static uint64_t nextId() { static uint64_t n = 0; return uint64_t(me() + 1) << 40 | ++n; }
struct Tally { uint64_t key, sum, xr, n; };
struct Sums { uint64_t sum = 0, xr = 0, n = 0; void add(uint64_t id) { sum += mon::mix(id, 11); xr ^= mon::mix(id, 13); n++; } };
static std::map<uint64_t, Sums> sentTo;       // by (round tag, key) what this rank sent
static std::map<uint64_t, Sums> gotHere;      // what was delivered on this rank
static uint64_t moves = 0;
static int64_t live = 0, created = 0, destroyed = 0, hookIn = 0, hookOut = 0, evIn = 0, evOut = 0, evNew = 0, evDel = 0;
static int maxHops = 0;
static uint64_t callSum = 0, callRes = 0, callRank = 0;   // a call over the members: deliveries, results at elements, results at ranks
static bool movesOn = false;
static int stepNo = 0; static std::vector<int> tour; static uint64_t tourOut = 0;
static bool multi() { static bool m = mon::argi("MULTI", 0); return m; }

template <typename I> struct Elem;
struct Members { std::vector<uint64_t> v; friend Members operator+(Members a, Members const& b) { a.v.insert(a.v.end(), b.v.begin(), b.v.end()); return a; } template <typename S> void serialize(S& s) { s | v; } };
template <typename I> struct Small : CollectionMessage<Elem<I>> { uint64_t id = 0, key = 0; int chain = 0, move = -1; };
template <typename I> struct Mid : CollectionMessage<Elem<I>> { uint64_t id = 0, key = 0; int chain = 0, move = -1; char pad[1500]; };
template <typename I> struct Big : CollectionMessage<Elem<I>> { uint64_t id = 0, key = 0; int chain = 0, move = -1; char pad[9000]; };
template <typename I> struct Ser : CollectionMessage<Elem<I>> {
  using MessageParentType = CollectionMessage<Elem<I>>; vt_msg_serialize_required();
  uint64_t id = 0, key = 0; int chain = 0, move = -1; std::vector<uint64_t> data;
  template <typename S> void serialize(S& s) { MessageParentType::serialize(s); s | id | key | chain | move | data; }
};
template <typename I> using P = CollectionProxy<Elem<I>, I>;
template <typename I> struct World { P<I> proxy; std::vector<uint64_t> keys; };   // keys that exist
template <typename I> World<I>& world() { static World<I> w; return w; }
template <typename I> void sendTo(uint64_t key, int chain, int move);

template <typename I> struct Elem : Collection<Elem<I>, I> {
  Elem() { live++; created++; born = true; }
  explicit Elem(uint64_t t) : token(t) { live++; created++; born = true; }
  ~Elem() { live--; destroyed++; }
  uint64_t key = ~0ull, token = 0; Sums got; std::vector<uint64_t> blob; int where = -1, pendingMove = -1, lastMove = -1; int64_t in = 0, out = 0; bool born = false;
  template <typename S> void serialize(S& s) {
    Collection<Elem<I>, I>::serialize(s);
    s | key | token | got.sum | got.xr | got.n | blob | where | pendingMove | lastMove | in | out;
    if (s.isUnpacking()) born = false;
  }
  void init() {
    key = keyOf(this->getIndex());
    if (blob.empty()) for (uint64_t i = 0; i < key % 37; i++) blob.push_back(mon::mix(key, i));
    where = me();
  }
  void judge(char const* how) {
    auto k = keyOf(this->getIndex());
    if (key == ~0ull) init();
    if (key != k) mon::violation("element:state", "the element of index %llx carries the state of %llx (%s)", (unsigned long long)k, (unsigned long long)key, how);
    if (blob.size() != key % 37) mon::violation("element:state", "an element has lost state on its way (%s)", how);
    else for (size_t i = 0; i < blob.size(); i++) if (blob[i] != mon::mix(key, i)) { mon::violation("element:state", "the state of an element changed on its way (%s)", how); break; }
    auto q = vrt::collection::CollectionManager::queryIndexContext<I>();
    (void)q;
  }
  void take(uint64_t id, uint64_t k, int chain, int move, char const* how) {
    judge(how);
    if (k != key) mon::violation("element:address", "a message for element %llx was run on element %llx (%s)", (unsigned long long)k, (unsigned long long)key, how);
    if (this->getCollectionProxy().getProxy() != world<I>().proxy.getProxy()) mon::violation("element:address", "a message arrived at an element of another collection (%s)", how);
    got.add(id); gotHere[k].add(id);
    mon::eval(); mon::stat("deliveries");
    if (chain > 0) { auto& w = world<I>(); sendTo<I>(w.keys[local()(w.keys.size())], chain - 1, local().chance(0.2) ? int(local()(np())) : -1); }
    if (move >= 0 && move != me() && pendingMove < 0 && movesOn && (multi() || lastMove != stepNo)) { lastMove = stepNo; pendingMove = move; moves++; this->migrate(NodeType(move)); mon::stat("migrations"); }
  }
  void onSmall(Small<I>* m) { take(m->id, m->key, m->chain, m->move, "small"); }
  void onMid(Mid<I>* m) { check(m->pad, sizeof m->pad, m->id, "mid"); take(m->id, m->key, m->chain, m->move, "mid"); }
  void onBig(Big<I>* m) { check(m->pad, sizeof m->pad, m->id, "big"); take(m->id, m->key, m->chain, m->move, "big"); }
  void onSer(Ser<I>* m) {
    if (m->data.size() != m->id % 50) mon::violation("element:payload", "a message arrived with %zu of its %d words", m->data.size(), int(m->id % 50));
    for (size_t i = 0; i < m->data.size(); i++) if (m->data[i] != mon::mix(m->id, i)) { mon::violation("element:payload", "a message arrived changed"); break; }
    take(m->id, m->key, m->chain, m->move, "serialized");
  }
  void onArgs(uint64_t id, uint64_t k, int chain, int move, std::string s) {
    if (s != std::string(id % 300, char('a' + id % 26))) mon::violation("element:payload", "an argument arrived changed");
    take(id, k, chain, move, "arguments");
  }
  uint64_t calls = 0;
  static void judgeMembers(std::vector<uint64_t> v, char const* how) {
    auto want = world<I>().keys; std::sort(v.begin(), v.end()); std::sort(want.begin(), want.end());
    mon::eval(); mon::stat("member_reductions");
    if (v != want) mon::violation("reduce:members", "a reduction over %zu members used the contributions of %zu (%s)", want.size(), v.size(), how);
  }
  void onCall(int how, int root) {
    calls++; callSum++; judge("broadcast"); mon::stat("member_broadcasts");
    Members v; v.v.push_back(keyOf(this->getIndex())); auto px = this->getCollectionProxy();
    if (how == 0) px.template allreduce<&Elem::onMembers, collective::PlusOp>(std::move(v));
    else px.template reduce<&Elem::onMembersRank, collective::PlusOp>(NodeType(root), std::move(v));
  }
  void onMembers(Members v) { callRes++; judgeMembers(std::move(v.v), "at every member"); }
  static void onMembersRank(Members v) { callRank++; judgeMembers(std::move(v.v), "at one rank"); }
  static void check(char const* p, size_t n, uint64_t id, char const* how) { long b = dist::mismatch(p, n, id); if (b >= 0) mon::violation("element:payload", "byte %ld of a %s message arrived changed", b, how); }
  void preMigrateOut() override { Collection<Elem<I>, I>::preMigrateOut(); out++; hookOut++; if (!tour.empty()) tourOut++; if (where != me()) mon::violation("element:hooks", "an element leaves rank %d and last arrived at rank %d", me(), where); }
  void epiMigrateIn() override {
    Collection<Elem<I>, I>::epiMigrateIn();
    in++; hookIn++; judge("arrival");
    if (in != out) mon::violation("element:hooks", "an element has left %lld times and arrived %lld times", (long long)out, (long long)in);
    if (pendingMove >= 0 && pendingMove != me()) mon::violation("element:place", "an element asked to move to rank %d and arrived at rank %d", pendingMove, me());
    pendingMove = -1; where = me();
    for (size_t i = 0; i + 1 < tour.size(); i++) if (tour[i] == me() && in == int64_t(i + 1)) this->migrate(NodeType(tour[i + 1]));
  }
};
template <typename I> static void onFree(Elem<I>* e, Small<I>* m) { e->take(m->id, m->key, m->chain, m->move, "function"); }
template <typename I> void sendTo(uint64_t key, int chain, int move) {
  auto& w = world<I>();
  uint64_t id = nextId();
  I idx = mkIdx<I>(key);
  sentTo[key].add(id);
  mon::stat("sends");
  auto set = [&](auto m) { m->id = id; m->key = key; m->chain = chain; m->move = move; return m; };
  switch (local()(7)) {
  case 0: case 1: { auto m = set(makeMessage<Small<I>>()); w.proxy[idx].template sendMsg<Small<I>, &Elem<I>::onSmall>(m); break; }
  case 2: { auto m = set(makeMessage<Mid<I>>()); dist::fill(m->pad, sizeof m->pad, id); w.proxy[idx].template sendMsg<Mid<I>, &Elem<I>::onMid>(m); break; }
  case 3: { auto m = set(makeMessage<Big<I>>()); dist::fill(m->pad, sizeof m->pad, id); w.proxy[idx].template sendMsg<Big<I>, &Elem<I>::onBig>(m); break; }
  case 4: { auto m = set(makeMessage<Ser<I>>()); for (uint64_t i = 0; i < id % 50; i++) m->data.push_back(mon::mix(id, i)); w.proxy[idx].template sendMsg<Ser<I>, &Elem<I>::onSer>(m); break; }
  case 5: { auto m = set(makeMessage<Small<I>>()); w.proxy[idx].template sendMsg<Small<I>, onFree<I>>(m); break; }
  case 6: w.proxy[idx].template send<&Elem<I>::onArgs>(id, key, chain, move, std::string(id % 300, char('a' + id % 26))); break;
  }
}

static NodeType map1(Index1D* i, Index1D*, NodeType n) { return NodeType(mon::mix(keyOf(*i), 77) % n); }
static NodeType map2(Index2D* i, Index2D*, NodeType n) { return NodeType(mon::mix(keyOf(*i), 77) % n); }
static NodeType map3(Index3D* i, Index3D*, NodeType n) { return NodeType(mon::mix(keyOf(*i), 77) % n); }
template <typename I> struct Mapper : vt::mapping::BaseMapper<I> {
  explicit Mapper(uint64_t s = 5) : salt(s) { }
  static ObjGroupProxyType construct(uint64_t s) { return theObjGroup()->makeCollective<Mapper<I>>("mapper", s).getProxy(); }
  uint64_t salt;
  NodeType map(I* i, int, NodeType n) override { return NodeType(mon::mix(keyOf(*i), salt) % n); }
};

// Where is everything: every existing index on exactly one rank, nothing else anywhere.
template <typename I> static std::map<uint64_t, int> audit(char const* when) {
  auto& w = world<I>();
  std::vector<uint64_t> here;
  for (auto& i : theCollection()->getLocalIndices<Elem<I>>(w.proxy)) {
    here.push_back(keyOf(i));
    auto p = w.proxy[i].tryGetLocalPtr();
    if (!p) { mon::violation("elements:local", "a local index has no local element (%s)", when); continue; }
    if (keyOf(p->getIndex()) != keyOf(i)) mon::violation("elements:local", "the element of one index says it is another (%s)", when);
    if (p->pendingMove >= 0) mon::violation("elements:place", "the epoch ended and an element that asked to move to rank %d is still on rank %d (%s)", p->pendingMove, me(), when);
  }
  auto all = dist::gather(here);
  std::map<uint64_t, int> at; std::map<uint64_t, int> cnt;
  for (int r = 0; r < np(); r++) for (auto k : all[r]) { at[k] = r; cnt[k]++; }
  if (me() == 0) for (auto& c : cnt) if (c.second != 1) mon::violation("elements:set", "np=%d: element %llx exists on %d ranks (%s)", np(), (unsigned long long)c.first, c.second, when);
  std::set<uint64_t> want(w.keys.begin(), w.keys.end());
  if (me() == 0) {
    int missing = 0, extra = 0; for (auto k : want) missing += !cnt.count(k); for (auto& c : cnt) extra += !want.count(c.first);

    if (missing || extra) mon::violation("elements:set", "np=%d: of %zu elements %d are missing and %d more exist (%s)", np(), want.size(), missing, extra, when);
  }
  for (auto k : want) { bool l = w.proxy[mkIdx<I>(k)].tryGetLocalPtr() != nullptr; if (at.count(k) && l != (at[k] == me())) mon::violation("elements:local", "tryGetLocalPtr and the set of local indices disagree (%s)", when); }
  if (live != int64_t(here.size())) mon::violation("elements:objects", "rank %d holds %zu elements and %lld element objects are alive (%s)", me(), here.size(), (long long)live, when);
  mon::eval(want.size() + 1); mon::stat("elements_audited", want.size());
  return at;
}
static uint64_t hashMap(std::map<uint64_t, int> const& m) { uint64_t h = 3; for (auto& x : m) h = mon::mix(h, x.first * 64 + x.second); return h; }

// Everything sent to each element was received by it, once, and what it carries says so.
template <typename I> static void reconcile(char const* when) {
  std::vector<Tally> s, g, e;
  for (auto& x : sentTo) s.push_back({x.first, x.second.sum, x.second.xr, x.second.n});
  for (auto& x : gotHere) g.push_back({x.first, x.second.sum, x.second.xr, x.second.n});
  for (auto& i : theCollection()->getLocalIndices<Elem<I>>(world<I>().proxy)) { auto p = world<I>().proxy[i].tryGetLocalPtr(); if (p) { e.push_back({keyOf(i), p->got.sum, p->got.xr, p->got.n}); p->got = Sums{}; } }
  auto S = dist::gather(s), G = dist::gather(g), E = dist::gather(e);
  auto add = [](std::vector<std::vector<Tally>> const& v) { std::map<uint64_t, Sums> m; for (auto& r : v) for (auto& t : r) { auto& x = m[t.key]; x.sum += t.sum; x.xr ^= t.xr; x.n += t.n; } return m; };
  auto a = add(S), b = add(G), c = add(E);
  if (me() == 0) for (auto& x : a) {
    auto& y = b[x.first]; auto& z = c[x.first];
    if (x.second.n != y.n) mon::violation("element:count", "np=%d: %llu messages were sent to an element and %llu arrived by the end of their epoch (%s)", np(), (unsigned long long)x.second.n, (unsigned long long)y.n, when);
    else if (x.second.sum != y.sum || x.second.xr != y.xr) mon::violation("element:count", "np=%d: an element received some messages twice and others not at all (%s)", np(), when);
    if (y.n != z.n || y.sum != z.sum || y.xr != z.xr) mon::violation("element:state", "np=%d: an element remembers %llu messages of the %llu it handled (%s)", np(), (unsigned long long)z.n, (unsigned long long)y.n, when);
    mon::eval();
  }
  if (me() == 0) for (auto& x : b) if (!a.count(x.first)) mon::violation("element:count", "a message nobody sent (%s)", when);
  sentTo.clear(); gotHere.clear();
}

template <typename I> static void traffic(int per, bool move, char const* when) {
  auto& w = world<I>();
  if (w.keys.empty()) return;
  moves = 0; movesOn = move; stepNo++;
  dist::syncAll();
  auto job = [&] {
    for (int i = 0; i < per; i++) {
      uint64_t key = local().chance(0.3) ? w.keys[local()(std::min<size_t>(3, w.keys.size()))] : w.keys[local()(w.keys.size())];
      sendTo<I>(key, local().chance(0.5) ? 0 : int(local()(4)), move && local().chance(0.4) ? int(local()(np())) : -1);
      if (local().chance(0.1)) for (int k = int(local()(15)); k > 0; k--) theSched()->runSchedulerOnceImpl();
      mon::poll();
    }
  };
  runInEpochCollective(job);
  movesOn = false;
  dist::syncAll();
  reconcile<I>(when);
  auto at = audit<I>(when);
  mon::distinct(hashMap(at));
}

template <typename I> struct Bounds { static I make(); static std::vector<uint64_t> all(I const& b); };
template <> Index1D Bounds<Index1D>::make() { return Index1D(1 + int(shared()(60))); }
template <> Index2D Bounds<Index2D>::make() { return Index2D(1 + int(shared()(7)), 1 + int(shared()(8))); }
template <> Index3D Bounds<Index3D>::make() { return Index3D(1 + int(shared()(4)), 1 + int(shared()(4)), 1 + int(shared()(4))); }
template <typename I> std::vector<uint64_t> Bounds<I>::all(I const& b) { std::vector<uint64_t> v; I c = b; c.foreach(b, [&](I i) { v.push_back(keyOf(i)); }); return v; }

template <typename I, typename MapFn> static void life(MapFn, char const* dims) {
  auto& w = world<I>();
  w.keys.clear(); w.proxy = P<I>{};
  sentTo.clear(); gotHere.clear();
  live = created = destroyed = hookIn = hookOut = evIn = evOut = evNew = evDel = 0;
  I b = Bounds<I>::make();
  auto all = Bounds<I>::all(b);
  int form = int(shared()(8)), mapk = int(shared()(3));
  bool ctor = shared().chance(0.4);
  dist::syncAll();
  mon::scenario(mon::fmt("construct %s form %d map %d", dims, form, mapk));
  bool dynamic = form == 6 || form == 7;
  auto cons = [](I i) { auto e = std::make_unique<Elem<I>>(mon::mix(keyOf(i), 99)); return e; };
  // which of the three kinds of map
  auto withMap = [&](auto&& c) {
    if (mapk == 1) { if constexpr (std::is_same_v<I, Index1D>) c.template mapperFunc<map1>(); else if constexpr (std::is_same_v<I, Index2D>) c.template mapperFunc<map2>(); else c.template mapperFunc<map3>(); }
    if (mapk == 2) c.template mapperObjGroupConstruct<Mapper<I>>(uint64_t(77));
    if (ctor) c.elementConstructor(cons);
  };
  auto built = [&](auto&& c) { withMap(c); if (shared().chance(0.5)) return c.wait();
    P<I> out; bool done = false; auto ep = c.deferWithEpoch([&](P<I> p) { out = p; done = true; }); runSchedulerThrough(ep); theSched()->runSchedulerWhile([&] { return !done; }); return out; };
  std::string label = "elem";
  std::vector<uint64_t> sub;
  switch (form) {
  case 0: w.proxy = built(makeCollection<Elem<I>>(label).bounds(b).bulkInsert()); w.keys = all; break;
  case 1: w.proxy = built(makeCollection<Elem<I>>(label).bulkInsert(b)); w.keys = all; break;
  case 2: case 3: {   // a list that all ranks give
    for (auto k : all) if (shared().chance(0.6)) sub.push_back(k);
    if (sub.empty()) sub.push_back(all[0]);
    std::vector<I> list; for (auto k : sub) list.push_back(mkIdx<I>(k));
    if (form == 2) w.proxy = built(makeCollection<Elem<I>>(label).bounds(b).listInsert(list));
    else w.proxy = built(makeCollection<Elem<I>>(label).listInsert(list.begin(), list.end()));
    w.keys = sub; break;
  }
  case 4: {   // each rank brings its own, where the map wants them
    mapk = 1; ctor = false;
    std::vector<std::tuple<I, std::unique_ptr<Elem<I>>>> mine;
    for (auto k : all) { bool use = shared().chance(0.7); if (!use) continue; sub.push_back(k); if (int(mon::mix(k, 77) % np()) == me()) mine.emplace_back(mkIdx<I>(k), std::make_unique<Elem<I>>(mon::mix(k, 99))); }
    if (sub.empty()) { sub.push_back(all[0]); if (int(mon::mix(all[0], 77) % np()) == me()) mine.emplace_back(mkIdx<I>(all[0]), std::make_unique<Elem<I>>()); }
    w.proxy = built(makeCollection<Elem<I>>(label).listInsertHere(std::move(mine)));
    w.keys = sub; break;
  }
  case 5: {   // one rank builds it for all
    uint64_t bits = 0; int root = int(shared()(np()));
    if (me() == root) {
      P<I> p;
      if (shared().chance(0.5)) p = makeCollectionRooted<Elem<I>>(label).bounds(b).bulkInsert().wait();
      else { bool done = false; auto ep = makeCollectionRooted<Elem<I>>(label).bulkInsert(b).deferWithEpoch([&](P<I> q) { p = q; done = true; }); runSchedulerThrough(ep); theSched()->runSchedulerWhile([&] { return !done; }); }
      bits = p.getProxy();
    } else (void)shared().chance(0.5);
    auto g = dist::gather(std::vector<uint64_t>{bits});
    w.proxy = P<I>{g[root][0]}; w.keys = all; ctor = false; break;
  }
  case 6: case 7: {   // members come and go
    auto c = makeCollection<Elem<I>>(label); c.dynamicMembership(true);
    if (form == 6 || mapk == 0) c.bounds(b);
    if (mapk == 1) { if constexpr (std::is_same_v<I, Index1D>) c.template mapperFunc<map1>(); else if constexpr (std::is_same_v<I, Index2D>) c.template mapperFunc<map2>(); else c.template mapperFunc<map3>(); }
    if (mapk == 2) c.template mapperObjGroupConstruct<Mapper<I>>(uint64_t(77));
    w.proxy = c.wait(); ctor = false; break;
  }
  }
  mon::stat("collections");
  mon::distinct(mon::mix(form * 8 + mapk, mon::mix(all.size(), np() * 4 + sizeof(I))));
  auto at = audit<I>("construction");
  if (me() == 0 && mapk && form != 5) for (auto& x : at) if (uint64_t(x.second) != mon::mix(x.first, 77) % np()) { mon::violation("elements:map", "the map sends an element to rank %d and it was made on rank %d", int(mon::mix(x.first, 77) % np()), x.second); break; }
  if (ctor) for (auto& i : theCollection()->getLocalIndices<Elem<I>>(w.proxy)) if (w.proxy[i].tryGetLocalPtr()->token != mon::mix(keyOf(i), 99)) mon::violation("elements:constructor", "an element was not made by the constructor given for it");
  for (auto& i : theCollection()->getLocalIndices<Elem<I>>(w.proxy)) w.proxy[i].tryGetLocalPtr()->init();
  int lst = theCollection()->registerElementListener<Elem<I>, I>(w.proxy.getProxy(), [](vrt::collection::listener::ElementEventEnum ev, I, NodeType) {
    using E = vrt::collection::listener::ElementEventEnum;
    if (ev == E::ElementMigratedIn) evIn++; else if (ev == E::ElementMigratedOut) evOut++; else if (ev == E::ElementCreated) evNew++; else evDel++;
  });
  int steps = 2 + int(shared()(3));
  for (int s = 0; s < steps; s++) {
    if (dynamic) {
      mon::scenario(mon::fmt("modify %s step %d", dims, s));
      struct Op { uint64_t key; int by; bool ins; int at; int again; };
      std::vector<Op> ops; std::set<uint64_t> have(w.keys.begin(), w.keys.end()), next = have;
      for (auto k : all) {
        if (!shared().chance(0.5)) continue;
        bool ins = !have.count(k);
        if (!ins && shared().chance(0.5)) { ops.push_back({k, int(shared()(np())), true, -1, -1}); continue; }   // inserting what exists changes nothing
        ops.push_back({k, int(shared()(np())), ins, ins && shared().chance(0.5) ? int(shared()(np())) : -1, ins && shared().chance(0.2) ? int(shared()(np())) : -1});
        if (ins) next.insert(k); else next.erase(k);
      }
      dist::syncAll();
      auto tok = w.proxy.beginModification("modify");
      for (auto& o : ops) {
        for (int rep = 0; rep < 2; rep++) {
          int by = rep ? o.again : o.by;
          if (by != me()) continue;
          auto e = w.proxy[mkIdx<I>(o.key)];
          if (o.ins && o.at >= 0) e.insertAt(tok, NodeType(o.at));
          else if (o.ins) e.insert(tok);
          else e.destroy(tok);

          mon::stat("modifications");
        }
        if (local().chance(0.1)) theSched()->runSchedulerOnceImpl();
      }
      w.proxy.finishModification(std::move(tok));
      w.keys.assign(next.begin(), next.end());
      auto at2 = audit<I>("modification");
      if (me() == 0) for (auto& o : ops) if (o.ins && o.at >= 0 && o.again < 0 && !have.count(o.key) && at2.count(o.key) && at2[o.key] != o.at) mon::violation("elements:map", "an element inserted at rank %d is on rank %d", o.at, at2[o.key]);
      for (auto& i : theCollection()->getLocalIndices<Elem<I>>(w.proxy)) if (w.proxy[i].tryGetLocalPtr()->key == ~0ull) w.proxy[i].tryGetLocalPtr()->init();
    }
    if (dynamic && !w.keys.empty()) { // the members as they are now are called, and all of them contribute, exactly once
      for (int k = 1 + int(shared()(3)); k > 0; k--) {
        int how = int(shared()(2)), root = int(shared()(np())), by = int(shared()(np()));
        callSum = callRes = callRank = 0;
        for (auto& i : theCollection()->getLocalIndices<Elem<I>>(w.proxy)) w.proxy[i].tryGetLocalPtr()->calls = 0;
        mon::scenario(mon::fmt("members %s step %d how %d", dims, s, how));
        dist::syncAll();
        runInEpochCollective([&] { if (me() == by) w.proxy.template broadcast<&Elem<I>::onCall>(how, root); });
        for (auto& i : theCollection()->getLocalIndices<Elem<I>>(w.proxy)) { auto c = w.proxy[i].tryGetLocalPtr()->calls; if (c != 1) mon::violation("broadcast:members", "a member got a broadcast %llu times", (unsigned long long)c); }
        auto t = dist::sumAll(int64_t(callSum)), e = dist::sumAll(int64_t(callRes)), r = dist::sumAll(int64_t(callRank)); auto n = int64_t(w.keys.size());
        if (me() == 0 && t != n) mon::violation("broadcast:members", "%lld members, %lld deliveries", (long long)n, (long long)t);
        if (me() == 0 && (how == 0 ? e != n || r : r != 1 || e)) mon::violation("reduce:members", "%lld members, the result arrived at %lld members and %lld ranks (kind %d)", (long long)n, (long long)e, (long long)r, how);
        mon::distinct(mon::mix(mon::mix(uint64_t(n), 991), mon::mix(uint64_t(how * 64 + np()), callSum)));
      }
    }
    mon::scenario(mon::fmt("traffic %s step %d form %d", dims, s, form));
    evIn = evOut = hookIn = hookOut = 0;
    traffic<I>(10 + int(local()(40)), s % 3 != 1, "traffic");
    if (evIn != hookIn || evOut != hookOut) mon::violation("elements:listener", "a listener heard of %lld arrivals and %lld departures, there were %lld and %lld", (long long)evIn, (long long)evOut, (long long)hookIn, (long long)hookOut);
    int64_t i1 = dist::sumAll(hookIn), o1 = dist::sumAll(hookOut);
    if (i1 != o1) mon::violation("element:hooks", "%lld departures and %lld arrivals", (long long)o1, (long long)i1);
  }
  // local invocation
  for (auto& i : theCollection()->getLocalIndices<Elem<I>>(w.proxy)) {
    uint64_t id = nextId(), k = keyOf(i);
    sentTo[k].add(id);
    w.proxy[i].template invoke<&Elem<I>::onArgs>(id, k, 0, -1, std::string(id % 300, char('a' + id % 26)));
    mon::stat("invocations");
  }
  reconcile<I>("invocation");
  theCollection()->unregisterElementListener<Elem<I>, I>(w.proxy.getProxy(), lst);
  mon::scenario(mon::fmt("destroy %s", dims));
  dist::syncAll();
  if (shared().chance(0.7)) {
    int who = int(shared()(np()));
    runInEpochCollective([&] { if (me() == who) w.proxy.destroy(); });
    if (live != 0) mon::violation("elements:objects", "a collection was destroyed and %lld of its elements are alive on rank %d", (long long)live, me());
    mon::eval(); mon::stat("destructions");
  } else {
    dist::syncAll();
    runInEpochCollective([&] { if (me() == 0) w.proxy.destroy(); });
  }
  dist::syncAll();
}

static NodeType at0(Index1D*, Index1D*, NodeType) { return 0; }

// An element leaves home, comes back and leaves again while what its first host tells home is still on its way.
static void revisit() {
  if (np() < 4) return;
  mon::scenario("revisit");
  auto& w = world<Index1D>();
  runInEpochCollective([&] { w.proxy = makeCollection<Elem<Index1D>>("r").bounds(Index1D(1)).mapperFunc<at0>().bulkInsert().wait(); });
  w.keys = {0};
  tour = {1, 2, 0, 3}; tourOut = 0;
  dist::syncAll();
  chaos::cfg().hold = me() == 0 ? 1 : -1;
  auto ep = theTerm()->makeEpochCollective("tour");
  theMsg()->pushEpoch(ep);
  if (me() == 0) { auto e = w.proxy[Index1D(0)].tryGetLocalPtr(); e->init(); e->migrate(1); }
  theMsg()->popEpoch(ep);
  theTerm()->finishedEpoch(ep);
  if (me() == 0) {
    theSched()->runSchedulerWhile([] { return tourOut < 2; });
    for (int i = 0; i < 3000; i++) theSched()->runSchedulerOnceImpl();
    chaos::cfg().hold = -1;
  }
  runSchedulerThrough(ep);
  tour.clear();
  dist::syncAll();
  ep = theTerm()->makeEpochCollective("message");
  theMsg()->pushEpoch(ep);
  if (me() == 0) sendTo<Index1D>(0, 0, -1);
  theMsg()->popEpoch(ep);
  theTerm()->finishedEpoch(ep);
  bool done = false;
  theTerm()->addAction(ep, [&done] { done = true; });
  if (me() == 0) {
    for (int i = 0; i < 60000 && !done; i++) { theSched()->runSchedulerOnceImpl(); if (i % 500 == 0) mon::progress(); }
    mon::eval();
    if (!done) {
      mon::violation("routing-loop:home-revisited", "a message to an element that had been away, back home and away again is forwarded in a circle for ever");
      theLocMan()->getCollectionLM<Index1D>(w.proxy.getProxy())->registerEntityRemote(Index1D(0), 0, 3);
    }
  }
  theSched()->runSchedulerWhile([&] { return !done; });
  reconcile<Index1D>("revisit");
  dist::syncAll();
  runInEpochCollective([&] { if (me() == 0) w.proxy.destroy(); });
  dist::syncAll();
}

static void body() {
  if (mon::argi("REVISIT", 0)) return revisit();
  int rounds = int(mon::argi("ROUNDS", 3));
  for (int i = 0; i < rounds; i++) {
    life<Index1D>(map1, "1d"); life<Index2D>(map2, "2d"); life<Index3D>(map3, "3d");
  }
}
int main(int argc, char** argv) { return dist::run(argc, argv, body); }
