// Phases: load balancing, what is measured for it, broadcasts to and reductions over collections whose elements move.
#include "dist.h"
#include <vt/collective/reduce/operators/default_op.h>
#include <vt/vrt/collection/balance/node_lb_data.h>
#include <vt/vrt/collection/balance/lb_data_restart_reader.h>
#include <vt/vrt/collection/balance/lb_invoke/lb_manager.h>
#include <vt/utils/json/json_appender.h>
#include <vt/runtime/runtime.h>
#include <nlohmann/json.hpp>
#include <map>
#include <set>
#include <sstream>
using namespace vt;
using dist::local; using dist::shared; using dist::me; using dist::np;
using collective::PlusOp; using collective::reduce::ReduceStamp; using collective::reduce::makeStamp; using collective::reduce::StrongUserID; using collective::reduce::TagPair;

static uint64_t nextId() { static uint64_t n = 0; return uint64_t(me() + 1) << 40 | ++n; }
struct Sums { uint64_t sum = 0, xr = 0, n = 0; void add(uint64_t id) { sum += mon::mix(id, 11); xr ^= mon::mix(id, 13); n++; }
  bool operator==(Sums const& o) const { return sum == o.sum && xr == o.xr && n == o.n; }
  void merge(Sums const& o) { sum += o.sum; xr ^= o.xr; n += o.n; } };
struct Tally { uint64_t key; Sums s; };
struct Pair { uint64_t from, to, n, bytes; };

// what an element adds to reduction id
static int64_t val(uint64_t id, uint64_t key) { return int64_t(mon::mix(id, key) % 2000003); }
struct Bag {
  uint64_t id = 0; std::vector<std::pair<uint64_t, int64_t>> parts; bool mixed = false;
  Bag() = default;
  Bag(uint64_t i, uint64_t key) : id(i) { parts.emplace_back(key, val(i, key)); }
  friend Bag operator+(Bag a, Bag const& b) { a.mixed |= b.mixed || a.id != b.id; a.parts.insert(a.parts.end(), b.parts.begin(), b.parts.end()); return a; }
  template <typename S> void serialize(S& s) { s | id | parts | mixed; }
};

static std::map<std::pair<uint64_t, uint64_t>, std::pair<uint64_t, uint64_t>> edges;   // element to element in this phase
static std::map<uint64_t, Sums> sentTo;
static Sums bcast1, bcast2;                          // broadcasts started by this rank
static std::map<uint64_t, double> burned;            // by key: time an element spent here in this phase
static double phaseBegan = 0;
static int64_t live = 0, moves = 0;
static bool sendsOn = true;

struct Red { bool all; int root; uint64_t elem; bool toElem; int got = 0; int wantHere = 0; };
static std::map<uint64_t, Red> open_;

template <typename I> struct Obj;
template <typename I> struct World { CollectionProxy<Obj<I>, I> proxy; std::vector<I> idx; int tag; };
template <typename I> World<I>& world() { static World<I> w; return w; }
static uint64_t keyOf(Index1D const& i) { return uint64_t(i.x()); }
static uint64_t keyOf(Index2D const& i) { return uint64_t(1) << 40 | uint64_t(i.x()) << 16 | uint64_t(i.y()); }

template <typename I> struct Small : CollectionMessage<Obj<I>> { uint64_t id = 0, key = 0, from = 0; int hops = 0; };
template <typename I> struct Big : CollectionMessage<Obj<I>> { uint64_t id = 0, key = 0, from = 0; int hops = 0; char pad[6000]; };
template <typename I> struct BMsg : CollectionMessage<Obj<I>> { uint64_t id = 0; char pad[200]; };

template <typename I> static void judgeBag(Bag const& b, char const* how, bool onElem, uint64_t key) {
  auto it = open_.find(b.id);
  if (it == open_.end()) { mon::violation("reduce:unknown", "the result of a reduction nobody started arrived (%s)", how); return; }
  auto& r = it->second;
  r.got++;
  if (onElem && r.toElem && r.elem != key) mon::violation("reduce:place", "a reduction to one element delivered its result to another (%s)", how);
  if (!onElem && !r.all && r.root != me()) mon::violation("reduce:place", "a reduction to rank %d delivered its result to rank %d (%s)", r.root, me(), how);
  if (b.mixed) mon::violation("reduce:mixed", "contributions of different reductions were combined (%s)", how);
  std::map<uint64_t, int> seen;
  for (auto& p : b.parts) { seen[p.first]++; if (p.second != val(b.id, p.first)) mon::violation("reduce:value", "the contribution of element %llx arrived changed (%s)", (unsigned long long)p.first, how); }
  auto& w = world<I>();
  for (auto& i : w.idx) if (seen[keyOf(i)] != 1) mon::violation("reduce:contributions", "np=%d: the contribution of element %llx was used %d times (%s)", np(), (unsigned long long)keyOf(i), seen[keyOf(i)], how);
  if (seen.size() != w.idx.size()) mon::violation("reduce:contributions", "contributions of elements that do not exist (%s)", how);
  mon::eval(); mon::stat("reduce_results");
}
template <typename I> static void onRank(Bag b) { judgeBag<I>(b, "to a rank", false, 0); }
template <typename I> static void onRankBcast(Bag b) { judgeBag<I>(b, "callback to all ranks", false, 0); }

template <typename I> struct Obj : Collection<Obj<I>, I> {
  Obj() { live++; }
  ~Obj() { live--; }
  uint64_t key = ~0ull; Sums got, b1, b2; std::vector<uint64_t> blob; int64_t in = 0, out = 0, phases = 0; uint64_t results = 0;
  template <typename S> void serialize(S& s) {
    Collection<Obj<I>, I>::serialize(s);
    s | key | got.sum | got.xr | got.n | b1.sum | b1.xr | b1.n | b2.sum | b2.xr | b2.n | blob | in | out | phases | results;
  }
  void init() { key = keyOf(this->getIndex()); for (uint64_t i = 0; i < key % 37; i++) blob.push_back(mon::mix(key, i)); }
  void judge(char const* how) {
    if (key != keyOf(this->getIndex())) mon::violation("element:state", "element %llx carries the state of %llx (%s)", (unsigned long long)keyOf(this->getIndex()), (unsigned long long)key, how);
    if (blob.size() != key % 37) { mon::violation("element:state", "an element lost state (%s)", how); return; }
    for (size_t i = 0; i < blob.size(); i++) if (blob[i] != mon::mix(key, i)) { mon::violation("element:state", "the state of an element changed (%s)", how); break; }
  }
  void work() {
    if (!local().chance(0.15)) return;
    double d = 0.0002 * (1 + mon::mix(key, 5) % 8), t0 = mon::now();
    while (mon::now() - t0 < d) {}
    burned[key] += d;
  }
  void sends(int hops) {
    if (!sendsOn) return;
    auto& w = world<I>();
    for (int k = int(local()(3)); k > 0; k--) {
      I to = w.idx[local()(w.idx.size())];
      uint64_t id = nextId(), tk = keyOf(to);
      sentTo[tk].add(id);
      auto& e = edges[{key, tk}];
      if (local().chance(0.8)) { auto m = makeMessage<Small<I>>(); m->id = id; m->key = tk; m->from = key; m->hops = hops; e.first++; e.second += sizeof(Small<I>); w.proxy[to].template sendMsg<Small<I>, &Obj::onSmall>(m); }
      else { auto m = makeMessage<Big<I>>(); m->id = id; m->key = tk; m->from = key; m->hops = hops; dist::fill(m->pad, sizeof m->pad, id); e.first++; e.second += sizeof(Big<I>); w.proxy[to].template sendMsg<Big<I>, &Obj::onBig>(m); }
      mon::stat("sends");
    }
  }
  template <typename M> void take(M* m, char const* how) {
    judge(how);
    if (m->key != key) mon::violation("element:address", "a message for element %llx was run on element %llx", (unsigned long long)m->key, (unsigned long long)key);
    got.add(m->id);
    mon::eval(); mon::stat("deliveries");
    work();
    if (m->hops > 0) sends(m->hops - 1);
  }
  void onSmall(Small<I>* m) { take(m, "small"); }
  void onBig(Big<I>* m) { long x = dist::mismatch(m->pad, sizeof m->pad, m->id); if (x >= 0) mon::violation("element:payload", "a message arrived changed"); take(m, "big"); }
  void onB1(BMsg<I>* m) { judge("broadcast"); if (dist::mismatch(m->pad, sizeof m->pad, m->id) >= 0) mon::violation("broadcast:payload", "a broadcast arrived changed"); b1.add(m->id); mon::eval(); mon::stat("broadcast_deliveries"); if (m->id % 3 == 0) sends(0); }
  void onB2(uint64_t id, std::string s) { judge("broadcast"); if (s != std::string(id % 200, char('a' + id % 26))) mon::violation("broadcast:payload", "an argument of a broadcast arrived changed"); b2.add(id); mon::eval(); mon::stat("broadcast_deliveries"); work(); }
  void step(int hops) { judge("step"); phases++; work(); sends(hops); }
  void onAll(Bag b) { results++; judgeBag<I>(b, "to all elements", true, key); }
  void onOne(Bag b) { results++; judgeBag<I>(b, "to one element", true, key); }
  void contribute(std::vector<std::pair<uint64_t, int>> plan, std::vector<int> where) {
    judge("contribute");
    auto& w = world<I>();
    // those with an explicit stamp may be done in any order, the others in the same order everywhere
    std::vector<size_t> ord;
    for (size_t i = 0; i < plan.size(); i++) if (plan[i].second < 5) ord.push_back(i);
    for (size_t i = 0; i < plan.size(); i++) if (plan[i].second >= 5) ord.insert(ord.begin() + local()(ord.size() + 1), i);
    for (auto i : ord) {
      auto id = plan[i].first; Bag b(id, key); int r = where[i];
      switch (plan[i].second) {
      case 0: w.proxy.template allreduce<&Obj::onAll, PlusOp>(b); break;
      case 1: w.proxy.template reduce<&Obj::onOne, PlusOp>(w.proxy[w.idx[r]], b); break;
      case 2: w.proxy.template reduce<onRank<I>, PlusOp>(NodeType(r % np()), b); break;
      case 3: { auto cb = theCB()->makeBcast<onRankBcast<I>>(); w.proxy.template reduce<PlusOp>(cb, b); break; }
      case 4: { auto cb = theCB()->makeSend<onRank<I>>(NodeType(r % np())); w.proxy.template reduce<PlusOp>(cb, b); break; }
      case 5: w.proxy.template reduce<onRank<I>, PlusOp>(NodeType(r % np()), b, makeStamp<StrongUserID>(id)); break;
      case 6: w.proxy.template allreduce<&Obj::onAll, PlusOp>(b, makeStamp<TagPair>(int32_t(id % 1000000007), 5)); break;
      }
    }
  }
  void preMigrateOut() override { Collection<Obj<I>, I>::preMigrateOut(); out++; moves++; judge("departure"); }
  void epiMigrateIn() override { Collection<Obj<I>, I>::epiMigrateIn(); in++; judge("arrival"); if (in != out) mon::violation("element:hooks", "an element left %lld times and arrived %lld times", (long long)out, (long long)in); }
};

template <typename I> static std::vector<Obj<I>*> mine() {
  std::vector<Obj<I>*> v;
  for (auto& i : theCollection()->getLocalIndices<Obj<I>>(world<I>().proxy)) { auto p = world<I>().proxy[i].tryGetLocalPtr(); if (p) v.push_back(p); else mon::violation("elements:local", "a local index without a local element"); }
  return v;
}
template <typename I> static std::map<uint64_t, int> audit(char const* when) {
  std::vector<uint64_t> here;
  for (auto* e : mine<I>()) { e->judge(when); here.push_back(keyOf(e->getIndex())); }
  auto all = dist::gather(here);
  std::map<uint64_t, int> at, cnt;
  for (int r = 0; r < np(); r++) for (auto k : all[r]) { at[k] = r; cnt[k]++; }
  for (auto& i : world<I>().idx) if (cnt[keyOf(i)] != 1 && me() == 0) mon::violation("elements:set", "np=%d: element %llx exists %d times (%s)", np(), (unsigned long long)keyOf(i), cnt[keyOf(i)], when);
  if (cnt.size() != world<I>().idx.size() && me() == 0) mon::violation("elements:set", "np=%d: %zu elements instead of %zu (%s)", np(), cnt.size(), world<I>().idx.size(), when);
  mon::eval(); mon::stat("elements_audited", here.size());
  return at;
}

template <typename I> static void activity(char const* what) {
  auto& w = world<I>();
  for (auto* e : mine<I>()) e->got = e->b1 = e->b2 = Sums{};
  bcast1 = bcast2 = Sums{}; sentTo.clear(); open_.clear();
  int nred = int(shared()(4)), hops = int(shared()(3));
  std::vector<std::pair<uint64_t, int>> plan; std::vector<int> where;
  for (int i = 0; i < nred; i++) {
    uint64_t id = mon::mix(shared()(1u << 30), i + 1); int kind = int(shared()(7)), r = int(shared()(w.idx.size()));
    plan.push_back({id, kind}); where.push_back(r);
    Red red{kind == 0 || kind == 3 || kind == 6, r % np(), kind == 1 ? keyOf(w.idx[r]) : 0, kind == 1};
    open_[id] = red;
  }
  int nb = int(local()(4));
  dist::syncAll();
  for (auto* e : mine<I>()) e->results = 0;
  runInEpochCollective([&] {
    auto es = mine<I>();
    std::vector<I> at; for (auto* e : es) at.push_back(e->getIndex());
    for (auto& i : at) {
      w.proxy[i].template send<&Obj<I>::step>(hops);
      if (local().chance(0.2)) theSched()->runSchedulerOnceImpl();
    }
    for (int i = 0; i < nb; i++) {
      uint64_t id = nextId();
      if (local().chance(0.5)) { bcast1.add(id); auto m = makeMessage<BMsg<I>>(); m->id = id; dist::fill(m->pad, sizeof m->pad, id); w.proxy.template broadcastMsg<BMsg<I>, &Obj<I>::onB1>(m); }
      else { bcast2.add(id); w.proxy.template broadcast<&Obj<I>::onB2>(id, std::string(id % 200, char('a' + id % 26))); }
      mon::stat("broadcasts");
      if (local().chance(0.3)) theSched()->runSchedulerOnceImpl();
    }
    if (!plan.empty() && local().chance(0.4)) { double t = mon::now() + 1e-3 * double(1 + local()(15)); theSched()->runSchedulerWhile([&] { return mon::now() < t; }); mon::stat("late_contributors"); }   // those of the other ranks come first
    if (!plan.empty()) for (auto& i : at) w.proxy[i].template send<&Obj<I>::contribute>(plan, where);
    mon::poll();
  });
  dist::syncAll();
  // broadcasts: every element has everything, once
  Sums t1, t2;
  for (auto& v : dist::gather(std::vector<Sums>{bcast1})) t1.merge(v[0]);
  for (auto& v : dist::gather(std::vector<Sums>{bcast2})) t2.merge(v[0]);
  for (auto* e : mine<I>()) {
    if (!(e->b1 == t1)) mon::violation("broadcast:count", "np=%d: %llu broadcasts were made and an element received %llu, or others (%s)", np(), (unsigned long long)t1.n, (unsigned long long)e->b1.n, what);
    if (!(e->b2 == t2)) mon::violation("broadcast:count", "np=%d: %llu broadcasts with arguments were made and an element received %llu, or others (%s)", np(), (unsigned long long)t2.n, (unsigned long long)e->b2.n, what);
    mon::eval();
  }
  // messages
  std::vector<Tally> s, g;
  for (auto& x : sentTo) s.push_back({x.first, x.second});
  for (auto* e : mine<I>()) g.push_back({e->key, e->got});
  std::map<uint64_t, Sums> a, b;
  for (auto& v : dist::gather(s)) for (auto& t : v) a[t.key].merge(t.s);
  for (auto& v : dist::gather(g)) for (auto& t : v) b[t.key].merge(t.s);
  if (me() == 0) for (auto& i : w.idx) if (!(a[keyOf(i)] == b[keyOf(i)])) mon::violation("element:count", "np=%d: %llu messages were sent to an element and %llu other ones arrived (%s)", np(), (unsigned long long)a[keyOf(i)].n, (unsigned long long)b[keyOf(i)].n, what);
  // reductions
  uint64_t perElem = 0, onOne = 0;
  for (size_t i = 0; i < plan.size(); i++) {
    auto& r = open_[plan[i].first];
    int64_t total = dist::sumAll(r.got);
    bool elems = plan[i].second == 0 || plan[i].second == 6;
    int64_t want = elems ? int64_t(w.idx.size()) : plan[i].second == 3 ? np() : 1;
    if (elems) perElem++;
    if (plan[i].second == 1) onOne++;
    if (me() == 0 && total != want) mon::violation("reduce:count", "np=%d: a reduction of kind %d delivered %lld results, not %lld (%s)", np(), plan[i].second, (long long)total, (long long)want, what);
    if (plan[i].second == 3 && r.got != 1) mon::violation("reduce:count", "rank %d got the result of a reduction for all ranks %d times", me(), r.got);
    mon::eval(); mon::stat("reductions");
  }
  for (auto* e : mine<I>()) if (e->results < perElem || e->results > perElem + onOne) mon::violation("reduce:count", "an element got %llu results of %llu reductions", (unsigned long long)e->results, (unsigned long long)perElem);
}

// What was measured in the phase that has just ended.
template <typename I> static void measured(PhaseType ph, std::map<uint64_t, int> const& before, double phaseTime, bool commAware) {
  std::vector<std::pair<uint64_t, uint64_t>> ids;
  for (auto* e : mine<I>()) ids.push_back({e->getElmID().id, e->key});
  std::map<uint64_t, uint64_t> keyOfId;
  for (auto& v : dist::gather(ids)) for (auto& x : v) { if (keyOfId.count(x.first)) mon::violation("lbdata:ids", "two elements have the same id"); keyOfId[x.first] = x.second; }
  auto loads = theNodeLBData()->getNodeLoad();
  std::map<uint64_t, int> entries;
  auto it = loads->find(ph);
  if (it != loads->end()) for (auto& x : it->second) {
    auto k = keyOfId.find(x.first.id);
    if (k == keyOfId.end()) continue;
    entries[k->second]++;
    double l = x.second.whole_phase_load, b = burned.count(k->second) ? burned[k->second] : 0;
    if (l < b * 0.999) mon::violation("lbdata:load", "np=%d: an element that worked for %.6f s in the phase is recorded with %.6f s", np(), b, l);
    if (l > phaseTime * 1.001 + 0.001) mon::violation("lbdata:load", "np=%d: an element is recorded with %.6f s in a phase of %.6f s", np(), l, phaseTime);
    mon::eval(); mon::stat("loads_judged");
  }
  for (auto& x : before) {
    int n = entries.count(x.first) ? entries[x.first] : 0;
    if (x.second == me() && n != 1) mon::violation("lbdata:entries", "np=%d: an element of this rank is recorded %d times in the loads of phase %d", np(), n, int(ph));
    if (x.second != me() && n != 0) mon::violation("lbdata:entries", "np=%d: an element of another rank is recorded in the loads of phase %d", np(), int(ph));
  }
  // communication: recorded once somewhere, with the right number of messages
  std::vector<Pair> mineC, want;
  auto comm = theNodeLBData()->getNodeComm();
  auto ic = comm->find(ph);
  if (ic != comm->end()) for (auto& x : ic->second) {
    if (x.first.cat_ != elm::CommCategory::SendRecv) continue;
    auto f = keyOfId.find(x.first.from_.id), t = keyOfId.find(x.first.to_.id);
    if (f == keyOfId.end() || t == keyOfId.end()) continue;
    mineC.push_back({f->second, t->second, uint64_t(x.second.messages), uint64_t(x.second.bytes)});
  }
  for (auto& e : edges) want.push_back({e.first.first, e.first.second, e.second.first, e.second.second});
  std::map<std::pair<uint64_t, uint64_t>, std::pair<uint64_t, uint64_t>> A, B;
  // A load balancer that reads the communication gets the edges that cross ranks on both of them.
  int holder = 0;
  for (auto& v : dist::gather(mineC)) {
    for (auto& p : v) if ((p.from >> 40) == (keyOf(world<I>().idx[0]) >> 40)) {
      auto f = before.find(p.from), t = before.find(p.to);
      if (f == before.end() || t == before.end()) continue;
      if (holder != f->second && holder != t->second) mon::violation("lbdata:comm", "np=%d: rank %d recorded messages between elements of ranks %d and %d in phase %d", np(), holder, f->second, t->second, int(ph));
      auto& e = A[{p.from, p.to}];
      if (commAware && e.first) {
        if (f->second == t->second || e.first != p.n || e.second != p.bytes) mon::violation("lbdata:comm", "np=%d: ranks disagree about the messages between two elements in phase %d", np(), int(ph));
        mon::stat("edges_shared");
      } else { e.first += p.n; e.second += p.bytes; }
    }
    ++holder;
  }
  for (auto& v : dist::gather(want)) for (auto& p : v) if ((p.from >> 40) == (keyOf(world<I>().idx[0]) >> 40)) { auto& e = B[{p.from, p.to}]; e.first += p.n; e.second += p.bytes; }
  if (me() == 0) {
    for (auto& x : B) {
      auto y = A.find(x.first);
      if (y == A.end()) mon::violation("lbdata:comm", "np=%d: the %llu messages between two elements in phase %d are not recorded", np(), (unsigned long long)x.second.first, int(ph));
      else if (y->second.first != x.second.first) mon::violation("lbdata:comm", "np=%d: %llu messages between two elements in phase %d are recorded as %llu", np(), (unsigned long long)x.second.first, int(ph), (unsigned long long)y->second.first);
      else if (y->second.second != x.second.second) mon::violation("lbdata:comm", "np=%d: %llu bytes between two elements in phase %d are recorded as %llu", np(), (unsigned long long)x.second.second, int(ph), (unsigned long long)y->second.second);
      mon::eval(); mon::stat("edges_judged");
    }
    for (auto& x : A) if (!B.count(x.first)) mon::violation("lbdata:comm", "np=%d: %llu messages between two elements that sent none are recorded in phase %d", np(), (unsigned long long)x.second.first, int(ph));
  }
}

static int hookCount[4], hookUn[4], hookRoot[4], hookOrder = 0;
static NodeType mapF1(Index1D* i, Index1D*, NodeType n) { return NodeType(mon::mix(keyOf(*i), 77) % n); }

static std::vector<std::unique_ptr<vrt::collection::balance::LBDataRestartReader>> readers;

template <typename I> static void offlinePlan(PhaseType from, std::map<uint64_t, int>& planned) {
  // a placement for every element for phases `from` (the present one) and from + 1
  auto now = audit<I>("plan");
  struct Rec { uint64_t id; int home, at, next; uint64_t key; };
  std::vector<Rec> recs;
  for (auto* e : mine<I>()) { auto id = e->getElmID(); recs.push_back({id.id, int(id.getHomeNode()), me(), 0, e->key}); }
  vrt::collection::balance::LBDataHolder dh;
  for (auto& v : dist::gather(recs)) for (auto& r : v) {
    r.next = int(shared()(np()));
    planned[r.key] = r.next;
    elm::ElementIDStruct a; a.id = r.id; a.curr_node = r.at;
    elm::ElementIDStruct b = a; b.curr_node = r.next;
    if (r.at == me()) { a.curr_node = me(); dh.node_data_[from][a] = vrt::collection::balance::LoadSummary{3}; }
    if (r.next == me()) { b.curr_node = me(); dh.node_data_[from + 1][b] = vrt::collection::balance::LoadSummary{3}; }
  }
  using Appender = util::json::Appender<std::stringstream>;
  std::stringstream st{std::ios_base::out | std::ios_base::in};
  nlohmann::json meta; meta["type"] = "LBDatafile";
  auto w = std::make_unique<Appender>("phases", meta, std::move(st), true);
  for (PhaseType p = 0; p <= from + 1; p++) { auto j = dh.toJson(p); w->addElm(*j); }
  st = w->finish();
  readers.push_back(vrt::collection::balance::LBDataRestartReader::construct());
  curRT->theLBDataReader = readers.back().get();
  theLBDataReader()->readLBDataFromStream(std::move(st));
}

static void body() {
  int rounds = int(mon::argi("ROUNDS", 2)), phases = int(mon::argi("PHASES", 6));
  auto cfg = theConfig();
  auto oldReader = curRT->theLBDataReader;
  std::vector<std::string> names{"RotateLB", "RandomLB", "GreedyLB", "HierarchicalLB", "TemperedLB", "TemperedWMin", "NoLB", "TestSerializationLB", "OfflineLB"};
  // hooks
  phase::PhaseHook kinds[] = {phase::PhaseHook::Start, phase::PhaseHook::End, phase::PhaseHook::DataCollection, phase::PhaseHook::EndPostMigration};
  std::vector<phase::PhaseHookID> hooks;
  for (int k = 0; k < 4; k++) {
    hooks.push_back(thePhase()->registerHookCollective(kinds[k], [k] { hookCount[k]++; hookOrder = hookOrder * 7 + k + 1; }));
    hooks.push_back(thePhase()->registerHookUnsynchronized(kinds[k], [k] { hookUn[k]++; }));
    if (me() == 0) hooks.push_back(thePhase()->registerHookRooted(kinds[k], [k] { hookRoot[k]++; }));
  }
  for (int rd = 0; rd < rounds; rd++) {
    auto& a = world<Index1D>(); auto& b = world<Index2D>();
    a.idx.clear(); b.idx.clear();
    int n1 = np() + int(shared()(25)), bx = 1 + int(shared()(5)), by = 1 + int(shared()(5));
    if (shared().chance(0.2)) n1 = 1 + int(shared()(np()));           // fewer elements than ranks
    for (int i = 0; i < n1; i++) a.idx.push_back(Index1D(i));
    for (int x = 0; x < bx; x++) for (int y = 0; y < by; y++) b.idx.push_back(Index2D(x, y));
    bool mapped = shared().chance(0.5);
    dist::syncAll();
    mon::scenario(mon::fmt("construct np=%d n1=%d n2=%d", np(), n1, bx * by));
    runInEpochCollective([&] {
      if (mapped) a.proxy = makeCollection<Obj<Index1D>>("a").bounds(Index1D(n1)).mapperFunc<mapF1>().bulkInsert().wait();
      else a.proxy = makeCollection<Obj<Index1D>>("a").bounds(Index1D(n1)).bulkInsert().wait();
      b.proxy = makeCollection<Obj<Index2D>>("b").bounds(Index2D(bx, by)).bulkInsert().wait();
    });
    for (auto* e : mine<Index1D>()) e->init();
    for (auto* e : mine<Index2D>()) e->init();
    auto at1 = audit<Index1D>("construction"); auto at2 = audit<Index2D>("construction");
    bool first = true;
    for (int p = 0; p < phases; p++) {
      auto lb = names[shared()(names.size())];
      auto ph = thePhase()->getCurrentPhase();
      std::map<uint64_t, int> planned;
      cfg->vt_lb = shared().chance(0.95); cfg->vt_lb_name = lb; cfg->vt_lb_interval = 1;
      cfg->vt_lb_self_migration = lb == "TestSerializationLB";
      cfg->vt_lb_keep_last_elm = lb == "RandomLB" && shared().chance(0.3);
      if (lb == "OfflineLB") { offlinePlan<Index1D>(ph, planned); }
      edges.clear(); burned.clear();
      dist::syncAll();
      mon::scenario(mon::fmt("phase %d %s", int(ph), lb.c_str()));
      double t0 = phaseBegan ? phaseBegan : mon::now() - 1000;
      activity<Index1D>(lb.c_str());
      if (shared().chance(0.6)) activity<Index2D>(lb.c_str());
      if (shared().chance(0.3)) activity<Index1D>(lb.c_str());
      for (int k = 0; k < 4; k++) hookCount[k] = hookUn[k] = hookRoot[k] = 0;
      hookOrder = 0; moves = 0;
      dist::syncAll();
      mon::scenario(mon::fmt("end of phase %d %s", int(ph), lb.c_str()));
      thePhase()->nextPhaseCollective();
      phaseBegan = mon::now();
      double took = phaseBegan - t0;
      int64_t nm = dist::sumAll(moves);
      if (thePhase()->getCurrentPhase() != ph + 1) mon::violation("phase:number", "phase %d is followed by phase %d", int(ph), int(thePhase()->getCurrentPhase()));
      for (int k = 0; k < 4; k++) if (hookCount[k] != 1 || hookUn[k] != 1 || hookRoot[k] != (me() == 0)) mon::violation("phase:hooks", "hooks of kind %d ran %d, %d and %d times at the end of a phase", k, hookCount[k], hookUn[k], hookRoot[k]);
      if (hookOrder != ((3 * 7 + 2) * 7 + 4) * 7 + 1) mon::violation("phase:hooks", "the hooks of a phase ran in another order (%d)", hookOrder);
      auto n1b = audit<Index1D>("after balancing"); auto n2b = audit<Index2D>("after balancing");
      int64_t changed = 0;
      for (auto& x : n1b) changed += at1[x.first] != x.second;
      for (auto& x : n2b) changed += at2[x.first] != x.second;
      if (me() == 0 && changed > nm) mon::violation("elements:moves", "%lld elements are elsewhere and %lld left their rank", (long long)changed, (long long)nm);
      if (!cfg->vt_lb || lb == "NoLB") { if (nm && me() == 0) mon::violation("lb:none", "no balancer was asked for and %lld elements moved", (long long)nm); }
      if (cfg->vt_lb && ph != 0 && me() == 0) {
        if (lb == "RotateLB") {
          for (auto& x : n1b) if (x.second != (at1[x.first] + 1) % np()) { mon::violation("lb:rotate", "np=%d: rotation took an element from rank %d to rank %d", np(), at1[x.first], x.second); break; }
          for (auto& x : n2b) if (x.second != (at2[x.first] + 1) % np()) { mon::violation("lb:rotate", "np=%d: rotation took an element from rank %d to rank %d", np(), at2[x.first], x.second); break; }
        }
        if (lb == "TestSerializationLB") for (auto& x : n1b) if (x.second != at1[x.first]) { mon::violation("lb:serialization", "an element changed its rank"); break; }
        if (lb == "OfflineLB") for (auto& x : n1b) if (x.second != planned[x.first]) { mon::violation("lb:offline", "np=%d: phase %d: an element on rank %d that the plan puts on rank %d is on rank %d", np(), int(ph), at1[x.first], planned[x.first], x.second); break; }
      }
      bool ca = lb == "TemperedWMin"; measured<Index1D>(ph, at1, took, ca); measured<Index2D>(ph, at2, took, ca);
      uint64_t h = 9; for (auto& x : n1b) h = mon::mix(h, x.first * 64 + x.second);
      mon::distinct(h);
      mon::stat("phases"); mon::stat("balanced." + lb); mon::stat("moves", uint64_t(moves));
      at1 = n1b; at2 = n2b; first = false;
      curRT->theLBDataReader = oldReader;
    }
    (void)first;
    mon::scenario("destroy");
    dist::syncAll();
    runInEpochCollective([&] { if (me() == 0) { a.proxy.destroy(); b.proxy.destroy(); } });
    if (live) mon::violation("elements:objects", "%lld elements live on after their collections", (long long)live);
    dist::syncAll();
  }
  for (auto& h : hooks) thePhase()->unregisterHook(h);
  readers.clear();
}
int main(int argc, char** argv) { return dist::run(argc, argv, body); }
