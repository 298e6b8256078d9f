// Collective operations: reductions, barriers, scatters, agreed-on MPI operations.
#include "dist.h"
#include <vt/collective/collective_alg.h>
#include <vt/collective/reduce/operators/default_op.h>
#include <map>
#include <set>
#include <array>
using namespace vt;
using dist::local; using dist::shared; using dist::me; using dist::np;
using collective::PlusOp; using collective::MaxOp; using collective::MinOp; using collective::AndOp; using collective::OrOp;
using collective::BitAndOp; using collective::BitOrOp; using collective::BitXorOp; using collective::NoneOp;
using collective::reduce::ReduceStamp; using collective::reduce::makeStamp; using collective::reduce::TagPair;
using collective::reduce::StrongUserID; using collective::reduce::StrongEpoch;

// what rank r contributes to reduction id, component k
static int64_t val(uint64_t id, int r, int k) { return int64_t(mon::mix(id * 131 + k, r + 7) % 2000003) - 1000000; }

// A value that remembers what it was made of.
struct Bag {
  uint64_t id = 0; std::vector<std::pair<int, int64_t>> parts; bool mixed = false;
  Bag() = default;
  Bag(uint64_t i, int r) : id(i) { parts.emplace_back(r, val(i, r, 0)); }
  friend Bag operator+(Bag a, Bag const& b) {
    a.mixed |= b.mixed || a.id != b.id;
    a.parts.insert(a.parts.end(), b.parts.begin(), b.parts.end());
    return a;
  }
  template <typename S> void serialize(S& s) { s | id | parts | mixed; }
};

struct Want { int kind; bool all; int root; int got = 0; int times = 1; };
static std::map<uint64_t, Want> openR;    // reductions of this round, by id
static uint64_t curRound = 0;

static void arrive(uint64_t id, char const* how, int onRoot = -1) {
  auto it = openR.find(id);
  if (it == openR.end()) { mon::violation("reduce:unknown", "rank %d got the result of reduction %llx (%s) that nobody started in round %llu", me(), (unsigned long long)id, how, (unsigned long long)curRound); return; }
  (void)onRoot;
  if (!it->second.all && it->second.root != me()) mon::violation("reduce:place", "reduction to rank %d delivered its result to rank %d (%s)", it->second.root, me(), how);
  it->second.got++;
  mon::eval(); mon::stat("results");
}
static void judgeBag(Bag const& b, char const* how) {
  arrive(b.id, how);
  if (b.mixed) mon::violation("reduce:mixed", "contributions of different reductions were combined (%s, reduction %llx)", how, (unsigned long long)b.id);
  std::map<int, int> seen;
  for (auto& p : b.parts) { seen[p.first]++; if (p.second != val(b.id, p.first, 0)) mon::violation("reduce:value", "contribution of rank %d arrived changed (%s)", p.first, how); }
  for (int r = 0; r < np(); r++)
    if (seen[r] != 1) mon::violation("reduce:contributions", "np=%d: the contribution of rank %d was used %d times (%s)", np(), r, seen[r], how);
  if (int(seen.size()) != np()) mon::violation("reduce:contributions", "contributions from ranks that do not exist (%s)", how);
}
template <typename F> static int64_t foldRef(uint64_t id, int k, F f) {
  int64_t a = val(id, 0, k);
  for (int r = 1; r < np(); r++) a = f(a, val(id, r, k));
  return a;
}
enum { Sum, Max, Min, And, Or, BAnd, BOr, BXor };
static int64_t ref(uint64_t id, int k, int op) {
  switch (op) {
  case Sum: return foldRef(id, k, [](int64_t a, int64_t b) { return a + b; });
  case Max: return foldRef(id, k, [](int64_t a, int64_t b) { return std::max(a, b); });
  case Min: return foldRef(id, k, [](int64_t a, int64_t b) { return std::min(a, b); });
  case BAnd: return foldRef(id, k, [](int64_t a, int64_t b) { return a & b; });
  case BOr: return foldRef(id, k, [](int64_t a, int64_t b) { return a | b; });
  case BXor: return foldRef(id, k, [](int64_t a, int64_t b) { return a ^ b; });
  }
  return 0;
}
static bool bval(uint64_t id, int r, int k) { auto m = mon::mix(id, 3 + k) % 3; return m == 0 ? true : m == 1 ? false : mon::mix(id + k, r) % np() != 0; }
static bool bref(uint64_t id, int k, bool isAnd) {
  bool a = isAnd;
  for (int r = 0; r < np(); r++) a = isAnd ? a && bval(id, r, k) : a || bval(id, r, k);
  return a;
}
static char const* opName[] = {"plus", "max", "min", "and", "or", "bitand", "bitor", "bitxor"};
static void same(uint64_t id, int op, int64_t got, int64_t want, char const* how) {
  if (got != want) mon::violation("reduce:value", "np=%d: %s reduction gave %lld, expected %lld (%s)", np(), opName[op], (long long)got, (long long)want, how);
  mon::eval();
  (void)id;
}

// the id travels with the values but must survive any operator: max, min, and, or, bit ops of equal values are the value;
// for sums it is multiplied, for xor it is id if np is odd, else 0.
static uint64_t idOf(int op, uint64_t x) { if (op == Sum) return x / np(); return x; }
struct Obj;
static objgroup::proxy::Proxy<Obj> objs[3];
using Vec = std::vector<int64_t>;
using Arr = std::array<int64_t, 3>;
static void judge(int op, int64_t idx, int64_t a, Vec const& v, Arr const& arr, char const* how) {
  uint64_t id = idOf(op, uint64_t(idx));
  arrive(id, how);
  same(id, op, a, ref(id, 0, op), how);
  if (int64_t(v.size()) != int64_t(id % 9)) { mon::violation("reduce:value", "vector of %zu elements, expected %d (%s)", v.size(), int(id % 9), how); return; }
  for (size_t i = 0; i < v.size(); i++) same(id, op, v[i], ref(id, 1 + int(i), op), how);
  for (size_t i = 0; i < 3; i++) same(id, op, arr[i], ref(id, 20 + int(i), op), how);
}
static Vec vecOf(uint64_t id) { Vec v; for (uint64_t i = 0; i < id % 9; i++) v.push_back(val(id, me(), 1 + int(i))); return v; }
static Arr arrOf(uint64_t id) { return Arr{val(id, me(), 20), val(id, me(), 21), val(id, me(), 22)}; }

struct Obj {
  int which = 0;
  void bag(Bag b) { judgeBag(b, "objgroup"); }
  template <int op> void num(int64_t id, int64_t a, Vec v, Arr arr) { judge(op, id, a, v, arr, "objgroup"); }
  void none() { noneGot++; mon::eval(); mon::stat("results"); }
  int noneGot = 0;
};
static void fbag(Bag b) { judgeBag(b, "function"); }
template <int op> static void fnum(int64_t id, int64_t a, Vec v, Arr arr) { judge(op, id, a, v, arr, "function"); }
static void fand(int64_t id, bool a, bool b) {      // id carried with AndOp is useless, so look for the only open one of its kind
  (void)id;
  for (auto& w : openR) if (w.second.kind == 100) {
    arrive(w.first, "and");
    if (a != bref(w.first, 0, true) || b != bref(w.first, 1, true)) mon::violation("reduce:value", "np=%d: and-reduction wrong", np());
    mon::eval();
    return;
  }
  mon::violation("reduce:unknown", "an and-reduction nobody started");
}
static void forr(int64_t id, bool a, bool b) {
  (void)id;
  for (auto& w : openR) if (w.second.kind == 101) {
    arrive(w.first, "or");
    if (a != bref(w.first, 0, false) || b != bref(w.first, 1, false)) mon::violation("reduce:value", "np=%d: or-reduction wrong", np());
    mon::eval();
    return;
  }
  mon::violation("reduce:unknown", "an or-reduction nobody started");
}
// message-based interface
struct SumMsg : collective::ReduceTMsg<Bag> {
  using P = collective::ReduceTMsg<Bag>;
  SumMsg() = default;
  explicit SumMsg(Bag&& b) : P(std::move(b)) { }
};
struct Got { void operator()(collective::ReduceTMsg<Bag>* m) { judgeBag(m->getConstVal(), "message"); } };
static void cbag(Bag b) { judgeBag(b, "callback"); }

template <int op, template <typename> class OpT> static void startNum(uint64_t id, int path, int root, ReduceStamp const* st) {
  int64_t i = int64_t(id), a = val(id, me(), 0);
  Vec v = vecOf(id); Arr ar = arrOf(id);
  auto o = objs[path % 3];
  if (path < 3) {
    if (root >= 0) { if (st) o.template reduce<&Obj::template num<op>, OpT>(o[root], i, a, v, ar, ReduceStamp(*st)); else o.template reduce<&Obj::template num<op>, OpT>(o[root], i, a, v, ar); }
    else { if (st) o.template allreduce<&Obj::template num<op>, OpT>(i, a, v, ar, ReduceStamp(*st)); else o.template allreduce<&Obj::template num<op>, OpT>(i, a, v, ar); }
  } else {
    auto r = theCollective()->global();
    if (st) r->reduce<fnum<op>, OpT>(Node{NodeType(root)}, i, a, v, ar, ReduceStamp(*st)); else r->reduce<fnum<op>, OpT>(Node{NodeType(root)}, i, a, v, ar);
  }
}

struct Plan { uint64_t id; int kind; int path; int root; int stamp; bool epochStamp = false; };
static void spin(int n) { for (int i = 0; i < n; i++) theSched()->runSchedulerOnceImpl(); }
static uint64_t serial = 1;
static ReduceStamp stampOf(Plan const& p) {
  switch (p.stamp) {
  case 1: return makeStamp<TagPair>(TagType(p.id & 0xffff), TagType(p.id >> 16 & 0xffff));
  case 2: return makeStamp<StrongUserID>(uint64_t(p.id));
  case 3: return makeStamp<collective::reduce::detail::StrongTag>(TagType(p.id & 0x7fffffff));
  default: return makeStamp<StrongEpoch>(theMsg()->getEpoch());
  }
}
static void start(Plan const& p) {
  ReduceStamp s; ReduceStamp* st = nullptr;
  if (p.stamp) { s = stampOf(p); st = &s; }
  auto o = objs[p.path % 3];
  switch (p.kind) {
  case 0: {
    Bag b(p.id, me());
    if (p.path == 4) { auto m = makeMessage<collective::ReduceTMsg<Bag>>(std::move(b)); theCollective()->global()->reduce<PlusOp<Bag>, Got>(NodeType(p.root), m.get(), st ? *st : ReduceStamp{}); return; }
    if (p.path == 3) { auto r = theCollective()->global(); if (st) r->reduce<fbag, PlusOp>(Node{NodeType(p.root)}, b, ReduceStamp(*st)); else r->reduce<fbag, PlusOp>(Node{NodeType(p.root)}, b); return; }
    if (p.root >= 0) { if (st) o.reduce<&Obj::bag, PlusOp>(o[p.root], b, ReduceStamp(*st)); else o.reduce<&Obj::bag, PlusOp>(o[p.root], b); }
    else { if (st) o.allreduce<&Obj::bag, PlusOp>(b, ReduceStamp(*st)); else o.allreduce<&Obj::bag, PlusOp>(b); }
    return;
  }
  case 1: startNum<Sum, PlusOp>(p.id, p.path, p.root, st); return;
  case 2: startNum<Max, MaxOp>(p.id, p.path, p.root, st); return;
  case 3: startNum<Min, MinOp>(p.id, p.path, p.root, st); return;
  case 4: {   // callback to the root or to all
    Bag b(p.id, me());
    auto cb = p.root >= 0 ? theCB()->makeSend<cbag>(NodeType(p.root)) : theCB()->makeBcast<cbag>();
    if (st) o.reduce<PlusOp>(cb, b, ReduceStamp(*st)); else o.reduce<PlusOp>(cb, b);
    return;
  }
  case 100: { auto r = theCollective()->global(); if (st) r->reduce<fand, AndOp>(Node{NodeType(p.root)}, int64_t(1), bval(p.id, me(), 0), bval(p.id, me(), 1), ReduceStamp(*st)); else r->reduce<fand, AndOp>(Node{NodeType(p.root)}, int64_t(1), bval(p.id, me(), 0), bval(p.id, me(), 1)); return; }
  case 101: { auto r = theCollective()->global(); if (st) r->reduce<forr, OrOp>(Node{NodeType(p.root)}, int64_t(1), bval(p.id, me(), 0), bval(p.id, me(), 1), ReduceStamp(*st)); else r->reduce<forr, OrOp>(Node{NodeType(p.root)}, int64_t(1), bval(p.id, me(), 0), bval(p.id, me(), 1)); return; }
  case 5: o.allreduce<&Obj::none>(); return;
  }
}

static void reductions() {
  mon::scenario("reductions");
  openR.clear(); curRound++;
  int n = 3 + int(shared()(12));
  std::vector<Plan> plan;
  int none = 0; bool andUsed = false, orUsed = false, epStamp[3] = {false, false, false};
  for (int i = 0; i < n; i++) {
    Plan p;
    p.id = serial++ | (shared()(256) << 20);
    int k = int(shared()(9));
    p.path = int(shared()(4)); p.root = shared().chance(0.4) ? -1 : int(shared()(np()));
    p.stamp = shared().chance(0.5) ? 0 : 1 + int(shared()(4));
    if (p.stamp == 4) { if (p.path >= 3 || epStamp[p.path]) p.stamp = 2; else epStamp[p.path] = true; }
    if (k <= 1) { p.kind = 0; if (p.path == 3 && shared().chance(0.5)) p.path = 4; }
    else if (k <= 4) p.kind = k - 1;
    else if (k == 5) { p.kind = 4; p.path = int(shared()(3)); if (p.stamp == 4) p.stamp = 1; }
    else if (k == 6 && !andUsed) { p.kind = 100; p.path = 3; andUsed = true; if (p.stamp == 4) p.stamp = 1; }
    else if (k == 7 && !orUsed) { p.kind = 101; p.path = 3; orUsed = true; if (p.stamp == 4) p.stamp = 1; }
    else { p.kind = 5; p.path = int(shared()(3)); p.stamp = 0; none++; }
    if (p.path >= 3 && p.root < 0) p.root = int(shared()(np()));
    if (p.kind != 5) openR[p.id] = Want{p.kind, p.root < 0, p.root};
    plan.push_back(p);
    mon::distinct(mon::mix(mon::mix(p.kind, p.path * 5 + p.stamp), (p.root + 2) * 100 + np()));
  }
  int noneBefore = 0;
  for (auto& o : objs) noneBefore += o.get()->noneGot;
  dist::syncAll();
  // each reducer's unstamped ones go in the same order everywhere; the rest is free
  std::vector<std::vector<Plan>> q(5 + 64);
  int nq = 5;
  std::vector<std::vector<Plan>> queues;
  std::map<int, std::vector<Plan>> byReducer;
  for (auto& p : plan) if (!p.stamp) byReducer[p.path >= 3 ? 3 : p.path].push_back(p); else queues.push_back({p});
  for (auto& b : byReducer) queues.push_back(b.second);
  (void)nq;
  runInEpochCollective([&] {
    std::vector<size_t> at(queues.size(), 0);
    size_t left = plan.size();
    while (left) {
      size_t i = local()(queues.size());
      if (at[i] == queues[i].size()) continue;
      start(queues[i][at[i]++]); left--;
      if (local().chance(0.3)) spin(1 + int(local()(20)));
      mon::poll();
    }
  });
  mon::stat("reductions", plan.size());
  for (auto& w : openR) {
    int want = w.second.all || w.second.root == me() ? 1 : 0;
    if (w.second.got != want) mon::violation("reduce:count", "np=%d: when its epoch ended the result of a reduction (kind %d, %s) had been delivered %d times on rank %d, expected %d", np(), w.second.kind, w.second.all ? "to all" : "to one", w.second.got, me(), want);
  }
  int noneNow = 0;
  for (auto& o : objs) noneNow += o.get()->noneGot;
  if (noneNow - noneBefore != none) mon::violation("reduce:count", "np=%d: %d reductions without data gave %d results on rank %d", np(), none, noneNow - noneBefore, me());
  mon::eval(plan.size());
  openR.clear();
  dist::syncAll();
}

// Bit operators (the ids cannot travel): one at a time.
static int bitsGot = 0; static uint64_t bitsId = 0;
template <int op> static void fbit(int64_t x, int64_t y) {
  bitsGot++;
  same(bitsId, op, x, ref(bitsId, 0, op), "bits"); same(bitsId, op, y, ref(bitsId, 1, op), "bits");
}
static void bitOps() {
  mon::scenario("bit-reductions");
  for (int k = 0; k < 3; k++) {
    bitsId = serial++; bitsGot = 0;
    int root = int(shared()(np()));
    dist::syncAll();
    runInEpochCollective([&] {
      auto r = theCollective()->global();
      int64_t x = val(bitsId, me(), 0), y = val(bitsId, me(), 1);
      if (k == 0) r->reduce<fbit<BAnd>, BitAndOp>(Node{NodeType(root)}, x, y);
      else if (k == 1) r->reduce<fbit<BOr>, BitOrOp>(Node{NodeType(root)}, x, y);
      else r->reduce<fbit<BXor>, BitXorOp>(Node{NodeType(root)}, x, y);
    });
    if (bitsGot != (me() == root)) mon::violation("reduce:count", "bit reduction delivered %d times on rank %d (root %d)", bitsGot, me(), root);
    mon::stat("reductions"); mon::eval();
    dist::syncAll();
  }
}

// Several contributions from one rank, and a chain: the result starts the next one from inside its handler.
static int chainLeft = 0, chainGot = 0; static uint64_t chainId = 0;
struct ChainObj { void step(int64_t sum) {
  int64_t want = 0; for (int r = 0; r < np(); r++) want += val(chainId + chainGot, r, 0);
  if (sum != want) mon::violation("reduce:value", "np=%d: step %d of a chain of all-reductions gave %lld, expected %lld", np(), chainGot, (long long)sum, (long long)want);
  chainGot++; mon::eval(); mon::stat("results");
  if (--chainLeft > 0) proxy.allreduce<&ChainObj::step, PlusOp>(val(chainId + chainGot, me(), 0));
}
  objgroup::proxy::Proxy<ChainObj> proxy; };
static objgroup::proxy::Proxy<ChainObj> chainP;
static void chains() {
  mon::scenario("reduction-chain");
  int n = 2 + int(shared()(12));
  chainLeft = n; chainGot = 0; chainId = serial; serial += n + 1;
  dist::syncAll();
  runInEpochCollective([&] { chainP.get()->proxy = chainP; chainP.allreduce<&ChainObj::step, PlusOp>(val(chainId, me(), 0)); });
  if (chainGot != n) mon::violation("reduce:count", "np=%d: the epoch of a chain of %d all-reductions ended after %d of them on rank %d", np(), n, chainGot, me());
  mon::stat("reductions", n);
  dist::syncAll();
}

// ---- barriers
struct Span { double enter, leave; uint64_t key; };
static void barriers() {
  mon::scenario("barriers");
  int n = 4 + int(shared()(8));
  std::vector<Span> spans;
  struct Fired { double at; int times; };
  auto fired = std::make_shared<std::vector<Fired>>();
  fired->resize(n, Fired{0, 0});
  std::vector<double> entered(n, 0);
  std::vector<int> kinds(n);
  std::vector<BarrierType> names(n, no_barrier);
  for (int i = 0; i < n; i++) { kinds[i] = int(shared()(4)); if (kinds[i] >= 2) names[i] = theCollective()->newNamedCollectiveBarrier(); }
  { std::set<BarrierType> u; for (auto b : names) if (b != no_barrier && !u.insert(b).second) mon::violation("barrier:name", "two collective barriers got the same name"); }
  // named continuations may be entered in any order
  std::vector<int> order(n), named;
  for (int i = 0; i < n; i++) order[i] = i;
  for (int i = 0; i + 1 < n; i++) if (kinds[i] == 3 && local().chance(0.6)) {
    int j = i; while (j + 1 < n && local().chance(0.7) && kinds[order[j + 1]] != 0 && kinds[order[j + 1]] != 2) { std::swap(order[j], order[j + 1]); j++; }
  }
  // keep unnamed ones in order
  { std::vector<int> un; for (int i : order) if (kinds[i] < 2) un.push_back(i); std::sort(un.begin(), un.end()); size_t k = 0; for (auto& i : order) if (kinds[i] < 2) i = un[k++]; }
  dist::syncAll();
  std::vector<double> left(n, 0);
  runInEpochCollective([&] {
    for (int i : order) {
      if (local().chance(0.4)) spin(int(local()(60)));
      entered[i] = mon::now();
      if (kinds[i] == 0) { if (local().chance(0.5)) theCollective()->barrier(); else { int polled = 0; theCollective()->barrier([&polled] { polled++; }); } left[i] = mon::now(); }
      else if (kinds[i] == 2) { theCollective()->barrier(nullptr, names[i]); left[i] = mon::now(); }
      else if (kinds[i] == 1) theCollective()->barrierThen([fired, i] { (*fired)[i].at = mon::now(); (*fired)[i].times++; });
      else theCollective()->barrierThen(names[i], [fired, i] { (*fired)[i].at = mon::now(); (*fired)[i].times++; });
      mon::poll();
    }
  });
  for (int i = 0; i < n; i++) {
    if (kinds[i] == 1 || kinds[i] == 3) {
      left[i] = (*fired)[i].at;
      if ((*fired)[i].times != 1) mon::violation("barrier:continuation", "np=%d: the action after a barrier ran %d times on rank %d", np(), (*fired)[i].times, me());
    }
    mon::distinct(mon::mix(kinds[i] * 16 + np(), order[i] == i));
  }
  auto allE = dist::gather(entered), allL = dist::gather(left);
  for (int i = 0; i < n; i++) {
    double last = 0; int who = 0;
    for (int r = 0; r < np(); r++) if (allE[r][i] > last) { last = allE[r][i]; who = r; }
    for (int r = 0; r < np(); r++)
      if (allL[r][i] < last) mon::violation("barrier:early", "np=%d: rank %d passed barrier %d (kind %d) %.1f us before rank %d entered it", np(), r, i, kinds[i], (last - allL[r][i]) * 1e6, who);
    mon::eval(); mon::stat("barriers");
  }
  dist::syncAll();
}

// ---- scatters
static std::map<uint64_t, int> scGot;
static void onScatter(char* p) {
  uint64_t h[2]; memcpy(h, p, sizeof h);
  scGot[h[0]]++;
  uint64_t n = h[1] & 0xffffffff; int to = int(h[1] >> 32);
  if (to != me()) { mon::violation("scatter:place", "np=%d: rank %d was given the part made for rank %d", np(), me(), to); return; }
  if (n > 200000) { mon::violation("scatter:data", "a part of the scatter has a garbage header"); return; }
  long bad = dist::mismatch(p + 16, n - 16, mon::mix(h[0], me()));
  if (bad >= 0) mon::violation("scatter:data", "np=%d: byte %ld of a part of %llu bytes differs on rank %d", np(), bad, (unsigned long long)n, me());
  mon::eval(); mon::stat("scatter_parts");
}
static void scatters() {
  mon::scenario("scatter");
  int n = 1 + int(shared()(5));
  struct S { uint64_t id; int from; size_t sz; };
  std::vector<S> v;
  scGot.clear();
  for (int i = 0; i < n; i++) { size_t sz = 16 + (shared().chance(0.3) ? shared()(5000) : shared()(200)) ; if (shared().chance(0.1)) sz += 20000; v.push_back({serial++, int(shared()(np())), sz}); }
  dist::syncAll();
  runInEpochCollective([&] {
    for (auto& s : v) if (s.from == me()) {
      if (local().chance(0.3)) spin(10);
      std::map<int, int> asked;
      theCollective()->scatter<onScatter>(s.sz * np(), s.sz, nullptr, [&](NodeType node, void* p) {
        asked[node]++;
        uint64_t h[2] = {s.id, uint64_t(s.sz) | uint64_t(node) << 32};
        memcpy(p, h, 16);
        dist::fill((char*)p + 16, s.sz - 16, mon::mix(s.id, node));
      });
      for (int r = 0; r < np(); r++) if (asked[r] != 1) mon::violation("scatter:fill", "np=%d: the part of rank %d was asked for %d times", np(), r, asked[r]);
      mon::stat("scatters");
    }
  });
  for (auto& s : v) {
    if (scGot[s.id] != 1) mon::violation("scatter:count", "np=%d: rank %d received its part of a scatter from rank %d %d times", np(), me(), s.from, scGot[s.id]);
    mon::distinct(mon::mix(s.sz, s.from * 64 + np()));
  }
  mon::eval();
  dist::syncAll();
}

// ---- agreed-on MPI operations
static TagType nextUserScope = 1;
static void mpiScopes() {
  mon::scenario("mpi-operations");
  int ns = 1 + int(shared()(4));
  std::vector<std::unique_ptr<collective::CollectiveScope>> sc;
  std::vector<std::pair<bool, TagType>> bits;
  std::vector<int> count(ns);
  TagType lastSystem = no_tag;
  for (int i = 0; i < ns; i++) {
    bool user = shared().chance(0.5);
    TagType t = no_tag;
    if (user) {
      // often the number a scope named by the library has: the two are different scopes all the same
      t = (mon::argi("NOCOLLIDE", 0) ? 5000 : 0) + nextUserScope++;
      if (lastSystem != no_tag && shared().chance(mon::argi("NOCOLLIDE", 0) ? 0 : 0.7)) { t = lastSystem; lastSystem = no_tag; }
      if (!theCollective()->isDeallocated(true, t)) t = 100000 + nextUserScope++;
    }
    sc.push_back(std::make_unique<collective::CollectiveScope>(theCollective()->makeCollectiveScope(t)));
    bits.emplace_back(sc[i]->isUserTag(), sc[i]->getScopeBits());
    if (!user) lastSystem = sc[i]->getScopeBits();
    count[i] = 1 + int(shared()(5));
  }
  uint64_t base = serial; serial += 64;
  struct Log { std::vector<int> order; std::map<int, int> ran; };
  auto log = std::make_shared<Log>();
  MPI_Comm c = theContext()->getComm();
  bool waitSome = shared().chance(0.5);
  bool dropEarly = shared().chance(0.4);
  dist::syncAll();
  std::vector<std::vector<TagType>> tags(ns);
  runInEpochCollective([&] {
    std::vector<int> at(ns, 0); int left = 0; for (int x : count) left += x;
    while (left) {
      int i = waitSome ? -1 : int(local()(ns));
      if (i < 0) for (i = 0; at[i] == count[i]; i++) ;
      if (at[i] == count[i]) continue;
      int k = at[i]++; left--;
      int key = i * 16 + k;
      auto act = [log, key, base, c] {
        log->order.push_back(key); log->ran[key]++;
        int64_t in[2] = {val(base + key, dist::me(), 0), key}, out[2] = {0, 0};
        if (key % 3 == 0) {
          int root = key % dist::np(); int64_t b[2] = {in[0], in[1]};
          MPI_Bcast(b, 2, MPI_INT64_T, root, c);
          if (b[0] != val(base + key, root, 0) || b[1] != key) mon::violation("mpi-op:order", "np=%d: operation %d met another operation on rank 0..%d", dist::np(), key, dist::np() - 1);
        } else {
          MPI_Allreduce(in, out, 2, MPI_INT64_T, MPI_SUM, c);
          int64_t want = 0; for (int r = 0; r < dist::np(); r++) want += val(base + key, r, 0);
          if (out[0] != want || out[1] != int64_t(key) * dist::np()) mon::violation("mpi-op:order", "np=%d: operation %d did not meet itself on the other ranks", dist::np(), key);
        }
        mon::eval(); mon::stat("mpi_operations");
      };
      if (waitSome && k % 2) {
        sc[i]->mpiCollectiveWait(act);
        if (log->ran[key] != 1) mon::violation("mpi-op:wait", "mpiCollectiveWait returned and its operation had run %d times", log->ran[key]);
      } else {
        auto t = sc[i]->mpiCollectiveAsync(act);
        tags[i].push_back(t);
        if (sc[i]->isCollectiveDone(t) && log->ran[key] != 1) mon::violation("mpi-op:done", "an operation counts as done and has run %d times", log->ran[key]);
        if (waitSome && k % 3 == 2) { sc[i]->waitCollective(t); if (log->ran[key] != 1) mon::violation("mpi-op:wait", "waitCollective returned and the operation had run %d times", log->ran[key]); }
      }
      if (local().chance(0.3)) spin(1 + int(local()(10)));
      mon::poll();
    }
    if (dropEarly) sc.clear();
  });
  for (int i = 0; i < ns; i++) for (int k = 0; k < count[i]; k++)
    if (log->ran[i * 16 + k] != 1) mon::violation("mpi-op:count", "np=%d: the epoch ended and operation %d of a scope had run %d times on rank %d", np(), k, log->ran[i * 16 + k], me());
  auto all = dist::gather(log->order);
  for (int r = 1; r < np(); r++) if (all[r] != all[0]) { mon::violation("mpi-op:order", "np=%d: ranks ran their MPI operations in different orders", np()); break; }
  sc.clear();
  for (auto& b : bits) if (!theCollective()->isDeallocated(b.first, b.second)) mon::violation("mpi-op:leak", "a scope was destroyed with all its operations done and is still there");
  uint64_t h = 0; for (int x : log->order) h = mon::mix(h, x);
  mon::distinct(h);
  mon::eval();
  dist::syncAll();
}

static void body() {
  for (auto& o : objs) o = theObjGroup()->makeCollective<Obj>("coll");
  chainP = theObjGroup()->makeCollective<ChainObj>("chain");
  int rounds = int(mon::argi("ROUNDS", 10));
  for (int i = 0; i < rounds; i++) {
    mon::poll();
    reductions(); bitOps(); chains(); barriers(); scatters(); mpiScopes();
  }
}
int main(int argc, char** argv) { return dist::run(argc, argv, body); }
