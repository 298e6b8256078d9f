// C08: one-sided data.  Every rank knows, from a shared random plan, which cells of which rank are
// written, added to or counted up in a phase and by whom; after the phase every cell of every window is
// compared with what the plan says, by its owner and by others, through every way to read.
#include "dist.h"
#include <map>
#include <set>

using namespace vt;
using dist::me; using dist::np; using dist::shared; using dist::local;

struct Obj { };
static uint64_t handlers = 0;
struct Ping : vt::Message { };
static void onPing(Ping*) { handlers++; }

enum Kind { Keep, Put, Sum, Max, Min, Count, Swap, KindN };

template <typename T> static T val(uint64_t x) { return T(x % 97); }
template <typename T> struct Cell { int kind = Keep; int who = 0; T v{}; uint64_t mask = 0; int times = 0; };

// one array of cells per target, the same on all ranks
template <typename T> struct Model {
  std::vector<std::vector<T>> a;                 // by target
  bool known = true;
};

template <typename T> static T contribution(uint64_t salt, int target, size_t cell, int rank) { return T(mon::mix(mon::mix(salt, uint64_t(target)), mon::mix(cell, uint64_t(rank))) % 50); }

// Acc: put/rput/accum/... to target t (0..targets-1)
template <typename T, typename Acc> static void plan(Model<T>& m, Acc& acc, char const* what, bool locks, std::vector<bool> const& write) {
  int const targets = int(m.a.size());
  uint64_t const salt = shared().next();
  std::vector<std::vector<Cell<T>>> cells(targets);
  for (int t = 0; t < targets; t++) {
    auto& c = cells[t]; c.resize(m.a[t].size());
    if (!write[t]) continue;
    for (size_t i = 0; i < c.size();) {
      size_t n = 1 + size_t(shared()(1 + shared()(1 + c.size())));
      Cell<T> x; x.kind = int(shared()(KindN)); x.who = int(shared()(uint64_t(np()))); x.mask = shared().next() & ((1ull << np()) - 1); x.times = 1 + int(shared()(3));
      if (x.kind == Count || x.kind == Swap) n = 1;
      for (; n && i < c.size(); n--, i++) c[i] = x;
    }
  }
  // what I do, in pieces
  struct Op { int t; size_t at, n; int kind, times; };
  std::vector<Op> ops;
  for (int t = 0; t < targets; t++) for (size_t i = 0; i < cells[t].size();) {
    auto& c = cells[t][i];
    bool mine = c.kind == Put || c.kind == Swap ? c.who == me() : c.kind != Keep && (c.mask >> me() & 1);
    size_t j = i + 1;
    while (j < cells[t].size() && cells[t][j].kind == c.kind && cells[t][j].who == c.who && cells[t][j].mask == c.mask && !local().chance(0.05)) j++;
    if (c.kind == Count || c.kind == Swap) j = i + 1;
    if (mine) ops.push_back({t, i, j - i, c.kind, c.times});
    i = j;
  }
  for (size_t i = ops.size(); i > 1; i--) std::swap(ops[i - 1], ops[size_t(local()(i))]);
  std::map<std::pair<int, size_t>, std::vector<T>> fetched;
  std::vector<std::unique_ptr<T[]>> bufs; std::vector<rdma::RequestHolder> reqs;
  for (auto& o : ops) {
    mon::stat("operations"); mon::eval(); mon::progress();
    mon::distinct(mon::mix(mon::mix(o.kind, o.n), mon::mix(mon::mix(uint64_t(o.t), me()), mon::mix(np(), m.a[o.t].size()))));
    bufs.push_back(std::make_unique<T[]>(o.n)); auto* p = bufs.back().get();
    for (size_t k = 0; k < o.n; k++) p[k] = contribution<T>(salt, o.t, o.at + k, me());
    auto lk = o.kind == Put && local().chance(0.5) ? Lock::Exclusive : Lock::Shared;
    MPI_Op op = o.kind == Sum || o.kind == Count ? MPI_SUM : o.kind == Max ? MPI_MAX : o.kind == Min ? MPI_MIN : MPI_REPLACE;
    switch (o.kind) {
    case Put:
      if (int w = int(local()(locks ? 4 : 3)); w == 0) acc.put(o.t, p, o.n, int(o.at), lk);
      else if (w == 1) acc.rput(o.t, p, o.n, int(o.at), lk).wait();
      else if (w == 2) reqs.push_back(acc.rput(o.t, p, o.n, int(o.at), lk));
      else { acc.lock(o.t, lk); acc.put(o.t, p, o.n, int(o.at), Lock::None); acc.unlock(); }
      break;
    case Sum: case Max: case Min:
      if (int w = int(local()(3)); w == 0) acc.accum(o.t, p, o.n, int(o.at), op, lk);
      else if (w == 1) acc.raccum(o.t, p, o.n, int(o.at), op, lk).wait();
      else reqs.push_back(acc.raccum(o.t, p, o.n, int(o.at), op, lk));
      break;
    case Count: for (int k = 0; k < o.times; k++) fetched[{o.t, o.at}].push_back(acc.fetchOp(o.t, T(1), int(o.at), op, lk)); break;
    case Swap: {
      T old = acc.fetchOp(o.t, p[0], int(o.at), op, lk); mon::stat("fetches");
      if (old != m.a[o.t][o.at]) mon::violation("rdma:fetch", "%s: exchanging cell %zu of target %d gave %g instead of %g", what, o.at, o.t, double(old), double(m.a[o.t][o.at]));
      break; }
    }
    if (local().chance(0.1)) theMsg()->sendMsg<Ping, onPing>(NodeType(local()(uint64_t(np()))), makeMessage<Ping>());
    if (reqs.size() && local().chance(0.3)) { auto i = size_t(local()(reqs.size())); reqs[i].wait(); if (!reqs[i].done()) mon::violation("rdma:request", "%s: a request waited for is not done", what); }
  }
  for (auto& r : reqs) while (!r.test()) theSched()->runSchedulerOnceImpl();
  reqs.clear();
  theCollective()->barrier();
  // what has become of the cells
  std::vector<std::vector<T>> old = m.a;
  for (int t = 0; t < targets; t++) for (size_t i = 0; i < cells[t].size(); i++) {
    auto& c = cells[t][i]; T& v = m.a[t][i];
    if (c.kind == Put || c.kind == Swap) v = contribution<T>(salt, t, i, c.who);
    else if (c.kind != Keep) for (int r = 0; r < np(); r++) if (c.mask >> r & 1) {
      T x = contribution<T>(salt, t, i, r);
      if (c.kind == Sum) v = T(v + x); else if (c.kind == Max) v = std::max(v, x); else if (c.kind == Min) v = std::min(v, x); else v = T(v + c.times);
    }
  }
  // the counters gave out every number once
  struct F { int t; uint64_t cell; double v; };
  std::vector<F> fs; for (auto& x : fetched) for (auto v : x.second) fs.push_back({x.first.first, x.first.second, double(v)});
  std::map<std::pair<int, uint64_t>, std::vector<double>> all;
  for (auto& v : dist::gather(fs)) for (auto& f : v) all[{f.t, f.cell}].push_back(f.v);
  if (me() == 0) for (int t = 0; t < targets; t++) for (size_t i = 0; i < cells[t].size(); i++) if (cells[t][i].kind == Count) {
    auto g = all[{t, i}]; std::sort(g.begin(), g.end()); mon::stat("fetches", (long long)g.size());
    size_t want = size_t(__builtin_popcountll(cells[t][i].mask)) * size_t(cells[t][i].times);
    bool ok = g.size() == want; for (size_t k = 0; ok && k < g.size(); k++) ok = g[k] == double(old[t][i]) + double(k);
    if (!ok) mon::violation("rdma:fetch", "%s: %zu steps of a counter of target %d did not give each number once", what, want, t);
  }
}

template <typename T, typename Acc> static void judge(Model<T>& m, Acc& acc, char const* what, bool locks) {
  int const targets = int(m.a.size());
  auto cmp = [&](int t, size_t at, T const* p, size_t n, char const* how) {
    mon::eval(); mon::stat("cells_read", (long long)n);
    for (size_t k = 0; k < n; k++) if (p[k] != m.a[t][at + k]) {
      mon::violation("rdma:data", "%s: %s of cells %zu..%zu of target %d of %d gave %g in cell %zu instead of %g (%d ranks)", what, how, at, at + n, t, targets, double(p[k]), at + k, double(m.a[t][at + k]), np()); return; }
  };
  std::vector<int> order; for (int t = 0; t < targets; t++) order.push_back(t);
  for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[size_t(local()(i))]);
  std::vector<std::unique_ptr<T[]>> bufs; std::vector<std::tuple<rdma::RequestHolder, int, size_t, size_t, T*>> reqs;
  int budget = 24;
  for (int t : order) {
    auto& a = m.a[t];
    if (acc.isLocal(t)) {
      acc.access(t, [&](T const* p, size_t n, bool exact) {
        if (exact ? n != a.size() : n < a.size()) mon::violation("rdma:count", "%s: target %d of %zu cells shows %zu to its owner", what, t, a.size(), n);
        cmp(t, 0, p, a.size(), "the owner's view");
      });
    } else if (budget-- <= 0) continue;
    if (acc.count(t) != a.size()) mon::violation("rdma:count", "%s: target %d of %zu cells is said to have %zu (%d ranks)", what, t, a.size(), acc.count(t), np());
    for (int k = 0; k < 2 && a.size(); k++) {
      size_t at = k ? size_t(local()(a.size())) : 0, n = k ? 1 + size_t(local()(a.size() - at)) : a.size();
      bufs.push_back(std::make_unique<T[]>(n)); auto* p = bufs.back().get();
      auto lk = local().chance(0.3) ? Lock::Exclusive : Lock::Shared;
      switch (local()(locks ? 4 : 3)) {
      case 0: acc.get(t, p, n, int(at), lk); cmp(t, at, p, n, "get"); break;
      case 1: acc.rget(t, p, n, int(at), lk).wait(); cmp(t, at, p, n, "rget"); break;
      case 2: reqs.emplace_back(acc.rget(t, p, n, int(at), lk), t, at, n, p); break;
      case 3: acc.lock(t, lk); acc.get(t, p, n, int(at), Lock::None); acc.unlock(); cmp(t, at, p, n, "get under a lock"); break;
      }
    }
  }
  for (auto& [r, t, at, n, p] : reqs) { r.wait(); cmp(t, at, p, n, "a later rget"); }
  reqs.clear();
  theCollective()->barrier();
}

// ---- windows of ranks ----
template <typename T> struct NodeAcc {
  HandleRDMA<T> h;
  bool isLocal(int t) { return t == me(); }
  size_t count(int t) { return h.getCount(NodeType(t)); }
  void put(int t, T* p, size_t n, int at, Lock l) { h.put(NodeType(t), p, n, at, l); }
  auto rput(int t, T* p, size_t n, int at, Lock l) { return h.rput(NodeType(t), p, n, at, l); }
  void get(int t, T* p, size_t n, int at, Lock l) { h.get(NodeType(t), p, n, at, l); }
  auto rget(int t, T* p, size_t n, int at, Lock l) { return h.rget(NodeType(t), p, n, at, l); }
  void accum(int t, T* p, size_t n, int at, MPI_Op op, Lock l) { h.accum(NodeType(t), p, n, at, op, l); }
  auto raccum(int t, T* p, size_t n, int at, MPI_Op op, Lock l) { return h.raccum(NodeType(t), p, n, at, op, l); }
  T fetchOp(int t, T v, int at, MPI_Op op, Lock l) { return h.fetchOp(NodeType(t), v, at, op, l); }
  void lock(int t, Lock l) { h.lock(l, NodeType(t)); }
  void unlock() { h.unlock(); }
  template <typename F> void access(int, F f) {
    if (local().chance(0.5)) h.readShared([&](T const* p, size_t n) { f(p, n, true); }); else h.readExclusive([&](T const* p, size_t n) { f(p, n, true); });
  }
};

template <typename T> static void fill(Model<T>& m, int t, size_t n) { m.a[size_t(t)].resize(n); for (auto& v : m.a[size_t(t)]) v = val<T>(shared().next()); }

template <typename T> static void windows(objgroup::proxy::Proxy<Obj> px) {
  int many = 1 + int(shared()(3));
  std::vector<NodeAcc<T>> accs(many); std::vector<Model<T>> ms(many); std::vector<bool> uni(many);
  for (int k = 0; k < many; k++) {
    ms[k].a.resize(size_t(np())); uni[k] = shared().chance(0.5);
    size_t n = 1 + size_t(shared()(40));
    for (int t = 0; t < np(); t++) fill(ms[k], t, uni[k] ? n : shared().chance(0.15) ? 0 : 1 + size_t(shared()(60)));
    accs[k].h = px.makeHandleRDMA<T>(ms[k].a[me()].size(), uni[k]);
    mon::stat("windows");
  }
  for (int k = 0; k < many; k++) {
    auto& h = accs[k].h; theSched()->runSchedulerWhile([&] { return !h.ready(); });
    if (!h.isInit()) mon::violation("rdma:handle", "a handle made is not initialized");
    bool seen = false;
    h.modifyExclusive([&](T* p, size_t n) { seen = true; if (n != ms[k].a[me()].size()) mon::violation("rdma:count", "a window of %zu cells shows %zu", ms[k].a[me()].size(), n); std::copy(ms[k].a[me()].begin(), ms[k].a[me()].end(), p); });
    if (!seen) mon::violation("rdma:handle", "the access to a window's own part did not happen");
  }
  theCollective()->barrier();
  std::vector<bool> all(size_t(np()), true);
  for (int ph = 0; ph < 2; ph++) for (int k = 0; k < many; k++) {
    plan(ms[k], accs[k], "window", true, all);
    if (shared().chance(0.3)) { // by the owner
      bool sh = shared().chance(0.5); auto salt = shared().next();
      auto f = [&](T* p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = contribution<T>(salt, me(), i, 0); };
      if (sh) accs[k].h.modifyShared(f); else accs[k].h.modifyExclusive(f);
      for (int t = 0; t < np(); t++) for (size_t i = 0; i < ms[k].a[t].size(); i++) ms[k].a[t][i] = contribution<T>(salt, t, i, 0);
      theCollective()->barrier();
    }
    judge(ms[k], accs[k], "window", true);
    // with actions and a buffer
    int t = int(local()(uint64_t(np()))); auto& a = ms[k].a[t];
    if (a.size()) {
      auto h = accs[k].h; int ran = 0; std::vector<T> buf(a.size());
      bool own = local().chance(0.5); if (own) h.setBuffer(buf.data());
      for (int x = 0; x < 2; x++) h.addAction([&](T* p) { ran++; mon::eval(); for (size_t i = 0; i < a.size(); i++) if (p[i] != a[i]) { mon::violation("rdma:action", "the action after a get sees other data"); break; } });
      if (local().chance(0.5)) h.get(NodeType(t), a.size(), 0, Lock::Shared); else h.rget(NodeType(t), a.size(), 0, Lock::Shared).wait();
      mon::stat("actions", ran);
      if (ran != 2) mon::violation("rdma:action", "%d of the 2 actions after a get ran", ran);
      if (own && buf != a) mon::violation("rdma:action", "a get into a buffer left other data there");
    }
    theCollective()->barrier();
  }
  for (int k = many; k-- > 0;) px.destroyHandleRDMA(accs[k].h);
}

// ---- sets of windows: every rank has some, named by a number ----
template <typename T> struct SetAcc {
  rdma::HandleSet<T>* s; std::vector<Index2D> ix; std::vector<bool>* shape = nullptr;
  auto& h() { return s->getAny(); }
  bool isLocal(int t) { return ix[t].x() == me(); }
  size_t count(int t) { return h().getCount(ix[t]); }
  void put(int t, T* p, size_t n, int at, Lock l) { h().put(ix[t], p, n, at, l); }
  auto rput(int t, T* p, size_t n, int at, Lock l) { return h().rput(ix[t], p, n, at, l); }
  void get(int t, T* p, size_t n, int at, Lock l) { h().get(ix[t], p, n, at, l); }
  auto rget(int t, T* p, size_t n, int at, Lock l) { return h().rget(ix[t], p, n, at, l); }
  void accum(int t, T* p, size_t n, int at, MPI_Op op, Lock l) { h().accum(ix[t], p, n, at, op, l); }
  auto raccum(int t, T* p, size_t n, int at, MPI_Op op, Lock l) { return h().raccum(ix[t], p, n, at, op, l); }
  T fetchOp(int t, T v, int at, MPI_Op op, Lock l) { return h().fetchOp(ix[t], v, at, op, l); }
  void lock(int, Lock) { } void unlock() { }
  template <typename F> void access(int t, F f) {
    auto& x = (*s)[ix[t].y()];
    if (local().chance(0.5)) x.readShared([&](T const* p, size_t n) { f(p, n, false); }); else x.readExclusive([&](T const* p, size_t n) { f(p, n, false); });
  }
};

template <typename T> static void sets(objgroup::proxy::Proxy<Obj> px) {
  bool dense = shared().chance(0.5), one = shared().chance(0.3);
  int most = 0; size_t n0 = 1 + size_t(shared()(20));
  std::vector<std::map<int, size_t>> maps{size_t(np())};
  for (auto& m : maps) {
    int c = 1 + int(shared()(6)), name = 0;
    for (int i = 0; i < c; i++) { if (!dense) name += int(shared()(4)); m[name++] = one ? n0 : 1 + size_t(shared()(30)); }
    most = std::max(most, name);
  }
  most += int(shared()(3));
  auto& mine = maps[me()];
  rdma::HandleSet<T> s;
  if (dense) { std::vector<size_t> v; for (auto& x : mine) v.push_back(x.second); s = px.makeHandleSetRDMA<T>(most, v, one); }
  else { std::unordered_map<int32_t, size_t> u(mine.begin(), mine.end()); s = px.makeHandleSetRDMA<T>(most, u, one); }
  SetAcc<T> acc{&s, {}}; Model<T> m;
  for (int r = 0; r < np(); r++) for (auto& x : maps[r]) { acc.ix.emplace_back(r, x.first); m.a.emplace_back(); fill(m, int(m.a.size()) - 1, x.second); mon::stat("set_windows"); }
  for (size_t t = 0; t < m.a.size(); t++) if (acc.isLocal(int(t))) s[acc.ix[t].y()].modifyExclusive([&](T* p, size_t n) {
    if (n < m.a[t].size()) mon::violation("rdma:count", "a window of a set of %zu cells shows %zu", m.a[t].size(), n);
    else std::copy(m.a[t].begin(), m.a[t].end(), p); });
  theCollective()->barrier();
  std::vector<bool> all(m.a.size(), true);
  for (int ph = 0; ph < 2; ph++) {
    plan(m, acc, "set", false, all); judge(m, acc, "set", false);
    auto h = s.getAny(); int t = int(local()(m.a.size())), ran = 0; auto& a = m.a[t]; std::vector<T> buf(a.size());
    bool own = local().chance(0.5); if (own) h.setBuffer(buf.data());
    h.addAction([&](T* p) { ran++; mon::eval(); for (size_t i = 0; i < a.size(); i++) if (p[i] != a[i]) { mon::violation("rdma:action", "the action after a get sees other data"); break; } });
    if (local().chance(0.5)) h.get(acc.ix[t], a.size(), 0, Lock::Shared); else h.rget(acc.ix[t], a.size(), 0, Lock::Shared).wait();
    mon::stat("actions", ran);
    if (ran != 1) mon::violation("rdma:action", "the action after a get ran %d times", ran);
    if (own && buf != a) mon::violation("rdma:action", "a get into a buffer left other data there");
    theCollective()->barrier();
  }
  px.destroyHandleSetRDMA(s);
}

// ---- windows of elements that move ----
template <typename T> struct Col : Collection<Col<T>, Index2D> {
  HandleRDMA<T, Index2D> h;
  static inline std::map<std::pair<int, int>, size_t> sizes;
  static inline std::map<std::pair<int, int>, std::vector<T>> init;
  void make(bool uniform) {
    auto i = this->getIndex(); auto p = this->getCollectionProxy();
    h = p.template makeHandleRDMA<T>(i, sizes[{int(i.x()), int(i.y())}], uniform);
  }
  void set() { auto i = this->getIndex(); auto& v = init[{int(i.x()), int(i.y())}]; h.modifyExclusive([&](T* p, size_t n) { if (n < v.size()) mon::violation("rdma:count", "an element's window of %zu cells shows %zu", v.size(), n); else std::copy(v.begin(), v.end(), p); }); }
  void drop() { auto p = this->getCollectionProxy(); p.destroyHandleRDMA(h); }
  template <typename S> void serialize(S& s) { Collection<Col<T>, Index2D>::serialize(s); s | h; }
};

template <typename T> struct ColAcc {
  using P = vrt::collection::CollectionProxy<Col<T>, Index2D>;
  P px; std::vector<Index2D> ix; HandleRDMA<T, Index2D> any;
  bool isLocal(int t) { return px[ix[t]].tryGetLocalPtr() != nullptr; }
  auto& h() { return any; }
  size_t count(int t) { return h().getCount(ix[t]); }
  void put(int t, T* p, size_t n, int at, Lock l) { h().put(ix[t], p, n, at, l); }
  auto rput(int t, T* p, size_t n, int at, Lock l) { return h().rput(ix[t], p, n, at, l); }
  void get(int t, T* p, size_t n, int at, Lock l) { h().get(ix[t], p, n, at, l); }
  auto rget(int t, T* p, size_t n, int at, Lock l) { return h().rget(ix[t], p, n, at, l); }
  void accum(int t, T* p, size_t n, int at, MPI_Op op, Lock l) { h().accum(ix[t], p, n, at, op, l); }
  auto raccum(int t, T* p, size_t n, int at, MPI_Op op, Lock l) { return h().raccum(ix[t], p, n, at, op, l); }
  T fetchOp(int t, T v, int at, MPI_Op op, Lock l) { return h().fetchOp(ix[t], v, at, op, l); }
  void lock(int, Lock) { } void unlock() { }
  template <typename F> void access(int t, F f) {
    auto& x = px[ix[t]].tryGetLocalPtr()->h;
    if (local().chance(0.5)) x.readShared([&](T const* p, size_t n) { f(p, n, false); }); else x.readExclusive([&](T const* p, size_t n) { f(p, n, false); });
  }
};

template <typename T> static void elements() {
  using P = vrt::collection::CollectionProxy<Col<T>, Index2D>;
  int X = 1 + int(shared()(5)), Y = 1 + int(shared()(4));
  bool few = shared().chance(0.3); if (!few) while (X * Y < np()) X++;
  bool uniform = shared().chance(0.4); size_t n0 = 1 + size_t(shared()(16));
  ColAcc<T> acc; Model<T> m;
  Col<T>::sizes.clear(); Col<T>::init.clear();
  for (int x = 0; x < X; x++) for (int y = 0; y < Y; y++) {
    acc.ix.emplace_back(x, y); m.a.emplace_back(); fill(m, int(m.a.size()) - 1, uniform ? n0 : 1 + size_t(shared()(24)));
    Col<T>::sizes[{x, y}] = m.a.back().size(); Col<T>::init[{x, y}] = m.a.back(); mon::stat("element_windows");
  }
  P px = theCollection()->constructCollective<Col<T>>(Index2D(X, Y), "c08");
  acc.px = px; theCollective()->barrier();
  mon::scenario(mon::fmt("windows of %dx%d elements", X, Y));
  runInEpochCollective([&] { px.template broadcastCollective<&Col<T>::make>(uniform); });
  runInEpochCollective([&] { px.template broadcastCollective<&Col<T>::set>(); });
  auto pick = [&] { for (auto& i : acc.ix) if (auto p = px[i].tryGetLocalPtr()) { acc.any = p->h; return true; } return false; };
  std::vector<bool> all(m.a.size(), true);
  int phases = 2 + int(shared()(3));
  for (int ph = 0; ph < phases; ph++) {
    // ranks without an element have no handle: send them one
    struct H { char b[sizeof(HandleRDMA<T, Index2D>)]; };
    bool have = pick(); auto haves = dist::sumAll(have ? 1 : 0);
    if (haves == np() || !few) { if (haves == np()) { plan(m, acc, "element", false, all); judge(m, acc, "element", false); mon::stat("element_phases"); } }
    else { // the ranks that have one only read
      theCollective()->barrier();
    }
    int lb = int(shared()(4));
    auto c = const_cast<vt::arguments::AppConfig*>(theConfig());
    c->vt_lb = true; c->vt_lb_interval = 1; c->vt_lb_name = lb == 0 ? "NoLB" : lb == 1 ? "RotateLB" : "RandomLB";
    auto before = std::vector<int>(); for (size_t t = 0; t < m.a.size(); t++) before.push_back(acc.isLocal(int(t)));
    thePhase()->nextPhaseCollective();
    long long moved = 0; for (size_t t = 0; t < m.a.size(); t++) moved += acc.isLocal(int(t)) && !before[t];
    mon::stat("element_moves", moved);
    theCollective()->barrier();
  }
  mon::scenario(mon::fmt("destroying the windows of %dx%d elements", X, Y));
  runInEpochCollective([&] { px.template broadcastCollective<&Col<T>::drop>(); });
  mon::scenario("after destroying the windows of elements");
  if (mon::argi("AFTER", 1)) { thePhase()->nextPhaseCollective(); theCollective()->barrier(); }
  px.destroy(); theCollective()->barrier();
  runInEpochCollective([&] { });
}

template <typename T> static void round() {
  int only = mon::argi("ONLY", -1);
  auto px = theObjGroup()->makeCollective<Obj>("c08"); theCollective()->barrier();
  if (only < 0 || only == 0) { mon::scenario(mon::fmt("windows on %d ranks", np())); windows<T>(px); theCollective()->barrier(); }
  if (only < 0 || only == 1) { mon::scenario(mon::fmt("sets of windows on %d ranks", np())); sets<T>(px); theCollective()->barrier(); }
  if (only < 0 || only == 2) { mon::scenario(mon::fmt("windows of elements on %d ranks", np())); elements<T>(); }
  theCollective()->barrier();
  theObjGroup()->destroyCollective(px);
}

int main(int argc, char** argv) {
  return dist::run(argc, argv, [] {
    int rounds = mon::argi("ROUNDS", mon::thorough() ? 20 : 5);
    for (int r = 0; r < rounds; r++) {
      switch (shared()(5)) { case 0: round<int32_t>(); break; case 1: round<double>(); break; case 2: round<uint64_t>(); break; case 3: round<int16_t>(); break; case 4: round<int64_t>(); break; }
      dist::syncAll();
    }
  }, [] { });
}
