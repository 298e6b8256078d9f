// C16: interval sets, counters, epoch identifiers and epoch windows against plain models.
#include "comp.h"
#include <vt/termination/interval/integral_set.h>
#include <vt/termination/interval/strong_integral_set.h>
#include <vt/epoch/epoch_manip.h>
#include <vt/epoch/epoch_window.h>
#include <vt/epoch/epoch.h>
#include <vt/termination/term_common.h>
#include <vt/utils/adt/ranged_counter.h>

using comp::rng;
using namespace vt;

template <typename T>
void judgeSet(IntegralSet<T> const& s, std::set<T> const& m, std::vector<T> const& universe, char const* what) {
  mon::eval();
  MON_CHECK(s.size() == m.size(), "intset:size", "%s: size %zu, model %zu", what, s.size(), m.size());
  MON_CHECK(s.empty() == m.empty(), "intset:empty", "%s: empty %d, model size %zu", what, int(s.empty()), m.size());
  if (!m.empty()) {
    MON_CHECK(s.lower() == *m.begin(), "intset:lower", "%s: lower %lld, model %lld", what, (long long)s.lower(), (long long)*m.begin());
    MON_CHECK(s.upper() == *m.rbegin(), "intset:upper", "%s: upper %lld, model %lld", what, (long long)s.upper(), (long long)*m.rbegin());
    MON_CHECK(s.range() == T(*m.rbegin() - *m.begin()), "intset:range", "%s: range %lld", what, (long long)s.range());
  }
  // number of maximal runs
  size_t runs = 0; bool first = true; T prev{};
  for (auto x : m) { if (first || x != T(prev + 1)) runs++; prev = x; first = false; }
  MON_CHECK(s.compressedSize() == runs, "intset:compressed", "%s: %zu intervals, model has %zu runs", what, s.compressedSize(), runs);
  if (runs) {
    float c = float(m.size()) / float(runs);
    MON_CHECK(std::fabs(s.compression() - c) <= 1e-4f * c, "intset:compression", "%s: %f, model %f", what, s.compression(), c);
  }
  for (auto u : universe) {
    bool has = m.count(u) != 0;
    MON_CHECK(s.contains(u) == has, "intset:contains", "%s: contains(%lld) = %d, model %d", what, (long long)u, int(!has), int(has));
    MON_CHECK(s.exists(u) == has, "intset:exists", "%s: exists(%lld) = %d, model %d", what, (long long)u, int(!has), int(has));
  }
}

template <typename T> void intset(int ops, T lo, T hi) {
  mon::scenario("intset");
  std::vector<T> universe;
  for (T x = lo;; x++) { universe.push_back(x); if (x == hi) break; }
  auto s = rng().chance(.3) ? IntegralSet<T>(universe[0]) : IntegralSet<T>();
  std::set<T> m;
  int style = rng()(4);     // 0 random, 1 sequential, 2 mostly insert, 3 mostly erase
  size_t seqAt = 0;
  uint64_t hist = style;
  for (int i = 0; i < ops; i++) {
    double pErase = style == 3 ? .6 : style == 2 ? .15 : .4;
    T x = universe[rng()(universe.size())];
    if (style == 1 && rng().chance(.8)) x = universe[seqAt++ % universe.size()];
    int op;
    if (rng().chance(.01)) op = 3;
    else if (rng().chance(.04)) op = 4;
    else if (rng().chance(.03)) op = 5;
    else op = rng().chance(pErase) ? 1 : rng().chance(.2) ? 2 : 0;
    if (op == 0 && !m.count(x)) {
      auto it = s.insert(x); m.insert(x);
      MON_CHECK(it->contains(x), "intset:insert-iterator", "insert(%lld) returned an interval without it", (long long)x);
    } else if (op == 1 && m.count(x)) {
      s.erase(x); m.erase(x);
    } else if (op == 2) {
      T a = x, b = universe[std::min<size_t>(universe.size() - 1, size_t(x - universe[0]) + rng()(12))];
      bool clash = false;
      for (auto u : universe) if (u >= a && u <= b && m.count(u)) clash = true;
      if (!clash) {
        s.insertInterval(Interval<T>(a, b));
        for (auto u : universe) if (u >= a && u <= b) m.insert(u);
      }
    } else if (op == 3) { s.clear(); m.clear(); }
    else if (op == 4) {
      // copies are independent sets
      auto c = s; std::set<T> mc = m;
      T y = universe[rng()(universe.size())];
      if (!mc.count(y)) { c.insert(y); mc.insert(y); } else { c.erase(y); mc.erase(y); }
      T z = universe[rng()(universe.size())];
      if (!mc.count(z)) { c.insert(z); mc.insert(z); }
      judgeSet(c, mc, universe, "copy");
      judgeSet(s, m, universe, "original after its copy changed");
      if (rng().chance(.5)) { s = c; m = mc; }
    } else if (op == 5) {
      IntegralSet<T> c(std::move(s)); s = IntegralSet<T>();
      judgeSet(c, m, universe, "moved");
      T y = universe[rng()(universe.size())];
      if (!m.count(y)) { c.insert(y); m.insert(y); }
      s = std::move(c);
    } else continue;
    hist = mon::mix(hist, op * 4096 + uint64_t(x - universe[0]));
    mon::stat("set_ops");
    if (m.size() < 40 || i % 5 == 0) judgeSet(s, m, universe, "set");
    mon::distinct(mon::mix(mon::hashStr(typeid(T).name()), hist));
  }
  // iteration gives the members in order
  judgeSet(s, m, universe, "final");
  // zero is the interval's marker for "no bound": an interval that starts or ends there cannot be read
  for (auto it = s.ibegin(); it != s.iend(); ++it) if (it->lower() == 0 || it->upper() == 0) return;
  mon::stat("sets_iterated");
  std::vector<T> got;
  for (auto it = s.begin(); it != s.end(); ++it) { got.push_back(*it); if (got.size() > m.size() + 2) break; }
  std::vector<T> want(m.begin(), m.end());
  MON_CHECK(got == want, "intset:iteration", "iteration gave %zu members, model has %zu", got.size(), want.size());
  // intervals are disjoint, maximal and in order
  std::vector<T> fromIv; bool bad = false; T last{}; bool first = true;
  for (auto it = s.ibegin(); it != s.iend(); ++it) {
    if (!first && !(it->lower() > last + 1)) bad = true;
    first = false; last = it->upper();
    for (T v = it->lower();; v++) { fromIv.push_back(v); if (v == it->upper()) break; }
    MON_CHECK(it->width() == T(it->upper() - it->lower() + 1) && it->valid(), "interval:width", "width %lld", (long long)it->width());
  }
  MON_CHECK(!bad && fromIv == want, "intset:intervals", "the intervals do not cover the members in maximal runs");
}

template <typename T> void counter() {
  mon::scenario("counter");
  T lo = T(rng()(50)), hi = T(lo + rng()(20));
  if (rng().chance(.3)) { hi = std::numeric_limits<T>::max(); lo = T(hi - rng()(6)); }
  if (rng().chance(.3)) { lo = std::numeric_limits<T>::min(); hi = T(lo + rng()(6)); }
  adt::RangedCounter<T> c(lo, hi);
  T m = lo;
  for (int i = 0; i < 60; i++) {
    mon::eval();
    T before = m; T r;
    T up = before == hi ? lo : T(before + 1), dn = before == lo ? hi : T(before - 1);
    switch (rng()(6)) {
    case 0: r = T(++c); m = up; MON_CHECK(r == m, "counter:preinc", "%lld", (long long)r); break;
    case 1: r = T(c++); m = up; MON_CHECK(r == before, "counter:postinc", "%lld", (long long)r); break;
    case 2: r = T(--c); m = dn; MON_CHECK(r == m, "counter:predec", "%lld", (long long)r); break;
    case 3: r = T(c--); m = dn; MON_CHECK(r == before, "counter:postdec", "%lld", (long long)r); break;
    case 4: c.increment(); m = up; break;
    case 5: c.decrement(); m = dn; break;
    }
    MON_CHECK(c.get() == m, "counter:value", "value %lld, model %lld in [%lld,%lld]", (long long)c.get(), (long long)m, (long long)lo, (long long)hi);
  }
  mon::distinct(mon::mix(uint64_t(lo), uint64_t(hi)) ^ sizeof(T));
}

void intervals() {
  mon::scenario("interval");
  using I = Interval<int64_t>;
  for (int k = 0; k < 60; k++) {
    int64_t a = rng().range(-30, 30), b = a + rng()(10), c = rng().range(-30, 30), d = c + rng()(10);
    I x(a, b), y(c, d);
    mon::eval();
    bool inter = a <= d && c <= b;
    MON_CHECK(I::intersects(x, y) == inter, "interval:intersects", "[%ld,%ld] [%ld,%ld]", a, b, c, d);
    MON_CHECK(I::less(x, y) == (b < c), "interval:less", "[%ld,%ld] [%ld,%ld]", a, b, c, d);
    auto t = x.tangent(y);
    auto want = d + 1 == a ? I::PositionEnum::TangentLeft : b + 1 == c ? I::PositionEnum::TangentRight : I::PositionEnum::NotTangent;
    MON_CHECK(t == want, "interval:tangent", "[%ld,%ld] [%ld,%ld] -> %d", a, b, c, d, int(t));
    if (want != I::PositionEnum::NotTangent) {
      I z = x; z.join(y, t);
      MON_CHECK(z.lower() == std::min(a, c) && z.upper() == std::max(b, d), "interval:join", "[%ld,%ld]", z.lower(), z.upper());
    }
    MON_CHECK(x.contains(c) == (c >= a && c <= b), "interval:contains", "%ld in [%ld,%ld]", c, a, b);
    MON_CHECK((x == y) == (a == c && b == d) && (x != y) == !(a == c && b == d), "interval:equal", "[%ld,%ld] [%ld,%ld]", a, b, c, d);
    mon::distinct(mon::mix(mon::mix(a, b), mon::mix(c, d)));
  }
}

struct EpFields { bool rooted; int node; epoch::eEpochCategory cat; uint64_t seq; };

void judgeEpoch(EpochType e, EpFields const& f, char const* what) {
  using M = epoch::EpochManip;
  mon::eval();
  MON_CHECK(M::isRooted(e) == f.rooted, "epoch:rooted", "%s %llx: rooted %d want %d", what, (unsigned long long)*e, int(!f.rooted), int(f.rooted));
  if (M::isRooted(e) != f.rooted) return;
  MON_CHECK(M::category(e) == f.cat, "epoch:category", "%s %llx: category %d want %d", what, (unsigned long long)*e, int(M::category(e)), int(f.cat));
  MON_CHECK(uint64_t(M::seq(e)) == f.seq, "epoch:seq", "%s %llx: seq %llx want %llx", what, (unsigned long long)*e, (unsigned long long)M::seq(e), (unsigned long long)f.seq);
  if (f.rooted) MON_CHECK(M::node(e) == f.node, "epoch:node", "%s %llx: node %d want %d", what, (unsigned long long)*e, int(M::node(e)), f.node);
}

void identifiers() {
  mon::scenario("epoch-fields");
  using M = epoch::EpochManip;
  MON_CHECK(epoch::epoch_seq_coll_num_bits >= 32 && epoch::epoch_seq_coll_num_bits < 64 && epoch::epoch_seq_root_num_bits >= 32 && epoch::epoch_seq_root_num_bits < 64 - int(sizeof(NodeType) * 8), "epoch:seq-bits", "%d bits for the sequence of collective epochs, %d of rooted ones", int(epoch::epoch_seq_coll_num_bits), int(epoch::epoch_seq_root_num_bits));
  uint64_t const seqColl = (1ull << epoch::epoch_seq_coll_num_bits) - 1, seqRoot = (1ull << epoch::epoch_seq_root_num_bits) - 1;
  std::map<uint64_t, std::string> seen;
  for (int k = 0; k < 200; k++) {
    EpFields f;
    f.rooted = rng().chance(.6);
    f.node = rng().chance(.3) ? (rng().chance(.5) ? 0 : std::numeric_limits<NodeType>::max() - 1) : int(rng()(f.rooted && rng().chance(.5) ? 32000 : 300));
    f.cat = epoch::eEpochCategory(rng()(3));
    uint64_t mx = f.rooted ? seqRoot : seqColl;
    f.seq = 0;
    EpochType e;
    if (f.rooted) e = M::generateEpoch(true, NodeType(f.node), f.cat);
    else e = M::generateEpoch(false, uninitialized_destination, f.cat);
    judgeEpoch(e, f, "generated");
    f.seq = rng().chance(.25) ? mx : rng().chance(.5) ? rng()(1000) : rng().next() & mx;
    M::setSeq(e, f.seq);
    judgeEpoch(e, f, "after setSeq");
    auto s = mon::fmt("%d/%d/%d/%llx", int(f.rooted), f.rooted ? f.node : -1, int(f.cat), (unsigned long long)f.seq);
    auto it = seen.emplace(uint64_t(*e), s);
    MON_CHECK(it.first->second == s, "epoch:collision", "%s and %s are both %llx", s.c_str(), it.first->second.c_str(), (unsigned long long)*e);
    // setting one field leaves the others
    for (int j = 0; j < 3; j++) {
      switch (rng()(3)) {
      case 0: f.cat = epoch::eEpochCategory(rng()(3)); M::setCategory(e, f.cat); break;
      case 1: if (f.rooted) { f.node = int(rng()(std::numeric_limits<NodeType>::max())); M::setNode(e, NodeType(f.node)); } break;
      case 2: f.seq = rng().next() & mx; M::setSeq(e, f.seq); break;
      }
      judgeEpoch(e, f, "after set");
    }
    mon::distinct(uint64_t(*e));
  }
}

// Every allocated epoch is one that was not in use, is in use until declared terminated, and is
// not handed out again while others are free for longer.
void window() {
  mon::scenario("epoch-window");
  using M = epoch::EpochManip;
  M manip;
  struct Fam { bool rooted; int node; epoch::eEpochCategory cat; std::set<uint64_t> live; std::vector<uint64_t> dead; std::set<uint64_t> all; uint64_t term = 0; };
  std::vector<Fam> fam;
  fam.push_back({false, -1, epoch::eEpochCategory::NoCategoryEpoch});
  for (int i = 0; i < 4; i++)
    fam.push_back({true, int(rng()(6)), epoch::eEpochCategory(rng()(3))});
  // families with the same root and category are one family
  for (size_t i = 1; i < fam.size(); i++)
    for (size_t j = 1; j < i; j++)
      if (fam[i].node == fam[j].node && fam[i].cat == fam[j].cat) { fam.erase(fam.begin() + i); i--; break; }
  std::set<uint64_t> liveAll;
  for (int k = 0; k < 400; k++) {
    auto& f = fam[rng()(fam.size())];
    if (rng().chance(.55)) {
      EpochType e = f.rooted ? manip.getNextRootedEpoch(f.cat, NodeType(f.node)) : manip.getNextCollectiveEpoch(f.cat);
      mon::eval();
      uint64_t v = uint64_t(*e);
      MON_CHECK(!liveAll.count(v), "epoch:reallocated-live", "epoch %llx allocated while in use", (unsigned long long)v);
      MON_CHECK(e != no_epoch && e != term::any_epoch_sentinel, "epoch:reserved", "a reserved epoch %llx was allocated", (unsigned long long)v);
      MON_CHECK(M::isRooted(e) == f.rooted && (!f.rooted || (M::node(e) == f.node && M::category(e) == f.cat)), "epoch:wrong-family", "epoch %llx", (unsigned long long)v);
      MON_CHECK(!f.all.count(v), "epoch:reused-early", "epoch %llx handed out again although never-used ones remain", (unsigned long long)v);
      MON_CHECK(!manip.getTerminatedWindow(e)->isTerminated(e), "epoch:new-is-terminated", "epoch %llx", (unsigned long long)v);
      f.live.insert(v); f.all.insert(v); liveAll.insert(v);
      mon::stat("epochs_allocated");
    } else if (!f.live.empty()) {
      auto it = f.live.begin(); std::advance(it, rng()(f.live.size()));
      EpochType e{*it};
      auto w = manip.getTerminatedWindow(e);
      w->setEpochTerminated(e);
      f.term++;
      f.dead.push_back(*it); liveAll.erase(*it); f.live.erase(it);
      MON_CHECK(w->getTotalTerminated() == f.term, "epoch:total-terminated", "%llu want %llu", (unsigned long long)w->getTotalTerminated(), (unsigned long long)f.term);
    }
    for (auto& g : fam) {
      for (auto v : g.live) { EpochType e{v}; MON_CHECK(!manip.getTerminatedWindow(e)->isTerminated(e), "epoch:live-is-terminated", "epoch %llx", (unsigned long long)v); }
      for (auto v : g.dead) { EpochType e{v}; MON_CHECK(manip.getTerminatedWindow(e)->isTerminated(e), "epoch:dead-is-live", "epoch %llx", (unsigned long long)v); }
      mon::eval(g.live.size() + g.dead.size());
    }
  }
  for (auto& g : fam) if (!g.all.empty()) {
    EpochType e{*g.all.begin()};
    auto w = manip.getTerminatedWindow(e);
    uint64_t mx = (1ull << (g.rooted ? epoch::epoch_seq_root_num_bits : epoch::epoch_seq_coll_num_bits)) - 2;
    MON_CHECK(w->getSize() == mx - g.live.size(), "epoch:window-size", "window of %s holds %zu free epochs, model %llu", g.rooted ? "rooted" : "collective", w->getSize(), (unsigned long long)(mx - g.live.size()));
    MON_CHECK(manip.getArchetype(e) == (g.rooted ? M::generateEpoch(true, NodeType(g.node), g.cat) : M::generateEpoch()), "epoch:archetype", "archetype of %llx", (unsigned long long)*e);
  }
  mon::distinct(mon::seed() ^ rng().next());
}

// Epochs activated from outside (another rank made them) ahead of the allocator.
void windowActivated() {
  mon::scenario("epoch-window-activated");
  using M = epoch::EpochManip;
  auto arch = rng().chance(.5) ? M::generateEpoch(true, NodeType(rng()(8)), epoch::eEpochCategory(rng()(3))) : M::generateEpoch();
  epoch::EpochWindow w(arch);
  std::set<uint64_t> live;
  auto mk = [&](uint64_t q) { EpochType e = arch; M::setSeq(e, q); return e; };
  for (int k = 0; k < 60; k++) {
    int op = rng()(3);
    if (op == 0) {
      auto e = mk(1 + rng()(50));
      w.activateEpoch(e);
      live.insert(*e);
    } else if (op == 1) {
      auto e = w.allocateNewEpoch();
      mon::eval();
      MON_CHECK(!live.count(*e), "epoch:reallocated-live", "epoch %llx activated from outside, then allocated", (unsigned long long)*e);
      live.insert(*e);
    } else if (!live.empty()) {
      auto it = live.begin(); std::advance(it, rng()(live.size()));
      w.setEpochTerminated(EpochType{*it}); live.erase(it);
    }
    for (uint64_t q = 1; q < 80; q++) { auto e = mk(q); MON_CHECK(w.isTerminated(e) == !live.count(*e), "epoch:window-state", "epoch %llx", (unsigned long long)*e); }
    mon::eval(80);
  }
  MON_CHECK(M::seq(w.getFirst()) >= 1, "epoch:window-first", "first %llx", (unsigned long long)*w.getFirst());
  mon::stat("outside_activations");
}

// strong set over the epoch type
void strongSet() {
  mon::scenario("strong-set");
  StrongIntegralSet<EpochType> s; std::set<uint64_t> m;
  for (int i = 0; i < 200; i++) {
    uint64_t x = 5 + rng()(40);
    EpochType e{x};
    if (m.count(x)) { s.erase(e); m.erase(x); } else { s.insert(e); m.insert(x); }
    if (rng().chance(.01)) { s.clear(); m.clear(); }
    mon::eval();
    MON_CHECK(s.size() == m.size() && s.empty() == m.empty(), "strongset:size", "%zu want %zu", s.size(), m.size());
    for (uint64_t y = 5; y < 45; y++) MON_CHECK(s.contains(EpochType{y}) == (m.count(y) > 0), "strongset:contains", "%llu", (unsigned long long)y);
    if (!m.empty()) MON_CHECK(*s.lower() == *m.begin() && *s.upper() == *m.rbegin(), "strongset:bounds", "[%llu,%llu]", (unsigned long long)*s.lower(), (unsigned long long)*s.upper());
  }
}

int main() {
  return comp::run([] {
  int R = int(mon::argi("ROUNDS", 8));
  for (int r = 0; r < R; r++) {
    intset<int>(250, -20, 20);
    intset<int64_t>(250, -10, 70);
    intset<uint64_t>(250, 0, 40);
    intset<uint64_t>(200, (1ull << 63) - 20, (1ull << 63) + 20);
    intset<uint16_t>(150, 65535 - 40, 65534);
    for (int i = 0; i < 10; i++) { counter<int>(); counter<uint64_t>(); counter<uint8_t>(); counter<int8_t>(); }
    intervals();
    identifiers();
    window();
    windowActivated();
    strongSet();
  }
  });
}
