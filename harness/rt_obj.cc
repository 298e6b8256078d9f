// C10 and C11: object groups (sends, broadcasts, multicasts, invocations, reductions, objects made late,
// replaced and destroyed) and callbacks (every kind of target, triggered anywhere any number of times).
#include "dist.h"
#include <vt/objgroup/headers.h>
#include <vt/group/region/group_range.h>
#include <vt/group/region/group_list.h>
#include <map>
#include <set>
#include <algorithm>

using namespace vt;
using dist::me; using dist::np; using dist::shared; using dist::local;

// ---- ledger: what every rank is owed and what it got -------------------------------------------
struct Op { uint64_t id; uint64_t to; int32_t what; int32_t from; };      // to: one bit per rank
static std::vector<Op> owed;
static std::map<uint64_t, std::pair<int, int>> got;                       // id -> times, what
static uint64_t serial = 0;
static uint64_t fresh() { return mon::mix(mon::mix(mon::seed(), me() + 1), ++serial) >> 8; }
static uint64_t everyone() { return (1ull << np()) - 1; }
static char const* const names[] = {"a message to an object", "a parameter message to an object", "a broadcast to an object group", "a parameter broadcast to an object group",
  "a multicast", "an invocation", "a message through a base proxy", "a serialized message to an object", "a reduction result",
  "a callback to a function", "a callback to functions on all ranks", "a callback to a functor", "a callback to a closure", "a callback to a one-time closure", "a callback to an object",
  "a callback to all objects", "a callback to a collection element", "a callback to all collection elements", "a callback with a context", "a callback without arguments", "a callback to a functor on all ranks", "a callback with several listeners"};
enum { Msg, Par, Bc, BcPar, Multi, Inv, Base_, Big, Red, CbFn, CbAll, CbFunctor, CbLambda, CbOnce, CbObj, CbObjs, CbElm, CbElms, CbCtx, CbVoid, CbFunctorAll, CbMany };
static void owe(uint64_t id, uint64_t to, int what) { owed.push_back({id, to, what, me()}); mon::stat("operations"); }
static void arrive(uint64_t id, int what) {
  auto& g = got[id]; g.first++; g.second = what;
  mon::stat(what >= CbFn ? "callbacks_run" : "objgroup_runs"); mon::eval();
}
static char const* key(int what) { return what >= CbFn ? "callback:count" : what == Multi ? "objgroup:multicast" : "objgroup:count"; }
static void judge(char const* when) {
  dist::syncAll();
  std::map<uint64_t, Op> w;
  for (auto& v : dist::gather(owed)) for (auto& o : v) w[o.id] = o;
  for (auto& o : w) {
    int want = int(o.second.to >> me() & 1);
    auto it = got.find(o.first);
    int have = it == got.end() ? 0 : it->second.first;
    mon::eval();
    if (want && it != got.end() && it->second.second != o.second.what) mon::violation("objgroup:handler", "%s ran the handler of %s", names[o.second.what], names[it->second.second]);
    if (want != have) mon::violation(key(o.second.what), "%s: %s made by rank %d of %d ran %d times on rank %d%s", when, names[o.second.what], o.second.from, np(), have, me(), want ? "" : ", which it was not for");
  }
  for (auto& g : got) if (!w.count(g.first)) mon::violation(key(g.second.second), "%s: %s that nobody made", when, names[g.second.second]);
  got.clear(); owed.clear();
  dist::syncAll();
}

// ---- object groups ---------------------------------------------------------------------------
struct Obj;
struct M : Message { uint64_t id = 0, proxy = 0; int from = 0, hops = 0, what = 0; unsigned char b[40]; };
struct S : Message {
  using MessageParentType = Message; vt_msg_serialize_required();
  uint64_t id = 0, proxy = 0; int from = 0, hops = 0, what = 0; std::vector<unsigned char> b;
  template <typename Z> void serialize(Z& z) { MessageParentType::serialize(z); z | id | proxy | from | hops | what | b; }
};
static std::map<uint64_t, int> live, born, died;        // by label index
static void follow(int hops);

struct Root {
  explicit Root(uint64_t t) : tag(t) { born[tag]++; live[tag]++; }
  Root(Root const&) = delete;
  virtual ~Root() { died[tag]++; live[tag]--; tag = 0xdead; }
  uint64_t tag;
  ObjGroupProxyType proxy = 0;
  virtual Root* self() { return this; }
  void check(uint64_t p, int from, char const* what);
  void viaBase(M* m);
};
struct Obj : Root {
  using Root::Root;
  std::vector<int> extra = std::vector<int>(7, 3);
  void onM(M* m) { check(m->proxy, m->from, names[m->what]); body(m->b, sizeof m->b, m->id, m->what); arrive(m->id, m->what); follow(m->hops); }
  void onS(S* m) { check(m->proxy, m->from, names[m->what]); if (m->b.size() != m->id % 6000) mon::violation("objgroup:payload", "a message with %llu bytes arrived with %zu", (unsigned long long)(m->id % 6000), m->b.size()); body(m->b.data(), m->b.size(), m->id, m->what); arrive(m->id, m->what); follow(m->hops); }
  void onPar(uint64_t id, uint64_t p, int from, int hops, int what, std::vector<unsigned char> const& v, std::string s) {
    check(p, from, names[what]); body(v.data(), v.size(), id, what);
    if (s != mon::fmt("s%llu", (unsigned long long)id)) mon::violation("objgroup:payload", "%s arrived with a different string", names[what]);
    arrive(id, what); follow(hops);
  }
  int ask(uint64_t id, int x) { arrive(id, Inv); return x * 3 + 1; }
  std::unique_ptr<int> give(uint64_t id, int x) { arrive(id, Inv); return std::make_unique<int>(x + 5); }
  void askMsg(M* m) { arrive(m->id, m->what); }
  void summed(uint64_t id, int64_t a, int64_t b) { arrive(id, Red); reds[id] = {a, b}; }
  void cbArgs(uint64_t id, int what, int x) { if (x != int(id % 1000)) mon::violation("callback:arguments", "%s got other arguments", names[what]); arrive(id, what); }
  void cbMsg(M* m) { body(m->b, sizeof m->b, m->id, m->what); arrive(m->id, m->what); }
  static void body(void const* p, size_t n, uint64_t id, int what) {
    if (long at = dist::mismatch(p, n, id); at >= 0) mon::violation(what >= CbFn ? "callback:arguments" : "objgroup:payload", "%s: a %zu-byte payload differs at byte %ld", names[what], n, at);
  }
  std::map<uint64_t, std::pair<int64_t, int64_t>> reds;
};
struct Other : Obj { using Obj::Obj; double pad[9] = {}; };
void Root::check(uint64_t p, int from, char const* what) {
  mon::eval();
  if (tag == 0xdead) mon::violation("objgroup:object", "%s ran on a destroyed object", what);
  if (!proxy || p != proxy) mon::violation("objgroup:object", "%s to group %llx ran on an object of group %llx", what, (unsigned long long)p, (unsigned long long)proxy);
  auto f = theContext()->getFromNodeCurrentTask();
  if (f != from) mon::violation("objgroup:from", "%s from rank %d ran as from rank %d (%d ranks)", what, from, int(f), np());
}
void Root::viaBase(M* m) { check(m->proxy, m->from, names[m->what]); arrive(m->id, m->what); follow(m->hops); }

using Proxy = objgroup::proxy::Proxy<Obj>;
struct Group { ObjGroupProxyType p; uint64_t tag; int how; Obj* raw; bool live; };
static std::vector<Group> groups;
static size_t known = 0;            // the first so many of groups may be addressed by messages

static std::vector<NodeType> someRanks(uint64_t& mask) {
  std::vector<NodeType> l; int p = 1 + int(local()(4));
  for (int r = 0; r < np(); r++) if (int(local()(4)) < p) l.push_back(NodeType(r));
  if (l.empty()) l.push_back(NodeType(local()(np())));
  for (size_t a = l.size(); a > 1; a--) std::swap(l[a - 1], l[local()(a)]);
  mask = 0; for (auto r : l) mask |= 1ull << r;
  return l;
}
static bool multicasts = true;
static void one(Group& g, int hops) {
  Proxy px{g.p};
  auto id = fresh(); NodeType to = NodeType(local()(np()));
  std::vector<unsigned char> v(id % 300); dist::fill(v.data(), v.size(), id);
  auto str = mon::fmt("s%llu", (unsigned long long)id);
  auto mk = [&](int what) { auto m = makeMessage<M>(); m->id = id; m->proxy = g.p; m->from = me(); m->hops = hops; m->what = what; dist::fill(m->b, sizeof m->b, id); return m; };
  auto mkS = [&](int what) { auto m = makeMessage<S>(); m->id = id; m->proxy = g.p; m->from = me(); m->hops = hops; m->what = what; m->b.resize(id % 6000); dist::fill(m->b.data(), m->b.size(), id); return m; };
  switch (local()(multicasts ? 12 : 10)) {
  case 0: owe(id, 1ull << to, Msg); px[to].sendMsg<&Obj::onM>(mk(Msg)); break;
  case 1: owe(id, 1ull << to, Par); px[to].send<&Obj::onPar>(id, g.p, me(), hops, int(Par), v, str); break;
  case 2: owe(id, 1ull << to, Big); px[to].sendMsg<&Obj::onS>(mkS(Big)); break;
  case 3: owe(id, everyone(), Bc); px.broadcastMsg<&Obj::onM>(mk(Bc)); break;
  case 4: owe(id, everyone(), BcPar); px.broadcast<&Obj::onPar>(id, g.p, me(), hops, int(BcPar), v, str); break;
  case 5: owe(id, everyone(), Bc); px.broadcastMsg<&Obj::onS>(mkS(Bc)); break;
  case 6: owe(id, 1ull << to, Base_); px.castToBase<Root>()[to].sendMsg<&Root::viaBase>(mk(Base_)); break;
  case 7: { owe(id, 1ull << me(), Inv); int x = int(local()(1000)), r = px[NodeType(me())].invoke<&Obj::ask>(id, x); if (r != 3 * x + 1) mon::violation("objgroup:invoke", "an invocation returned %d instead of %d", r, 3 * x + 1); break; }
  case 8: { owe(id, 1ull << me(), Inv); int x = int(local()(1000)); auto r = px[NodeType(me())].invoke<&Obj::give>(id, x); if (!r || *r != x + 5) mon::violation("objgroup:invoke", "an invocation returned another value"); break; }
  case 9: { owe(id, 1ull << me(), Inv); auto m = mk(Inv); theObjGroup()->invoke<Obj, M, &Obj::askMsg>(px[NodeType(me())], m); break; }
  default: {
    uint64_t mask; auto l = someRanks(mask);
    std::unique_ptr<group::region::Region> reg;
    if (local()(3) == 0) {
      int lo = int(local()(np())), hi = lo + 1 + int(local()(np() - lo)); mask = 0;
      for (int r = lo; r < hi; r++) mask |= 1ull << r;
      reg = std::make_unique<group::region::Range>(NodeType(lo), NodeType(hi), NodeType(1));
    } else reg = std::make_unique<group::region::List>(group::region::Region::ListType(l.begin(), l.end()));
    owe(id, mask, Multi); mon::stat("multicasts"); mon::distinct(mon::mix(mask, mon::mix(np(), me())));
    px.multicast<&Obj::onPar>(std::move(reg), id, uint64_t(g.p), me(), hops, int(Multi), v, str);
  } }
}
static void follow(int hops) {
  if (hops <= 0 || !known) return;
  if (local()(2)) one(groups[local()(known)], hops - 1);
}
static void pump(int n) { for (int i = 0; i < n; i++) { theSched()->runSchedulerOnceImpl(); mon::poll(); } }

static void objects(int k) {
  groups.clear(); known = 0;
  int n = 1 + int(shared()(4));
  mon::scenario(mon::fmt("object groups on %d ranks", np()));
  dist::syncAll();
  runInEpochCollective([&] {
    for (int i = 0; i < n; i++) {
      int how = int(shared()(4)); uint64_t tag = mon::mix(mon::mix(k, i), 77) | 1;
      // some ranks arrive late: what others send in the meantime has to wait for the object
      if (local()(2)) pump(int(local()(200)));
      Proxy px; Obj* raw = nullptr; std::string label = mon::fmt("group %d", i);
      switch (how) {
      case 0: px = theObjGroup()->makeCollective<Obj>(label, tag); break;
      case 1: { std::unique_ptr<Obj> u = std::make_unique<Other>(tag); raw = u.get(); px = theObjGroup()->makeCollective<Obj>(std::move(u), label); break; }
      case 2: px = theObjGroup()->makeCollective<Obj>([=] { return std::make_unique<Obj>(tag); }, label); break;
      case 3: raw = new Obj(tag); px = theObjGroup()->makeCollective<Obj>(raw, label); break;
      }
      mon::stat("object_groups"); mon::eval();
      if (raw && px.get() != raw) mon::violation("objgroup:object", "the proxy of a group does not lead to the object it was made of");
      if (px.get()->tag != tag || live[tag] != 1 || born[tag] != 1) mon::violation("objgroup:object", "making a group left %d objects", live[tag]);
      for (auto& g : groups) if (g.p == px.getProxy()) mon::violation("objgroup:identity", "two groups share a proxy");
      px.get()->proxy = px.getProxy();
      if (theObjGroup()->getProxy<Obj>(px.get()).getProxy() != px.getProxy()) mon::violation("objgroup:identity", "the group of an object is another one");
      groups.push_back({px.getProxy(), tag, how, raw, true});
      known = groups.size();
      for (int q = int(local()(4)); q > 0; q--) one(groups[local()(known)], int(local()(3)));
    }
    for (int q = int(local()(6)); q > 0; q--) one(groups[local()(known)], int(local()(4)));
  });
  for (auto& g : dist::gather(groups)) for (size_t i = 0; i < groups.size(); i++) if (g.size() != groups.size() || g[i].p != groups[i].p) mon::violation("objgroup:identity", "ranks disagree on the proxy of a group");
  judge("after creation");
  // replace an object in place, then talk to it
  if (shared()(2)) {
    auto& g = groups[shared()(groups.size())];
    if (g.how == 0 || g.how == 2) {
      auto ntag = mon::mix(g.tag, 3) | 1;
      if (local()(3)) {
        Proxy px{g.p};
        px[NodeType(me())].update(objgroup::proxy::ObjGroupReconstructTag, ntag);
        mon::stat("replacements"); mon::eval();
        if (live[g.tag] != 0 || live[ntag] != 1 || px.get()->tag != ntag) mon::violation("objgroup:replace", "replacing an object left %d old and %d new ones", live[g.tag], live[ntag]);
        px.get()->proxy = g.p;
        if (theObjGroup()->getProxy<Obj>(px.get()).getProxy() != g.p) mon::violation("objgroup:identity", "the group of a replaced object is another one");
        g.tag = ntag; g.raw = nullptr;
      }
    }
  }
  dist::syncAll();
  int reds = int(shared()(3));
  struct R { uint64_t id; int64_t a, b; size_t g; bool all; int to; }; std::vector<R> rs;
  runInEpochCollective([&] {
    for (int q = int(local()(8)); q > 0; q--) one(groups[local()(known)], int(local()(4)));
    for (int q = 0; q < reds; q++) {
      size_t gi = shared()(groups.size()); Proxy px{groups[gi].p};
      uint64_t id = mon::mix(mon::mix(mon::seed(), k), 1000 + q) >> 8;
      int64_t a = int64_t(mon::mix(id, me()) % 1000003) - 500000, b = int64_t(mon::mix(id, 50 + me()) % 1000003) - 500000;
      bool all = shared()(2); int to = int(shared()(np()));
      int64_t wa = 0, wb = 0; for (int r = 0; r < np(); r++) { wa += int64_t(mon::mix(id, r) % 1000003) - 500000; wb += int64_t(mon::mix(id, 50 + r) % 1000003) - 500000; }
      rs.push_back({id, wa, wb, gi, all, to});
      uint64_t mine = me() == 0 ? id : 0;     // summed, too
      if (all) px.allreduce<&Obj::summed, collective::PlusOp>(mine, a, b);
      else px.reduce<&Obj::summed, collective::PlusOp>(px[NodeType(to)], mine, a, b);
      if (me() == 0) owe(id, all ? everyone() : 1ull << to, Red);
      mon::stat("reductions");
    }
  });
  for (auto& r : rs) if (r.all || r.to == me()) {
    auto& m = Proxy{groups[r.g].p}.get()->reds; auto it = m.find(r.id); mon::eval();
    if (it == m.end()) mon::violation("objgroup:reduce", "the result of a reduction over a group did not reach its object");
    else if (it->second != std::make_pair(r.a, r.b)) mon::violation("objgroup:reduce", "a reduction over a group gave (%lld,%lld) instead of (%lld,%lld)", (long long)it->second.first, (long long)it->second.second, (long long)r.a, (long long)r.b);
  }
  judge("later");
  for (auto& g : groups) {
    Proxy px{g.p};
    if (shared()(2)) dist::syncAll();
    px.destroyCollective();
    mon::stat("destroyed"); mon::eval();
    int want = g.how == 3 ? 1 : 0;
    if (live[g.tag] != want) mon::violation("objgroup:destroy", "destroying a group of %s left %d objects", g.how == 3 ? "the user's objects" : "its own objects", live[g.tag]);
    if (g.how == 3) delete g.raw;
    if (died[g.tag] != 1) mon::violation("objgroup:destroy", "an object was destroyed %d times", died[g.tag]);
  }
  known = 0; groups.clear();
  dist::syncAll();
}

// ---- callbacks -------------------------------------------------------------------------------
struct Elm : Collection<Elm, Index1D> {
  void args(uint64_t id, int what, int x) { if (x != int(id % 1000)) mon::violation("callback:arguments", "%s got other arguments", names[what]); hit(id, what); }
  void msg(CollectionMessage<Elm>*) {}
  void hit(uint64_t id, int what);
};
static std::map<std::pair<uint64_t, int>, int> elmGot;
void Elm::hit(uint64_t id, int what) { elmGot[{id, int(getIndex().x())}]++; mon::stat("callbacks_run"); }

static void freeArgs(uint64_t id, int what, int x) { if (x != int(id % 1000)) mon::violation("callback:arguments", "%s got other arguments", names[what]); arrive(id, what); }
static void freeMsg(M* m) { Obj::body(m->b, sizeof m->b, m->id, m->what); arrive(m->id, m->what); }
struct Plain { void operator()(uint64_t id, int what, int x) { freeArgs(id, what, x); } };
struct PlainM { void operator()(M* m) { freeMsg(m); } };
struct Ctx { int salt; };

using CbA = Callback<uint64_t, int, int>;
using CbM = Callback<M>;
// one handle, serialized and passed around
struct Kind { int what; uint64_t to; uint64_t magic; };
struct Carry : Message {
  using MessageParentType = Message; vt_msg_serialize_required();
  CbA a; CbM m; Callback<> v; int which = 0, what = 0, times = 0, hops = 0; uint64_t to = 0, vid = 0; int elms = 0;
  template <typename Z> void serialize(Z& z) { MessageParentType::serialize(z); z | a | m | v | which | what | times | hops | to | vid | elms; }
};
struct VOp { uint64_t vid; int times; };
static std::vector<VOp> vOwed; static std::map<uint64_t, int> vGot;      // callbacks without arguments
struct EOp { uint64_t id; int idx; };                                    // idx -1: all
static std::vector<EOp> eOwed;
static void trigger(CbA a, CbM m, Callback<> v, int which, int what, uint64_t to, uint64_t vid, int elms, int times) {
  for (int i = 0; i < times; i++) {
    mon::stat("callbacks_triggered");
    auto id = fresh();
    if (which == 2) { vOwed.push_back({vid, 1}); v.send(); continue; }
    if (elms) eOwed.push_back({id, elms == 1 ? int(to) : -1}); else owe(id, to, what);
    if (which == 0) a.send(id, what, int(id % 1000));
    else { auto x = makeMessage<M>(); x->id = id; x->what = what; dist::fill(x->b, sizeof x->b, id); m.sendMsg(x); }
  }
}
static void onCarry(Carry* c) {
  mon::stat("callbacks_carried");
  trigger(c->a, c->m, c->v, c->which, c->what, c->to, c->vid, c->elms, c->times);
  if (c->hops > 0) {
    auto m = makeMessage<Carry>(); m->a = c->a; m->m = c->m; m->v = c->v; m->which = c->which; m->what = c->what; m->times = int(local()(3)); m->hops = c->hops - 1; m->to = c->to; m->vid = c->vid; m->elms = c->elms;
    theMsg()->sendMsg<onCarry>(NodeType(local()(np())), m);
  }
}
static std::map<uint64_t, int> onceRuns;
static void callbacks(int k) {
  mon::scenario(mon::fmt("callbacks on %d ranks", np()));
  static Proxy objs; static bool made = false;
  if (!made) { made = true; objs = theObjGroup()->makeCollective<Obj>("targets", uint64_t(12345)); objs.get()->proxy = objs.getProxy(); }
  int range = 1 + int(shared()(7));
  auto col = makeCollection<Elm>("elements").bounds(Index1D(range)).bulkInsert().wait();
  elmGot.clear(); vOwed.clear(); vGot.clear(); eOwed.clear(); onceRuns.clear();
  static std::vector<std::unique_ptr<Ctx>> ctxs; ctxs.clear();
  dist::syncAll();
  runInEpochCollective([&] {
    for (int n = 2 + int(local()(7)); n > 0; n--) {
      CbA a; CbM m; Callback<> v; int which = 0, what = 0, elms = 0; uint64_t to = 0, vid = 0; bool once = false;
      NodeType t = NodeType(local()(np()));
      switch (local()(19)) {
      case 0: a = theCB()->makeSend<freeArgs>(t); what = CbFn; to = 1ull << t; break;
      case 1: m = theCB()->makeSend<freeMsg>(t); which = 1; what = CbFn; to = 1ull << t; break;
      case 2: a = theCB()->makeBcast<freeArgs>(); what = CbAll; to = everyone(); break;
      case 3: m = theCB()->makeBcast<freeMsg>(); which = 1; what = CbAll; to = everyone(); break;
      case 4: a = theCB()->makeSend<Plain>(t); what = CbFunctor; to = 1ull << t; break;
      case 5: m = theCB()->makeSend<PlainM>(t); which = 1; what = CbFunctor; to = 1ull << t; break;
      case 6: a = theCB()->makeBcast<Plain>(); what = CbFunctorAll; to = everyone(); break;
      case 7: { int who = me(); m = theCB()->makeFunc<M>(pipe::LifetimeEnum::Indefinite, [who](M* x) { if (who != me()) mon::violation("callback:place", "a closure of rank %d ran on rank %d", who, me()); freeMsg(x); }); which = 1; what = CbLambda; to = 1ull << me(); break; }
      case 8: { auto tag = fresh(); m = theCB()->makeFunc<M>(pipe::LifetimeEnum::Once, [tag](M* x) { onceRuns[tag]++; freeMsg(x); }); which = 1; what = CbOnce; to = 1ull << me(); once = true; break; }
      case 9: a = theCB()->makeSend<&Obj::cbArgs>(objs[t]); what = CbObj; to = 1ull << t; break;
      case 10: m = theCB()->makeSend<&Obj::cbMsg>(objs[t]); which = 1; what = CbObj; to = 1ull << t; break;
      case 11: a = theCB()->makeBcast<&Obj::cbArgs>(objs); what = CbObjs; to = everyone(); break;
      case 12: m = theCB()->makeBcast<&Obj::cbMsg>(objs); which = 1; what = CbObjs; to = everyone(); break;
      case 13: { int i = int(local()(range)); a = theCB()->makeSend<&Elm::args>(col[i]); what = CbElm; to = i; elms = 1; break; }
      case 14: a = theCB()->makeBcast<&Elm::args>(col); what = CbElms; elms = 2; break;
      case 15: { ctxs.push_back(std::make_unique<Ctx>(Ctx{int(me() * 31 + 7)})); m = theCB()->makeFunc<M, Ctx>(pipe::LifetimeEnum::Indefinite, ctxs.back().get(), [](M* x, Ctx* c) { if (c->salt != me() * 31 + 7) mon::violation("callback:place", "a callback got another context"); freeMsg(x); }); which = 1; what = CbCtx; to = 1ull << me(); break; }
      case 16: { vid = fresh(); auto id = vid; v = theCB()->makeFunc(pipe::LifetimeEnum::Indefinite, [id] { vGot[id]++; mon::stat("callbacks_run"); mon::eval(); }); which = 2; what = CbVoid; break; }
      case 17: { vid = fresh(); auto id = vid; v = theCB()->makeFunc(pipe::LifetimeEnum::Once, [id] { vGot[id]++; mon::stat("callbacks_run"); mon::eval(); }); which = 2; what = CbVoid; once = true; break; }
      case 18: { vid = fresh(); ctxs.push_back(std::make_unique<Ctx>(Ctx{0})); auto id = vid; static std::map<Ctx*, uint64_t> ids; ids[ctxs.back().get()] = id; v = theCB()->makeFunc<Ctx>(pipe::LifetimeEnum::Indefinite, ctxs.back().get(), [](Ctx* c) { vGot[ids[c]]++; mon::stat("callbacks_run"); mon::eval(); }); which = 2; what = CbVoid; break; }
      }
      mon::stat("callbacks_made"); mon::eval();
      if (mon::argi("VERBOSE", 0)) fprintf(stderr, "V%d %s which %d once %d\n", me(), names[what], which, once);
      mon::distinct(mon::mix(what * 4 + which, mon::mix(np(), to)));
      if (which == 0 ? a == CbA{} : which == 1 ? m == CbM{} : v == Callback<>{}) mon::violation("callback:identity", "%s equals a callback that was never made", names[what]);
      if (which == 0) { CbA b = a; if (!(b == a)) mon::violation("callback:identity", "a copied callback differs"); }
      if (once) {
        if (local()(2)) trigger(a, m, v, which, what, to, vid, elms, 1);
        else { auto c = makeMessage<Carry>(); c->a = a; c->m = m; c->v = v; c->which = which; c->what = what; c->times = 1; c->to = to; c->vid = vid; c->elms = elms; theMsg()->sendMsg<onCarry>(NodeType(local()(np())), c); }
        mon::stat("one_time_callbacks");
        continue;
      }
      trigger(a, m, v, which, what, to, vid, elms, int(local()(3)));
      for (int q = int(local()(3)); q > 0; q--) {
        auto c = makeMessage<Carry>(); c->a = a; c->m = m; c->v = v; c->which = which; c->what = what; c->times = int(local()(4)); c->hops = int(local()(4)); c->to = to; c->vid = vid; c->elms = elms;
        theMsg()->sendMsg<onCarry>(NodeType(local()(np())), c);
      }
    }
  });
  judge("callbacks");
  { // elements and argument-free ones
    struct G { uint64_t id; int idx, n; }; std::vector<G> g; for (auto& x : elmGot) g.push_back({x.first.first, x.first.second, x.second});
    std::map<std::pair<uint64_t, int>, int> tot; for (auto& v : dist::gather(g)) for (auto& x : v) tot[{x.id, x.idx}] += x.n;
    std::map<std::pair<uint64_t, int>, int> want;
    for (auto& v : dist::gather(eOwed)) for (auto& x : v) { if (x.idx >= 0) want[{x.id, x.idx}]++; else for (int i = 0; i < range; i++) want[{x.id, i}]++; }
    mon::eval();
    for (auto& x : want) if (tot[x.first] != x.second) mon::violation("callback:count", "a callback to element %d of %d ran %d times instead of %d (%d ranks)", x.first.second, range, tot[x.first], x.second, np());
    for (auto& x : tot) if (!want.count(x.first) && x.second) mon::violation("callback:count", "element %d ran a callback that was not for it", x.first.second);
    std::vector<VOp> have; for (auto& x : vGot) have.push_back({x.first, x.second});
    std::map<uint64_t, int> vt_, vw;
    for (auto& v : dist::gather(have)) for (auto& x : v) vt_[x.vid] += x.times;
    for (auto& v : dist::gather(vOwed)) for (auto& x : v) vw[x.vid] += x.times;
    for (auto& x : vw) { mon::eval(); if (vt_[x.first] != x.second) mon::violation("callback:count", "a callback without arguments triggered %d times ran %d times (%d ranks)", x.second, vt_[x.first], np()); }
    for (auto& x : vt_) if (!vw.count(x.first)) mon::violation("callback:count", "a callback without arguments ran untriggered");
  }
  runInEpochCollective([&] { if (me() == 0) col.destroy(); });
  dist::syncAll();
}

int main(int argc, char** argv) {
  return dist::run(argc, argv, [] {
    int rounds = mon::argi("ROUNDS", mon::thorough() ? 60 : 12), only = mon::argi("ONLY", -1);
    multicasts = mon::argi("MULTI", 1);
    for (int k = 0; k < rounds; k++) {
      if (only != 1) objects(k);
      if (only != 0) callbacks(k);
      mon::progress();
    }
  });
}
