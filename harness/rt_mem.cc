// C13: what is handed to the runtime is released: messages, payloads, captured state, elements and objects live until
// their work is done, are destroyed exactly once, and nothing stays behind.
#include <vt/transport.h>
#include <vt/messaging/dependent_send_chain.h>
#include <algorithm>
#include <map>
#include <set>
#include "chaos.h"
#include "dist.h"
#include "mon.h"

extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

using namespace vt;
using dist::local; using dist::me; using dist::np; using dist::shared;

enum Kind { MSG, PAYLOAD, CAPTURE, ELEMENT, OBJECT, VALUE, KINDS };
static char const* kindName[] = {"message", "payload", "capture", "element", "object", "value"};
static std::set<void const*>& live(int k) { static std::set<void const*> s[KINDS]; return s[k]; }

// a member that knows where it lives
template <int K> struct Tok {
  uint64_t word = 0x70cULL + K;
  Tok() { born(); } Tok(Tok const& o) { o.check("copied"); born(); } Tok(Tok&& o) { o.check("moved"); born(); }
  Tok& operator=(Tok const& o) { check("assigned to"); o.check("assigned"); return *this; }
  ~Tok() { check("destroyed"); live(K).erase(this); word = 0xdeadULL; mon::eval(); }
  void born() { word = 0x70cULL + K; if (!live(K).insert(this).second) mon::violation("memory:constructed-twice", "a %s is made where another one lives", kindName[K]); mon::stat(kindName[K]); }
  void check(char const* what) const { if (word != 0x70cULL + K || !live(K).count(this)) mon::violation("memory:use-after-destruction", "a %s is %s that does not live (any more)", kindName[K], what); }
  template <typename S> void serialize(S&) { }
};


struct Ser : Message {
  using MessageParentType = Message; vt_msg_serialize_required();
  std::vector<int> data; Tok<MSG> tok; int ttl = 0; uint64_t n = 0;
  Ser() = default; Ser(long k, int t) : data(size_t(k), 7), ttl(t), n(uint64_t(k)) { }
  template <typename S> void serialize(S& s) { MessageParentType::serialize(s); s | data | tok | ttl | n; }
};
struct Plain : Message { uint64_t a[6]; int ttl; };
struct Big : Message { char a[20000]; int ttl; };
struct Pay : PayloadMessage { int ttl = 0; };

static int pick() { return int(local()(np())); }
static void onSer(Ser* m) { m->tok.check("received"); if (m->data.size() != m->n) mon::violation("memory:contents", "a message lost its contents"); mon::progress(); if (m->ttl > 0) theMsg()->sendMsg<onSer>(NodeType(pick()), makeMessage<Ser>(long(local()(300)), m->ttl - 1)); }
static void onPlain(Plain* m) { mon::progress(); if (m->ttl > 0) { auto k = makeMessage<Plain>(); k->ttl = m->ttl - 1; theMsg()->sendMsg<onPlain>(NodeType(pick()), k); } }
static void onBig(Big* m) { mon::progress(); if (m->ttl > 0) { auto k = makeMessage<Big>(); k->ttl = m->ttl - 1; memset(k->a, 1, sizeof k->a); theMsg()->sendMsg<onBig>(NodeType(pick()), k); } }
static void forward(Ser* m) { // the same message goes on
  mon::progress(); if (m->ttl-- > 0) theMsg()->sendMsg<forward>(NodeType(pick()), promoteMsg(m)); }

struct Val { std::vector<int> v; Tok<VALUE> tok; template <typename S> void serialize(S& s) { s | v | tok; } friend Val operator+(Val a, Val const& b) { a.tok.check("added"); b.tok.check("added"); a.v.insert(a.v.end(), b.v.begin(), b.v.end()); return a; } };

struct Obj {
  Tok<OBJECT> tok; int got = 0;
  void take(Ser* m) { tok.check("run"); m->tok.check("received"); got++; mon::progress(); }
  void work(int ttl, std::vector<int> v) { tok.check("run"); got += int(v.size()); mon::progress(); if (ttl > 0) px[NodeType(pick())].send<&Obj::work>(ttl - 1, v); }
  void sum(Val v) { tok.check("run"); if (int(v.v.size()) != np()) mon::violation("memory:contents", "a reduction over %d ranks gave %zu values", np(), v.v.size()); mon::progress(); }
  objgroup::proxy::Proxy<Obj> px;
};

static int step = 0;
static bool wander = false;   // elements move by themselves; their reductions would then need a phase in between

struct El : vrt::collection::Collection<El, Index1D> {
  Tok<ELEMENT> tok; std::vector<int> d; int hops = 0, moved = -1;
  El() : d(40, 3) { }
  template <typename S> void serialize(S& s) { vrt::collection::Collection<El, Index1D>::serialize(s); s | tok | d | hops | moved; }
  void work(int ttl, std::vector<int> v) {
    tok.check("run"); mon::progress();
    auto n = theCollection()->getRange<El>(this->getProxy()).x();
    if (ttl > 0) this->getCollectionProxy()[int(local()(n))].send<&El::work>(ttl - 1, v);
    if (wander && moved != step && local().chance(0.3)) { moved = step; mon::stat("migrations"); this->migrate(NodeType(pick())); }
  }
  void part() { tok.check("run"); Val v; v.v.push_back(1); this->getCollectionProxy().reduce<&El::sum, collective::PlusOp>(this->getCollectionProxy()[0], std::move(v)); }
  void sum(Val v) { tok.check("run"); mon::progress(); }
};

static std::string alive(bool objects) {
  std::string s;
  for (int k = 0; k < KINDS; k++) { if (!objects && (k == ELEMENT || k == OBJECT)) continue; if (!live(k).empty()) s += mon::fmt(" %zu %s(s)", live(k).size(), kindName[k]); }
  return s;
}

// everything has been done: give sends their completion, then nothing may be left
static void quiet(bool objects, char const* when) {
  double t0 = mon::now(); uint64_t n = 0;
  while (dist::isAnyRank(!alive(objects).empty())) {
    for (int i = 0; i < 50; i++) theSched()->runSchedulerOnceImpl();
    if (++n > 400 && mon::now() - t0 > 5) break;
    mon::progress();
  }
  if (auto s = alive(objects); !s.empty()) mon::violation("memory:left", "after %s:%s are left", when, s.c_str());
  mon::stat("quiescence_checks");
}

static void messages() {
  mon::scenario("releasing messages");
  int n = 2 + int(shared()(6));
  runInEpochCollective([&] {
    for (int i = 0; i < n; i++) {
      int ttl = int(local()(4));
      switch (local()(6)) {
      case 0: theMsg()->sendMsg<onSer>(NodeType(pick()), makeMessage<Ser>(long(local()(500)), ttl)); break;
      case 1: theMsg()->broadcastMsg<onSer>(makeMessage<Ser>(long(local()(500)), 0)); break;
      case 2: { auto m = makeMessage<Plain>(); m->ttl = ttl; theMsg()->sendMsg<onPlain>(NodeType(pick()), m); break; }
      case 3: { auto m = makeMessage<Big>(); m->ttl = ttl; memset(m->a, 2, sizeof m->a); theMsg()->sendMsg<onBig>(NodeType(pick()), m); break; }
      case 4: theMsg()->sendMsg<forward>(NodeType(pick()), makeMessage<Ser>(long(local()(9000)), ttl + 1)); break;
      case 5: { auto m = makeMessage<Plain>(); m->ttl = 0; if (local().chance(0.5)) theMsg()->broadcastMsg<onPlain>(m); else theMsg()->broadcastMsg<onPlain>(m, false); break; }
      }
      mon::stat("sends");
    }
  });
  quiet(true, "messages");
}

static void captures() {
  mon::scenario("releasing actions and callbacks");
  auto tok = std::make_shared<Tok<CAPTURE>>();
  int ran = 0, want = 0;
  auto ep = theTerm()->makeEpochCollective("c13");
  for (int i = 0, n = 1 + int(local()(4)); i < n; i++) { want++; theTerm()->addAction(ep, [tok, &ran] { tok->check("run"); ran++; }); }
  theMsg()->pushEpoch(ep);
  for (int i = 0, n = int(local()(3)); i < n; i++) theMsg()->sendMsg<onSer>(NodeType(pick()), makeMessage<Ser>(20, 1));
  theMsg()->popEpoch(ep);
  theTerm()->finishedEpoch(ep);
  runSchedulerThrough(ep);
  theSched()->runSchedulerWhile([&] { return ran < want; });
  // rooted ones
  ran = want = 0;
  for (int i = 0, n = 1 + int(local()(3)); i < n; i++) {
    auto e = local().chance(0.5) ? theTerm()->makeEpochRooted("r", term::UseDS{true}) : theTerm()->makeEpochRooted("r", term::UseDS{false});
    want++; theTerm()->addAction(e, [tok, &ran] { tok->check("run"); ran++; });
    theMsg()->pushEpoch(e); theMsg()->sendMsg<onSer>(NodeType(pick()), makeMessage<Ser>(20, 2)); theMsg()->popEpoch(e);
    theTerm()->finishedEpoch(e);
    runSchedulerThrough(e);
  }
  theSched()->runSchedulerWhile([&] { return ran < want; });
  for (int i = 0, n = int(local()(4)); i < n; i++) { want++; theSched()->enqueue([tok, &ran] { tok->check("run"); ran++; }); }
  theSched()->runSchedulerWhile([&] { return ran < want; });
  // callbacks, triggered or not
  int hits = 0, aims = 0;
  runInEpochRooted([&] {
    for (int i = 0, n = 1 + int(local()(3)); i < n; i++) {
      auto cb = theCB()->makeFunc<Ser>(pipe::LifetimeEnum::Once, [tok, &hits](Ser* m) { tok->check("run"); m->tok.check("received"); hits++; });
      aims++; cb.sendMsg(makeMessage<Ser>(30, 0));
    }
  });
  if (hits != aims) mon::violation("memory:callback", "%d of %d callbacks ran", hits, aims);
  tok.reset();
  theCollective()->barrier();
  quiet(true, "actions and callbacks");
  mon::stat("capture_rounds");
}

static void objects() {
  mon::scenario("releasing objects and reductions");
  auto px = theObjGroup()->makeCollective<Obj>("c13");
  px.get()->px = px;
  theCollective()->barrier();
  int reds = 1 + int(shared()(4));
  runInEpochCollective([&] {
    for (int i = 0, n = 1 + int(local()(4)); i < n; i++) switch (local()(3)) {
      case 0: px[NodeType(pick())].sendMsg<&Obj::take>(makeMessage<Ser>(70, 0)); break;
      case 1: px.broadcastMsg<&Obj::take>(makeMessage<Ser>(70, 0)); break;
      case 2: px[NodeType(pick())].send<&Obj::work>(2, std::vector<int>(30, 1)); break;
    }
    for (int i = 0; i < reds; i++) { Val v; v.v.push_back(i); px.reduce<&Obj::sum, collective::PlusOp>(px[NodeType(i % np())], std::move(v)); mon::stat("reductions"); }
  });
  theCollective()->barrier();
  theObjGroup()->destroyCollective(px);
  quiet(true, "objects and reductions");
}

static void elements() {
  mon::scenario("releasing elements");
  int n = 1 + int(shared()(4 * np()));
  int phases = 1 + int(shared()(3)); wander = shared().chance(0.5);
  theCollective()->barrier();   // before any element can be told to do anything
  auto px = makeCollection<El>("c13").bounds(Index1D(n)).bulkInsert().wait();
  for (int p = 0; p < phases; p++) {
    if (!wander && shared().chance(0.7)) runInEpochCollective([&] { px.broadcastCollective<&El::part>(); });   // reductions need to know who has elements
    step++; theCollective()->barrier();   // an element must not take one step for two and move twice in an epoch
    runInEpochCollective([&] { for (int i = 0, k = 1 + int(local()(5)); i < k; i++) px[int(local()(n))].send<&El::work>(3, std::vector<int>(20, 1)); });
    if (auto t = dist::sumAll(int64_t(live(ELEMENT).size())); t != n) mon::violation("memory:elements", "%lld objects for %d elements", (long long)t, n);
    if (shared().chance(0.5)) { auto c = const_cast<vt::arguments::AppConfig*>(theConfig()); c->vt_lb = true; c->vt_lb_interval = 1; c->vt_lb_name = "RandomLB"; thePhase()->nextPhaseCollective(); mon::stat("phases"); }
  }
  px.destroy(); theCollective()->barrier();
  runInEpochCollective([] { });
  quiet(true, "elements"); mon::stat("collections");
}

static void groups() {
  mon::scenario("releasing groups");
  bool in = local().chance(0.5) || me() == 0; bool ready = false;
  GroupType g = 0;
  runInEpochCollective([&] { g = theGroup()->newGroupCollective(in, [&](GroupType) { ready = true; }); });
  theSched()->runSchedulerWhile([&] { return !ready; });
  theCollective()->barrier();
  runInEpochCollective([&] { if (in) { auto m = makeMessage<Ser>(60, 0); envelopeSetGroup(m->env, g); theMsg()->broadcastMsg<onSer>(m); } });
  theGroup()->deleteGroupCollective(g);
  theCollective()->barrier();
  quiet(true, "groups");
}

int main(int argc, char** argv) {
  return dist::run(argc, argv, [] {
    int rounds = mon::argi("ROUNDS", mon::thorough() ? 40 : 8), only = mon::argi("ONLY", -1);
    for (int r = 0; r < rounds; r++) {
      if (only < 0 || only == 0) messages();
      if (only < 0 || only == 1) captures();
      if (only < 0 || only == 3) objects();
      if (only < 0 || only == 4) elements();
      if (only < 0 || only == 5) groups();
      theCollective()->barrier(); dist::syncAll();
      if (mon::argi("GROW", 0) && me() == 0) fprintf(stderr, "GROW %d %zu\n", r, __sanitizer_get_current_allocated_bytes());
    }
  }, [] { if (auto s = alive(true); !s.empty()) mon::violation("memory:left", "after the runtime is gone:%s are left", s.c_str()); });
}
