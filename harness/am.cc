// C01: every active message is delivered exactly once, intact, to the ranks it was addressed to.
#include "dist.h"
using namespace dist;
using namespace vt;

enum Kind { kPod, kParam, kParamVec, kSer, kPut, kBcastPod, kBcastSer, kBcastParam, kBcastPut,
            kData, kHop, kBig, kFunctor, kSelfPod, kBcastNoSelf, kSerHop, kBigBcast, kSz, NKIND };
static char const* kindName[] = {"pod","param","param-vec","serialized","put","bcast-pod","bcast-serialized",
  "bcast-param","bcast-put","raw-data","hop","big","functor","self","bcast-not-self","serialized-hop","big-bcast","sized"};

struct Rec { uint64_t id; int32_t kind; int32_t from; };
static std::vector<Rec> got;          // deliveries on this rank
static int round_;

// id layout: round(12) origin(8) seq(20) ttl(8)
static uint64_t mkId(int round, int origin, int seq) { return (uint64_t(round) << 40) | (uint64_t(origin) << 32) | uint64_t(seq); }
static int originOf(uint64_t id) { return int((id >> 32) & 0xff); }

static void record(uint64_t id, Kind k) {
  got.push_back(Rec{id, k, int(theContext()->getFromNodeCurrentTask())});
  mon::eval();
}
static void checkBytes(void const* p, size_t n, uint64_t id, Kind k) {
  long at = mismatch(p, n, id);
  if (at >= 0) mon::violation("payload-corrupt", "%s message id=%llx differs at byte %ld of %zu", kindName[k], (unsigned long long)id, at, n);
}

struct Pod : vt::Message { uint64_t id; int kind; uint32_t n; unsigned char b[40]; };
static void podH(Pod* m) { checkBytes(m->b, sizeof m->b, m->id, Kind(m->kind)); record(m->id, Kind(m->kind)); }
struct PodFunctor { void operator()(Pod* m) { checkBytes(m->b, sizeof m->b, m->id, kFunctor); record(m->id, kFunctor); } };

template <int N> struct Big : vt::Message { uint64_t id; int kind; unsigned char b[N]; };
template <int N> static void bigH(Big<N>* m) { checkBytes(m->b, N, m->id, Kind(m->kind)); record(m->id, Kind(m->kind)); }

static void paramH(uint64_t id, int kind, double d, int x) {
  if (d != double(id % 1000003) || x != int(id % 9973)) mon::violation("payload-corrupt", "param message %llx", (unsigned long long)id);
  record(id, Kind(kind));
}
static void paramVecH(uint64_t id, int kind, std::vector<unsigned char> v, std::string s, size_t n) {
  if (v.size() != n) mon::violation("payload-corrupt", "param vector %llx size %zu want %zu", (unsigned long long)id, v.size(), n);
  checkBytes(v.data(), v.size(), id, Kind(kind));
  if (s != std::to_string(id)) mon::violation("payload-corrupt", "param string %llx", (unsigned long long)id);
  record(id, Kind(kind));
}

struct Ser : vt::Message {
  using MessageParentType = vt::Message;
  vt_msg_serialize_required();
  uint64_t id = 0; int kind = 0; size_t n = 0; int hops = 0; uint64_t hopSeed = 0;
  std::vector<unsigned char> v; std::map<std::string, int> m;
  template <typename S> void serialize(S& s) { MessageParentType::serialize(s); s | id | kind | n | hops | hopSeed | v | m; }
};
static void serH(Ser* m) {
  if (m->v.size() != m->n || m->m["k"] != int(m->id % 7919)) mon::violation("payload-corrupt", "serialized %llx size %zu want %zu", (unsigned long long)m->id, m->v.size(), m->n);
  checkBytes(m->v.data(), m->v.size(), m->id, Kind(m->kind));
  if (m->kind == kSerHop && m->hops > 0) {
    auto o = makeMessage<Ser>();
    o->id = m->id; o->kind = m->kind; o->n = m->n; o->hops = m->hops - 1; o->hopSeed = mon::mix(m->hopSeed, 3);
    o->v = m->v; o->m = m->m;
    theMsg()->sendMsg<serH>(NodeType(o->hopSeed % np()), o);
    mon::progress();
    return;
  }
  record(m->id, Kind(m->kind));
}

struct Put : vt::PayloadMessage { uint64_t id; int kind; size_t n; };
static void putH(Put* m) {
  if (m->getPutSize() != m->n) mon::violation("payload-corrupt", "put %llx size %zu want %zu", (unsigned long long)m->id, m->getPutSize(), m->n);
  else checkBytes(m->getPut(), m->n, m->id, Kind(m->kind));
  record(m->id, Kind(m->kind));
}

struct Ctl : vt::Message { uint64_t id; size_t n; int tag; int nchunks; NodeType from; };
static int pendingData = 0;
static void ctlH(Ctl* m) {
  auto id = m->id; auto n = m->n;
  auto ep = theMsg()->getEpoch();
  theTerm()->produce(ep);
  theMsg()->recvDataDirect(m->nchunks, m->tag, m->from, n, [=](PtrLenPairType p, ActionType dealloc) {
    if (size_t(std::get<1>(p)) != n) mon::violation("payload-corrupt", "raw data %llx size", (unsigned long long)id);
    checkBytes(std::get<0>(p), n, id, kData);
    got.push_back(Rec{id, kData, -1});
    mon::eval();
    dealloc();
    theTerm()->consume(ep);
  });
}

struct Hop : vt::Message { uint64_t id; uint64_t seed; int left; };
static void hopH(Hop* m) {
  if (m->left == 0) { record(m->id, kHop); return; }
  mon::progress();
  auto o = makeMessage<Hop>();
  o->id = m->id; o->left = m->left - 1; o->seed = mon::mix(m->seed, m->left);
  theMsg()->sendMsg<hopH>(NodeType(o->seed % np()), o);
}

struct Plan { uint64_t id; Kind k; int origin, dest; size_t n; uint64_t seed; };
static size_t pickSize(mon::Rng& r, size_t eager, size_t maxsend) {
  switch (r(8)) {
    case 0: return r(16);
    case 1: return r(300);
    case 2: return r(3000);
    case 3: { auto a = int64_t(eager) - 80 + int64_t(r(160)); return a > 0 ? a : 1; }
    case 4: { auto a = int64_t(maxsend) - 100 + int64_t(r(200)); return a > 0 ? a % 200000 : 1; }
    case 5: return (maxsend * (1 + r(5)) + r(3)) % 200000;
    case 6: return r(60000);
    default: return 1;
  }
}
template <int N> static void sendBig(Plan const& p, bool bc) {
  auto m = makeMessage<Big<N>>(); m->id = p.id; m->kind = p.k; fill(m->b, N, p.id);
  if (bc) theMsg()->broadcastMsg<bigH<N>>(m); else theMsg()->sendMsg<bigH<N>>(p.dest, m);
}
static std::vector<std::unique_ptr<std::vector<unsigned char>>> putBufs;

static void issue(Plan const& p) {
  switch (p.k) {
  case kPod: case kSelfPod: { auto m = makeMessage<Pod>(); m->id = p.id; m->kind = p.k; fill(m->b, sizeof m->b, p.id); theMsg()->sendMsg<podH>(p.dest, m); break; }
  case kSz: { auto m = makeMessage<Pod>(); m->id = p.id; m->kind = p.k; fill(m->b, sizeof m->b, p.id); theMsg()->sendMsgSz<Pod, podH>(p.dest, m, sizeof(Pod)); break; }
  case kFunctor: { auto m = makeMessage<Pod>(); m->id = p.id; m->kind = p.k; fill(m->b, sizeof m->b, p.id); theMsg()->sendMsg<PodFunctor>(p.dest, m); break; }
  case kParam: theMsg()->send<paramH>(vt::Node{NodeType(p.dest)}, p.id, int(p.k), double(p.id % 1000003), int(p.id % 9973)); break;
  case kBcastParam: theMsg()->broadcast<paramH>(p.id, int(p.k), double(p.id % 1000003), int(p.id % 9973)); break;
  case kParamVec: { std::vector<unsigned char> v(p.n); fill(v.data(), p.n, p.id); theMsg()->send<paramVecH>(vt::Node{NodeType(p.dest)}, p.id, int(p.k), v, std::to_string(p.id), size_t(p.n)); break; }
  case kSer: case kBcastSer: case kSerHop: {
    auto m = makeMessage<Ser>(); m->id = p.id; m->kind = p.k; m->n = p.n; m->v.resize(p.n); fill(m->v.data(), p.n, p.id); m->m["k"] = int(p.id % 7919);
    if (p.k == kSerHop) { m->hops = int(p.seed % 6); m->hopSeed = p.seed; }
    if (p.k == kBcastSer) theMsg()->broadcastMsg<serH>(m); else theMsg()->sendMsg<serH>(p.dest, m);
    break; }
  case kPut: case kBcastPut: {
    auto m = makeMessage<Put>(); m->id = p.id; m->kind = p.k; m->n = p.n;
    putBufs.push_back(std::make_unique<std::vector<unsigned char>>(p.n)); fill(putBufs.back()->data(), p.n, p.id);
    m->setPut(reinterpret_cast<std::byte*>(putBufs.back()->data()), p.n);
    if (p.k == kBcastPut) theMsg()->broadcastMsg<putH>(m); else theMsg()->sendMsg<putH>(p.dest, m);
    break; }
  case kBcastPod: case kBcastNoSelf: { auto m = makeMessage<Pod>(); m->id = p.id; m->kind = p.k; fill(m->b, sizeof m->b, p.id);
    theMsg()->broadcastMsg<podH>(m, p.k == kBcastPod); break; }
  case kData: {
    putBufs.push_back(std::make_unique<std::vector<unsigned char>>(p.n)); fill(putBufs.back()->data(), p.n, p.id);
    auto info = theMsg()->sendData(PtrLenPairType{reinterpret_cast<std::byte*>(putBufs.back()->data()), ByteType(p.n)}, p.dest, no_tag);
    auto m = makeMessage<Ctl>(); m->id = p.id; m->n = p.n; m->tag = info.getTag(); m->nchunks = info.getNumChunks(); m->from = me();
    theMsg()->sendMsg<ctlH>(p.dest, m);
    break; }
  case kHop: { auto m = makeMessage<Hop>(); m->id = p.id; m->seed = p.seed; m->left = int(p.seed % 12); theMsg()->sendMsg<hopH>(p.dest, m); break; }
  case kBig: switch (p.seed % 4) { case 0: sendBig<1000>(p, false); break; case 1: sendBig<5000>(p, false); break; case 2: sendBig<20000>(p, false); break; default: sendBig<70001>(p, false); } break;
  case kBigBcast: switch (p.seed % 3) { case 0: sendBig<1000>(p, true); break; case 1: sendBig<5000>(p, true); break; default: sendBig<20000>(p, true); } break;
  default: break;
  }
}

static std::set<int> skipKinds() {
  std::set<int> s; std::string k = mon::arg("AM_SKIP", "");
  for (int i = 0; i < NKIND; i++) if (("," + k + ",").find("," + std::string(kindName[i]) + ",") != std::string::npos) s.insert(i);
  return s;
}

static void body() {
  int rounds = int(mon::argi("ROUNDS", 6));
  int per = int(mon::argi("PER_RANK", 40));
  size_t maxsend = theConfig()->vt_max_mpi_send_size;
  auto skip = skipKinds();
  size_t ms = std::min<size_t>(maxsend, 70000);
  for (round_ = 0; round_ < rounds; round_++) {
    mon::scenario("round" + std::to_string(round_));
    got.clear(); putBufs.clear();
    std::vector<Plan> all;
    bool hot = shared()(3) == 0;             // everything aimed at one rank
    int hotDest = int(shared()(np()));
    int style = int(shared()(3));            // 0: all kinds, 1: one kind, 2: two kinds
    int k1 = int(shared()(NKIND)), k2 = int(shared()(NKIND));
    for (int o = 0; o < np(); o++)
      for (int i = 0; i < per; i++) {
        Plan p; p.id = mkId(round_, o, i); p.origin = o;
        p.k = Kind(style == 0 ? shared()(NKIND) : style == 1 ? k1 : (shared()(2) ? k1 : k2));
        p.dest = hot ? hotDest : int(shared()(np()));
        if (p.k == kSelfPod) p.dest = o;
        p.seed = shared().next();
        p.n = pickSize(shared(), ::vt::serialization::serialized_msg_eager_size, ms);
        if (p.k == kData && p.dest == o) p.dest = (o + 1) % np();
        if (p.n == 0 && (p.k == kData || p.k == kPut || p.k == kBcastPut)) p.n = 1;
        if (skip.count(p.k)) p.k = kPod;
        if ((p.k == kPut || p.k == kBcastPut) && mon::argi("PUT_MAX", 0)) p.n = 1 + p.n % mon::argi("PUT_MAX", 0);
        all.push_back(p);
      }
    syncAll();
    runInEpochCollective([&] {
      for (auto& p : all) if (p.origin == me()) {
        issue(p);
        if (local()(6) == 0) theSched()->runSchedulerOnceImpl();
      }
    });
    // the epoch has been declared finished: everything must be there already
    auto recs = gather(got);
    if (me() == 0) {
      std::map<std::pair<uint64_t,int>, int> seen; std::map<uint64_t, std::pair<int,int>> where; // id -> (count, rank)
      std::map<uint64_t, int> kinds;
      for (int r = 0; r < np(); r++) for (auto& x : recs[r]) {
        seen[{x.id, r}]++; where[x.id].first++; where[x.id].second = r; kinds[x.id] = x.kind;
        if (x.kind == kPod || x.kind == kParam || x.kind == kBcastPod || x.kind == kBig || x.kind == kBigBcast || x.kind == kSz || x.kind == kFunctor)
          if (x.from != originOf(x.id) )
            mon::violation("wrong-sender", "%s id=%llx delivered at %d says it came from %d", kindName[x.kind], (unsigned long long)x.id, r, x.from);
      }
      for (auto& p : all) {
        bool bc = p.k == kBcastPod || p.k == kBcastSer || p.k == kBcastParam || p.k == kBcastPut || p.k == kBcastNoSelf || p.k == kBigBcast;
        bool hop = p.k == kHop || p.k == kSerHop;
        if (hop) {
          int c = where.count(p.id) ? where[p.id].first : 0;
          if (c != 1) mon::violation(c ? "delivered-twice" : "lost-message", "%s id=%llx delivered %d times", kindName[p.k], (unsigned long long)p.id, c);
        } else for (int r = 0; r < np(); r++) {
          int want = bc ? (p.k == kBcastNoSelf && r == p.origin ? 0 : 1) : (r == p.dest);
          auto it = seen.find({p.id, r}); int c = it == seen.end() ? 0 : it->second;
          if (c > want) mon::violation(want ? "delivered-twice" : "delivered-to-wrong-rank", "%s id=%llx origin %d size %zu: rank %d got %d want %d", kindName[p.k], (unsigned long long)p.id, p.origin, p.n, r, c, want);
          if (c < want) mon::violation("lost-message", "%s id=%llx origin %d size %zu: rank %d got %d want %d when the epoch had finished", kindName[p.k], (unsigned long long)p.id, p.origin, p.n, r, c, want);
        }
        if (kinds.count(p.id) && kinds[p.id] != p.k) mon::violation("payload-corrupt", "kind of %llx", (unsigned long long)p.id);
        mon::distinct(mon::mix(mon::mix(p.k, p.n), p.dest * 64 + p.origin + np() * 4096) ^ mon::mix(maxsend, 1));
      }
      uint64_t tot = 0; for (auto& r : recs) tot += r.size();
      mon::stat("deliveries", tot); mon::stat("sent", all.size());
      if (round_ < 2) mon::sample(mon::fmt("round %d: %zu sends by %d ranks, %llu deliveries; first: %s id=%llx %d->%d size=%zu", round_, all.size(), np(),
        (unsigned long long)tot, kindName[all[0].k], (unsigned long long)all[0].id, all[0].origin, all[0].dest, all[0].n));
    }
    syncAll();
  }
}
int main(int c, char** v) { return dist::run(c, v, body); }
