// C17: identifiers that pack several fields in one word: what was put in comes out, fields do not
// disturb each other, and different field values give different identifiers.
#include "comp.h"
#include <vt/config.h>
#include <vt/utils/bits/bits_common.h>
#include <vt/utils/bits/bits_packer.h>
#include <vt/handler/handler.h>
#include <vt/elm/elm_id.h>
#include <vt/elm/elm_id_bits.h>
#include <vt/objgroup/common.h>
#include <vt/objgroup/proxy/proxy_bits.h>
#include <vt/group/group_common.h>
#include <vt/group/id/group_id.h>
#include <vt/pipe/id/pipe_id.h>
#include <vt/vrt/proxy/proxy_bits.h>
#include <vt/vrt/collection/proxy_builder/elm_proxy_builder.h>
#include <vt/event/event_id.h>
#include <vt/rdma/rdma_handle.h>
#include <vt/scheduler/priority.h>
#include <vt/scheduler/priority_manip.h>
#include <vt/messaging/envelope.h>
#include <vt/messaging/message.h>

using comp::rng;
using namespace vt;

// value for a field of the given width; edges more often than not
static uint64_t fieldVal(int bits) {
  uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1;
  switch (rng()(6)) {
  case 0: return 0;
  case 1: return m;
  case 2: return 1 & m;
  case 3: return (1ull << (bits - 1)) & m;
  case 4: return rng()(300) & m;
  default: return rng().next() & m;
  }
}
static NodeType nodeVal() { return NodeType(fieldVal(15)); }

// ---- the packer itself
template <typename F, typename S> void packer() {
  using U = std::make_unsigned_t<F>;
  int const W = int(sizeof(F) * 8);
  for (int k = 0; k < 60; k++) {
    int len = 1 + int(rng()(W)), start = int(rng()(W - len + 1));
    U m = len == W ? U(~U(0)) : U((U(1) << len) - 1);
    F f = F(rng().chance(.2) ? 0 : rng().chance(.2) ? ~0ull : rng().next());
    U before = U(f);
    S seg = S(rng().next());
    if (rng().chance(.6)) seg = S(U(seg) & m);     // fits; otherwise the excess bits must be dropped
    U want = U((before & U(~U(m << start))) | U((U(F(seg)) & m) << start));
    BitPackerType::setFieldDynamic<S, F>(start, len, f, seg);
    mon::eval();
    MON_CHECK(U(f) == want, "bits:set", "width %d: set field [%d,%d) of %llx to %llx gave %llx, want %llx", W, start, start + len, (unsigned long long)before, (unsigned long long)U(seg), (unsigned long long)U(f), (unsigned long long)want);
    auto got = BitPackerType::getFieldDynamic<uint64_t, F>(start, len, f);
    U g = U(U(f) >> start) & m;
    MON_CHECK(U(got) == g && (len == W || got == uint64_t(g)), "bits:get", "width %d: field [%d,%d) of %llx read as %llx, want %llx", W, start, start + len, (unsigned long long)U(f), (unsigned long long)got, (unsigned long long)g);
    mon::distinct(mon::mix(mon::mix(W, len * 100 + start), sizeof(S) * 2 + std::is_signed<S>::value));
  }
}
template <typename F, int start> void packBool() {
  F f = F(rng().next()), b = f;
  bool v = rng().chance(.5);
  BitPackerType::boolSetField<start, 1, F>(f, v);
  using U = std::make_unsigned_t<F>;
  U want = v ? U(U(b) | (U(1) << start)) : U(U(b) & U(~(U(1) << start)));
  mon::eval();
  MON_CHECK(U(f) == want, "bits:bool-set", "bit %d of %llx", start, (unsigned long long)U(b));
  MON_CHECK((BitPackerType::boolGetField<start, 1, F>(f)) == v, "bits:bool-get", "bit %d", start);
}
template <typename F, int start, int len> void packStatic() {
  F f = F(rng().next()); using U = std::make_unsigned_t<F>;
  U b = U(f), m = len == int(sizeof(F) * 8) ? U(~U(0)) : U((U(1) << (len & (sizeof(F) * 8 - 1))) - 1);
  U v = U(rng().next()) & m;
  BitPackerType::setField<start, len, U, F>(f, v);
  mon::eval();
  MON_CHECK(U(f) == U((b & U(~U(m << start))) | U(v << start)), "bits:static-set", "[%d,%d)", start, start + len);
  MON_CHECK((BitPackerType::getField<start, len, U, F>(f)) == v, "bits:static-get", "[%d,%d)", start, start + len);
}

// ---- identifiers.  A family is a list of fields with a setter and a getter each.
struct Field { char const* name; int bits; std::function<void(uint64_t&, uint64_t)> set; std::function<uint64_t(uint64_t)> get; };

// Sets the fields in random order, some of them repeatedly, and judges all of them after each step.
void family(char const* what, std::vector<Field> fs, uint64_t init, std::vector<uint64_t> initVals, std::map<uint64_t, std::vector<uint64_t>>* seen = nullptr) {
  uint64_t id = init;
  auto vals = initVals;
  auto judge = [&](char const* last) {
    for (size_t i = 0; i < fs.size(); i++) {
      uint64_t g = fs[i].get(id);
      mon::eval();
      if (g != vals[i])
        mon::violation(mon::fmt("id:%s:%s", what, fs[i].name).c_str(), "%s %llx: %s is %llx, want %llx (after %s)", what, (unsigned long long)id, fs[i].name, (unsigned long long)g, (unsigned long long)vals[i], last);
    }
  };
  judge("creation");
  for (int k = 0; k < int(fs.size()) * 3; k++) {
    size_t i = rng()(fs.size());
    if (!fs[i].set) continue;
    uint64_t v = fieldVal(fs[i].bits);
    fs[i].set(id, v); vals[i] = v;
    judge(fs[i].name);
    if (seen) {
      auto it = seen->emplace(id, vals);
      if (it.first->second != vals) mon::violation(mon::fmt("id:%s:collision", what).c_str(), "two different %s have identifier %llx", what, (unsigned long long)id);
    }
  }
  mon::distinct(mon::mix(mon::hashStr(what), id));
  mon::stat("identifiers");
}

void handlers(std::map<uint64_t, std::vector<uint64_t>>& seen) {
  mon::scenario("handler");
  using H = HandlerManager; using R = auto_registry::RegistryTypeEnum;
  bool au = rng()(2), fu = rng()(2), bm = rng()(2), tr = rng()(2);
  uint64_t id = fieldVal(handler_id_num_bits), ctl = fieldVal(control_num_bits), rt = rng()(int(R::RegObjGroup) + 3) % 12;
  HandlerType h = H::makeHandler(au, fu, id, R(rt), HandlerControlType(ctl), tr, bm);
  auto S = [](auto fn) { return [fn](uint64_t& x, uint64_t v) { HandlerType t; memcpy(&t, &x, 8); fn(t, v); memcpy(&x, &t, 8); }; };
  std::vector<Field> f{
    {"auto", 1, S([](HandlerType& h, uint64_t v) { H::setHandlerAuto(h, v); }), [](uint64_t x) { return uint64_t(H::isHandlerAuto(HandlerType(x))); }},
    {"functor", 1, S([](HandlerType& h, uint64_t v) { H::setHandlerFunctor(h, v); }), [](uint64_t x) { return uint64_t(H::isHandlerFunctor(HandlerType(x))); }},
    {"basemsg", 1, S([](HandlerType& h, uint64_t v) { H::setHandlerBaseMsgDerived(h, v); }), [](uint64_t x) { return uint64_t(H::isHandlerBaseMsgDerived(HandlerType(x))); }},
    {"control", control_num_bits, S([](HandlerType& h, uint64_t v) { H::setHandlerControl(h, HandlerControlType(v)); }), [](uint64_t x) { return uint64_t(H::getHandlerControl(HandlerType(x))); }},
    {"registry", registry_type_bits - 1, S([](HandlerType& h, uint64_t v) { H::setHandlerRegistryType(h, R(v)); }), [](uint64_t x) { return uint64_t(H::getHandlerRegistryType(HandlerType(x))) & 15; }},
    {"id", handler_id_num_bits, S([](HandlerType& h, uint64_t v) { H::setHandlerIdentifier(h, v); }), [](uint64_t x) { return uint64_t(H::getHandlerIdentifier(HandlerType(x))); }},
#if vt_check_enabled(trace_enabled)
    {"trace", 1, S([](HandlerType& h, uint64_t v) { H::setHandlerTrace(h, v); }), [](uint64_t x) { return uint64_t(H::isHandlerTrace(HandlerType(x))); }},
#endif
  };
  std::vector<uint64_t> v{au, fu, bm, ctl, rt, id};
#if vt_check_enabled(trace_enabled)
  v.push_back(tr);
#endif
  MON_CHECK(H::isHandlerObjGroup(h) == (R(rt) == R::RegObjGroup), "id:handler:is-objgroup", "registry type %d", int(rt));
  family("handler", f, uint64_t(h), v, nullptr);
  (void)seen;
}

void objgroups(std::map<uint64_t, std::vector<uint64_t>>& seen) {
  mon::scenario("objgroup-proxy");
  using P = objgroup::proxy::ObjGroupProxy;
  uint64_t id = fieldVal(32); NodeType n = nodeVal(); bool coll = rng()(2);
  auto p = P::create(objgroup::ObjGroupIDType(id), n, coll);
  family("objgroup-proxy", {
    {"control", 1, [](uint64_t& x, uint64_t v) { P::setControl(x, v); }, [](uint64_t x) { return uint64_t(P::isControl(x)); }},
    {"collective", 1, [](uint64_t& x, uint64_t v) { P::setIsCollective(x, v); }, [](uint64_t x) { return uint64_t(P::isCollective(x)); }},
    {"node", 15, [](uint64_t& x, uint64_t v) { P::setNode(x, NodeType(v)); }, [](uint64_t x) { return uint64_t(P::getNode(x)); }},
    {"id", 32, [](uint64_t& x, uint64_t v) { P::setID(x, objgroup::ObjGroupIDType(v)); }, [](uint64_t x) { return uint64_t(P::getID(x)); }},
  }, p, {1, coll, coll ? 0u : uint64_t(n), id}, &seen);

  // an element ID made from the proxy gives it back
  mon::scenario("element-id");
  NodeType on = nodeVal();
  elm::ElementIDType e = 0;
  elm::ElmIDBits::setObjGroup(e, p, on);
  mon::eval();
  MON_CHECK(elm::ElmIDBits::getControlBits(e) == elm::ObjGroup, "id:elm:control", "objgroup element id %llx", (unsigned long long)e);
  MON_CHECK(!elm::ElmIDBits::isMigratable(e), "id:elm:migratable", "objgroup element id %llx", (unsigned long long)e);
  MON_CHECK(elm::ElmIDBits::getNode(e) == on, "id:elm:node", "objgroup element id: node %d want %d", elm::ElmIDBits::getNode(e), on);
  auto q = elm::ElmIDBits::getObjGroupProxy(e, true), z = elm::ElmIDBits::getObjGroupProxy(e, false);
  MON_CHECK(P::getID(q) == id && P::isCollective(q) == coll && P::isControl(q) && P::getNode(q) == on, "id:elm:objgroup-proxy", "proxy %llx from %llx", (unsigned long long)q, (unsigned long long)p);
  MON_CHECK(P::getID(z) == id && P::getNode(z) == 0 && P::isCollective(z) == coll, "id:elm:objgroup-proxy-no-node", "proxy %llx from %llx", (unsigned long long)z, (unsigned long long)p);
  mon::distinct(e);
}

void elements() {
  mon::scenario("element-id");
  std::map<uint64_t, std::tuple<bool, uint64_t, int>> seen;
  for (int k = 0; k < 40; k++) {
    bool mig = rng()(2); NodeType home = NodeType(rng().chance(.5) ? rng()(8) : nodeVal()), cur = nodeVal();
    uint64_t seq = rng().chance(.5) ? rng()(50) : fieldVal(elm::elm_id_num_bits);
    auto s = elm::ElmIDBits::createCollectionImpl(mig, seq, home, cur);
    mon::eval();
    MON_CHECK(s.isMigratable() == mig, "id:elm:migratable", "%llx", (unsigned long long)s.id);
    MON_CHECK(s.getHomeNode() == home, "id:elm:home", "home %d want %d", s.getHomeNode(), home);
    MON_CHECK(s.getCurrNode() == cur, "id:elm:curr", "curr %d want %d", s.getCurrNode(), cur);
    auto want = std::make_tuple(mig, seq, int(home));
    MON_CHECK(seen.emplace(s.id, want).first->second == want, "id:elm:collision", "%llx stands for two elements", (unsigned long long)s.id);
    auto c = elm::ElmIDBits::getControlBits(s.id);
    MON_CHECK(c == (mig ? elm::CollectionMigratable : elm::CollectionNonMigratable), "id:elm:control", "%d", int(c));
    auto b = elm::ElmIDBits::createBareHandler(home);
    MON_CHECK(!b.isMigratable() && b.getHomeNode() == home && b.getCurrNode() == home && elm::ElmIDBits::getControlBits(b.id) == elm::BareHandler, "id:elm:bare", "node %d", home);
    auto t = s; t.curr_node = nodeVal();
    MON_CHECK(t == s && std::hash<elm::ElementIDStruct>{}(t) == std::hash<elm::ElementIDStruct>{}(s), "id:elm:identity-depends-on-location", "%llx", (unsigned long long)s.id);
    auto o = elm::ElmIDBits::createCollectionImpl(mig, seq ^ 1, home, cur);
    MON_CHECK(!(o == s) && ((o < s) != (s < o)), "id:elm:order", "%llx %llx", (unsigned long long)s.id, (unsigned long long)o.id);
    mon::distinct(s.id);
  }
}

void misc(std::map<std::string, std::map<uint64_t, std::vector<uint64_t>>>& seen) {
  {
    mon::scenario("group-id");
    using G = group::GroupIDBuilder;
    uint64_t id = fieldVal(32); NodeType n = nodeVal(); bool coll = rng()(2), stat = rng()(2);
    auto g = G::createGroupID(group::GroupIDType(id), n, coll, stat);
    MON_CHECK(!coll || G::getNode(g) == group::group_collective_node, "id:group:collective-node", "node %d", G::getNode(g));
    if (coll) G::setNode(g, n);
    family("group", {
      {"collective", 1, [](uint64_t& x, uint64_t v) { G::setIsCollective(x, v); }, [](uint64_t x) { return uint64_t(G::isCollective(x)); }},
      {"static", 1, [](uint64_t& x, uint64_t v) { G::setIsStatic(x, v); }, [](uint64_t x) { return uint64_t(G::isStatic(x)); }},
      {"node", 15, [](uint64_t& x, uint64_t v) { G::setNode(x, NodeType(v)); }, [](uint64_t x) { return uint64_t(G::getNode(x)); }},
      {"id", 32, [](uint64_t& x, uint64_t v) { G::setID(x, group::GroupIDType(v)); }, [](uint64_t x) { return uint64_t(G::getGroupID(x)); }},
    }, g, {coll, stat, uint64_t(n), id}, &seen["group"]);
  }
  {
    mon::scenario("pipe-id");
    using G = pipe::PipeIDBuilder;
    uint64_t id = fieldVal(32); NodeType n = nodeVal(); bool sb = rng()(2), pe = rng()(2);
    auto g = G::createPipeID(pipe::PipeIDType(id), n, sb, pe);
    family("pipe", {
      {"sendback", 1, [](uint64_t& x, uint64_t v) { G::setIsSendback(x, v); }, [](uint64_t x) { return uint64_t(G::isSendback(x)); }},
      {"persist", 1, [](uint64_t& x, uint64_t v) { G::setIsPersist(x, v); }, [](uint64_t x) { return uint64_t(G::isPersist(x)); }},
      {"node", 15, [](uint64_t& x, uint64_t v) { G::setNode(x, NodeType(v)); }, [](uint64_t x) { return uint64_t(G::getNode(x)); }},
      {"id", 32, [](uint64_t& x, uint64_t v) { G::setID(x, pipe::PipeIDType(v)); }, [](uint64_t x) { return uint64_t(G::getPipeID(x)); }},
    }, g, {sb, pe, uint64_t(n), id}, &seen["pipe"]);
  }
  {
    mon::scenario("virtual-proxy");
    using G = vrt::VirtualProxyBuilder;
    uint64_t id = fieldVal(32); NodeType n = nodeVal(); bool c = rng()(2), m = rng()(2), d = rng()(2);
    auto g = G::createProxy(vrt::VirtualIDType(id), n, c, m, d);
    family("virtual-proxy", {
      {"collection", 1, [](uint64_t& x, uint64_t v) { G::setIsCollection(x, v); }, [](uint64_t x) { return uint64_t(G::isCollection(x)); }},
      {"migratable", 1, [](uint64_t& x, uint64_t v) { G::setIsMigratable(x, v); }, [](uint64_t x) { return uint64_t(G::isMigratable(x)); }},
      {"remote", 1, [](uint64_t& x, uint64_t v) { G::setIsRemote(x, v); }, [](uint64_t x) { return uint64_t(G::isRemote(x)); }},
      {"node", 15, [](uint64_t& x, uint64_t v) { G::setVirtualNode(x, NodeType(v)); }, [](uint64_t x) { return uint64_t(G::getVirtualNode(x)); }},
      {"id", 32, [](uint64_t& x, uint64_t v) { G::setVirtualID(x, vrt::VirtualIDType(v)); }, [](uint64_t x) { return uint64_t(G::getVirtualID(x)); }},
    }, g, {c, m, d, d ? 0 : uint64_t(n), id}, &seen["vproxy"]);
    // remote proxies: different (id, asking node, target) give different proxies
    static std::map<uint64_t, std::vector<uint64_t>> rem;
    uint64_t ri = rng()(6); NodeType a = NodeType(rng()(5)), t = NodeType(rng()(5));
    auto rp = G::createRemoteProxy(vrt::VirtualRemoteIDType(ri), a, t, c, m);
    std::vector<uint64_t> key{ri, uint64_t(a), uint64_t(t), c, m};
    mon::eval();
    MON_CHECK(rem.emplace(rp, key).first->second == key, "id:remote-proxy:collision", "%llx", (unsigned long long)rp);
    MON_CHECK(G::isRemote(rp) && G::isCollection(rp) == c && G::isMigratable(rp) == m && G::getVirtualNode(rp) == t, "id:remote-proxy:fields", "%llx", (unsigned long long)rp);
  }
  {
    mon::scenario("element-proxy");
    using E = vrt::collection::VirtualElemProxyBuilder;
    uint64_t x = rng().chance(.5) ? 0 : rng().next();
    for (int i = 0; i < 3; i++) {
      uint64_t v = fieldVal(64);
      E::createElmProxy(x, v);
      mon::eval();
      MON_CHECK(E::elmProxyGetIndex(x) == v, "id:element-proxy:index", "index %llx read as %llx", (unsigned long long)v, (unsigned long long)E::elmProxyGetIndex(x));
    }
  }
  {
    mon::scenario("event-id");
    using E = event::EventIDManager;
    uint64_t id = fieldVal(31); NodeType n = nodeVal();
    auto e = E::makeEvent(event::EventIdentifierType(id), n);
    family("event", {
      {"node", 15, [](uint64_t& x, uint64_t v) { E::setEventNode(x, NodeType(v)); }, [](uint64_t x) { return uint64_t(E::getEventNode(x)); }},
      {"id", 31, [](uint64_t& x, uint64_t v) { E::setEventIdentifier(x, event::EventIdentifierType(v)); }, [](uint64_t x) { return uint64_t(E::getEventIdentifier(x)); }},
    }, e, {uint64_t(n), id}, &seen["event"]);
  }
  {
    mon::scenario("rdma-handle");
    using R = rdma::HandleManager; using U = R::RDMA_UniversalIdType;
    auto S = [](auto fn) { return [fn](uint64_t& x, uint64_t v) { U t; memcpy(&t, &x, 8); fn(t, v); memcpy(&x, &t, 8); }; };
    U h = R::createNewHandler();
    MON_CHECK(R::getOpType(h) == rdma::Type::Uninitialized, "id:rdma:new", "type %d", int(R::getOpType(h)));
    family("rdma", {
      {"sized", 1, S([](U& x, uint64_t v) { R::setIsSized(x, v); }), [](uint64_t x) { return uint64_t(R::isSized(U(x))); }},
      {"collective", 1, S([](U& x, uint64_t v) { R::setIsCollective(x, v); }), [](uint64_t x) { return uint64_t(R::isCollective(U(x))); }},
      {"handler", 1, S([](U& x, uint64_t v) { R::setIsHandler(x, v); }), [](uint64_t x) { return uint64_t(R::isHandler(U(x))); }},
      {"op", 2, S([](U& x, uint64_t v) { R::setOpType(x, rdma::Type(v)); }), [](uint64_t x) { return uint64_t(R::getOpType(U(x))); }},
      {"id", 31, S([](U& x, uint64_t v) { R::setRdmaIdentifier(x, rdma::RDMA_IdentifierType(v)); }), [](uint64_t x) { return uint64_t(R::getRdmaIdentifier(U(x))); }},
      {"node", 15, S([](U& x, uint64_t v) { R::setRdmaNode(x, NodeType(v)); }), [](uint64_t x) { return uint64_t(R::getRdmaNode(U(x))); }},
    }, uint64_t(h), {0, 0, 0, uint64_t(rdma::Type::Uninitialized), 0, 0}, &seen["rdma"]);
  }
}

void priorities() {
  mon::scenario("priority-field");
  using P = sched::PriorityManip;
  PriorityType f = PriorityType(rng().next());
  int L = sched::priority_num_levels, B = sched::priority_level_bits;
  std::vector<PriorityType> v(L);
  for (int l = 0; l < L; l++) v[l] = P::getPriority(f, PriorityLevelType(l));
  for (int k = 0; k < 30; k++) {
    int l = int(rng()(L)); PriorityType p = PriorityType(fieldVal(B));
    P::setPriority(f, PriorityLevelType(l), p); v[l] = p;
    for (int j = 0; j < L; j++) {
      mon::eval();
      MON_CHECK(P::getPriority(f, PriorityLevelType(j)) == v[j], "id:priority:level", "level %d is %d want %d after setting level %d", j, P::getPriority(f, PriorityLevelType(j)), v[j], l);
    }
    // a lower level (nearer the system level) decides first
    PriorityType a = f, b = f;
    int hi = int(rng()(L));
    PriorityType x = PriorityType(rng()(1u << B)), y = PriorityType(rng()(1u << B));
    P::setPriority(a, PriorityLevelType(hi), x); P::setPriority(b, PriorityLevelType(hi), y);
    for (int j = hi + 1; j < L; j++) { P::setPriority(a, PriorityLevelType(j), PriorityType(fieldVal(B))); P::setPriority(b, PriorityLevelType(j), PriorityType(fieldVal(B))); }
    if (x != y) MON_CHECK((a < b) == (x < y), "id:priority:order", "levels above %d decide: %x %x", hi, a, b);
    mon::distinct(f);
  }
}

template <typename Env> void envCommon(Env& e, char const* what, bool tagged, bool epoched, bool put) {
  struct { bool pipe = false, put = false, term = false, bcast = false, ser = false, lb = false; HandlerType han; NodeType dest; RefType ref; GroupType grp; EpochType ep; TagType tag; bool deliver = true; } m;
  std::vector<std::byte> payload(8);
  PutPtrType pp = nullptr; PutEnvSizeType ps = 0; TagType pt = no_tag;
  m.put = put;
  m.han = uninitialized_handler; m.dest = uninitialized_destination; m.ref = not_shared_message; m.grp = default_group; m.ep = no_epoch; m.tag = no_tag;
  auto judge = [&](char const* op) {
    mon::eval();
#define J(c, n) do { if (!(c)) mon::violation("envelope:" n, "%s envelope after %s", what, op); } while (0)
    J(envelopeIsPipe(e) == m.pipe, "pipe"); J(envelopeIsPut(e) == m.put, "put"); J(envelopeIsTerm(e) == m.term, "term"); J(envelopeIsBcast(e) == m.bcast, "bcast");
    J(envelopeIsEpochType(e) == epoched, "epoch-type"); J(envelopeIsTagType(e) == tagged, "tag-type");
    J(envelopeGetHandler(e) == m.han, "handler"); J(envelopeGetDest(e) == m.dest, "dest"); J(envelopeGetRef(e) == m.ref, "ref"); J(envelopeGetGroup(e) == m.grp, "group");
    J(bool(envelopeHasBeenSerialized(e)) == m.ser, "serialized"); J(bool(envelopeCommLBDataRecordedAboveBareHandler(e)) == m.lb, "lb-recorded");
    if (m.bcast) J(envelopeGetDeliverBcast(e) == m.deliver, "deliver");
    if constexpr (!std::is_same<Env, Envelope>::value) {
      if (epoched) J(envelopeGetEpoch(e) == m.ep, "epoch");
      if (tagged) J(envelopeGetTag(e) == m.tag, "tag");
      if (put) { J(envelopeGetPutPtr(e) == pp, "put-ptr"); J(envelopeGetPutSize(e) == ps, "put-size"); J(envelopeGetPutTag(e) == pt, "put-tag"); }
    }
#undef J
  };
  judge("init");
  for (int k = 0; k < 30; k++) {
    char const* op = "";
    switch (rng()(16)) {
    case 0: op = "setPipeType"; setPipeType(e); m.pipe = true; break;
    case 1: op = "setTermType"; setTermType(e); m.term = true; break;
    case 2: op = "setBroadcastType"; m.deliver = rng()(2); setBroadcastType(e, m.deliver); m.bcast = true; break;
    case 3: op = "setHandler"; m.han = HandlerType(rng().next()); envelopeSetHandler(e, m.han); break;
    case 4: op = "setDest"; m.dest = nodeVal(); envelopeSetDest(e, m.dest); break;
    case 5: op = "setRef"; m.ref = RefType(rng()(60000)); envelopeSetRef(e, m.ref); break;
    case 6: op = "setGroup"; m.grp = GroupType(rng().next()); envelopeSetGroup(e, m.grp); break;
    case 7: op = "setSerialized"; m.ser = rng()(2); envelopeSetHasBeenSerialized(e, m.ser); break;
    case 8: op = "setLB"; m.lb = rng()(2); envelopeSetCommLBDataRecordedAboveBareHandler(e, m.lb); break;
    case 9: if (m.ref != not_shared_message) { op = "ref"; envelopeRef(e); m.ref++; } break;
    case 10: if (m.ref != not_shared_message && m.ref >= 1) { op = "deref"; m.ref--; auto r = envelopeDeref(e); MON_CHECK(r == m.ref, "envelope:deref", "returned %d want %d", int(r), int(m.ref)); } break;
    case 11: {
      op = "copy"; Env c; envelopeInitEmpty(c); RefType keep = RefType(rng()(50)); envelopeSetRef(c, keep);
      envelopeSetIsLocked(e, true);
      envelopeInitCopy(c, e);
      MON_CHECK(!envelopeIsLocked(c), "envelope:copy-locked", "%s", what);
      envelopeSetIsLocked(e, false);
      e = c; m.ref = keep;
    } break;
    case 12: if constexpr (!std::is_same<Env, Envelope>::value) if (epoched) { op = "setEpoch"; m.ep = EpochType{rng().next()}; envelopeSetEpoch(e, m.ep); } break;
    case 13: if constexpr (!std::is_same<Env, Envelope>::value) if (tagged) { op = "setTag"; m.tag = TagType(rng().next()); envelopeSetTag(e, m.tag); } break;
    case 14: if (put) { op = "setPut"; pp = payload.data() + rng()(8); ps = PutEnvSizeType(rng().next() >> 20); pt = TagType(rng().next()); envelopeSetPutPtr(e, pp, ps); envelopeSetPutTag(e, pt); } break;
    case 15: if (put) { op = "setPutPtrOnly"; pp = payload.data() + rng()(8); envelopeSetPutPtrOnly(e, pp); } break;
    }
    judge(op);
  }
  mon::distinct(mon::mix(mon::hashStr(what), rng().next()));
  mon::stat("envelopes");
}

void envelopes() {
  mon::scenario("envelope");
  { Envelope e; envelopeInitEmpty(e); envCommon(e, "plain", false, false, false); }
  { EpochEnvelope e; envelopeInitEmpty(e); envCommon(e, "epoch", false, true, false); }
  { TagEnvelope e; envelopeInitEmpty(e); envCommon(e, "tag", true, false, false); }
  { EpochTagEnvelope e; envelopeInitEmpty(e); envCommon(e, "epoch-tag", true, true, false); }
  { PutShortEnvelope e; envelopeInitEmpty(e); envCommon(e, "put", true, true, true); }
}

int main() {
  return comp::run([] {
    int R = int(mon::argi("ROUNDS", 120));
    std::map<uint64_t, std::vector<uint64_t>> sh, so; std::map<std::string, std::map<uint64_t, std::vector<uint64_t>>> sm;
    for (int r = 0; r < R; r++) {
      mon::scenario("bit-packer");
      packer<uint64_t, uint64_t>(); packer<uint64_t, int16_t>(); packer<uint64_t, uint8_t>(); packer<int64_t, int64_t>();
      packer<int64_t, int32_t>(); packer<uint32_t, uint32_t>(); packer<uint32_t, int>(); packer<int32_t, int16_t>();
      packer<uint16_t, uint16_t>(); packer<uint16_t, int>(); packer<int16_t, int16_t>(); packer<uint8_t, uint8_t>(); packer<int8_t, int8_t>(); packer<uint8_t, int>();
      packBool<uint64_t, 0>(); packBool<uint64_t, 63>(); packBool<int64_t, 31>(); packBool<uint32_t, 31>(); packBool<int8_t, 7>(); packBool<uint16_t, 9>();
      packStatic<uint64_t, 0, 64>(); packStatic<uint64_t, 3, 61>(); packStatic<uint64_t, 60, 4>(); packStatic<uint32_t, 0, 32>(); packStatic<uint16_t, 12, 4>(); packStatic<int64_t, 20, 44>(); packStatic<uint8_t, 0, 8>();
      handlers(sh); objgroups(so); elements(); misc(sm); priorities(); envelopes();
    }
  });
}
