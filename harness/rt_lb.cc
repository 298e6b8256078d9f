// What is recorded for load balancing: recording, writing and reading back, configuration files, load models.
#include "dist.h"
#include <vt/vrt/collection/balance/lb_data_holder.h>
#include <vt/vrt/collection/balance/read_lb.h>
#include <vt/vrt/collection/balance/lb_common.h>
#include <vt/vrt/collection/balance/model/raw_data.h>
#include <vt/vrt/collection/balance/model/naive_persistence.h>
#include <vt/vrt/collection/balance/model/linear_model.h>
#include <vt/vrt/collection/balance/model/multiple_phases.h>
#include <vt/vrt/collection/balance/model/norm.h>
#include <vt/vrt/collection/balance/model/select_subphases.h>
#include <vt/vrt/collection/balance/model/persistence_median_last_n.h>
#include <vt/vrt/collection/balance/model/proposed_reassignment.h>
#include <vt/vrt/collection/balance/model/comm_overhead.h>
#include <vt/vrt/collection/balance/model/weighted_messages.h>
#include <vt/vrt/collection/balance/model/weighted_communication_volume.h>
#include <vt/elm/elm_lb_data.h>
#include <vt/elm/elm_id_bits.h>
#include <vt/utils/file_spec/spec.h>
#include <nlohmann/json.hpp>
#include <set>
#include <map>
#include <cmath>
#include <fstream>
#include <unistd.h>
using namespace vt;
using namespace vt::vrt::collection::balance;
using dist::local; using dist::shared; using dist::me; using dist::np;
using Id = elm::ElementIDStruct;

static bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }
static Id obj(int seq, int home, bool mig = true) { return elm::ElmIDBits::createCollectionImpl(mig, seq, home, me()); }

// ---- what an element records ----
struct Vol { double b = 0; uint64_t m = 0; };
using KeyT = std::tuple<int, uint64_t, uint64_t, int, int, int>;
static KeyT kt(elm::CommKey const& k) { return {int(k.cat_), k.from_.id, k.to_.id, int(k.nfrom_), int(k.nto_), int(k.shared_id_)}; }
static elm::CommKey randKey(mon::Rng& r) {
  using K = elm::CommKey;
  Id a = obj(1 + r(4), r(3)), b = obj(1 + r(4), r(3));
  switch (r(5)) {
  case 0: return K{K::CollectionTag{}, a, b, bool(r(2))};
  case 1: return K{K::CollectionToNodeTag{}, a, NodeType(r(5)), bool(r(2))};
  case 2: return K{K::NodeToCollectionTag{}, NodeType(r(5)), b, bool(r(2))};
  case 3: return K{K::WriteSharedTag{}, NodeType(r(5)), int(r(4))};
  default: return K{K::ReadOnlySharedTag{}, NodeType(r(5)), int(r(4))};
  }
}
template <typename M> static std::map<KeyT, Vol> norm(M const& m) {
  std::map<KeyT, Vol> o;
  for (auto& kv : m) { auto& v = o[kt(kv.first)]; v.b += kv.second.bytes; v.m += kv.second.messages; }
  return o;
}
static bool sameComm(std::map<KeyT, Vol> const& a, std::map<KeyT, Vol> const& b) {
  if (a.size() != b.size()) return false;
  for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j)
    if (i->first != j->first || !near(i->second.b, j->second.b) || i->second.m != j->second.m) return false;
  return true;
}

struct PhaseM { double load = 0; std::vector<double> sub; std::map<KeyT, Vol> comm; std::vector<std::map<KeyT, Vol>> subcomm; };
static void recording() {
  mon::scenario("recording");
  auto& r = local();
  for (int round = 0; round < 40; round++) {
    struct Opened : elm::ElementLBData { using elm::ElementLBData::releaseLBDataFromUnneededPhases; } d;
    std::map<PhaseType, PhaseM> m;
    std::set<PhaseType> loads, comms;   // phases for which an entry has to exist
    PhaseType ph = 0; unsigned sp = 0;
    bool run = false; double t0 = 0, now = 1;
    uint64_t h = round;
    auto addLoad = [&](double x) {
      auto& p = m[ph]; p.load += x;
      if (p.sub.size() <= sp) p.sub.resize(sp + 1);
      p.sub[sp] += x; loads.insert(ph);
    };
    auto addComm = [&](elm::CommKey k, double b) {
      auto& p = m[ph]; auto& v = p.comm[kt(k)]; v.b += b; v.m++;
      if (p.subcomm.size() <= sp) p.subcomm.resize(sp + 1);
      auto& w = p.subcomm[sp][kt(k)]; w.b += b; w.m++; comms.insert(ph);
    };
    int n = 20 + r(150);
    for (int i = 0; i < n; i++) {
      int op = r(16); h = mon::mix(h, op);
      now += (1 + r(1000)) / 64.;
      if (op < 3) { if (!run) { d.start(TimeType{now}); run = true; t0 = now; } else { d.stop(TimeType{now}); run = false; addLoad(now - t0); } }
      else if (op == 3) { double x = (1 + r(100)) / 8.; d.addTime(x); addLoad(x); }
      else if (op == 4) { if (!run) d.stop(TimeType{now}); else { d.stop(TimeType{now}); run = false; addLoad(now - t0); } }
      else if (op < 8) {
        auto k = randKey(r); double b = 1 + r(5000);
        using C = elm::CommCategory;
        switch (k.cat_) {
        case C::SendRecv: if (r(2)) { d.sendToEntity(k.to_, k.from_, b); break; } [[fallthrough]];
        case C::Broadcast: d.recvObjData(k.to_, k.from_, b, k.cat_ == C::Broadcast); break;
        case C::NodeToCollection: case C::NodeToCollectionBcast: d.recvFromNode(k.to_, k.nfrom_, b, k.cat_ == C::NodeToCollectionBcast); break;
        case C::CollectionToNode: case C::CollectionToNodeBcast: d.recvToNode(k.nto_, k.from_, b, k.cat_ == C::CollectionToNodeBcast); break;
        case C::WriteShared: d.addWritableSharedID(k.nto_, k.shared_id_, b); break;
        case C::ReadOnlyShared: d.addReadOnlySharedID(k.nto_, k.shared_id_, b); break;
        default: d.sendComm(k, b);
        }
        addComm(k, b);
      }
      else if (op < 11) { sp = r(6); d.setSubPhase(sp); }
      else if (op == 11) {
        double x = 1 + r(50); std::vector<double> s; int k = r(5); for (int q = 0; q < k; q++) s.push_back(1 + r(9));
        d.setTime(x, std::vector<LoadType>(s.begin(), s.end())); m[ph].load = x; m[ph].sub = s; loads.insert(ph);
      }
      else if (op == 12) { PhaseType inc = r(3) ? 1 : r(3); d.updatePhase(inc); ph += inc; if (ph) { loads.insert(ph); comms.insert(ph); m[ph]; } }
      else if (op == 13) { PhaseType to = r(6); d.setPhase(to); ph = to; if (ph) { loads.insert(ph); comms.insert(ph); m[ph]; } }
      else if (op == 14) { if (r(4) == 0) { d.resetPhase(); ph = 0; } }
      else {
        unsigned lb = r(5); PhaseType p = ph + r(2);
        d.releaseLBDataFromUnneededPhases(p, lb);
        if (p >= lb) { m.erase(p - lb); loads.erase(p - lb); comms.erase(p - lb); }
      }
      if (d.getPhase() != ph || d.getSubPhase() != sp) mon::violation("record:phase", "phase %d.%d, not %d.%d", int(d.getPhase()), int(d.getSubPhase()), int(ph), int(sp));
      // reading a phase's maps may create it, so only phases known to exist are read in full
      for (auto& kv : m) {
        if (loads.count(kv.first)) {
          if (!near(d.getLoad(kv.first), kv.second.load)) mon::violation("record:load", "phase %d has load %g, %g was recorded", int(kv.first), d.getLoad(kv.first), kv.second.load);
          auto& st = d.getSubphaseTimes(kv.first);
          bool ok = st.size() == kv.second.sub.size();
          for (size_t q = 0; ok && q < st.size(); q++) ok = near(st[q], kv.second.sub[q]);
          if (!ok) mon::violation("record:subphase-load", "the subphase loads of phase %d are not what was recorded (%zu of %zu)", int(kv.first), st.size(), kv.second.sub.size());
          for (size_t q = 0; ok && q < st.size(); q++) if (!near(d.getLoad(kv.first, q), kv.second.sub[q])) mon::violation("record:subphase-load", "getLoad of a subphase");
          if (!near(d.getLoad(kv.first, elm::ElementLBData::no_subphase), kv.second.load)) mon::violation("record:load", "getLoad of the whole phase");
        }
        if (comms.count(kv.first)) {
          if (!sameComm(norm(d.getComm(kv.first)), kv.second.comm)) mon::violation("record:comm", "the communication of phase %d is not what was recorded", int(kv.first));
          auto& sc = d.getSubphaseComm(kv.first);
          bool ok = sc.size() == kv.second.subcomm.size();
          for (size_t q = 0; ok && q < sc.size(); q++) ok = sameComm(norm(sc[q]), kv.second.subcomm[q]);
          if (!ok) mon::violation("record:subphase-comm", "the subphase communication of phase %d is not what was recorded", int(kv.first));
        }
      }
      if (d.getLoad(77) != 0) mon::violation("record:load", "a phase that never was has load");
      if (d.getLoadPhaseCount() != loads.size() || d.getCommPhaseCount() != comms.size())
        mon::violation("record:phases", "%zu/%zu phases kept, %zu/%zu expected", d.getLoadPhaseCount(), d.getCommPhaseCount(), loads.size(), comms.size());
      if (d.getSubphaseLoadPhaseCount() != loads.size() || d.getSubphaseCommPhaseCount() != comms.size())
        mon::violation("record:phases", "subphase data kept for %zu/%zu phases, %zu/%zu expected", d.getSubphaseLoadPhaseCount(), d.getSubphaseCommPhaseCount(), loads.size(), comms.size());
      mon::eval();
    }
    mon::distinct(h); mon::stat("recordings");
  }
}

// ---- written and read back ----
static UserDataValueType randVal(mon::Rng& r) {
  switch (r(3)) {
  case 0: return int(r(2) ? -1 : 1) * int(r(2000000000));
  case 1: return r(2) ? (r(1000000) / 7.) : double(r(9));
  default: { std::string s; int n = r(12); for (int i = 0; i < n; i++) s += char(r(8) ? 32 + r(95) : "\n\"\\\t"[r(4)]); return s; }
  }
}
static ElmUserDataType randUser(mon::Rng& r) { ElmUserDataType u; int n = 1 + r(4); for (int i = 0; i < n; i++) u["k" + std::to_string(r(9))] = randVal(r); return u; }
static LBDataHolder readBack(nlohmann::json const& j) { return LBDataHolder(j); }
static void roundtrip() {
  mon::scenario("roundtrip");
  auto& r = local();
  for (int round = 0; round < 60; round++) {
    LBDataHolder h;
    int P = 1 + r(6); uint64_t hh = P;
    std::vector<PhaseType> phases; std::set<PhaseType> ps; while (int(ps.size()) < P) ps.insert(r(10)); phases.assign(ps.begin(), ps.end());
    for (auto p : phases) {
      int n = r(8); h.node_data_[p]; h.node_comm_[p];
      for (int i = 0; i < n; i++) {
        Id e = obj(1 + r(2000), r(5), r(2));
        auto& ls = h.node_data_[p][e]; ls.whole_phase_load = r(3) ? r(100000) / 128. : r(100000) / 7.;
        ls.subphase_loads.clear(); int s = r(4); for (int q = 0; q < s; q++) ls.subphase_loads.push_back(r(1000) / 16.);
        if (r(2)) { std::vector<uint64_t> idx; int k = 1 + r(3); for (int q = 0; q < k; q++) idx.push_back(r(2) ? r(100) : (uint64_t(r(1u << 30)) << 20)); h.node_idx_.emplace(e, std::make_tuple(VirtualProxyType(1 + r(1u << 30)), idx)); }
        if (r(3) == 0) h.node_user_attributes_[p][e] = randUser(r);
      }
      int c = r(10);
      for (int i = 0; i < c; i++) { elm::CommVolume v; v.bytes = 1 + r(1u << 30); v.messages = 1 + r(5000); h.node_comm_[p][randKey(r)] = v; }
      if (r(3) == 0) h.user_per_phase_json_[p] = std::make_shared<nlohmann::json>(nlohmann::json{{"p", int(p)}, {"x", {1, 2, int(r(99))}}});
      hh = mon::mix(hh, n * 100 + c);
    }
    auto fillSet = [&](std::set<PhaseType>& s) { int k = r(14); PhaseType p = r(4); for (int i = 0; i < k; i++) { s.insert(p); p += r(3) ? 1 : 2 + r(4); } };
    fillSet(h.skipped_phases_); fillSet(h.identical_phases_);
    if (r(2)) h.rank_attributes_ = randUser(r);
    nlohmann::json j;
    j["phases"] = nlohmann::json::array();
    for (auto p : phases) {
      auto pj = h.toJson(p);
      if ((*pj)["id"] != p) mon::violation("roundtrip:phase", "phase %d written as another", int(p));
      // order of what is listed is of no account
      if (r(2)) for (auto& t : (*pj)["tasks"]) if (t.contains("subphases") && t["subphases"].is_array()) { auto a = t["subphases"]; nlohmann::json b = nlohmann::json::array(); for (size_t i = a.size(); i > 0; i--) b.push_back(a[i - 1]); t["subphases"] = b; }
      j["phases"].push_back(*pj);
    }
    j["metadata"]["phases"] = *h.metadataToJson();
    if (auto a = h.rankAttributesToJson()) j["metadata"]["attributes"] = (*a)["attributes"];
    std::string text = j.dump(r(2) ? 2 : -1);
    auto g = readBack(nlohmann::json::parse(text));
    if (g.skipped_phases_ != h.skipped_phases_) mon::violation("roundtrip:skipped", "%zu skipped phases became %zu", h.skipped_phases_.size(), g.skipped_phases_.size());
    if (g.identical_phases_ != h.identical_phases_) mon::violation("roundtrip:identical", "%zu identical phases became %zu", h.identical_phases_.size(), g.identical_phases_.size());
    if (g.rank_attributes_ != h.rank_attributes_) mon::violation("roundtrip:rank-attributes", "%zu attributes of the rank became %zu or other values", h.rank_attributes_.size(), g.rank_attributes_.size());
    for (auto p : phases) {
      auto want = h.node_data_[p]; auto got = g.node_data_[p];
      if (p == 0 && !want.empty()) got.erase(Id{});   // the rank's own initial task
      if (want.size() != got.size()) mon::violation("roundtrip:objects", "%zu objects of phase %d became %zu", want.size(), int(p), got.size());
      for (auto& kv : want) {
        auto it = got.find(kv.first);
        if (it == got.end()) { mon::violation("roundtrip:objects", "an object of phase %d is gone", int(p)); continue; }
        if (it->first.curr_node != me() || it->first.getHomeNode() != kv.first.getHomeNode() || it->first.isMigratable() != kv.first.isMigratable()) mon::violation("roundtrip:object-id", "home, place or migratability of an object changed");
        if (it->second.whole_phase_load != kv.second.whole_phase_load) mon::violation("roundtrip:load", "load %.17g became %.17g", kv.second.whole_phase_load, it->second.whole_phase_load);
        if (it->second.subphase_loads != kv.second.subphase_loads) mon::violation("roundtrip:subphase-load", "%zu subphase loads became %zu or other values", kv.second.subphase_loads.size(), it->second.subphase_loads.size());
        auto ui = h.node_user_attributes_.find(p); ElmUserDataType wu, gu;
        if (ui != h.node_user_attributes_.end() && ui->second.count(kv.first)) wu = ui->second.at(kv.first);
        auto ug = g.node_user_attributes_.find(p);
        if (ug != g.node_user_attributes_.end() && ug->second.count(kv.first)) gu = ug->second.at(kv.first);
        if (wu != gu) mon::violation("roundtrip:attributes", "attributes of an object changed");
        auto a = h.node_idx_.find(kv.first), b = g.node_idx_.find(kv.first);
        if ((a == h.node_idx_.end()) != (b == g.node_idx_.end()) || (a != h.node_idx_.end() && a->second != b->second)) mon::violation("roundtrip:index", "the collection or index of an object changed");
        mon::eval();
      }
      if (!sameComm(norm(h.node_comm_[p]), norm(g.node_comm_[p]))) mon::violation("roundtrip:comm", "the communication of phase %d changed (%zu, %zu edges)", int(p), h.node_comm_[p].size(), g.node_comm_[p].size());
      auto a = h.user_per_phase_json_.find(p), b = g.user_per_phase_json_.find(p);
      if ((a == h.user_per_phase_json_.end()) != (b == g.user_per_phase_json_.end()) || (a != h.user_per_phase_json_.end() && *a->second != *b->second)) mon::violation("roundtrip:user-phase", "the user's data for phase %d changed", int(p));
      mon::eval(2);
    }
    if (g.node_data_.size() != phases.size()) mon::violation("roundtrip:phase", "%zu phases became %zu", phases.size(), g.node_data_.size());
    mon::distinct(hh); mon::stat("roundtrips");
  }
}

// ---- configuration file of the balancers ----
static std::string scratch(char const* what) { return "scratch-" + std::string(what) + "-" + std::to_string(getpid()) + "-" + std::to_string(me()); }
static void lbconfig() {
  mon::scenario("lb-config");
  auto& r = local();
  char const* names[] = {"NoLB", "RotateLB", "GreedyLB", "HierarchicalLB", "TemperedLB", "RandomLB", "OfflineLB", "TestSerializationLB"};
  struct Entry { int64_t idx; std::string name; std::map<std::string, std::string> params; bool mod; };
  for (int round = 0; round < 60; round++) {
    std::vector<Entry> es; std::set<std::pair<bool, int64_t>> used;
    int n = 1 + r(8); std::string text; bool offline = false;
    for (int i = 0; i < n; i++) {
      Entry e; int kind = r(5); e.mod = kind < 3; e.idx = kind == 0 ? 1 : e.mod ? 1 + r(12) : r(30);
      if (!used.insert({e.mod, e.idx}).second) continue;
      e.name = names[r(8)];
      int np_ = r(4);
      auto ws = [&](int atleast) { std::string s; int k = atleast + r(3); for (int q = 0; q < k; q++) s += r(4) ? ' ' : '\t'; return s; };
      std::string line;
      if (r(4) == 0) line += ws(0);
      if (kind != 0) { if (e.mod) line += "%" + ws(0); line += std::to_string(e.idx) + ws(1); }
      line += e.name;
      for (int q = 0; q < np_; q++) {
        std::string k = std::string("p") + char('a' + r(6)), v;
        switch (r(5)) { case 0: v = std::to_string(int(r(2000)) - 1000); break; case 1: v = "0." + std::to_string(r(1000)); break; case 2: v = r(2) ? "true" : "false"; break; case 3: v = "Enum_" + std::to_string(r(5)); break; default: v = "";  }
        if (e.params.count(k)) continue;
        e.params[k] = v; line += ws(1) + k + "=" + v;
      }
      if (r(3) == 0) line += ws(0);
      bool last = i == n - 1;
      text += line + (last && r(2) ? "" : std::string(1 + r(3), '\n'));
      if (e.name == "OfflineLB") offline = true;
      es.push_back(e);
    }
    auto path = scratch("lbconf");
    { std::ofstream f(path); f << text; }
    ReadLBConfig::clear();
    ReadLBConfig::openConfig(path); ReadLBConfig::openConfig(path);
    unlink(path.c_str());
    if (size_t(ReadLBConfig::numEntries()) != es.size()) mon::violation("lb-config:entries", "%d entries read of %zu", int(ReadLBConfig::numEntries()), es.size());
    if (ReadLBConfig::hasOfflineLB() != offline) mon::violation("lb-config:offline", "OfflineLB present=%d", offline);
    for (int64_t p = 0; p < 60; p++) {
      Entry const* want = nullptr;
      for (auto& e : es) if (!e.mod && e.idx == p) want = &e;
      if (!want) for (auto& e : es) if (e.mod && p % e.idx == 0) { want = &e; break; }
      auto got = ReadLBConfig::entry(p);
      if (!want != !got) { mon::violation("lb-config:entry", "phase %d: entry %s", int(p), got ? "found" : "missing"); continue; }
      if (!want) { if (ReadLBConfig::getLB(p) != LBType::NoLB) mon::violation("lb-config:entry", "a balancer for a phase with none"); continue; }
      if (got->getName() != want->name || got->getIdx() != want->idx) mon::violation("lb-config:entry", "phase %d runs %s (%d), not %s (%d)", int(p), got->getName().c_str(), int(got->getIdx()), want->name.c_str(), int(want->idx));
      if (get_lb_names()[ReadLBConfig::getLB(p)] != want->name) mon::violation("lb-config:type", "phase %d runs another type than %s", int(p), want->name.c_str());
      if (got->getParams() != want->params) mon::violation("lb-config:params", "phase %d: %zu parameters, not %zu, or other values", int(p), got->getParams().size(), want->params.size());
      for (auto& kv : want->params) {
        auto v = kv.second;
        if (got->getOrDefault<std::string>(kv.first, "dflt") != (v.empty() ? "dflt" : v)) mon::violation("lb-config:convert", "string of '%s'", v.c_str());
        char* end; double dv = strtod(v.c_str(), &end); bool num = end != v.c_str();
        if (got->getOrDefault<double>(kv.first, 7.5) != (num ? dv : 7.5)) mon::violation("lb-config:convert", "double of '%s'", v.c_str());
        if (got->getOrDefault<int32_t>(kv.first, -7) != (num ? atoi(v.c_str()) : -7)) mon::violation("lb-config:convert", "int of '%s'", v.c_str());
        bool t = v == "1" || v == "true", f = v == "0" || v == "false";
        for (bool df : {true, false}) if (got->getOrDefault<bool>(kv.first, df) != (t ? true : f ? false : df)) mon::violation("lb-config:convert", "bool of '%s'", v.c_str());
      }
      if (got->getOrDefault<int32_t>("absent", 3) != 3) mon::violation("lb-config:convert", "default of an absent parameter");
      mon::eval();
    }
    auto s = ReadLBConfig::toString();
    if (s.find("Run") == std::string::npos) mon::violation("lb-config:string", "no entry in the summary");
    std::string ps; for (auto& e : es) { for (auto& kv : e.params) ps += " " + kv.first + "=" + kv.second; auto c = ReadLBConfig::makeConfigFromParams(ps); if (c.getParams() != e.params) mon::violation("lb-config:params", "parameters from a string"); ps.clear(); }
    ReadLBConfig::clear();
    if (ReadLBConfig::numEntries() != 0 || ReadLBConfig::entry(1)) mon::violation("lb-config:clear", "entries left after clear");
    uint64_t h = 3; for (auto& e : es) h = mon::mix(h, e.idx * 2 + e.mod);
    mon::distinct(h); mon::stat("lb_configs");
  }
}

// ---- phases for which data is to be written ----
static void filespec() {
  mon::scenario("file-spec");
  using namespace utils::file_spec;
  auto& r = shared();
  for (int round = 0; round < 6; round++) {
    struct E { int idx, neg, pos; bool mod; }; std::vector<E> es; std::set<std::pair<bool, int>> used; std::string text;
    int n = 1 + r(6);
    for (int i = 0; i < n; i++) {
      E e; e.mod = r(2); e.idx = e.mod ? 2 + r(30) : r(80); e.neg = -int(r(5)); e.pos = r(5);
      if (!used.insert({e.mod, e.idx}).second) continue;
      auto ws = [&] { return std::string(1 + r(2), r(3) ? ' ' : '\t'); };
      int form = r(3);
      if (e.mod) text += "%"; text += std::to_string(e.idx);
      if (form == 0) { e.neg = e.pos = 0; } else if (form == 1) { e.pos = 0; text += ws() + std::to_string(e.neg); } else { text += ws() + std::to_string(e.neg) + ws() + std::to_string(e.pos); }
      text += r(3) ? "\n" : " \n\n";
      es.push_back(e);
    }
    if (r(2)) while (text.back() == '\n') text.pop_back();
    std::string path;
    // the file is known to one rank only, the others are told
    path = scratch("spec");
    if (me() == 0) { std::ofstream f(path); f << text; }
    theConfig()->vt_lb_spec = true; theConfig()->vt_lb_spec_file = path;
    dist::syncAll();
    auto proxy = FileSpec::construct(FileSpecType::LB);
    theTerm()->produce();
    if (me() == 0) { proxy.get()->parse(); proxy.get()->broadcastSpec(); }
    theSched()->runSchedulerWhile([&] { return !proxy.get()->specReceived(); });
    theTerm()->consume();
    dist::syncAll();
    unlink(path.c_str());
    for (int p = 0; p < 130; p++) {
      bool want = false;
      for (auto& e : es) {
        if (!e.mod) { if (p >= e.idx + e.neg && p <= e.idx + e.pos) want = true; }
        else for (int k = 0; k * e.idx <= p + 200; k++) {
          // around every multiple, wrapping within one period
          if (p >= k * e.idx + e.neg && p <= k * e.idx + e.pos && (p - k * e.idx < e.idx) && (k * e.idx - p <= e.idx)) want = true;
        }
      }
      if (proxy.get()->checkEnabled(p) != want) mon::violation("spec:phase", "phase %d enabled=%d, the file says %d", p, !want, want);
      mon::eval();
    }
    mon::distinct(mon::mix(es.size(), es[0].idx * 7 + round)); mon::stat("specs");
    dist::syncAll();
  }
  theConfig()->vt_lb_spec = false;
}

// ---- load models ----
static void models() {
  mon::scenario("models");
  auto& r = local();
  constexpr unsigned W = PhaseOffset::WHOLE_PHASE;
  for (int round = 0; round < 40; round++) {
    int P = 1 + r(8), S = 1 + r(4), n = 1 + r(10);
    std::unordered_map<PhaseType, LoadMapType> loads; std::unordered_map<PhaseType, CommMapType> comm; std::unordered_map<PhaseType, DataMapType> user;
    std::vector<Id> ids; for (int i = 0; i < n; i++) ids.push_back(Id{obj(10 + i, r(3)).id, NodeType(me())});
    std::vector<Id> far; for (int i = 0; i < 4; i++) far.push_back(Id{obj(1000 + i, 0).id, NodeType(me() + 1 + r(3))});
    for (int p = 0; p < P; p++) {
      comm[p];
      for (auto& e : ids) {
        LoadSummary s; for (int q = 0; q < S; q++) s.subphase_loads.push_back((1 + r(1000)) / 16.);
        for (auto x : s.subphase_loads) s.whole_phase_load += x;
        s.whole_phase_load += r(2) * 0.5;
        loads[p][e] = s;
        if (r(2)) user[p][e] = randUser(r);
      }
      for (int i = 0; i < int(r(20)); i++) {
        auto any = [&] { return r(2) ? ids[r(ids.size())] : far[r(4)]; };
        elm::CommVolume v; v.bytes = 1 + r(4000); v.messages = 1 + r(20);
        using K = elm::CommKey;
        int k = r(6);
        K key = k < 3 ? K{K::CollectionTag{}, any(), any(), false} : k == 3 ? K{K::CollectionTag{}, any(), any(), true} : k == 4 ? K{K::NodeToCollectionTag{}, NodeType(me() + r(2)), any(), false} : K{K::CollectionToNodeTag{}, any(), NodeType(me() + r(2)), false};
        comm[p][key] = v;
      }
    }
    int last = r(3) ? P - 1 : int(r(P)); int done = last + 1;
    auto raw = std::make_shared<RawData>();
    auto L = [&](Id e, int off, unsigned s) { auto& x = loads[done + off].at(e); return s == W ? x.whole_phase_load : x.subphase_loads[s]; };
    auto use = [&](std::shared_ptr<LoadModel> m) { m->setLoads(&loads, &comm, &user); m->updateLoads(last); return m; };
    auto check = [&](char const* what, double got, double want) { mon::eval(); if (!near(got, want)) mon::violation((std::string("model:") + what).c_str(), "%s: %.12g, not %.12g (%d phases done)", what, got, want, done); };
    auto objects = [&](char const* what, std::shared_ptr<LoadModel> m, std::set<uint64_t> want) {
      std::multiset<uint64_t> got; for (auto e : *m) got.insert(e.id);
      if (got != std::multiset<uint64_t>(want.begin(), want.end()) || m->getNumObjects() != int(want.size())) mon::violation("model:objects", "%s lists %zu objects (%d), not %zu", what, got.size(), m->getNumObjects(), want.size());
      mon::eval();
    };
    std::set<uint64_t> all; for (auto& e : ids) all.insert(e.id);
    auto e = ids[r(ids.size())]; int off = -1 - int(r(done)); unsigned sub = r(3) ? W : r(S);
    use(raw);
    check("raw", raw->getModeledLoad(e, {off, sub}), L(e, off, sub)); check("raw", raw->getRawLoad(e, {off, sub}), L(e, off, sub));
    if (raw->getNumCompletedPhases() != unsigned(done) || raw->getNumSubphases() != S || raw->getNumPastPhasesNeeded(3) != 3) mon::violation("model:raw", "phases or subphases");
    if (raw->getUserData(e, {off, W}) != (user[done + off].count(e) ? user[done + off][e] : ElmUserDataType{})) mon::violation("model:user-data", "raw data");
    if (!sameComm(norm(raw->getComm({off, W})), norm(comm[done + off]))) mon::violation("model:comm", "raw data");
    check("raw-absent", raw->getModeledLoad(far[0], {off, sub}), 0);
    objects("raw", raw, all);
    auto naive = use(std::make_shared<NaivePersistence>(raw));
    for (int f = 0; f < 3; f++) { check("naive", naive->getModeledLoad(e, {f, sub}), L(e, -1, sub)); check("naive", naive->getRawLoad(e, {f, sub}), L(e, -1, sub)); if (naive->getUserData(e, {f, W}) != raw->getUserData(e, {-1, W})) mon::violation("model:user-data", "naive"); }
    check("naive", naive->getModeledLoad(e, {off, sub}), L(e, off, sub));
    objects("naive", naive, all);
    if (naive->getNumPastPhasesNeeded(0) != 1 || naive->getNumPastPhasesNeeded(4) != 4) mon::violation("model:past", "naive");
    int N = 1 + r(6);
    auto med = use(std::make_shared<PersistenceMedianLastN>(raw, N));
    { std::vector<double> t; for (int i = 1; i <= std::min(N, done); i++) t.push_back(L(e, -i, sub)); std::sort(t.begin(), t.end()); double w = t.size() % 2 ? t[t.size() / 2] : (t[t.size() / 2] + t[t.size() / 2 - 1]) / 2; check("median", med->getModeledLoad(e, {int(r(3)), sub}), w); check("median", med->getModeledLoad(e, {off, sub}), L(e, off, sub)); if (med->getNumPastPhasesNeeded(2) != unsigned(std::max(N, 2))) mon::violation("model:past", "median"); }
    auto lin = use(std::make_shared<LinearModel>(raw, N));
    { int k = std::min(N, done); double w; int f = r(4);
      if (k == 1) w = L(e, -1, sub);
      else { double mx = 0, my = 0; for (int i = -k; i < 0; i++) { mx += i; my += L(e, i, sub); } mx /= k; my /= k; double a = 0, b = 0; for (int i = -k; i < 0; i++) { a += (i - mx) * (L(e, i, sub) - my); b += (i - mx) * (i - mx); } w = my + a / b * (f - mx); }
      double g = lin->getModeledLoad(e, {f, sub});
      mon::eval(); if (std::abs(g - w) > 1e-6 * (1 + std::abs(w))) mon::violation("model:linear", "%.12g, not %.12g from %d phases", g, w, k);
      check("linear", lin->getModeledLoad(e, {off, sub}), L(e, off, sub)); }
    int block = 1 + r(4);
    auto mul = use(std::make_shared<MultiplePhases>(naive, block));
    check("multiple", mul->getModeledLoad(e, {0, sub}), block * L(e, -1, sub)); check("multiple", mul->getModeledLoad(e, {off, sub}), L(e, off, sub));
    auto mull = use(std::make_shared<MultiplePhases>(lin, block));
    { double w = 0; int f = r(3); for (int i = 0; i < block; i++) w += lin->getModeledLoad(e, {block * f + i, sub}); check("multiple", mull->getModeledLoad(e, {f, sub}), w); }
    double pw = r(4) == 0 ? INFINITY : 1 + r(4);
    auto nm = use(std::make_shared<Norm>(naive, pw));
    { double w = 0; for (int q = 0; q < S; q++) w = std::isfinite(pw) ? w + std::pow(L(e, -1, q), pw) : std::max(w, L(e, -1, q)); if (std::isfinite(pw)) w = std::pow(w, 1 / pw); check("norm", nm->getModeledLoad(e, {0, W}), w); unsigned q = r(S); check("norm", nm->getModeledLoad(e, {0, q}), L(e, -1, q)); }
    std::vector<unsigned> sel; int ns = 1 + r(3); for (int i = 0; i < ns; i++) sel.push_back(r(S));
    auto ss = use(std::make_shared<SelectSubphases>(naive, sel));
    { double w = 0; for (auto q : sel) w += L(e, -1, q); check("select", ss->getModeledLoad(e, {0, W}), w); unsigned q = r(ns); check("select", ss->getModeledLoad(e, {0, q}), L(e, -1, sel[q])); if (ss->getNumSubphases() != ns) mon::violation("model:select", "subphases"); }
    // communication
    double pm = r(5), pb = r(5) / 4.;
    auto inout = [&](int ph, Id o, bool all_) {
      double in = 0, out = 0;
      for (auto& kv : comm[ph]) {
        auto& k = kv.first; double c = pm * kv.second.messages + pb * kv.second.bytes;
        bool offn;
        using C = elm::CommCategory;
        if (k.cat_ == C::SendRecv) offn = k.from_.curr_node != k.to_.curr_node;
        else if (k.cat_ == C::CollectionToNode) offn = k.from_.curr_node != k.nto_;
        else if (k.cat_ == C::NodeToCollection) offn = k.to_.curr_node != k.nfrom_;
        else offn = true;
        if (!offn || (!all_ && k.cat_ != C::SendRecv)) continue;
        if (k.to_ == o) in += c; else if (k.from_ == o) out += c;
      }
      return std::make_pair(in, out);
    };
    auto co = use(std::make_shared<CommOverhead>(raw, pm, pb));
    { auto io = inout(done + off, e, true); double w = L(e, off, W); check("overhead", co->getModeledLoad(e, {off, W}), w + io.first); unsigned q = r(S); check("overhead", co->getModeledLoad(e, {off, q}), L(e, off, q) * (1 + io.first / w)); }
    auto wm = std::make_shared<WeightedMessages>(raw, pm, pb); use(wm);
    double al = r(4), be = r(4) / 2., ga = r(4);
    auto wc = use(std::make_shared<WeightedCommunicationVolume>(wm, al, be, ga));
    { auto io = inout(done + off, e, false); double c = std::max(io.first, io.second); unsigned q = r(S); check("messages", wm->getModeledComm(e, {off, W}), c); double cq = c * L(e, off, q) / L(e, off, W); check("messages", wm->getModeledComm(e, {off, q}), cq);
      check("messages", wm->getModeledLoad(e, {off, sub}), L(e, off, sub));
      check("volume", wc->getModeledLoad(e, {off, W}), al * L(e, off, W) + be * c + ga); check("volume", wc->getModeledLoad(e, {off, q}), al * L(e, off, q) + be * cq + ga); }
    // what would be after a reassignment
    auto re = std::make_shared<Reassignment>(); re->node_ = me(); re->global_migration_count = 1;
    std::set<uint64_t> stay = all; std::vector<Id> left;
    for (auto& x : ids) { if (r(3) == 0) { re->depart_[x] = me() + 1; stay.erase(x.id); } else left.push_back(x); }
    std::vector<Id> came; for (auto& x : far) if (r(2)) { LoadSummary a, b; a.whole_phase_load = 3 + r(50); b.whole_phase_load = 100 + r(50); for (int q = 0; q < S; q++) { a.subphase_loads.push_back(q + 1.5); b.subphase_loads.push_back(q + 2.5); } re->arrive_[x] = std::make_tuple(a, b, randUser(r)); stay.insert(x.id); came.push_back(x); }
    auto pr = use(std::make_shared<ProposedReassignment>(naive, re));
    objects("reassigned", pr, stay);
    for (auto& x : left) { check("reassigned", pr->getModeledLoad(x, {0, sub}), L(x, -1, sub)); check("reassigned", pr->getRawLoad(x, {0, sub}), L(x, -1, sub)); }
    for (auto& x : came) { check("reassigned", pr->getModeledLoad(x, {0, sub}), std::get<0>(re->arrive_.at(x)).get({0, sub})); check("reassigned", pr->getRawLoad(x, {0, sub}), std::get<1>(re->arrive_.at(x)).get({0, sub})); if (pr->getUserData(x, {0, W}) != std::get<2>(re->arrive_.at(x))) mon::violation("model:user-data", "reassigned"); }
    mon::distinct(mon::mix(mon::mix(P * 64 + S, n * 64 + N), last * 64 + sub)); mon::stat("model_cases");
  }
}

int main(int argc, char** argv) {
  return dist::run(argc, argv, [] {
    int reps = mon::thorough() ? 12 : 4;
    for (int i = 0; i < reps; i++) { recording(); roundtrip(); lbconfig(); filespec(); models(); mon::progress(); }
    dist::syncAll();
  });
}
