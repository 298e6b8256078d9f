// C09: rooted and collective groups: membership, broadcasts to them, reductions over them, communicators.
#include "dist.h"
#include <vt/group/group_headers.h>
#include <vt/group/region/group_range.h>
#include <vt/group/region/group_list.h>
#include <vt/group/region/group_shallow_list.h>
#include <set>
#include <map>
#include <algorithm>

using namespace vt;
using dist::me; using dist::np; using dist::shared; using dist::local;

struct Bc { uint64_t id; int from; };
static std::map<uint64_t, int> got;             // broadcast id -> times handled here
static std::map<uint64_t, int> posted;

struct Pod : Message { uint64_t id; uint64_t grp; unsigned char b[24]; };
struct Wide : Message { uint64_t id; uint64_t grp; unsigned char b[3000]; };
struct Ser : Message {
  using MessageParentType = Message; vt_msg_serialize_required();
  uint64_t id = 0; uint64_t grp = 0; std::vector<unsigned char> b;
  template <typename S> void serialize(S& s) { MessageParentType::serialize(s); s | id | grp | b; }
};
static void arrive(uint64_t id, uint64_t grp, GroupType g, void const* b, size_t n) {
  got[id]++; mon::stat("deliveries"); mon::eval();
  if (g != GroupType(grp)) mon::violation("group:envelope", "a message to group %llx arrived naming group %llx", (unsigned long long)grp, (unsigned long long)g);
  if (long at = dist::mismatch(b, n, id); at >= 0) mon::violation("group:payload", "a %zu-byte message to a group differs at byte %ld", n, at);
}
static void onPod(Pod* m) { arrive(m->id, m->grp, envelopeGetGroup(m->env), m->b, sizeof m->b); }
static void onWide(Wide* m) { arrive(m->id, m->grp, envelopeGetGroup(m->env), m->b, sizeof m->b); }
static void onSer(Ser* m) { if (m->b.size() != m->id % 5000) mon::violation("group:payload", "a message of %llu bytes arrived with %zu", (unsigned long long)(m->id % 5000), m->b.size()); arrive(m->id, m->grp, envelopeGetGroup(m->env), m->b.data(), m->b.size()); }

static uint64_t serial = 0;
static uint64_t cast(GroupType g) {
  uint64_t id = mon::mix(mon::seed(), mon::mix(me() + 1, ++serial)) >> 8;
  posted[id]++;
  mon::stat("broadcasts");
  int how = mon::argi("HOW", -1); if (how < 0) how = int(local()(4));
  switch (how) {
  case 0: { auto m = makeMessage<Wide>(); m->id = id; m->grp = g; dist::fill(m->b, sizeof m->b, id); envelopeSetGroup(m->env, g); theMsg()->broadcastMsg<onWide>(m); break; }
  case 1: { auto m = makeMessage<Ser>(); m->id = id; m->grp = g; m->b.resize(id % 5000); dist::fill(m->b.data(), m->b.size(), id); envelopeSetGroup(m->env, g); theMsg()->broadcastMsg<onSer>(m); break; }
  default: { auto m = makeMessage<Pod>(); m->id = id; m->grp = g; dist::fill(m->b, sizeof m->b, id); envelopeSetGroup(m->env, g); theMsg()->broadcastMsg<onPod>(m); break; }
  }
  return id;
}

struct Want { uint64_t id; uint64_t members; };       // by rank bits
static std::vector<Want> wants;                       // of this rank
static void judge(char const* what) {
  dist::syncAll();
  std::map<uint64_t, uint64_t> w;
  for (auto& v : dist::gather(wants)) for (auto& x : v) w[x.id] = x.members;
  for (auto& x : w) {
    int want = int(x.second >> me() & 1), have = got.count(x.first) ? got[x.first] : 0;
    mon::eval();
    if (have != want) mon::violation("group:count", "%s, %d ranks, group %llx: a rank %s the group handled a broadcast %d times", what, np(), (unsigned long long)x.second, want ? "in" : "outside", have);
  }
  for (auto& x : got) if (!w.count(x.first)) mon::violation("group:unknown", "%s: a broadcast nobody made", what);
  got.clear(); wants.clear();
  dist::syncAll();
}

// every message of a round is in one epoch: when it has ended they must have arrived
static void rooted(int k) {
  int root = int(shared()(np()));
  int many = 1 + int(shared()(3)), others = int(shared()(3));
  mon::scenario(mon::fmt("rooted group at %d of %d", root, np()));
  struct G { uint64_t id; uint64_t mem; };
  static std::vector<G> made; made.clear();
  auto post = [&](GroupType g, uint64_t mem, int n) { for (int i = 0; i < n; i++) wants.push_back({cast(g), mem}); };
  int before = int(local()(3));
  runInEpochCollective([&] {
    if (me() != root) return;
    for (int i = 0; i < many; i++) {
      std::vector<NodeType> list; uint64_t mem = 0;
      std::unique_ptr<group::region::Region> reg;
      int kind = int(local()(4));
      if (kind == 0) {
        int lo = int(local()(np())), hi = lo + 1 + int(local()(np() - lo)), st = 1 + int(local()(2));
        reg = std::make_unique<group::region::Range>(NodeType(lo), NodeType(hi), NodeType(st));
        for (int r = lo; r < hi; r += st) list.push_back(NodeType(r));
      } else {
        int p = 1 + int(local()(4));
        for (int r = 0; r < np(); r++) if (int(local()(4)) < p) list.push_back(NodeType(r));
        if (list.empty()) list.push_back(NodeType(local()(np())));
        for (size_t a = list.size(); a > 1; a--) std::swap(list[a - 1], list[local()(a)]);
        reg = std::make_unique<group::region::List>(group::region::Region::ListType(list.begin(), list.end()));
        mon::stat("unsorted_lists", !std::is_sorted(list.begin(), list.end()));
      }
      for (auto r : list) mem |= 1ull << r;
      mon::distinct(mon::mix(mem, mon::mix(root, mon::mix(np(), kind == 0))));
      mon::stat("rooted_groups"); mon::eval();
      auto g = theGroup()->newGroup(std::move(reg), [=](GroupType id) {
        made.push_back({uint64_t(id), mem});
        mon::stat("rooted_ready");
        for (int n = 0; n < before; n++) wants.push_back({cast(id), mem});
      });
      if (group::GroupIDBuilder::getNode(g) != me() || group::GroupIDBuilder::isCollective(g)) mon::violation("group:id", "the id of a rooted group made on rank %d says otherwise", me());
    }
  });
  if (me() == root && int(made.size()) != many) mon::violation("group:ready", "%zu of %d groups became ready before their epoch ended (%d ranks)", made.size(), many, np());
  judge("when ready");
  auto all = dist::gather(made);
  std::vector<G> gs; for (auto& v : all) for (auto& g : v) gs.push_back(g);
  runInEpochCollective([&] {
    for (auto& g : gs) { if (me() == root) post(GroupType(g.id), g.mem, 1 + int(local()(3))); else if (others == 2) post(GroupType(g.id), g.mem, int(local()(3))); }
  });
  judge("rooted");
  (void)k;
}

// ---- collective ----
struct Sum { int64_t n = 0; uint64_t members = 0, h = 0; friend Sum operator+(Sum a, Sum const& b) { a.n += b.n; a.members += b.members; a.h += b.h; return a; } template <typename S> void serialize(S& s) { s | n | members | h; } };
struct Res { uint64_t tag; };
static std::map<uint64_t, std::vector<Sum>> results;
static std::map<uint64_t, int> resultMsgs;
static void onSum(Sum s) { results[s.h].push_back(s); mon::stat("reduce_results"); }

static void collectives() {
  mon::scenario(mon::fmt("collective groups, %d ranks", np()));
  int many = 1 + int(shared()(4));
  struct G { GroupType id = 0; uint64_t mem = 0; bool comm = false, ready = false, deleted = false; };
  static std::vector<G> gs; gs.assign(many, G{});
  std::vector<int> style(many);
  for (int i = 0; i < many; i++) {
    int p = int(shared()(6)); uint64_t mem = 0;
    for (int r = 0; r < np(); r++) if (p == 5 || int(shared()(5)) < p) mem |= 1ull << r;
    if (shared().chance(0.1)) mem = 1ull << shared()(np());
    gs[i].mem = mem; gs[i].comm = shared().chance(0.3); style[i] = int(shared()(3));
  }
  bool separate = shared().chance(0.3);
  auto make = [&](int i) {
    bool in = gs[i].mem >> me() & 1; uint64_t mem = gs[i].mem; int s = style[i];
    mon::stat("collective_groups"); mon::distinct(mon::mix(mem, np() + 100)); mon::eval();
    auto g = theGroup()->newGroupCollective(in, [=](GroupType id) {
      if (gs[i].ready) mon::violation("group:ready", "a group became ready twice");
      gs[i].ready = true; mon::stat("collective_ready");
      if (theGroup()->inGroup(id) != in) mon::violation("group:member", "rank %d asked to be %s the group and is not", me(), in ? "in" : "outside");
      if (s == 0 || (s == 1 && me() % 2)) wants.push_back({cast(id), mem});
    }, gs[i].comm);
    gs[i].id = g;
    if (s == 2 && in && local().chance(0.5)) wants.push_back({cast(g), mem});   // at once, before it is ready: members may
  };
  if (separate) for (int i = 0; i < many; i++) runInEpochCollective([&] { make(i); });
  else runInEpochCollective([&] { for (int i = 0; i < many; i++) make(i); });
  for (auto& g : gs) if (!g.ready) mon::violation("group:ready", "a group of ranks %llx of %d did not become ready before its epoch ended", (unsigned long long)g.mem, np());
  std::vector<uint64_t> ids; for (auto& g : gs) ids.push_back(uint64_t(g.id));
  judge("at creation");
  uint64_t everyone = np() == 64 ? ~0ull : (1ull << np()) - 1;
  for (int turn = 0, turns = 1 + int(shared()(3)); turn < turns; turn++) {
    mon::scenario(mon::fmt("use of collective groups, %d ranks, turn %d", np(), turn));
    for (auto& g : gs) if (!g.deleted) {
      mon::eval();
      bool in = g.mem >> me() & 1;
      if (theGroup()->inGroup(g.id) != in) mon::violation("group:member", "membership changed");
      if (theGroup()->isGroupDefault(g.id) && g.mem != everyone) mon::violation("group:default", "the group of ranks %llx passes for the group of all %d", (unsigned long long)g.mem, np());
      if (g.mem && in) {
        auto r = theGroup()->groupRoot(g.id);
        if (r < 0 || r >= np() || !(g.mem >> r & 1)) mon::violation("group:root", "the root %d of the group of ranks %llx is not in it", int(r), (unsigned long long)g.mem);
      }
      if (g.comm && np() > 1) {
        MPI_Comm c = theGroup()->getGroupComm(g.id); int cs = 0, cr = 0;
        MPI_Comm_size(c, &cs); MPI_Comm_rank(c, &cr);
        uint64_t mine = in ? g.mem : everyone & ~g.mem;
        if (cs != __builtin_popcountll(mine) || cr != __builtin_popcountll(mine & ((1ull << me()) - 1))) mon::violation("group:comm", "in the communicator of the group of ranks %llx rank %d is %d of %d", (unsigned long long)g.mem, me(), cr, cs);
        mon::stat("communicators");
      }
    }
    struct Red { uint64_t h; int root; int g; };
    std::vector<Red> reds;
    int nr = int(shared()(6));
    for (int i = 0; i < nr; i++) {
      int g = int(shared()(many)); if (!gs[g].mem || gs[g].deleted) continue;
      int root; do root = int(shared()(np())); while (!(gs[g].mem >> root & 1) && shared().chance(0.7));
      reds.push_back({mon::mix(shared().next(), 3) >> 20, root, g});
    }
    results.clear();
    dist::syncAll();
    runInEpochCollective([&] {
      for (auto& g : gs) if (!g.deleted) for (int n = int(local()(3)); n > 0; n--) wants.push_back({cast(g.id), g.mem});
      for (auto& r : reds) if (gs[r.g].mem >> me() & 1) {
        Sum s; s.n = 1; s.members = 1ull << me();
        s.h = me() == 63 - __builtin_clzll(gs[r.g].mem) ? r.h : 0;
        mon::stat("reductions");
        theGroup()->groupReducer(gs[r.g].id)->reduce<onSum, collective::PlusOp>(Node{NodeType(r.root)}, s);
      }
    });
    judge("collective");
    for (auto& r : reds) {
      auto it = results.find(r.h); size_t n = it == results.end() ? 0 : it->second.size();
      mon::eval();
      if (n != (r.root == me() ? 1u : 0u)) { mon::violation("group:reduce", "%zu results on rank %d of a reduction over the group of ranks %llx to rank %d (%d ranks)", n, me(), (unsigned long long)gs[r.g].mem, r.root, np()); continue; }
      if (n && (it->second[0].members != gs[r.g].mem || it->second[0].n != __builtin_popcountll(gs[r.g].mem))) mon::violation("group:reduce", "a reduction over the group of ranks %llx combined those of %llx (%lld contributions)", (unsigned long long)gs[r.g].mem, (unsigned long long)it->second[0].members, (long long)it->second[0].n);
    }
    size_t here = 0; for (auto& r : reds) here += r.root == me();
    if (results.size() != here) mon::violation("group:reduce", "results nobody asked for");
    dist::syncAll();
    if (shared().chance(0.3)) {
      int g = int(shared()(many));
      if (!gs[g].deleted) { gs[g].deleted = true; runInEpochCollective([&] { theGroup()->deleteGroupCollective(gs[g].id); }); mon::stat("deleted_groups"); }
    }
  }
  for (auto& g : gs) if (!g.deleted && shared().chance(0.5)) { runInEpochCollective([&] { theGroup()->deleteGroupCollective(g.id); }); mon::stat("deleted_groups"); }
}

static void body() {
  int rounds = int(mon::argi("ROUNDS", mon::thorough() ? 60 : 25));
  for (int r = 0; r < rounds; r++) {
    if (shared().chance(0.5)) rooted(r); else collectives();
    mon::sample(mon::fmt("round %d of groups over %d ranks", r, np()));
    dist::syncAll();
  }
}
int main(int argc, char** argv) { return dist::run(argc, argv, body); }
