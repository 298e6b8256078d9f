// Trees over the ranks, epoch graphs, epoch identifiers across ranks, limits of MPI.
#include "dist.h"
#include <vt/termination/graph/epoch_graph.h>
#include <vt/epoch/epoch_manip.h>
#include <vt/utils/mpi_limits/mpi_max_tag.h>
#include <vt/collective/tree/tree.h>
#include <vt/pipe/state/pipe_state.h>
#include <set>
#include <map>
using namespace vt;
using dist::local;
using dist::me;
using dist::np;

// Epoch graphs: union of the edges, never less.
using termination::graph::EpochGraph;
static EpochType mkEp(int i) {
  EpochType e = i % 2 ? epoch::EpochManip::generateRootedEpoch(i % 4 == 1 ? epoch::eEpochCategory::DijkstraScholtenEpoch : epoch::eEpochCategory::NoCategoryEpoch) : epoch::EpochManip::generateEpoch();
  epoch::EpochManip::setSeq(e, 10 + i);
  return e;
}
static void graphs() {
  mon::scenario("epoch-graph");
  for (int round = 0; round < 60; round++) {
    int n = 2 + int(local()(8));
    using E = std::pair<uint64_t, uint64_t>;
    auto build = [&] {
      std::vector<std::shared_ptr<EpochGraph>> v;
      for (int i = 0; i < n; i++) v.push_back(std::make_shared<EpochGraph>(mkEp(i), "l" + std::to_string(i)));
      std::set<E> edges;
      for (int i = 1; i < n; i++)
        for (int p = 0; p < i; p++)
          if (p == i / 2 ? local()(5) != 0 : local()(6) == 0) { v[p]->addSuccessor(v[i]); edges.insert({*mkEp(p), *mkEp(i)}); }
      std::set<E> reach; std::vector<uint64_t> todo{*mkEp(0)};
      while (!todo.empty()) { auto x = todo.back(); todo.pop_back(); for (auto& e : edges) if (e.first == x && reach.insert(e).second) todo.push_back(e.second); }
      return std::make_pair(v[0], reach);
    };
    auto edgesOf = [&](EpochGraph& g) {
      std::set<E> out;
      std::string d = g.outputDOT(true);
      size_t p = 0;
      while ((p = d.find("->", p)) != std::string::npos) {
        size_t a = d.rfind('\t', p); size_t b = d.find(';', p);
        if (a != std::string::npos && b != std::string::npos) out.insert({strtoull(d.c_str() + a + 1, nullptr, 10), strtoull(d.c_str() + p + 2, nullptr, 10)});
        p += 2;
      }
      return out;
    };
    auto a = build(), b = build();
    auto ea = edgesOf(*a.first);
    if (ea != a.second) mon::violation("graph:edges", "the graph lists %zu edges, %zu were added", ea.size(), a.second.size());
    a.first->detectCycles();
    auto u = *a.first + *b.first;
    std::set<E> want = a.second; want.insert(b.second.begin(), b.second.end());
    auto eu = edgesOf(u);
    mon::eval(2);
    if (eu != want) mon::violation("graph:merge", "the merged graph lists %zu edges, the two have %zu together", eu.size(), want.size());
    uint64_t h = n; for (auto& e : want) h = mon::mix(h, e.first ^ (e.second << 7));
    mon::distinct(h);
    mon::stat("graphs");
    // a cycle is reported: closed over the last vertex of a chain
    if (round % 10 == 0) {
      const_cast<arguments::AppConfig*>(theConfig())->vt_throw_on_abort = true;
      std::vector<std::shared_ptr<EpochGraph>> c;
      int k = 1 + int(local()(5));
      for (int i = 0; i < k; i++) c.push_back(std::make_shared<EpochGraph>(mkEp(i), "c"));
      for (int i = 0; i + 1 < k; i++) c[i]->addSuccessor(c[i + 1]);
      c[0]->detectCycles();
      int to = int(local()(k));
      c[k - 1]->addSuccessor(c[to]);
      bool thrown = false;
      try { c[0]->detectCycles(); } catch (std::exception const&) { thrown = true; }
      if (!thrown) mon::violation("graph:cycle", "a cycle through %d of %d vertices was not reported", k - to, k);
      const_cast<arguments::AppConfig*>(theConfig())->vt_throw_on_abort = false;
      mon::eval(); mon::stat("cycles");
    }
  }
}

static void trees() {
  mon::scenario("tree");
  using collective::tree::Tree;
  Tree t{collective::tree::DefaultTreeConstructTag{}};
  std::vector<int> mine{t.isRoot() ? -1 : int(t.getParent()), int(t.getNumDescendants()), int(t.getNumChildren())};
  for (auto c : t.getChildren()) mine.push_back(int(c));
  std::vector<int> each; t.foreachChild([&](NodeType c) { each.push_back(int(c)); });
  if (each != std::vector<int>(mine.begin() + 3, mine.end())) mon::violation("tree:foreach", "foreachChild and getChildren differ");
  if (int(each.size()) != mine[2]) mon::violation("tree:children", "getNumChildren is %d, there are %zu", mine[2], each.size());
  auto all = dist::gather(mine);
  int roots = 0;
  std::vector<int> desc(np(), 0);
  for (int r = 0; r < np(); r++) {
    if (all[r][0] == -1) roots++;
    else {
      int p = all[r][0];
      if (p < 0 || p >= np() || p == r) { mon::violation("tree:parent", "parent of %d is %d", r, p); continue; }
      if (std::count(all[p].begin() + 3, all[p].end(), r) != 1) mon::violation("tree:parent", "%d says its parent is %d, which does not list it once", r, p);
      int steps = 0; for (int x = p; x != -1 && steps <= np(); x = all[x][0]) { desc[x]++; steps++; }
      if (steps > np()) mon::violation("tree:cycle", "following parents from %d does not end", r);
    }
    for (size_t k = 3; k < all[r].size(); k++) if (all[r][k] < 0 || all[r][k] >= np() || all[all[r][k]][0] != r) mon::violation("tree:child", "%d lists child %d, whose parent is another", r, all[r][k]);
    // the view a rank has of another one
    auto ch = t.getChildren(NodeType(r));
    if (std::vector<int>(ch.begin(), ch.end()) != std::vector<int>(all[r].begin() + 3, all[r].end())) mon::violation("tree:remote-children", "children of %d as seen from %d", r, me());
    mon::eval(3);
  }
  if (roots != 1) mon::violation("tree:root", "%d roots", roots);
  for (int r = 0; r < np(); r++) {
    if (all[r][1] != desc[r]) mon::violation("tree:descendants", "rank %d counts %d descendants, it has %d", r, all[r][1], desc[r]);
    if (int(t.getNumDescendants(NodeType(r))) != desc[r]) mon::violation("tree:descendants", "%d descendants of rank %d, it has %d", int(t.getNumDescendants(NodeType(r))), r, desc[r]);
    mon::eval(2);
  }
  // levels: together they enumerate all positions once
  std::vector<int> lv; int top = 3 + int(local()(4));
  for (int l = 0; l < top; l++) t.foreachChild(Tree::NumLevelsType(l), [&](NodeType c) { lv.push_back(int(c)); });
  bool okl = int(lv.size()) == (1 << top) - 1; for (size_t i = 0; i < lv.size(); i++) if (lv[i] != int(i)) okl = false;
  if (!okl) mon::violation("tree:levels", "the first %d levels hold %zu positions", top, lv.size());
  // given explicitly
  Tree g(false, 7, {1, 2, 5});
  if (g.isRoot() || g.getParent() != 7 || g.getNumChildren() != 3) mon::violation("tree:given", "a tree made from given edges differs");
  Tree gr(Tree::NodeListType{3, 4});
  if (!gr.isRoot() || gr.getNumChildren() != 2) mon::violation("tree:given", "a root made from given children differs");
  mon::stat("trees"); mon::distinct(mon::mix(np(), me()));
}

// new epochs are distinct over all ranks, and say what they are
static void epochs() {
  mon::scenario("epoch-ids");
  using epoch::EpochManip;
  for (int round = 0; round < 10; round++) {
    std::vector<uint64_t> mine; std::vector<EpochType> made;
    int n = 1 + int(local()(40));
    for (int i = 0; i < n; i++) {
      bool ds = local()(2);
      auto e = theEpoch()->getNextRootedEpoch(ds ? epoch::eEpochCategory::DijkstraScholtenEpoch : epoch::eEpochCategory::NoCategoryEpoch);
      if (!EpochManip::isRooted(e) || int(EpochManip::node(e)) != me() || (EpochManip::category(e) == epoch::eEpochCategory::DijkstraScholtenEpoch) != ds)
        mon::violation("epoch:fields", "a new rooted epoch reads back rooted=%d node=%d", EpochManip::isRooted(e), int(EpochManip::node(e)));
      if (theEpoch()->getTerminatedWindow(e)->isTerminated(e)) mon::violation("epoch:terminated-new", "a new epoch counts as terminated");
      mine.push_back(*e); made.push_back(e);
    }
    auto all = dist::gather(mine);
    std::set<uint64_t> seen; size_t tot = 0;
    for (auto& v : all) for (auto x : v) { seen.insert(x); tot++; }
    if (seen.size() != tot) mon::violation("epoch:shared", "%zu distinct identifiers for %zu epochs", seen.size(), tot);
    // collective ones agree
    auto c = theEpoch()->getNextCollectiveEpoch();
    std::vector<uint64_t> cv{*c};
    auto ca = dist::gather(cv);
    for (auto& v : ca) if (v[0] != *c) mon::violation("epoch:collective", "ranks disagree about the next collective epoch");
    if (EpochManip::isRooted(c) || seen.count(*c)) mon::violation("epoch:collective", "a collective epoch looks like a rooted one");
    made.push_back(c);
    for (size_t i = made.size(); i > 0; i--) {
      size_t k = local()(made.size()); auto e = made[k]; made.erase(made.begin() + k);
      auto w = theEpoch()->getTerminatedWindow(e);
      w->setEpochTerminated(e);
      if (!w->isTerminated(e)) mon::violation("epoch:not-terminated", "an epoch that was closed does not count as terminated");
      for (auto& x : made) if (theEpoch()->getTerminatedWindow(x)->isTerminated(x)) mon::violation("epoch:terminated-other", "closing an epoch closed another");
      mon::eval();
    }
    mon::eval(tot); mon::stat("epoch_ids", n);
    mon::distinct(mon::mix(tot, round));
  }
}

static void limits() {
  mon::scenario("limits");
  void* p = nullptr; int flag = 0;
  MPI_Comm_get_attr(MPI_COMM_WORLD, MPI_TAG_UB, &p, &flag);
  for (int i = 0; i < 3; i++) {
    if (flag && util::mpi_limits::MPI_Attr::getMaxTag() != *static_cast<int*>(p)) mon::violation("limits:tag", "largest tag %d, not %d", util::mpi_limits::MPI_Attr::getMaxTag(), *static_cast<int*>(p));
    int v, s; MPI_Get_version(&v, &s);
    auto [a, b] = util::mpi_limits::MPI_Attr::getVersion();
    if (a != v || b != s) mon::violation("limits:version", "MPI %d.%d, not %d.%d", a, b, v, s);
    mon::eval(2);
  }
  if (int(theContext()->getNode()) != me() || int(theContext()->getNumNodes()) != np()) mon::violation("context:node", "node %d of %d, not %d of %d", int(theContext()->getNode()), int(theContext()->getNumNodes()), me(), np());
  mon::stat("limits");
}

int main(int argc, char** argv) {
  return dist::run(argc, argv, [] { trees(); graphs(); epochs(); limits(); });
}
