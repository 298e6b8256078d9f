// C12: chains of dependent steps over the elements of a collection.  A counter per (step, element) in
// memory shared by all ranks tells, exactly, whether any work of an earlier step is still unfinished
// when a later step of the same element starts.
#include "dist.h"
#include <vt/messaging/collection_chain_set.h>
#include <atomic>
#include <map>
#include <set>

using namespace vt;
using dist::me; using dist::np; using dist::shared; using dist::local;

enum { Steps = 64, Elms = 64, Cols = 3 };
struct Cell { std::atomic<int> started, open, sent; };
struct Board { Cell c[Cols][Steps][Elms]; };
static Board* board;
static MPI_Win win = MPI_WIN_NULL;
static void share() {
  void* p = nullptr; MPI_Aint n = me() == 0 ? sizeof(Board) : 0; int disp;
  PMPI_Win_allocate_shared(n, 1, MPI_INFO_NULL, dist::comm(), &p, &win);
  if (me() != 0) PMPI_Win_shared_query(win, 0, &n, &disp, &p);
  board = static_cast<Board*>(p);
}

// what a step of an element does, known to all ranks
enum How { Own, Coll, Merge };
struct Step { int how; int fan, depth; bool move; };
static Step steps[Steps];
static int nSteps, range;
static int mergedWith[Steps];                // the step number in the other collection's chain
static bool over = false;
static vt::vrt::collection::CollectionProxy<struct Elm, Index1D> cols[2];
static uint64_t roundNo = 0;

struct Elm : Collection<Elm, Index1D> {
  int64_t done = 0; int which = 0;
  void start(int col, int step, int fan, int depth);
  void work(int col, int step, int owner, int fan, int depth);
  template <typename S> void serialize(S& s) { Collection<Elm, Index1D>::serialize(s); s | done | which; }
};
static void further(int col, int step, int owner, int fan, int depth);
static void plain(int col, int step, int owner, int fan, int depth) {
  mon::stat("works");
  further(col, step, owner, fan, depth);
  board->c[col][step][owner].open--;
}
static void further(int col, int step, int owner, int fan, int depth) {
  if (depth <= 0) return;
  for (int i = 0; i < fan; i++) {
    board->c[col][step][owner].open++;
    if (local()(2)) theMsg()->send<plain>(vt::Node{NodeType(local()(np()))}, col, step, owner, fan, depth - 1);
    else cols[local()(2)][int(local()(range))].send<&Elm::work>(col, step, owner, fan, depth - 1);
  }
}
void Elm::work(int col, int step, int owner, int fan, int depth) { mon::stat("works"); further(col, step, owner, fan, depth); board->c[col][step][owner].open--; }
void Elm::start(int col, int step, int fan, int depth) {
  int i = int(getIndex().x());
  auto& c = board->c[col][step][i];
  mon::stat("steps_started"); mon::eval();
  if (over) mon::violation("chain:late", "a step started after its epoch ended");
  if (c.sent.load() == 0) mon::violation("chain:count", "a step of element %d ran that was not made", i);
  if (int n = ++c.started; n != 1) mon::violation("chain:count", "step %d of element %d started %d times", step, i, n);
  auto before = [&](int cl, int s, char const* what) {
    mon::eval();
    auto& b = board->c[cl][s][i];
    // a step made for all elements is one epoch: nothing of it may be left anywhere
    if (b.started.load() != 1) mon::violation("chain:order", "step %d of %s element %d started before step %d did (%d ranks, %s after %s)", step, what, i, s, np(), steps[step].how == Own ? "own" : steps[step].how == Coll ? "collective" : "merged", steps[s].how == Own ? "own" : "collective");
    else if (int o = b.open.load()) mon::violation("chain:order", "step %d of %s element %d started while %d pieces of work of step %d were unfinished (%d ranks, %s after %s)", step, what, i, o, s, np(), steps[step].how == Own ? "own" : steps[step].how == Coll ? "collective" : "merged", steps[s].how == Own ? "own" : "collective");
    if (cl == col || steps[step].how == Merge) if (steps[s].how != Own) for (int e = 0; e < range; e++) if (auto& d = board->c[cl][s][e]; d.started.load() != 1 || d.open.load()) { mon::violation("chain:collective", "step %d of element %d started while step %d, which is collective, was unfinished at element %d (%d ranks)", step, i, s, e, np()); break; }
  };
  if (step > 0) before(col, step - 1, "the same");
  if (steps[step].how == Merge && step > 0) before(1 - col, step - 1, "the other");
  if (done != step) mon::violation("chain:order", "element %d runs step %d as its number %lld", i, step, (long long)done);
  done++;
  further(col, step, i, fan, depth);
  if (steps[step].move) { mon::stat("moved_in_step"); }
  c.open--;
}

static void round(int k) {
  roundNo = k;
  mon::scenario(mon::fmt("chains on %d ranks", np()));
  range = 1 + int(shared()(k % 4 == 0 ? 24 : 8));
  nSteps = 1 + int(shared()(12));
  bool two = shared()(2);
  auto layout = [&] { return shared()(2) ? messaging::Local : messaging::Home; };
  for (int c = 0; c < 2; c++) cols[c] = makeCollection<Elm>("chained").bounds(Index1D(range)).bulkInsert().wait();
  if (me() == 0) for (auto& a : board->c) for (auto& b : a) for (auto& c : b) { c.started = 0; c.open = 0; c.sent = 0; }
  over = false;
  dist::syncAll();
  using Set = messaging::CollectionChainSet<Index1D>;
  std::unique_ptr<Set> sets[2];
  messaging::ChainSetLayout lay[2];
  lay[0] = layout(); lay[1] = lay[0];
  // make the sets before or after the elements have moved from where they were made
  bool moveFirst = shared()(2);
  auto migrate = [&] {
    runInEpochCollective([&] {
      for (int c = 0; c < 2; c++) for (int i = 0; i < range; i++) {
        auto to = NodeType(two ? mon::mix(mon::mix(k, i), moveFirst) % np() : shared()(np()));   // merged sets: keep both alike
        if (two) to = NodeType(mon::mix(mon::mix(mon::seed(), k), i + 100 * moveFirst) % np());
        if (auto p = cols[c][i].tryGetLocalPtr(); p && to != me()) { p->migrate(to); mon::stat("migrations"); }
      }
    });
    dist::syncAll();
  };
  if (moveFirst) migrate();
  runInEpochCollective([&] { for (int c = 0; c < 2; c++) sets[c] = std::make_unique<Set>(cols[c], lay[c]); });
  dist::syncAll();
  auto checkSets = [&](char const* when) {
    for (int c = 0; c < 2; c++) {
      auto have = sets[c]->getSet(); mon::eval();
      std::vector<int> mine; for (auto& i : have) mine.push_back(int(i.x()));
      if (lay[c] == messaging::Local) {
        auto loc = theCollection()->getLocalIndices(cols[c]);
        for (auto& i : loc) if (!have.count(i)) mon::violation("chain:set", "%s: a local element has no chain", when);
        if (loc.size() != have.size()) mon::violation("chain:set", "%s: %zu chains for %zu local elements", when, have.size(), loc.size());
      } else for (auto& i : have) if (theCollection()->getMappedNode(cols[c], i) != me()) mon::violation("chain:set", "%s: the chain of an element is not at its home", when);
      std::map<int, int> n; for (auto& v : dist::gather(mine)) for (int x : v) n[x]++;
      for (int i = 0; i < range; i++) if (n[i] != 1) mon::violation("chain:set", "%s: element %d of %d has %d chains (%s, %d ranks)", when, i, range, n[i], lay[c] == messaging::Local ? "local" : "home", np());
    }
  };
  checkSets("when made");
  int blocks = 1 + int(shared()(2)), step = 0;
  for (int b = 0; b < blocks; b++) {
    if (b || !moveFirst) { migrate(); checkSets("after moving"); }
    mon::stat("chain_blocks");
    int upto = std::min(int(Steps), step + nSteps);
    int first = step;
    for (int s = first; s < upto; s++) {
      auto& t = steps[s];
      t.how = int(shared()(two ? 4 : 3)); t.how = t.how == 3 ? Merge : t.how == 2 ? Coll : Own;
      t.fan = 1 + int(shared()(2)); t.depth = int(shared()(4)); t.move = false;
      mon::distinct(mon::mix(mon::mix(t.how, s ? steps[s - 1].how : 9), mon::mix(t.depth * 4 + t.fan, np() * 2 + lay[0])));
    }
    dist::syncAll();
    auto ep = theTerm()->makeEpochCollective("chains");
    theMsg()->pushEpoch(ep);
    for (; step < upto; step++) {
      auto t = steps[step]; int s = step;
      auto act = [=](int c) { return [=](Index1D i) {
        auto& cell = board->c[c][s][i.x()]; cell.sent++; cell.open++; mon::stat("steps_made");
        return cols[c][i].template send<&Elm::start>(c, s, t.fan, t.depth);
      }; };
      if (t.how == Own) { sets[0]->nextStep(act(0)); if (two) sets[1]->nextStep("named", act(1)); else sets[1]->nextStep(act(1)); }
      else if (t.how == Coll) { sets[0]->nextStepCollective("c", act(0)); sets[1]->nextStepCollective(act(1)); }
      else {
        // one send per element stands for both chains: it goes to the first collection, which does both
        Set::mergeStepCollective("m", *sets[0], *sets[1], [=](Index1D i) {
          auto& a = board->c[0][s][i.x()]; a.sent++; a.open++;
          auto& d = board->c[1][s][i.x()]; d.sent++; d.open++;
          mon::stat("steps_merged");
          auto p0 = cols[0][i].template send<&Elm::start>(0, s, t.fan, t.depth);
          auto p1 = std::make_shared<messaging::PendingSend>(cols[1][i].template send<&Elm::start>(1, s, t.fan, t.depth));
          auto p0s = std::make_shared<messaging::PendingSend>(std::move(p0));
          return messaging::PendingSend(theTerm()->getEpoch(), [p0s, p1]() mutable { p0s->release(); p1->release(); });
        });
      }
      if (local()(3) == 0) for (int i = int(local()(100)); i > 0; i--) { theSched()->runSchedulerOnceImpl(); mon::poll(); }
    }
    sets[0]->phaseDone(); sets[1]->phaseDone();
    theMsg()->popEpoch(ep);
    theTerm()->finishedEpoch(ep);
    runSchedulerThrough(ep);
    over = true;
    dist::syncAll();
    for (int c = 0; c < 2; c++) for (int s = first; s < step; s++) for (int i = 0; i < range; i++) {
      auto& x = board->c[c][s][i]; mon::eval();
      if (x.sent.load() != 1) mon::violation("chain:count", "step %d of element %d was made %d times", s, i, x.sent.load());
      else if (x.started.load() != 1) mon::violation("chain:count", "step %d of element %d ran %d times in an epoch that has ended", s, i, x.started.load());
      else if (x.open.load()) mon::violation("chain:epoch", "the epoch around the chains ended with work unfinished");
    }
    dist::syncAll();
    over = false;
    dist::syncAll();
  }
  runInEpochCollective([&] { if (me() == 0) for (int c = 0; c < 2; c++) cols[c].destroy(); });
  dist::syncAll();
  sets[0].reset(); sets[1].reset();
  dist::syncAll();
}

int main(int argc, char** argv) {
  return dist::run(argc, argv, [] {
    share();
    int rounds = mon::argi("ROUNDS", mon::thorough() ? 60 : 10);
    for (int k = 0; k < rounds; k++) round(k);
  }, [] { PMPI_Win_free(&win); });
}
