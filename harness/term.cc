// C02: an epoch is declared terminated only when all of its work is done, and then it always is.
#include "dist.h"
#include <deque>
using namespace dist;
using namespace vt;

// Logical epochs get ids that are the same everywhere: round(16) | creator rank(8) | seq(16) | kind(4)
enum EKind { eColl, eDS, eWave };
static char const* ekName[] = {"collective", "rooted-DS", "rooted-wave"};
struct Evt { uint64_t id; uint64_t t; int32_t what; int32_t n; };   // what: 0 work start, 1 terminated seen, 2 sent, 3 action expected, 4 action ran
static std::vector<Evt> ev;
static int round_ = 0, rootedSeq = 0;
static int budget = 0;             // bound on messages sent by this rank in a round
static double spread = 1.5;
static std::map<uint64_t, int> actionRuns;
static std::map<uint64_t, uint64_t> actionEpoch;   // action -> logical epoch
static uint64_t nextAction = 1;
static std::set<uint64_t> created;   // collective epochs this rank has created

static uint64_t nowNs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return uint64_t(t.tv_sec) * 1000000000ull + t.tv_nsec; }
static void log_(uint64_t id, int what, int n = 1) { ev.push_back(Evt{id, nowNs(), what, n}); mon::progress(); }
static int kindOf(uint64_t id) { return int(id & 15); }

struct Anc { int n = 0; uint64_t id[6]; uint64_t ep[6]; };
struct Job : vt::Message { uint64_t anc[6]; int nanc; int ttl; uint64_t seed; uint64_t ep; };
struct SJob : vt::Message {
  using MessageParentType = vt::Message; vt_msg_serialize_required();
  std::vector<uint64_t> anc; int ttl; uint64_t seed; uint64_t ep; std::string pad;
  template <typename S> void serialize(S& s) { MessageParentType::serialize(s); s | anc | ttl | seed | ep | pad; }
};
static void job(Job* m); static void sjob(SJob* m);

static void watchAction(uint64_t id, EpochType ep) {
  // Which epochs a rank can ask about: collective ones once it has created them, rooted ones on their root (see also probe()).
  if (kindOf(id) == eColl && !created.count(id)) { mon::stat("not_created_yet"); return; }
  if (ep != no_epoch && epoch::EpochManip::isRooted(ep) && epoch::EpochManip::node(ep) != me()) return;
  uint64_t a = nextAction++;
  actionEpoch[a] = id; actionRuns[a] = 0;
  mon::stat("actions");
  // an action keeps the epoch it is added from open until it has run: never add it from the watched epoch itself
  theMsg()->pushEpoch(term::any_epoch_sentinel);
  theTerm()->addAction(ep, [=] {
    actionRuns[a]++;
    log_(id, 1);
    if (theTerm()->testEpochTerminated(ep) == vt::term::TermStatusEnum::Pending) mon::violation("action-before-terminated", "%s epoch %llx: action runs while the epoch tests as pending", ekName[kindOf(id)], (unsigned long long)id);
  });
  theMsg()->popEpoch(term::any_epoch_sentinel);
}

static void send(std::vector<uint64_t> const& anc, uint64_t ep, int dest, int ttl, uint64_t seed) {
  if (budget <= 0) return;
  budget--;
  log_(anc.back(), 2);
  for (size_t i = 0; i + 1 < anc.size(); i++) log_(anc[i], 2);
  if (seed % 3 == 0) {
    auto m = makeMessage<SJob>(); m->anc = anc; m->ttl = ttl; m->seed = seed; m->ep = ep;
    m->pad.resize((seed >> 8) % 9 == 0 ? 9000 : (seed >> 8) % 200);
    envelopeSetEpoch(m->env, EpochType{vt::epoch::detail::EpochImplType(ep)});
    theMsg()->sendMsg<sjob>(dest, m);
  } else {
    auto m = makeMessage<Job>(); m->nanc = int(anc.size()); for (size_t i = 0; i < anc.size(); i++) m->anc[i] = anc[i];
    m->ttl = ttl; m->seed = seed; m->ep = ep;
    envelopeSetEpoch(m->env, EpochType{vt::epoch::detail::EpochImplType(ep)});
    theMsg()->sendMsg<job>(dest, m);
  }
}
struct Held { EpochType ep; std::vector<uint64_t> anc; uint64_t epv; int polls; int ttl; uint64_t seed; bool dep; };
static std::deque<Held> held;

static void fanout(std::vector<uint64_t> anc, uint64_t ep, int ttl, uint64_t seed);

static void nested(std::vector<uint64_t> anc, int ttl, uint64_t seed) {
  // a rooted child epoch of the epoch we run in (captured as parent)
  bool ds = (seed >> 5) & 1;
  uint64_t id = (uint64_t(round_) << 40) | (uint64_t(me()) << 32) | (uint64_t(++rootedSeq) << 8) | 0x80 | (ds ? eDS : eWave);
  auto ep = theTerm()->makeEpochRooted("nested", term::UseDS{ds}, term::ParentEpochCapture{EpochType{theMsg()->getEpoch()}});
  mon::stat(ds ? "nested.ds" : "nested.wave");
  anc.push_back(id);
  watchAction(id, ep);
  theMsg()->pushEpoch(ep);
  fanout(anc, *ep, ttl - 1, mon::mix(seed, 91));
  theMsg()->popEpoch(ep);
  theTerm()->finishedEpoch(ep);
}

static void fanout(std::vector<uint64_t> anc, uint64_t ep, int ttl, uint64_t seed) {
  mon::Rng r(seed);
  if (ttl <= 0) return;
  int n = int(r.unit() * 2 * spread + 0.5);
  for (int i = 0; i < n; i++) send(anc, ep, int(r(np())), ttl - 1 - int(r(2)), r.next());
  if (r(12) == 0 && anc.size() < 4) nested(anc, ttl, r.next());
  if (r(10) == 0) { // work held outside of any handler: the epoch must wait for it
    EpochType e{vt::epoch::detail::EpochImplType(ep)};
    bool dep = r(2);
    if (dep) theTerm()->addLocalDependency(e); else theTerm()->produce(e);
    held.push_back(Held{e, anc, ep, int(r(400)), ttl - 1, r.next(), dep});
    mon::stat("held");
  }
  if (r(6) == 0) theSched()->runSchedulerOnceImpl();   // nested scheduler turn inside a handler
  if (r(9) == 0) { // a rank which only now learns of the epoch asks to be told when it is over
    watchAction(anc.back(), EpochType{vt::epoch::detail::EpochImplType(ep)});
  }
}
static void pollHeld() {
  for (size_t i = 0; i < held.size();) {
    if (held[i].polls-- > 0) { i++; continue; }
    auto h = held[i]; held.erase(held.begin() + i);
    theMsg()->pushEpoch(h.ep);
    log_(h.anc.back(), 0, 0); for (size_t k = 0; k + 1 < h.anc.size(); k++) log_(h.anc[k], 0, 0);
    fanout(h.anc, h.epv, h.ttl, h.seed);
    theMsg()->popEpoch(h.ep);
    if (h.dep) theTerm()->releaseLocalDependency(h.ep); else theTerm()->consume(h.ep);
  }
}
static void work(std::vector<uint64_t> anc, uint64_t ep, int ttl, uint64_t seed) {
  for (auto a : anc) log_(a, 0);
  mon::eval();
  auto cur = theMsg()->getEpoch();
  if (*cur != vt::epoch::detail::EpochImplType(ep)) mon::violation("handler-in-wrong-epoch", "handler of epoch %llx runs in %llx", (unsigned long long)ep, (unsigned long long)*cur);
  fanout(anc, ep, ttl, seed);
}
static void job(Job* m) { work(std::vector<uint64_t>(m->anc, m->anc + m->nanc), m->ep, m->ttl, m->seed); }
static void sjob(SJob* m) { work(m->anc, m->ep, m->ttl, m->seed); }

// Every rank asks for the end of epochs that rank 0 roots, while their work is still held back.
struct ProbeMsg : vt::Message { uint64_t ep; int ds; };
static int probeSeen = 0; static std::vector<std::pair<EpochType, int>> probeEps;
static void probeHan(ProbeMsg* m) { probeEps.push_back({EpochType{vt::epoch::detail::EpochImplType(m->ep)}, m->ds}); probeSeen++; mon::progress(); }
static void probe(int it) {
  mon::scenario("probe" + std::to_string(it));
  static char const* nm[] = {"terminated-early:remote-query:rooted-wave", "terminated-early:remote-query:rooted-DS"};
  std::vector<EpochType> mine; int nEp = 3;
  int dsMask = int(shared()(8));
  static bool released; released = false;
  if (me() == 0) for (int i = 0; i < nEp; i++) {
    bool ds = (dsMask >> i) & 1;
    if (theConfig()->vt_term_rooted_use_ds) ds = true;
    if (theConfig()->vt_term_rooted_use_wave) ds = false;
    auto e = theTerm()->makeEpochRooted("probe", term::UseDS{ds});
    mine.push_back(e);
    theTerm()->produce(e);
    theTerm()->finishedEpoch(e);
    for (int r = 1; r < np(); r++) { auto m = makeMessage<ProbeMsg>(); m->ep = *e; m->ds = ds; theMsg()->sendMsg<probeHan>(r, m); }
  }
  while (me() != 0 && probeSeen < nEp) theSched()->runSchedulerOnceImpl();
  syncAll();
  for (int k = 0; k < 200; k++) theSched()->runSchedulerOnceImpl();
  syncAll();
  // The root announces wave epochs to everyone: ask once that has arrived (before, the known finding applies to them as well).
  double waited = mon::now();
  for (bool heard = false; !heard && mon::now() - waited < 5;) {
    theSched()->runSchedulerOnceImpl();
    heard = true;
    if (me() != 0) for (auto& e : probeEps) if (!e.second && theEpoch()->getTerminatedWindow(e.first)->isTerminated(e.first)) heard = false;
  }
  syncAll();
  auto ran = std::make_shared<std::vector<int>>(nEp, 0);
  if (me() != 0) for (int i = 0; i < nEp; i++) {
    auto ep = probeEps[i].first; int ds = probeEps[i].second;
    theTerm()->addAction(ep, [=] { (*ran)[i]++; mon::eval(); if (!released) mon::violation(nm[ds], "epoch rooted on rank 0: action ran while work of the epoch was still outstanding"); mon::progress(); });
    for (int k = 0; k < int(local()(3)); k++) if (theTerm()->isEpochTerminated(ep) && !released) mon::violation(nm[ds], "epoch rooted on rank 0 tests as terminated while work of the epoch was still outstanding");
    mon::stat("remote_queries");
  }
  syncAll();
  for (int k = 0; k < 100; k++) theSched()->runSchedulerOnceImpl();
  syncAll();
  released = true;
  syncAll();
  for (auto e : mine) theTerm()->consume(e);
  for (;;) {
    for (int k = 0; k < 20; k++) theSched()->runSchedulerOnceImpl();
    auto p = mon::st().progress;
    int64_t open = 0;
    if (me() != 0) for (auto x : *ran) if (x == 0) open++;
    if (me() == 0) for (auto e : mine) if (!theTerm()->isEpochTerminated(e)) open++;
    int64_t tot = sumAll(open);
    mon::st().progress = p;
    if (tot == 0) break;
  }
  mon::progress();
  for (int k = 0; k < 100; k++) theSched()->runSchedulerOnceImpl();
  for (auto x : *ran) if (me() != 0 && x != 1) mon::violation("action-not-once", "remote query: action ran %d times", x);
  probeEps.clear(); probeSeen = 0;
  syncAll();
}

static void body() {
  int rounds = int(mon::argi("ROUNDS", 12));
  auto until = [&](EpochType ep) {
    theTerm()->produce();
    theSched()->runSchedulerWhile([=] { pollHeld(); return !theTerm()->isEpochTerminated(ep); });
    theTerm()->consume();
  };
  // All state of a round is set before any rank can start that round: its messages may arrive while we still wait in syncAll.
  auto prepare = [&] { ev.clear(); created.clear(); actionRuns.clear(); actionEpoch.clear(); budget = int(mon::argi("BUDGET", 150)); spread = 0.6 + shared().unit() * 1.2; };
  round_ = 1; prepare(); syncAll();
  while (round_ <= rounds) {
    mon::scenario("round" + std::to_string(round_));
    int ncoll = 1 + int(shared()(3));
    int nroot = int(local()(3));
    int ttl = 2 + int(shared()(9));
    bool chain = shared()(3) == 0;
    bool nestColl = shared()(3) == 0;
    std::vector<std::pair<uint64_t, EpochType>> colls, roots;
    std::vector<std::vector<uint64_t>> ancs;
    for (int i = 0; i < ncoll; i++) {
      uint64_t id = (uint64_t(round_) << 40) | (0xffull << 32) | (uint64_t(i) << 8) | eColl;
      std::vector<uint64_t> anc;
      EpochType ep;
      if (nestColl && i > 0) { ep = theTerm()->makeEpochCollective("n", term::ParentEpochCapture{colls[i - 1].second}); anc = ancs[i - 1]; }
      else ep = theTerm()->makeEpochCollective("c");
      if (!nestColl && chain && i > 0) { theTerm()->addDependency(ep, colls[i - 1].second); anc = ancs[i - 1]; }
      anc.push_back(id);
      created.insert(id);
      colls.push_back({id, ep}); ancs.push_back(anc);
    }
    for (int i = 0; i < nroot; i++) {
      bool ds = local()(2);
      uint64_t id = (uint64_t(round_) << 40) | (uint64_t(me()) << 32) | (uint64_t(++rootedSeq) << 8) | (ds ? eDS : eWave);
      bool sub = local()(3) == 0;
      auto ep = sub ? theTerm()->makeEpochRooted("r", term::UseDS{ds}, term::ParentEpochCapture{colls[0].second}) : theTerm()->makeEpochRooted("r", term::UseDS{ds});
      std::vector<uint64_t> anc; if (sub) anc = ancs[0];
      anc.push_back(id);
      roots.push_back({id, ep}); ancs.push_back(anc);
      mon::stat(ds ? "root.ds" : "root.wave");
    }
    // all epochs get work, interleaved with scheduler turns, then are finished in a random order
    struct E { uint64_t id; EpochType ep; std::vector<uint64_t> anc; };
    std::vector<E> order;
    for (size_t i = 0; i < colls.size(); i++) order.push_back({colls[i].first, colls[i].second, ancs[i]});
    for (size_t i = 0; i < roots.size(); i++) order.push_back({roots[i].first, roots[i].second, ancs[colls.size() + i]});
    for (auto& e : order) {
      if (local()(2)) watchAction(e.id, e.ep);
      if (kindOf(e.id) != eColl || shared()(4) || me() == 0) {
        theMsg()->pushEpoch(e.ep);
        int n = int(local()(4));
        for (int i = 0; i < n; i++) send(e.anc, *e.ep, int(local()(np())), ttl, local().next());
        theMsg()->popEpoch(e.ep);
      }
      if (local()(3) == 0) theSched()->runSchedulerOnceImpl();
    }
    // epochs that wait on others must still be open when the others are created: finish leaves first or last at random
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[local()(i)]);
    for (auto& e : order) {
      int d = int(local()(4)) == 0 ? int(local()(200)) : 0;
      for (int i = 0; i < d; i++) { theSched()->runSchedulerOnceImpl(); pollHeld(); }
      theTerm()->finishedEpoch(e.ep);
    }
    for (auto& e : order) { until(e.ep); log_(e.id, 1); }
    for (auto& e : order) if (local()(2)) watchAction(e.id, e.ep);    // already terminated: must still run, once
    // wait for late epochs nested elsewhere: they only have to end by the end of the round
    auto fin = theTerm()->makeEpochCollective("fin");
    theTerm()->finishedEpoch(fin); until(fin);
    // Actions on rooted epochs of other ranks take a message each way. Everything sent must have been handled and every action run:
    // poll until that is so on all ranks; the poll-count watchdog decides when it never is.
    for (int it = 0;; it++) {
      for (int k = 0; k < 20; k++) { theSched()->runSchedulerOnceImpl(); pollHeld(); }
      int64_t open = int64_t(held.size());
      for (auto& a : actionRuns) if (!a.second) open++;
      for (auto& e : ev) { if (e.what == 2) open += 1; if (e.what == 0 && e.n) open -= 1; }
      auto p = mon::st().progress;
      int64_t tot = sumAll(open);
      mon::st().progress = p;      // this exchange is not progress of the system under test
      if (tot == 0) break;
      if (it % 64 == 63 && mon::watch().polls > mon::watch().maxPolls && mon::watch().since > 0 && mon::now() - mon::watch().since > mon::watch().maxS) {
        for (auto& a : actionRuns) if (!a.second) mon::violation("action-never-ran", "%s epoch %llx", ekName[kindOf(actionEpoch[a.first])], (unsigned long long)actionEpoch[a.first]);
        break;
      }
    }
    for (int k = 0; k < 50; k++) theSched()->runSchedulerOnceImpl();
    for (auto& a : actionRuns) if (a.second != 1) mon::violation("action-not-once", "%s epoch %llx: action ran %d times", ekName[kindOf(actionEpoch[a.first])], (unsigned long long)actionEpoch[a.first], a.second);
    auto all = gather(ev);
    if (me() == 0) {
      struct S { uint64_t lastWork = 0, firstTerm = ~0ull; int64_t sent = 0, done = 0; int wr = -1, tr = -1; };
      std::map<uint64_t, S> s;
      for (int r = 0; r < np(); r++) for (auto& e : all[r]) {
        auto& x = s[e.id];
        if (e.what == 0) { x.done += e.n; if (e.t > x.lastWork) { x.lastWork = e.t; x.wr = r; } }
        if (e.what == 1 && e.t < x.firstTerm) { x.firstTerm = e.t; x.tr = r; }
        if (e.what == 2) x.sent += 1;
      }
      for (auto& k : s) {
        auto& x = k.second;
        if (x.sent != x.done) mon::violation("work-count", "%s epoch %llx: %lld sent, %lld handled", ekName[kindOf(k.first)], (unsigned long long)k.first, (long long)x.sent, (long long)x.done);
        if (x.firstTerm == ~0ull) { mon::stat("epochs_unwatched"); continue; }
        if (x.lastWork > x.firstTerm) mon::violation("terminated-early", "%s epoch %llx%s: terminated on rank %d, %llu ns later rank %d still handled one of its messages", ekName[kindOf(k.first)], (unsigned long long)k.first,
          k.first & 0x80 ? " (nested)" : "", x.tr, (unsigned long long)(x.lastWork - x.firstTerm), x.wr);
        mon::stat("epochs"); mon::stat("epoch_messages", x.done);
        mon::distinct(mon::mix(mon::mix(kindOf(k.first) + 16 * np(), x.done), mon::mix(ttl, x.wr * 16 + x.tr)));
      }
      if (round_ <= 2) mon::sample(mon::fmt("round %d: %zu epochs over %d ranks, %d collective (nested=%d chained=%d), ttl %d; every epoch ended after its last message", round_, s.size(), np(), ncoll, nestColl, chain, ttl));
    }
    round_++; prepare();
    syncAll();
  }
  if (mon::argi("PROBE", 0)) for (int i = 0; i < 4; i++) probe(i);
  // whatever is sent outside of any epoch must be handled before the runtime shuts down
  mon::scenario("final");
  for (int i = 0; i < 10; i++) {
    auto m = makeMessage<Job>(); m->nanc = 1; m->anc[0] = 1; m->ttl = 0; m->seed = 1; m->ep = *term::any_epoch_sentinel;
    log_(1, 2);
    theMsg()->sendMsg<job>(int(local()(np())), m);
  }
}
static void post() {
  int64_t d = 0; for (auto& e : ev) { if (e.what == 2) d++; if (e.what == 0) d -= e.n; }
  int64_t r = 0; PMPI_Allreduce(&d, &r, 1, MPI_INT64_T, MPI_SUM, comm());
  if (r != 0) mon::violation("shutdown-before-work-done", "%lld messages were still unhandled when the runtime had shut down", (long long)r);
}
int main(int c, char** v) { return dist::run(c, v, body, post); }
