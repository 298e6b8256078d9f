// The scheduler: every action runs once, in queue or priority order, idle events alternate,
// suspended threads and handlers continue where they were.
#include "dist.h"
#include <vt/scheduler/priority_manip.h>
#include <vt/utils/memory/memory_units.h>
#if vt_check_enabled(fcontext)
#include <vt/scheduler/thread_action.h>
#include <vt/scheduler/thread_manager.h>
#endif
#include <map>
using namespace vt;
using dist::local;

struct Task { int id; int prio; int seq; bool ran; };
static std::map<int, Task> pending;      // enqueued, not yet run
static int nextId = 0, nextSeq = 0;
static int budget = 0;
static std::vector<int> order;

static void add(int depth);
static void runTask(int id, int depth) {
  auto it = pending.find(id);
  mon::eval();
  if (it == pending.end()) { mon::violation("sched:twice", "task %d ran a second time", id); return; }
#if vt_check_enabled(priorities)
  for (auto& [k, t] : pending) if (t.prio > it->second.prio) { mon::violation("sched:priority", "task of priority %d ran while one of priority %d was queued", it->second.prio, t.prio); break; }
#else
  for (auto& [k, t] : pending) if (t.seq < it->second.seq) { mon::violation("sched:fifo", "task %d ran before task %d that was queued earlier", it->second.seq, t.seq); break; }
#endif
  mon::distinct(mon::mix(it->second.prio, mon::mix(pending.size(), depth)));
  pending.erase(it);
  mon::stat("tasks");
  int k = int(local()(3));
  for (int i = 0; i < k && budget > 0; i++) add(depth + 1);
}
static void add(int depth) {
  budget--;
  int id = nextId++;
  int p;
  switch (local()(5)) {
  case 0: p = int(default_priority); break;
  case 1: p = int(sys_min_priority); break;
  case 2: p = int(max_priority); break;
  case 3: p = int(min_priority); break;
  default: p = int(PriorityType(local()(65536))); break;
  }
  if (depth == 0 && local()(4) == 0) {
    pending[id] = Task{id, int(default_priority), nextSeq++, false};
    theSched()->enqueue([=] { runTask(id, depth); });
  } else {
    pending[id] = Task{id, p, nextSeq++, false};
    theSched()->enqueue(PriorityType(p), [=] { runTask(id, depth); });
  }
}

// events of the scheduler
static bool known = false; static int loopDepth = 0; static bool idle = false, idleTerm = false; static bool watchIdle = false;
static void watchEvents() {
  auto s = theSched();
  using E = sched::SchedulerEvent;
  static bool knownT = false;
  s->registerTrigger(E::BeginIdle, [] { mon::stat("begin_idle"); if (known && idle) mon::violation("sched:idle-begin", "idle began twice"); known = true; idle = true; mon::progress(); });
  s->registerTrigger(E::EndIdle, [] { mon::stat("end_idle"); if (known && !idle) mon::violation("sched:idle-end", "idle ended though it had not begun"); known = true; idle = false; mon::progress(); });
  s->registerTrigger(E::BeginIdleMinusTerm, [] { if (knownT && idleTerm) mon::violation("sched:idle-term-begin", "idle (minus term) began twice"); knownT = true; idleTerm = true; });
  s->registerTrigger(E::EndIdleMinusTerm, [] { if (knownT && !idleTerm) mon::violation("sched:idle-term-end", "idle (minus term) ended though it had not begun"); knownT = true; idleTerm = false; });
  s->registerTrigger(E::BeginSchedulerLoop, [] { loopDepth++; mon::stat("loops"); });
  s->registerTrigger(E::EndSchedulerLoop, [] { if (--loopDepth < 0) mon::violation("sched:loop-end", "a scheduler loop ended that had not begun"); });
  watchIdle = true;
}

static void queueRounds() {
  mon::scenario("work-queue");
  for (int r = 0; r < 60; r++) {
    budget = 50 + int(local()(150));
    int n = 1 + int(local()(30));
    for (int i = 0; i < n; i++) add(0);
    theSched()->runSchedulerWhile([] { return !pending.empty(); });
    if (loopDepth != 0) mon::violation("sched:loop-depth", "%d scheduler loops open after the call", loopDepth);
    if (known && idle) mon::violation("sched:idle-after", "idle outside the scheduler");
    dist::syncAll();
  }
  // once-triggers
  mon::scenario("trigger-once");
  for (int r = 0; r < 40; r++) {
    int fired = 0, again = 0;
    bool nest = local()(2);
    auto ev = sched::SchedulerEvent(local()(2) ? sched::SchedulerEvent::BeginSchedulerLoop : sched::SchedulerEvent::EndSchedulerLoop);
    int k = 1 + int(local()(4));
    for (int i = 0; i < k; i++)
      theSched()->registerTriggerOnce(ev, [&, ev] { fired++; if (nest) theSched()->registerTriggerOnce(ev, [&] { again++; }); });
    theSched()->runSchedulerWhile([] { return false; });
    if (fired != k) mon::violation("sched:once", "%d of %d one-time triggers called", fired, k);
    theSched()->runSchedulerWhile([] { return false; });
    if (fired != k) mon::violation("sched:once-again", "one-time triggers called %d times, not %d", fired, k);
    if (again != (nest ? k : 0)) mon::violation("sched:once-nested", "%d of %d one-time triggers registered in a trigger were called", again, nest ? k : 0);
    theSched()->runSchedulerWhile([] { return false; });
    if (again != (nest ? k : 0)) mon::violation("sched:once-nested", "%d of %d one-time triggers registered in a trigger were called", again, nest ? k : 0);
    mon::eval(3); mon::stat("once_triggers", k);
  }
  // nested scheduler loops: runs until the condition fails, also inside an action
  mon::scenario("nested-loop");
  for (int r = 0; r < 40; r++) {
    int want = 3 + int(local()(10)), got = 0, depthMax = 0;
    std::function<void(int)> f = [&](int d) {
      depthMax = std::max(depthMax, d);
      int target = got + 2;
      for (int i = 0; i < 2; i++) theSched()->enqueue([&] { got++; });
      theSched()->runSchedulerWhile([&] { return got < target; });
      if (got < target) mon::violation("sched:while", "the loop ended though its condition held");
      if (d < want) { bool done = false; theSched()->enqueue([&, d] { f(d + 1); done = true; }); theSched()->runSchedulerWhile([&] { return !done; }); }
      mon::eval();
    };
    f(0);
    mon::stat("nested_loops", depthMax);
  }
}

// handlers of messages in nested epochs: epoch and sender seen by a handler are its own
struct HMsg : Message { EpochType ep; int from; int depth; uint64_t id; };
static std::map<uint64_t, int> handled;
static uint64_t msgId = 0; static long sent = 0, received = 0;
static std::vector<ThreadIDType> sleeping;
static void handler(HMsg* m);
static void sendOne(int to, EpochType ep, int depth) {
  auto m = makeMessage<HMsg>();
  m->ep = ep; m->from = dist::me(); m->depth = depth; m->id = (uint64_t(dist::me()) << 32) | ++msgId;
  sent++;
  theMsg()->sendMsg<HMsg, handler>(NodeType(to), m);
}
static void checkContext(HMsg* m, char const* when) {
  mon::eval();
  if (theMsg()->getEpoch() != m->ep) mon::violation("context:epoch", "%s: epoch %llx, message was sent in %llx", when, (unsigned long long)*theMsg()->getEpoch(), (unsigned long long)*m->ep);
  if (int(theContext()->getFromNodeCurrentTask()) != m->from) mon::violation("context:from", "%s: sender %d, message is from %d", when, int(theContext()->getFromNodeCurrentTask()), m->from);
}
static void handler(HMsg* m) {
  received++;
  if (++handled[m->id] != 1) mon::violation("sched:message-twice", "message handled twice");
  checkContext(m, "at the start");
  uint64_t loc[8]; for (int i = 0; i < 8; i++) loc[i] = mon::mix(m->id, i);
  int k = int(local()(5));
#if vt_check_enabled(fcontext)
  for (int i = 0; i < k && theConfig()->vt_ult_disable == false; i++) {
    auto tid = sched::ThreadAction::getActiveThreadID();
    if (tid == no_thread_id) { mon::violation("ult:no-thread", "a handler does not run in a thread"); break; }
    sleeping.push_back(tid);
    mon::stat("suspensions");
    mon::distinct(mon::mix(sleeping.size(), mon::mix(i, m->depth)));
    sched::ThreadAction::suspend();
    if (sched::ThreadAction::getActiveThreadID() != tid) mon::violation("ult:thread-id", "the active thread id changed over a suspension");
    for (int j = 0; j < 8; j++) if (loc[j] != mon::mix(m->id, j)) mon::violation("ult:stack", "a local variable changed over a suspension");
    checkContext(m, "after a suspension");
  }
#endif
  if (m->depth > 0) for (int i = 0; i < 1 + k / 3; i++) sendOne(int(local()(dist::np())), m->ep, m->depth - 1);
  for (int j = 0; j < 8; j++) if (loc[j] != mon::mix(m->id, j)) mon::violation("ult:stack", "a local variable changed");
}
static void wakeSome() {
  if (sleeping.empty() || local()(3)) return;
  size_t i = local()(sleeping.size());
  auto t = sleeping[i]; sleeping.erase(sleeping.begin() + i);
  theSched()->resume(t);
}
static void messageRounds() {
  mon::scenario("handlers");
  for (int r = 0; r < 15; r++) {
    long s0 = sent;
    dist::syncAll();
    auto ep = theTerm()->makeEpochCollective("round");
    theMsg()->pushEpoch(ep);
    int n = 3 + int(local()(10));
    for (int i = 0; i < n; i++) sendOne(int(local()(dist::np())), ep, int(local()(4)));
    theMsg()->popEpoch(ep);
    theTerm()->finishedEpoch(ep);
    EpochType before = theMsg()->getEpoch();
    while (!theTerm()->isEpochTerminated(ep)) { theSched()->runSchedulerOnceImpl(); wakeSome(); }
    if (!sleeping.empty()) mon::violation("ult:epoch-early", "the epoch ended while %zu of its handlers are suspended", sleeping.size());
    if (theMsg()->getEpoch() != before) mon::violation("context:epoch-stack", "the epoch stack changed");
    long ds = dist::sumAll(sent), dr = dist::sumAll(received);
    if (ds != dr) mon::violation("sched:messages", "%ld sent, %ld handled", ds, dr);
    mon::eval(3); mon::stat("messages", sent - s0);
  }
}

#if vt_check_enabled(fcontext)
static void threads() {
  mon::scenario("threads");
  auto tm = theSched()->getThreadManager();
  using TA = sched::ThreadAction;
  std::map<ThreadIDType, int> seenIds;
  for (int r = 0; r < 60; r++) {
    int n = 1 + int(local()(12));
    struct T { ThreadIDType id; int suspends, done; bool started, finished; };
    std::vector<T> ts(n);
    std::function<void(int)> body = [&](int i) {
      uint64_t loc[32]; for (int j = 0; j < 32; j++) loc[j] = mon::mix(i, j + r);
      double d = 1.5 * i;
      ts[i].started = true;
      for (int s = 0; s < ts[i].suspends; s++) {
        if (TA::getActiveThreadID() != ts[i].id) mon::violation("ult:active", "active thread %llu, running %llu", (unsigned long long)TA::getActiveThreadID(), (unsigned long long)ts[i].id);
        TA::suspend();
        ts[i].done++;
        for (int j = 0; j < 32; j++) if (loc[j] != mon::mix(i, j + r)) mon::violation("ult:stack", "a local variable changed over a suspension");
        if (d != 1.5 * i) mon::violation("ult:stack", "a floating point variable changed");
        mon::eval();
        // a thread can run another one
        if (local()(6) == 0)
          for (int k = 0; k < n; k++) if (!ts[k].started) {
            tm->getThread(ts[k].id)->run(); mon::stat("nested_threads");
            if (TA::getActiveThreadID() != ts[i].id) mon::violation("ult:active", "active thread not restored after a nested one");
            break;
          }
      }
      ts[i].finished = true;
    };
    for (int i = 0; i < n; i++) {
      ts[i] = T{0, int(local()(6)), 0, false, false};
      ts[i].id = tm->allocateThread([&body, i] { body(i); });
      if (seenIds[ts[i].id]++) mon::violation("ult:id-shared", "thread id used twice");
    }
    int guard = 0;
    while (true) {
      std::vector<int> live;
      for (int i = 0; i < n; i++) if (!ts[i].finished) live.push_back(i);
      if (live.empty()) break;
      int i = live[local()(live.size())];
      int before = ts[i].done; bool st = ts[i].started;
      if (!ts[i].started) tm->getThread(ts[i].id)->run(); else tm->getThread(ts[i].id)->resume();
      if (TA::getActiveThreadID() != no_thread_id) mon::violation("ult:active", "a thread is active outside all threads");
      if (st && ts[i].done != before + 1) mon::violation("ult:resume", "resuming advanced the thread by %d", ts[i].done - before);
      if (tm->getThread(ts[i].id)->isDone() != ts[i].finished) mon::violation("ult:done", "done is %d, should be %d", !ts[i].finished, ts[i].finished);
      mon::eval(); mon::distinct(mon::mix(live.size(), mon::mix(i, ts[i].done)));
      if (++guard > 100000) break;
    }
    for (auto& t : ts) { tm->deallocateThread(t.id); if (tm->getThread(t.id) != nullptr) mon::violation("ult:dealloc", "thread still known after it was deallocated"); }
    mon::stat("threads", n);
  }
}
#endif

int main(int argc, char** argv) {
  return dist::run(argc, argv, [] {
    watchEvents();
    queueRounds();
    messageRounds();
#if vt_check_enabled(fcontext)
    threads();
#endif
  });
}
