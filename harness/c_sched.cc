// Time triggers and packed priorities against models.
#include "comp.h"
#include <vt/transport.h>
#include <vt/timetrigger/time_trigger_manager.h>
#include <vt/scheduler/priority_manip.h>
#include <map>
#include <set>

using namespace vt;
using comp::rng;

struct Tr { int id; int period; double last; bool removed; bool selfRemove; long fires; std::vector<int> adds; };

static void triggers() {
  mon::scenario("time-triggers");
  for (int round = 0; round < 400; round++) {
    timetrigger::TimeTriggerManager m;
    std::map<int, Tr> model;          // by our own key
    std::vector<std::pair<int, double>> fired;   // key, time
    double now = 0;                   // ms, always x.5 so that no comparison is a tie
    bool inProgress = false;
    int nextKey = 0;
    std::map<int, std::function<void()>> behaviour;
    std::set<int> ids;
    std::function<int(int, bool, int)> add = [&](int period, bool immediately, int depth) -> int {
      int key = nextKey++;
      Tr t{-1, period, now, false, rng()(12) == 0, 0, {}};
      bool adds = depth < 2 && rng()(8) == 0;
      model[key] = t;
      auto action = [&, key, adds, depth] {
        auto& t = model[key];
        if (t.removed) mon::violation("trigger:fired-after-removal", "trigger %d fired after it was removed", key);
        fired.push_back({key, now});
        t.fires++; mon::eval();
        if (adds && t.fires == 1) add(1 + int(rng()(40)), false, depth + 1);
        if (t.selfRemove && t.fires == 2 && t.id >= 0) { m.removeTrigger(t.id); t.removed = true; mon::stat("self_removals"); }
      };
      size_t before = fired.size();
      int id = m.addTrigger(TimeType{now / 1000.0}, std::chrono::milliseconds(period), action, immediately);
      mon::progress();
      if (!ids.insert(id).second) mon::violation("trigger:id-shared", "id %d handed out twice", id);
      model[key].id = id;
      if (immediately != (fired.size() > before)) mon::violation("trigger:immediately", "fire_immediately=%d but %zu calls", immediately, fired.size() - before);
      mon::stat("triggers");
      return key;
    };
    int steps = 30 + int(rng()(60));
    for (int s = 0; s < steps; s++) {
      int k = int(rng()(10));
      if (k < 3) add(1 + int(rng()(60)), rng()(3) == 0, 0);
      else if (k == 3 && !model.empty()) {
        auto it = model.begin(); std::advance(it, rng()(model.size()));
        if (!it->second.removed) { m.removeTrigger(it->second.id); it->second.removed = true; mon::stat("removals"); }
      } else {
        now = std::floor(now) + 1 + double(rng()(rng()(5) ? 20 : 200)) + 0.5;
        bool anyLive = false;
        for (auto& [key, t] : model) if (!t.removed) anyLive = true;
        if (anyLive && !m.needsCurrentTime()) mon::violation("trigger:needs-time", "live triggers but the current time is not asked for");
        std::map<int, double> due;     // key -> when it was due
        for (auto& [key, t] : model) if (!t.removed && t.last + t.period < now) due[key] = t.last + t.period;
        fired.clear();
        inProgress = true;
        m.progress(TimeType{now / 1000.0});
        inProgress = false;
        mon::stat("progress_calls");
        std::map<int, int> times;
        double prev = -1;
        for (auto& [key, t] : fired) {
          times[key]++;
          if (!due.count(key)) { mon::violation("trigger:early", "trigger %d fired at %.1f though it is not due", key, now); continue; }
          if (due[key] < prev) mon::violation("trigger:order", "trigger %d, due at %.1f, fired after one due at %.1f", key, due[key], prev);
          prev = due[key];
          model[key].last = now;
        }
        for (auto& [key, d] : due)
          if (times[key] != 1) mon::violation(times[key] ? "trigger:repeated" : "trigger:missed", "trigger %d, period %d, due at %.1f, fired %d times at %.1f", key, model[key].period, d, times[key], now);
        mon::eval(due.size() + fired.size());
        mon::distinct(mon::mix(due.size(), mon::mix(model.size(), fired.size())));
        // those that are due stay in step: an idle call at the same time fires nothing
        fired.clear();
        m.progress(TimeType{now / 1000.0});
        if (!fired.empty()) mon::violation("trigger:again", "trigger %d fired twice at the same time", fired[0].first);
      }
    }
    mon::stat("rounds");
  }
}

static void priorities() {
  mon::scenario("priority-fields");
  using sched::PriorityManip;
  for (int i = 0; i < 3000; i++) {
    int const levels = int(sched::priority_num_levels);
    PriorityType const maxp = PriorityType((1u << sched::priority_level_bits) - 1);
    PriorityType f = 0, g = 0;
    std::vector<PriorityType> a(levels, 0), b(levels, 0);
    for (int k = 0; k < 12; k++) {
      int l = int(rng()(levels)); PriorityType p = PriorityType(rng()(maxp + 1));
      PriorityManip::setPriority(f, PriorityLevelType(l), p); a[l] = p;
      for (int j = 0; j < levels; j++) {
        auto v = PriorityManip::getPriority(f, PriorityLevelType(j)); mon::eval();
        if (v != a[j]) mon::violation("priority:field", "level %d reads %d, not %d, after level %d was set to %d", j, int(v), int(a[j]), l, int(p));
      }
      int l2 = int(rng()(levels)); PriorityType p2 = PriorityType(rng()(maxp + 1));
      PriorityManip::setPriority(g, PriorityLevelType(l2), p2); b[l2] = p2;
      if ((f < g) != (a < b) || (f == g) != (a == b))
        mon::violation("priority:order", "the fields compare %d/%d, their levels %d/%d", f < g, f == g, a < b, a == b);
      mon::eval(2);
    }
    mon::distinct(mon::mix(f, g));
    mon::stat("priorities");
  }
}

int main() {
  return comp::run([] { triggers(); priorities(); });
}
