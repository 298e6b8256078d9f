// C14: what a trace says is what happened: every line well formed, processing and idle time properly nested, what was
// recorded by the program all there and in order, inside the handler that recorded it, and every handler linked to the
// message that caused it.
#include <vt/transport.h>
#include <zlib.h>
#include <sys/stat.h>
#include <cinttypes>
#include <algorithm>
#include <fstream>
#include <map>
#include <sstream>
#include "chaos.h"
#include "dist.h"
#include "mon.h"

using namespace vt;
using dist::local; using dist::me; using dist::np; using dist::shared;

#if !vt_check_enabled(trace_enabled)
#error needs tracing
#endif

// what this rank has recorded, in order
struct Rec { int type; std::string text; int64_t a = 0, b = 0; };
static std::vector<Rec>& expect() { static std::vector<Rec> v; return v; }
static bool on = true;          // whether tracing is on now, here
static int mod = 0, flush = 0; static bool gaps = false;
struct Spec { bool mod; int at, neg, pos; bool in(int k) const { return mod ? k % at >= at + neg || k % at <= pos : k >= at + neg && k <= at + pos; } };
static std::vector<Spec> spec;
static bool wanted(size_t phase) { for (auto& s : spec) if (s.in(int(phase))) return true; return spec.empty(); }
static std::string dir;
static uint64_t nsends = 0, nruns = 0;
static bool mine() { return mod == 0 || me() % mod == 0; }

static void note(std::string const& s) { trace::addUserNote(s); if (on) expect().push_back({28, s}); }
static std::map<uint64_t, std::string>& eventNames() { static std::map<uint64_t, std::string> m; return m; }

static std::string word(mon::Rng& r, int lo, int hi) { std::string s; static char const al[] = "abcdefghijklmnopqrstuvwxyz 0123456789%\\\"'"; for (int n = lo + int(r(uint64_t(hi - lo + 1))); n > 0; n--) s += al[r(sizeof al - 1)]; return s; }

static trace::UserEventIDType anEvent() { auto it = eventNames().begin(); std::advance(it, long(local()(eventNames().size()))); return trace::UserEventIDType(it->first); }
static void record(int depth) {
  mon::stat("records");
  switch (local()(9)) {
  case 0: note("n " + word(local(), 0, local().chance(0.03) ? 12000 : 40)); break;
  case 1: { auto d = int32_t(local().next()); trace::addUserData(d); if (on) expect().push_back({26, "", d}); } break;
  case 2: { auto e = anEvent(); trace::addUserEvent(e); if (on) expect().push_back({13, "", int64_t(e)}); } break;
  case 3: { auto e = anEvent(); size_t k = expect().size(); bool was = on; if (was) expect().push_back({100, "", int64_t(e), 0}); (void)k;
    { trace::TraceScopedEvent s(e); if (depth < 3 && local().chance(0.6)) record(depth + 1); if (local().chance(0.3)) s.end(); }
    if (on) expect().push_back({100, "", int64_t(e), 0}); } break;
  case 4: { auto e = anEvent(); theTrace()->addUserEventBracketedBegin(e); if (on) expect().push_back({98, "", int64_t(e)});
    if (depth < 3 && local().chance(0.6)) record(depth + 1);
    theTrace()->addUserEventBracketedEnd(e); if (on) expect().push_back({99, "", int64_t(e)}); } break;
  case 5: { auto e = int(901 + local()(5)); auto t1 = "b " + word(local(), 0, 30), t2 = "c " + word(local(), 0, 60); size_t k = expect().size(); if (on) expect().push_back({29, t1, e});
    trace::TraceScopedNote s(t1, trace::TraceEventIDType(e));
    if (depth < 3 && local().chance(0.6)) record(depth + 1);
    if (local().chance(0.5)) { s.setNote(t2); if (on) expect()[k].text = t2; }
    s.end(); } break;
  case 6: { auto id = trace::UserSpecEventIDType(1 + local()(40)); auto x = -int64_t(id);
    switch (local()(3)) {
    case 0: theTrace()->addUserEventManual(id); if (on) expect().push_back({13, "", x}); break;
    case 1: theTrace()->addUserEventBracketedManualBegin(id); if (on) expect().push_back({98, "", x});
      if (depth < 3 && local().chance(0.5)) record(depth + 1);
      theTrace()->addUserEventBracketedManualEnd(id); if (on) expect().push_back({99, "", x}); break;
    case 2: { auto t1 = timing::getCurrentTime(); auto t2 = timing::getCurrentTime(); theTrace()->addUserEventBracketedManual(id, t1, t2); if (on) { expect().push_back({100, "", x}); expect().push_back({100, "", x}); } } break;
    } } break;
  case 7: { auto e = int(1001 + local()(5)); auto t1 = "d " + word(local(), 0, 30), t2 = "e " + word(local(), 0, 30); size_t k = expect().size(); if (on) expect().push_back({29, t1, e});
    trace::addUserNotePre(t1, trace::TraceEventIDType(e)); if (depth < 3 && local().chance(0.5)) record(depth + 1); trace::addUserNoteEpi(t2, trace::TraceEventIDType(e)); if (on) expect()[k].text = t2; } break;
  case 8: if (depth < 2 && local().chance(0.2)) { // other work, on top of this
    int k = 1 + int(local()(20)); theSched()->runSchedulerWhile([&k] { return k-- > 0; }); note("n back"); } break;
  }
}

enum { ACT, SER, OBJ, COL, BCAST, OBCAST, CBCAST, INVOKE };
static char const* const names[] = {"onAct", "onSer", "onObj", "onCol", "onBcast", "onObcast", "onCbcast", "onInvoke"};
struct Org { int from = 0, ttl = 0; uint64_t sid = 0; template <typename S> void serialize(S& s) { s | from | ttl | sid; } };

static void work(int kind, Org o);
struct Act : Message { Org o; };
struct Ser : Message { using MessageParentType = Message; vt_msg_serialize_required(); Org o; std::vector<char> pad; template <typename S> void serialize(S& s) { MessageParentType::serialize(s); s | o | pad; } };
static void onAct(Act* m) { work(ACT, m->o); }
static void onSer(Ser* m) { work(SER, m->o); }
static void onBcast(Act* m) { work(BCAST, m->o); }
struct OMsg : Message { Org o; };
struct Obj { void onObj(OMsg* m) { work(OBJ, m->o); } void onObcast(Org o) { work(OBCAST, o); } void onInvoke(Org o) { work(INVOKE, o); } };
struct El : vrt::collection::Collection<El, Index1D> { void onCol(Org o) { work(COL, o); } void onCbcast(Org o) { work(CBCAST, o); } };
static objgroup::proxy::Proxy<Obj> objs; static vrt::collection::CollectionProxy<El, Index1D> els; static int nels = 0;

static void send(int ttl) {
  int kind = int(local()(ttl < 2 && local().chance(0.15) ? INVOKE : BCAST));
  Org o{me(), ttl - 1, nsends++};
  auto to = NodeType(local()(np()));
  note(mon::fmt("s %" PRIu64 " %d", o.sid, kind));
  switch (kind) {
  case ACT: { auto m = makeMessage<Act>(); m->o = o; theMsg()->sendMsg<onAct>(to, m); } break;
  case SER: { auto m = makeMessage<Ser>(); m->o = o; m->pad.resize(local()(3000)); theMsg()->sendMsg<onSer>(to, m); } break;
  case OBJ: { auto m = makeMessage<OMsg>(); m->o = o; objs[to].sendMsg<OMsg, &Obj::onObj>(m); } break;
  case COL: els[int(local()(nels))].send<&El::onCol>(o); break;
  case BCAST: { auto m = makeMessage<Act>(); m->o = o; m->o.ttl = 0; theMsg()->broadcastMsg<onBcast>(m); } break;
  case OBCAST: o.ttl = 0; objs.broadcast<&Obj::onObcast>(o); break;
  case CBCAST: o.ttl = 0; els.broadcast<&El::onCbcast>(o); break;
  }
  note(mon::fmt("e %" PRIu64, o.sid));
  mon::stat("sends");
}
static void invoke() {
  Org o{me(), 0, nsends++};
  note(mon::fmt("s %" PRIu64 " %d", o.sid, int(INVOKE)));
  objs[NodeType(me())].invoke<&Obj::onInvoke>(o);
  note(mon::fmt("e %" PRIu64, o.sid));
  mon::stat("invocations");
}
static void work(int kind, Org o) {
  auto r = nruns++;
  note(mon::fmt("h %d %d %" PRIu64, kind, o.from, o.sid));
  for (int n = int(local()(4)); n > 0; n--) record(0);
  if (o.ttl > 0) for (int n = 1 + int(local()(2)); n > 0; n--) send(o.ttl);
  if (kind != INVOKE && local().chance(0.2)) invoke();
  note(mon::fmt("x %d %" PRIu64, kind, r));
  mon::stat("handlers"); mon::progress();
}

// ------------------------------------------------ reading
struct Line { int type; long t; uint64_t ep = 0; long ev = -1; int node = -1; uint64_t len = 0; std::string text; long t2 = 0; int64_t a = 0; };
static std::vector<Line> lines; static std::string raw;
static bool slurp(std::string const& f, std::string& out) {
  gzFile g = gzopen(f.c_str(), "rb"); if (!g) return false;
  static char b[1 << 16]; int n; while ((n = gzread(g, b, sizeof b)) > 0) out.append(b, size_t(n));
  int e; gzerror(g, &e); if (n < 0 || (e != Z_OK && e != Z_STREAM_END)) mon::violation("trace:compressed", "the trace does not decompress (%d)", e);
  gzclose(g); return true;
}

static std::map<uint64_t, std::string> entries; static std::map<uint64_t, std::string> evs;
static void readControl() {
  std::ifstream f(dir + "/t.sts"); std::string l; long eps = -1, procs = -1, events = -1; bool end = false;
  if (!f) { mon::violation("trace:control", "there is no control file"); return; }
  while (std::getline(f, l)) {
    std::istringstream s(l); std::string k; s >> k;
    if (k == "PROCESSORS") s >> procs; else if (k == "TOTAL_EPS") s >> eps; else if (k == "TOTAL_EVENTS") s >> events;
    else if (k == "ENTRY") { std::string c, name, r; uint64_t id; s >> c >> id; std::getline(s, r); if (!entries.emplace(id, r).second) mon::violation("trace:control", "two entries have number %" PRIu64, id); }
    else if (k == "EVENT") { uint64_t id; std::string r; s >> id; std::getline(s, r); while (!r.empty() && r.back() == ' ') r.pop_back(); if (!r.empty()) r.erase(0, 1); if (!evs.emplace(id, r).second) mon::violation("trace:control", "two user events have number %" PRIu64, id); }
    else if (k == "END") end = true;
  }
  if (!end) mon::violation("trace:control", "the control file has no end");
  if (procs != np()) mon::violation("trace:control", "%ld processors, not %d", procs, np());
  if (eps != long(entries.size())) mon::violation("trace:control", "%ld entries announced, %zu there", eps, entries.size());
  if (events != long(evs.size())) mon::violation("trace:control", "%ld user events announced, %zu there", events, evs.size());
}

struct Created { uint64_t from, sid; long ev; uint64_t ep; int bcast; };
struct Ran { uint64_t from, sid; long ev; uint64_t ep; int node, kind; };

static void judge() {
  mon::scenario("reading the trace");
  std::string f = dir + "/t." + std::to_string(me()) + ".log.gz";
  raw.clear();
  bool there = slurp(f, raw);
  if (there != mine()) { mon::violation(there ? "trace:unwanted" : "trace:missing", "rank %d %s a trace, output is %d", me(), there ? "has" : "has not", mod); }
  readControl();
  std::vector<Created> created; std::vector<Ran> ran;
  if (there) {
    std::vector<std::string> L; { size_t p = 0; while (p < raw.size()) { size_t e = raw.find('\n', p); if (e == std::string::npos) { mon::violation("trace:cut", "the last line is cut off"); e = raw.size(); } L.push_back(raw.substr(p, e - p)); p = e + 1; } }
    if (L.size() < 3 || L[0] != "PROJECTIONS-RECORD 0" || L[1] != "6 0") { mon::violation("trace:header", "the header is wrong"); return; }
    long last = 0; bool idle = false, open = false, ended = false; Line cur{}; size_t xi = 0; std::map<long, int> evc;
    auto& X = expect(); long sid = -1; int skind = 0;
    for (size_t i = 2; i < L.size(); i++) {
      auto& s = L[i]; Line l{}; int n = 0, d1 = 0; uint64_t i1, i2, i3, i4; int z1 = 0, z2 = 0; long long tt = 0, t2 = 0, ue = 0;
      auto bad = [&](char const* w) { mon::violation("trace:line", "line %zu: %s: %s", i, w, s.substr(0, 100).c_str()); };
      l.type = atoi(s.c_str()); mon::eval();
      if (ended) { bad("after the end"); break; }
      switch (l.type) {
      case 2: case 3:
        if (sscanf(s.c_str(), "%d %d %" SCNu64 " %lld %ld %d %" SCNu64 " %d %" SCNu64 " %" SCNu64 " %" SCNu64 " %" SCNu64 " %d%n", &l.type, &d1, &l.ep, &tt, &l.ev, &l.node, &l.len, &z1, &i1, &i2, &i3, &i4, &z2, &n) != 13 || size_t(n) != s.size()) bad("cannot be read");
        break;
      case 14: case 15: if (sscanf(s.c_str(), "%d %lld %d%n", &l.type, &tt, &l.node, &n) != 3 || size_t(n) != s.size()) bad("cannot be read"); if (l.node != me()) bad("other rank"); break;
      case 20: if (sscanf(s.c_str(), "%d %d %" SCNu64 " %lld %ld %d %" SCNu64 " %d %d%n", &l.type, &d1, &l.ep, &tt, &l.ev, &l.node, &l.len, &z1, &z2, &n) != 9 || size_t(n) != s.size() || z2 != np() || l.node != me()) bad("cannot be read"); break;
      case 1: if (sscanf(s.c_str(), "%d %d %" SCNu64 " %lld %ld %d %" SCNu64 " %d%n", &l.type, &d1, &l.ep, &tt, &l.ev, &l.node, &l.len, &z1, &n) != 8 || size_t(n) != s.size() || l.node != me()) bad("cannot be read"); break;
      case 13: case 98: case 99: case 100: if (sscanf(s.c_str(), "%d %lld %lld %ld %d %d%n", &l.type, &ue, &tt, &l.ev, &l.node, &z1, &n) != 6 || size_t(n) != s.size() || l.node != me()) bad("cannot be read"); l.a = ue; break;
      case 26: { int d; if (sscanf(s.c_str(), "%d %d %lld%n", &l.type, &d, &tt, &n) != 3 || size_t(n) != s.size()) bad("cannot be read"); l.a = d; } break;
      case 27: { if (sscanf(s.c_str(), "%d %" SCNu64 " %lld%n", &l.type, &l.len, &tt, &n) != 3) bad("cannot be read"); if (l.len == 0) bad("no memory in use"); } break;
      case 28: { size_t len; if (sscanf(s.c_str(), "%d %lld %zu%n", &l.type, &tt, &len, &n) != 3 || s.size() != size_t(n) + 1 + len) bad("cannot be read"); else l.text = s.substr(size_t(n) + 1); } break;
      case 29: { size_t len; if (sscanf(s.c_str(), "%d %lld %lld %ld %zu%n", &l.type, &tt, &t2, &l.ev, &len, &n) != 5 || s.size() != size_t(n) + 1 + len) bad("cannot be read"); else l.text = s.substr(size_t(n) + 1); l.t2 = long(t2); if (t2 < tt) bad("ends before it begins"); } break;
      case 7: if (sscanf(s.c_str(), "%d %lld%n", &l.type, &tt, &n) != 2 || size_t(n) != s.size()) bad("cannot be read"); ended = true; break;
      default: bad("unknown type");
      }
      l.t = long(tt);
      if (l.t < 0) bad("before the start");
      if (l.type == 2 || l.type == 3 || l.type == 14 || l.type == 15 || l.type == 7 || l.type == 28) { if (l.t < last) mon::violation("trace:time", "line %zu: time goes back from %ld to %ld", i, last, l.t); last = std::max(last, l.t); }
      else if (l.type != 100 && l.t < last) mon::violation("trace:time-record", "line %zu: type %d at %ld after %ld", i, l.type, l.t, last);
      if (l.type == 1 || l.type == 2 || l.type == 3 || l.type == 20) if (l.ep && !entries.count(l.ep)) mon::violation("trace:entry", "entry %" PRIu64 " is not in the control file", l.ep);
      switch (l.type) {
      case 2: if (open) mon::violation("trace:nesting", "line %zu: processing begins within processing", i); if (idle) mon::violation("trace:nesting", "line %zu: processing begins while idle", i);
        if (l.node < 0 || l.node >= np()) mon::violation("trace:source", "processing of a message from rank %d", l.node);
        open = true; cur = l; mon::stat("processing"); break;
      case 3: if (!open) mon::violation("trace:nesting", "line %zu: processing ends that has not begun", i);
        else if (cur.ep != l.ep || cur.ev != l.ev || cur.node != l.node || cur.len != l.len) mon::violation("trace:nesting", "line %zu: other processing ends than began", i);
        open = false; break;
      case 14: if (open) mon::violation("trace:nesting", "line %zu: idle while processing", i); if (idle) mon::violation("trace:nesting", "line %zu: idle while idle", i); idle = true; mon::stat("idle"); break;
      case 15: if (!idle) mon::violation("trace:nesting", "line %zu: idle time ends that has not begun", i); idle = false; break;
      case 1: case 20: if (idle) mon::violation("trace:nesting", "line %zu: a message is made while idle", i); if (evc[l.ev]++) mon::violation("trace:event", "line %zu: message number %ld again", i, l.ev);
        if (sid >= 0) created.push_back({uint64_t(me()), uint64_t(sid), l.ev, l.ep, l.type == 20}); mon::stat("creations"); break;
      case 7: if (open || idle) mon::violation("trace:nesting", "the trace ends while %s", open ? "processing" : "idle"); break;
      }
      // what the program recorded
      bool user = l.type == 13 || l.type == 26 || l.type == 28 || l.type == 29 || l.type >= 98;
      if (user && (l.type >= 98 || l.type == 13) && !eventNames().count(uint64_t(l.a))) { auto it = evs.find(uint64_t(l.a)); user = it != evs.end() && it->second.substr(0, 3) == "man"; // of the runtime, or chosen by the program
        if (it == evs.end()) mon::violation("trace:user-event", "user event %" PRId64 " is unknown", l.a); else if (it->second == "trace_flush") mon::stat("flushes"); }
      else if (user && l.type == 100 && evs[uint64_t(l.a)] == "trace_flush") user = false;
      if (user && l.type == 29 && (l.ev < 901 || l.ev > 1005)) { user = false; if (!evs.count(uint64_t(l.ev))) mon::violation("trace:user-event", "the event %ld of a note is unknown", l.ev); }
      if (user) {
        if (xi >= X.size()) mon::violation("trace:extra", "line %zu was never recorded: %s", i, s.substr(0, 80).c_str());
        else {
          auto& x = X[xi++];
          if (x.type != l.type || ((x.type == 28 || x.type == 29) && x.text != l.text) || (x.type == 29 && x.a != l.ev) || (x.type == 26 && x.a != l.a) || ((x.type == 98 || x.type == 99 || x.type == 100) && x.a >= 0 && x.a != l.a) || (x.type == 13 && x.a > 0 && x.a != l.a)) {
            mon::violation("trace:record", "line %zu is '%s' where type %d '%s' %" PRId64 " was recorded", i, s.substr(0, 80).c_str(), x.type, x.text.substr(0, 60).c_str(), x.a); xi = X.size(); return; }
          mon::stat("records_read");
          if ((x.type == 13 || x.type >= 98) && x.a < 0 && evs[uint64_t(l.a)] != "man" + std::to_string(-x.a)) mon::violation("trace:user-event", "user event number %" PRId64 " is '%s' in the control file", -x.a, evs[uint64_t(l.a)].c_str());
          if ((x.type == 13 || x.type >= 98) && x.a >= 0) { auto it = evs.find(uint64_t(l.a)); if (it == evs.end() || it->second != eventNames()[uint64_t(x.a)]) mon::violation("trace:user-event", "user event '%s' is '%s' in the control file", eventNames()[uint64_t(x.a)].c_str(), it == evs.end() ? "missing" : it->second.c_str()); }
          if (x.type == 28 && x.text[0] == 's') { sscanf(x.text.c_str(), "s %ld %d", &sid, &skind); }
          if (x.type == 28 && x.text[0] == 'e') sid = -1;
          if (x.type == 28 && x.text[0] == 'h') sid = -1;
          if (x.type == 28 && (x.text[0] == 'h' || x.text[0] == 'x')) {
            int kind, from; uint64_t k = 0; 
            if (x.text[0] == 'h') sscanf(x.text.c_str(), "h %d %d %" SCNu64, &kind, &from, &k); else sscanf(x.text.c_str(), "x %d", &kind);
            if (!open) mon::violation("trace:context", "handler %s runs outside of any processing", names[kind]);
            else {
              if (entries[cur.ep].find(names[kind]) == std::string::npos) mon::violation("trace:context", "handler %s runs within '%s'", names[kind], entries[cur.ep].substr(0, 60).c_str());
              if (x.text[0] == 'h') ran.push_back({uint64_t(from), k, cur.ev, cur.ep, cur.node, kind});
            }
          }
        }
      }
    }
    if (!ended) mon::violation("trace:footer", "the trace has no end");
    if (xi < X.size()) mon::violation("trace:lost", "%zu of %zu records are missing, first: type %d %s", X.size() - xi, X.size(), X[xi].type, X[xi].text.substr(0, 60).c_str());
  }
  // messages
  auto allc = dist::gather(created); auto allr = dist::gather(ran);
  std::map<std::pair<uint64_t, uint64_t>, std::vector<Created>> by;
  for (auto& v : allc) for (auto& c : v) by[{c.from, c.sid}].push_back(c);
  for (auto& r : allr[me()]) {
    mon::eval(); mon::stat("links");
    if (mod && int(r.from) % mod) continue;
    if (r.ev == 0 && r.kind != ACT && r.kind != COL && r.kind != BCAST) { mon::stat(names[r.kind]); continue; } // not every way to send carries the number of its event
    auto it = by.find({r.from, r.sid});
    if (it == by.end()) { if (!gaps) mon::violation("trace:link", "%s ran for a message that is not in the trace of rank %" PRIu64, names[r.kind], r.from); continue; }
    bool found = false, ep = false;
    for (auto& c : it->second) if (c.ev == r.ev) { found = true; ep |= c.ep == r.ep; }
    if (!found || r.node != int(r.from)) mon::violation(mon::fmt("trace:link:%s", names[r.kind]).c_str(), "%s for message %" PRIu64 " of rank %" PRIu64 " is linked to event %ld of rank %d%s", names[r.kind], r.sid, r.from, r.ev, r.node, found ? "" : ", which is another");
    else if (!ep) mon::violation(mon::fmt("trace:link-entry:%s", names[r.kind]).c_str(), "%s is linked to a message for another handler", names[r.kind]);
  }
}

int main(int argc, char** argv) {
  auto& r = shared();
  char const* d = getenv("MON_DIR"); dir = std::string(d ? d : "/tmp") + "/trace";
  int flushes[] = {0, 1, 30, 400}; flush = flushes[r(4)]; mod = r.chance(0.2) ? 2 : 0;
  static std::vector<std::string> args(argv, argv + argc);
  args.push_back("--vt_trace"); args.push_back("--vt_trace_dir=" + dir); args.push_back("--vt_trace_file=t");
  args.push_back("--vt_trace_flush_size=" + std::to_string(flush));
  if (mod) args.push_back("--vt_trace_mod=2");
  if (r.chance(0.4)) args.push_back("--vt_trace_gzip_finish_flush");
  if (r.chance(0.3)) args.push_back("--vt_trace_sys_all");
  if (r.chance(0.1)) args.push_back("--vt_trace_memory_usage");
  if (r.chance(0.2)) args.push_back("--vt_trace_event_polling");
  if (r.chance(0.2)) args.push_back("--vt_trace_irecv_polling");
  gaps = r.chance(0.3); // tracing is off at times
  if (r.chance(0.25)) {
    gaps = true;
    bool m = r.chance(0.5);
    for (int i = 1 + int(r(3)), at = 0; i > 0; i--) { int a = at + 1 + int(r(4)); at = a; spec.push_back({m, a, -int(r(uint64_t(a < 2 ? a : 2))), int(r(2))}); }
    auto f = std::string(d ? d : "/tmp") + "/spec";
    auto rank = getenv("OMPI_COMM_WORLD_RANK");
    if (!rank || !strcmp(rank, "0")) { std::ofstream o(f); for (auto& s : spec) { if (s.mod) o << "% "; o << s.at; o << " " << (s.neg == 0 ? "-0" : std::to_string(s.neg)); o << " " << s.pos; o << "\n"; } }
    args.push_back("--vt_trace_spec"); args.push_back("--vt_trace_spec_file=" + f);
  }
  static std::vector<char*> av; for (auto& a : args) av.push_back(a.data()); av.push_back(nullptr);
  return dist::run(int(args.size()), av.data(), [] {
    objs = theObjGroup()->makeCollective<Obj>("objs");
    nels = 1 + int(shared()(uint64_t(3 * np()))); els = makeCollection<El>("els").bounds(Index1D(nels)).bulkInsert().wait();
    for (int i = 0; i < 3; i++) { auto n = "coll" + std::to_string(i); eventNames()[uint64_t(trace::registerEventCollective(n))] = n; }
    for (int i = 1; i <= 40; i++) theTrace()->registerUserEventManual("man" + std::to_string(i), trace::UserSpecEventIDType(i));
    on = wanted(0);
    thePhase()->registerHookUnsynchronized(phase::PhaseHook::End, [] { on = wanted(thePhase()->getCurrentPhase() + 1); });
    dist::syncAll();
    int rounds = mon::argi("ROUNDS", mon::thorough() ? 24 : 8);
    for (int k = 0; k < rounds; k++) {
      mon::scenario(mon::fmt("traced work %d", k));
      bool off = gaps && local().chance(0.3), some = gaps && local().chance(0.3), was = on;
      if (off) { theTrace()->disableTracing(); on = false; mon::stat("disabled"); }
      runInEpochCollective([&] { for (int n = int(local()(5)); n > 0; n--) send(1 + int(local()(4))); record(0); });
      if (off) { theTrace()->enableTracing(); on = was; }
      if (local().chance(0.3)) invoke();
      if (some) { theTrace()->disableTracing(); on = false; record(0); theTrace()->enableTracing(); on = was; }
      for (int n = int(local()(5)); n > 0; n--) record(0);
      if (shared().chance(0.4)) { mon::scenario("a phase"); thePhase()->nextPhaseCollective(); mon::stat(on ? "phases" : "phases_off"); }
      else if (shared().chance(0.3)) theTrace()->flushTracesFile(shared().chance(0.5));
      dist::syncAll();
    }
  }, [] { judge(); mon::distinct(mon::mix(uint64_t(flush * 10 + mod), mon::seed())); });
}
