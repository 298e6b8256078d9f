// Arguments: who gets which, which source wins, and that a written configuration reads back the same.
#include "comp.h"
#include "args_list.h"
#include <vt/configs/arguments/args.h>
#include <vt/configs/arguments/app_config.h>
#include <vt/configs/arguments/argv_container.h>
#include <map>
#include <set>
#include <fstream>
#include <functional>
#include <unistd.h>
#include <time.h>
using namespace vt;
using vt::arguments::AppConfig;
using vt::arguments::ArgConfig;
using comp::rng;

struct Opt {
  char type; char const* field; bool flag; char const* name; std::string sec, label;
  std::function<std::string(AppConfig const&)> get; std::function<void(AppConfig&, std::string const&)> set;
};
static std::string str(bool b) { return b ? "true" : "false"; }
static std::string str(int32_t i) { return std::to_string(i); }
static std::string str(int64_t i) { return std::to_string(i); }
static std::string str(std::size_t i) { return std::to_string(i); }
static std::string str(double d) { char b[40]; snprintf(b, 40, "%g", d); return b; }
static std::string str(std::string const& s) { return s; }
static void put(bool& x, std::string const& v) { x = v == "true"; }
static void put(int32_t& x, std::string const& v) { x = std::stoi(v); }
static void put(int64_t& x, std::string const& v) { x = std::stoll(v); }
static void put(std::size_t& x, std::string const& v) { x = std::stoull(v); }
static void put(double& x, std::string const& v) { x = std::stod(v); }
static void put(std::string& x, std::string const& v) { x = v; }
static std::vector<Opt> const& opts() {
  static std::vector<Opt> o = {
#define X(T, F, FL, N, S, L) Opt{#T[0], #F, bool(FL), N, S, L, [](AppConfig const& c) { return str(c.F); }, [](AppConfig& c, std::string const& v) { put(c.F, v); }},
    VT_ARGS(X)
#undef X
  };
  return o;
}
static std::string scratch(std::string const& what) { return "scratch-args-" + std::to_string(getpid()) + "-" + what; }
static std::string existing() { static std::string f = [] { auto s = scratch("exists"); std::ofstream(s) << "x\n"; return s; }(); return f; }
static std::string randWord(bool path = true) {
  static char const al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.%/,:";
  std::string s(1, al[rng()(26)]); int n = rng()(12);
  for (int i = 0; i < n; i++) s += al[rng()(path ? 68 : 62)];
  static std::set<std::string> const words = {"y", "n", "no", "yes", "on", "off", "true", "false", "null", "yes", "t", "f", "enable", "inf", "nan"};
  std::string l; for (auto c : s) l += char(tolower(c));
  return words.count(l) || s.back() == ':' ? "w" + s + "w" : s;
}
static std::string randValue(Opt const& o) {
  std::string f = o.field;
  if (f == "vt_debug_level") { char const* v[] = {"terse", "normal", "verbose", "0", "1", "2"}; return v[rng()(6)]; }
  if (f == "vt_trace_spec_file" || f == "vt_lb_spec_file" || f == "vt_lb_file_name") return existing();
  switch (o.type) {
  case 'B': return str(bool(rng()(2)));
  case 'I': return str(int32_t(rng()(2) ? rng()(2000000000) : rng()(20)) * (rng()(4) ? 1 : -1));
  case 'L': return str((int64_t(rng()(1u << 30)) << rng()(30)) * (rng()(4) ? 1 : -1));
  case 'Z': return str((std::size_t(rng()(1u << 30)) << rng()(30)));
  case 'D': return str(double(rng()(100000)) / 1000.);
  default: return randWord();
  }
}
// fields that the parse sets on its own account or that name the files read
static bool special(std::string const& f) {
  return f == "vt_input_config_yaml" || f == "vt_output_config" || f == "vt_output_config_file" || f == "vt_lb_file_name";
}
using Vals = std::map<std::string, std::string>;   // field -> value
static void writeYaml(std::string const& path, Vals const& v, std::string const& mpi, int users, std::string const& extra = "") {
  std::map<std::string, std::map<std::string, std::string>> secs; std::vector<std::string> dbg;
  for (auto& o : opts()) { auto it = v.find(o.field); if (it == v.end()) continue; if (o.sec == "Debug Print Configuration/Enable") { if (it->second == "true") dbg.push_back(o.label); } else secs[o.sec][o.label] = it->second; }
  if (!mpi.empty()) secs["Tracing Configuration"]["MPI Type Events"] = mpi;
  std::ofstream f(path);
  std::set<std::string> tops; for (auto& s : secs) tops.insert(s.first.substr(0, s.first.find('/'))); if (!dbg.empty()) tops.insert("Debug Print Configuration");
  for (auto& t : tops) {
    f << t << ":\n";
    for (auto& s : secs) {
      if (s.first.substr(0, s.first.find('/')) != t) continue;
      std::string in = "  ";
      if (s.first != t) { f << "  " << s.first.substr(t.size() + 1) << ":\n"; in = "    "; }
      for (auto& kv : s.second) f << in << kv.first << ": " << kv.second << "\n";
    }
    if (t == "Debug Print Configuration" && !dbg.empty()) { f << "  Enable:\n"; for (auto& d : dbg) f << "    - " << d << "\n"; }
  }
  if (users) {
    f << "User Options:\n";
    for (int i = 0; i < 3; i++) { if (users & (1 << i)) f << "  my_flag" << i << ": " << (i % 2 ? "true" : "false") << "\n  my_int" << i << ": " << (i * 7 - 5) << "\n  my_str" << i << ": word" << i << "\n"; }
  }
  f << extra;
}
static void compare(char const* key, Vals const& want, AppConfig const& got, std::set<std::string> const& skip, char const* what) {
  for (auto& o : opts()) {
    if (skip.count(o.field)) continue;
    auto it = want.find(o.field);
    auto g = o.get(got);
    if (g != it->second) mon::violation((std::string(key) + ":" + o.field).c_str(), "%s: %s is '%s', not '%s'", what, o.field, g.c_str(), it->second.c_str());
    mon::eval();
  }
}
static std::tuple<int, std::string> parse(ArgConfig& a, std::vector<std::string> const& args, AppConfig const* app, std::vector<std::string>* left) {
  static std::vector<std::string> store; store = args;   // outlives what is passed through
  std::vector<char*> av; for (auto& s : store) av.push_back(&s[0]); av.push_back(nullptr);
  int argc = int(store.size()); char** argv = av.data();
  auto r = a.parse(argc, argv, app);
  if (left && std::get<0>(r) == -1) { left->clear(); for (int i = 0; i < argc; i++) left->push_back(argv[i]); if (argv[argc] != nullptr) mon::violation("args:terminator", "argv does not end in a null pointer"); }
  return r;
}
static Vals snapshot(AppConfig const& c) { Vals v; for (auto& o : opts()) v[o.field] = o.get(c); return v; }

static void precedence() {
  AppConfig base; bool useApp = rng()(2);
  if (useApp) for (auto& o : opts()) if (!special(o.field) && o.sec != "Debug Print Configuration/Enable" && std::string(o.field) != "vt_print_memory_at_threshold" && rng()(6) == 0) o.set(base, randValue(o));
  Vals want = snapshot(base), yaml, ini, cli;
  bool haveY = rng()(2), haveI = rng()(3) == 0;
  std::string mpiY, mpiC; bool wantMpi = base.vt_trace_mpi, wantPmpi = base.vt_trace_pmpi;
  int users = haveY && rng()(2) ? rng()(8) : 0;
  if (haveY) {
    if (rng()(2)) { char const* m[] = {"internal", "external", "internal, external"}; mpiY = m[rng()(3)]; }
    wantMpi = mpiY.find("internal") != std::string::npos; wantPmpi = mpiY.find("external") != std::string::npos;
    for (auto& o : opts()) if (!special(o.field) && !o.sec.empty() && rng()(5) == 0) { if (users && std::string(o.field).substr(0, 7) == "vt_user") continue; yaml[o.field] = randValue(o); }
    for (auto& o : opts()) if (o.sec == "Debug Print Configuration/Enable") want[o.field] = "false";
    want["vt_print_memory_at_threshold"] = str(yaml.count("vt_print_memory_threshold") > 0);
    for (auto& kv : yaml) want[kv.first] = kv.second;
    if (users) {
      int k = 0; for (int i = 0; i < 3; i++) if (users & (1 << i)) { k++; auto n = std::to_string(k); want["vt_user_" + n] = str(bool(i % 2)); want["vt_user_int_" + n] = std::to_string(i * 7 - 5); want["vt_user_str_" + n] = "word" + std::to_string(i); }
    }
  }
  if (haveI) for (auto& o : opts()) if (!special(o.field) && rng()(7) == 0) ini[o.field] = randValue(o);
  for (auto& kv : ini) want[kv.first] = kv.second;
  bool file = rng()(6) == 0;
  for (auto& o : opts()) if (!special(o.field) && rng()(8) == 0) cli[o.field] = randValue(o);
  if (file) { cli.erase("vt_lb_name"); cli.erase("vt_lb_file_name"); cli["vt_lb_file_name"] = existing(); ini.erase("vt_lb_name"); want = [&] { Vals w = snapshot(base); return w; }(); /* rebuilt below */
    if (haveY) { for (auto& o : opts()) if (o.sec == "Debug Print Configuration/Enable") want[o.field] = "false"; want["vt_print_memory_at_threshold"] = str(yaml.count("vt_print_memory_threshold") > 0); for (auto& kv : yaml) want[kv.first] = kv.second;
      if (users) { int k = 0; for (int i = 0; i < 3; i++) if (users & (1 << i)) { k++; auto n = std::to_string(k); want["vt_user_" + n] = str(bool(i % 2)); want["vt_user_int_" + n] = std::to_string(i * 7 - 5); want["vt_user_str_" + n] = "word" + std::to_string(i); } } }
    for (auto& kv : ini) want[kv.first] = kv.second; }
  for (auto& kv : cli) want[kv.first] = kv.second;
  // command line: alternating stretches
  std::vector<std::vector<std::string>> vtargs;
  for (auto& o : opts()) {
    auto it = cli.find(o.field); if (it == cli.end()) continue;
    std::string n = o.name, v = it->second;
    if (std::string(o.field) == "vt_diag_enable" && o.flag && v == "false" && rng()(2)) { vtargs.push_back({"--vt_diag_disable"}); continue; }
    if (o.flag && v == "true" && rng()(2)) vtargs.push_back({n});
    else if (o.flag || v.empty() || v[0] == '-' || rng()(2)) vtargs.push_back({n + "=" + v});
    else vtargs.push_back({n, v});
  }
  if (rng()(4) == 0) { int k = 1 + rng()(3); mpiC = k == 1 ? "internal" : k == 2 ? "external" : "both"; wantMpi = k & 1; wantPmpi = k & 2; if (k & 1) vtargs.push_back({"--vt_trace_mpi=internal"}); if (k & 2) vtargs.push_back({"--vt_trace_mpi=external"}); }
  want["vt_trace_mpi"] = str(wantMpi); want["vt_trace_pmpi"] = str(wantPmpi);
  auto yp = scratch("c.yaml"), ip = scratch("c.ini");
  if (haveY) { writeYaml(yp, yaml, mpiY, users); vtargs.push_back({"--vt_input_config_yaml=" + yp}); want["vt_input_config_yaml"] = yp; }
  if (haveI) {
    std::ofstream f(ip);
    for (auto& o : opts()) if (ini.count(o.field)) { auto v = ini[o.field]; f << std::string(o.name).substr(2) << (rng()(2) ? "=" : " = ") << (o.type == 'S' ? "\"" + v + "\"" : v) << "\n"; }
    f.close();
    vtargs.push_back(rng()(2) ? std::vector<std::string>{"--vt_input_config=" + ip} : std::vector<std::string>{"--vt_input_config", ip});
  }
  for (size_t i = vtargs.size(); i > 1; i--) std::swap(vtargs[i - 1], vtargs[rng()(i)]);
  std::string prog = rng()(2) ? "/some/where/prog" : rng()(2) ? "prog" : "./prog";
  std::vector<std::string> args{prog}, app;
  enum { Start, Vt, App } mode = Start;
  size_t i = 0;
  auto appArg = [&] { std::string s; switch (rng()(6)) { case 0: s = "-x"; break; case 1: s = "--flag=" + randWord(); break; case 2: s = ""; break; case 3: s = std::to_string(int(rng()(100)) - 50); break; default: s = randWord(); } if (s == "--") s = "w"; return s; };
  while (i < vtargs.size() || rng()(3)) {
    if (mode == Start) {
      if (rng()(2)) { auto a = appArg(); if (a.substr(0, 5) == "--vt_") continue; args.push_back(a); app.push_back(a); }
      else if (rng()(3) == 0) { args.push_back("--vt_args"); mode = Vt; }
      else if (rng()(3) == 0) { args.push_back("--"); mode = App; }
      else if (i < vtargs.size()) { for (auto& s : vtargs[i]) args.push_back(s); i++; mode = Vt; }
    } else if (mode == Vt) {
      if (rng()(4) == 0) { args.push_back("--"); mode = App; }
      else if (i < vtargs.size()) { for (auto& s : vtargs[i]) args.push_back(s); i++; }
      else if (rng()(5) == 0) args.push_back("--vt_args");
    } else {
      if (rng()(3) == 0) { args.push_back("--vt_args"); mode = Vt; }
      else { auto a = rng()(5) ? appArg() : std::string("--vt_lb"); args.push_back(a); app.push_back(a); }
    }
  }
  ArgConfig a; std::vector<std::string> left;
  auto r = parse(a, args, useApp ? &base : nullptr, &left);
  if (haveY) unlink(yp.c_str());
  if (haveI) unlink(ip.c_str());
  if (std::get<0>(r) != -1) { mon::violation("args:rejected", "valid arguments were rejected: %s", std::get<1>(r).substr(0, 150).c_str()); return; }
  compare("args:value", want, a.config_, {}, haveY ? (haveI ? "yaml+ini+line" : "yaml+line") : haveI ? "ini+line" : "line");
  std::vector<std::string> wl{prog}; wl.insert(wl.end(), app.begin(), app.end());
  if (left != wl) mon::violation("args:passthrough", "%zu arguments left for the application, %zu were meant for it, or others", left.size(), wl.size());
  std::vector<std::string> pt; for (auto p : a.config_.passthru_args) pt.push_back(p);
  if (pt != app) mon::violation("args:passthrough", "recorded application arguments differ");
  if (a.config_.prog_name != "prog") mon::violation("args:program", "program name '%s'", a.config_.prog_name.c_str());
  if (a.config_.colorize_output != (want["vt_no_color"] == "false")) mon::violation("args:color", "colorize=%d with no-color %s", a.config_.colorize_output, want["vt_no_color"].c_str());
  auto lv = want["vt_debug_level"]; uint64_t wv = lv == "terse" || lv == "0" ? config::terse : lv == "normal" || lv == "1" ? (config::terse | config::normal) : (config::terse | config::normal | config::verbose);
  if (a.config_.vt_debug_level_val != wv) mon::violation("args:level", "debug level %s gives %llu", lv.c_str(), (unsigned long long)a.config_.vt_debug_level_val);
  // only the first parse counts
  { auto before = snapshot(a.config_); auto r2 = parse(a, {"p", "--vt_lb_name=Other", "--vt_pause"}, nullptr, nullptr); (void)r2; if (snapshot(a.config_) != before) mon::violation("args:twice", "a second parse changed the configuration"); }
  uint64_t h = haveY * 2 + haveI; for (auto& kv : cli) h = mon::mix(h, std::hash<std::string>()(kv.first)); for (auto& kv : yaml) h = mon::mix(h, 3 + std::hash<std::string>()(kv.first));
  mon::distinct(h); mon::stat("parses"); mon::eval(5);
}

static void rejects() {
  std::vector<std::vector<std::string>> bad = {
    {"--vt_lb", "stray"}, {"--vt_no_such_option"}, {"--vt_lb_interval=abc"}, {"--vt_args", ""}, {"--vt_trace_mpi=nothing"}, {"--vt_lb_name=A", "--vt_lb_file_name=" + existing()},
    {"--vt_lb_spec_file=/no/such/file"}, {"--vt_stack_mod"}, {"--vt_lb=maybe"}, {"--vt_args", "x"}, {"--vt_input_config=/no/such/file.ini"}, {"--vt_lb_interval=99999999999999"},
  };
  for (auto& b : bad) {
    std::vector<std::string> args{"prog"}; if (rng()(2)) args.push_back("app"); args.insert(args.end(), b.begin(), b.end());
    ArgConfig a;
    auto r = parse(a, args, nullptr, nullptr);
    mon::eval(); mon::stat("rejections");
    if (std::get<0>(r) == -1) mon::violation("args:accepted", "invalid arguments (%s) were accepted", b.back().c_str());
    if (std::get<1>(r).empty() && std::get<0>(r) != 0) mon::violation("args:accepted", "no message for invalid arguments");
  }
  ArgConfig a; auto r = parse(a, {"prog", "--vt_help"}, nullptr, nullptr);
  if (std::get<0>(r) != 0 || std::get<1>(r).find("--vt_lb_interval") == std::string::npos) mon::violation("args:help", "help gives code %d", std::get<0>(r));
}

static void written() {
  bool yaml = rng()(2);
  AppConfig base;
  std::vector<std::string> args{"prog"};
  bool const byFile = rng()(4) == 0;
  for (auto& o : opts()) if (!special(o.field) && rng()(3) == 0 && (!yaml || std::string(o.field).substr(0, 7) != "vt_user") && !(byFile && std::string(o.field) == "vt_lb_name")) {
    auto v = randValue(o);
    if (rng()(2) && (yaml || !o.flag)) o.set(base, v); else args.push_back(std::string(o.name) + "=" + v);   // the ini form lists only flags that were given
  }
  if (byFile) args.push_back("--vt_lb_file_name=" + existing());
  if (!yaml) base.vt_trace_mpi = base.vt_trace_pmpi = false;
  { if (rng()(2)) { args.push_back("--vt_trace_mpi=internal"); } if (rng()(2)) args.push_back("--vt_trace_mpi=external"); }
  auto name = yaml ? std::string(rng()(2) ? "out.yaml" : "o.yml") : std::string(rng()(3) == 0 ? "c" : "conf.ini");
  args.push_back("--vt_output_config"); args.push_back("--vt_output_config_file=" + name);
  ArgConfig a;
  auto r = parse(a, args, &base, nullptr);
  if (std::get<0>(r) != -1) { mon::violation("args:rejected", "valid arguments were rejected: %s", std::get<1>(r).substr(0, 150).c_str()); return; }
  auto want = snapshot(a.config_);
  auto path = scratch(yaml ? "w.yaml" : "w.ini");
  { std::ofstream f(path); f << a.config_.vt_output_config_str; }
  ArgConfig b;
  auto r2 = parse(b, {"prog", (yaml ? "--vt_input_config_yaml=" : "--vt_input_config=") + path}, nullptr, nullptr);
  unlink(path.c_str());
  if (std::get<0>(r2) != -1) { mon::violation(yaml ? "args:written-yaml" : "args:written-ini", "a written configuration is rejected: %s", std::get<1>(r2).substr(0, 200).c_str()); return; }
  std::set<std::string> skip = {"vt_input_config_yaml"};
  if (yaml) {
    for (auto& o : opts()) if (o.sec.empty() && std::string(o.field) != "vt_print_memory_at_threshold") skip.insert(o.field);   // not in the YAML form
    for (auto& o : opts()) if (std::string(o.field).substr(0, 7) == "vt_user") skip.insert(o.field);   // named by the user
    skip.erase("vt_trace_mpi"); skip.erase("vt_trace_pmpi");
    if (want["vt_print_memory_at_threshold"] == "false") skip.insert("vt_print_memory_threshold");     // its presence enables it
  }
  compare(yaml ? "args:written-yaml" : "args:written-ini", want, b.config_, skip, yaml ? "written and read as yaml" : "written and read as ini");
  mon::stat(yaml ? "yaml_written" : "ini_written"); mon::distinct(mon::mix(std::hash<std::string>()(a.config_.vt_output_config_str), 1));
}

static void files() {
  AppConfig c; c.vt_lb_statistics_compress = rng()(2);
  std::string n; int k = rng()(5);
  if (k == 0) n = std::string(1 + rng()(3), 'a'); else if (k == 1) n = randWord() + ".br"; else if (k == 2) n = "s.%t.json"; else n = randWord();
  for (size_t p; (p = n.find("%t")) != std::string::npos && k != 2;) n[p] = 'x';
  c.vt_lb_statistics_file = n; c.vt_lb_statistics_dir = rng()(2) ? "" : "dir";
  auto g = c.getLBStatisticsFile();
  std::string w = (c.vt_lb_statistics_dir.empty() ? "" : "dir/") + n;
  bool br = n.size() >= 3 && n.substr(n.size() - 3) == ".br";
  if (c.vt_lb_statistics_compress && !br) w += ".br";
  if (k == 2) { auto p = w.find("%t"); if (g.find("%t") != std::string::npos || g.substr(0, p) != w.substr(0, p) || g.size() != w.size() - 2 + 19 || g.substr(p + 19) != w.substr(p + 2)) mon::violation("args:statistics-file", "'%s' for '%s'", g.c_str(), w.c_str()); }
  else if (g != w) mon::violation("args:statistics-file", "'%s', not '%s'", g.c_str(), w.c_str());
  // arguments kept aside for a later start
  std::vector<std::string> s; int m = 1 + rng()(10); for (int i = 0; i < m; i++) { int q = rng()(6); s.push_back(q == 0 ? "--vt_" + randWord() : q == 1 ? "!--vt_x" : q == 2 ? "--vtx" : q == 3 ? "--" : randWord()); }
  std::vector<char*> av; for (auto& x : s) av.push_back(&x[0]); av.push_back(nullptr);
  int argc = m; char** argv = av.data();
  arguments::ArgvContainer box(argc, argv);
  std::vector<std::string> rest; for (auto& x : s) if (x.substr(0, 5) != "--vt_" && x.substr(0, 6) != "!--vt_") rest.push_back(x);
  std::vector<std::string> got(argv, argv + argc);
  if (got != rest || argv[argc]) mon::violation("args:container", "%d arguments left of %d, %zu expected", argc, m, rest.size());
  if (box.getArgc() != m) mon::violation("args:container", "%d arguments kept of %d", box.getArgc(), m);
  auto copy = box.getArgvDeepCopy();
  for (int i = 0; i < m; i++) { if (s[i] != copy[i] || copy[i] == &s[i][0]) mon::violation("args:container", "argument %d kept as '%s', was '%s'", i, copy[i], s[i].c_str()); free(copy[i]); }
  if (copy[m]) mon::violation("args:container", "the copy has no end");
  mon::eval(4); mon::stat("file_names");
}

int main(int, char**) {
  return comp::run([] {
    int n = mon::thorough() ? 1500 : 250;
    existing();
    for (int i = 0; i < n; i++) {
      mon::scenario("precedence"); precedence(); precedence();
      mon::scenario("written"); written();
      mon::scenario("files"); files();
      if (i % 10 == 0) { mon::scenario("rejects"); rejects(); }
      mon::progress();
    }
    unlink(existing().c_str());
  });
}
