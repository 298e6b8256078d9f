// C24: the names and quantities vt prints: taken apart and put together without losing anything.
#include "comp.h"
#include <vt/config.h>
#include <vt/utils/demangle/demangle.h>
#include <vt/utils/memory/memory_units.h>
#include <vt/timing/timing_type.h>

using comp::rng;
using vt::util::demangle::TemplateExtract;
using vt::util::demangle::DemanglerUtils;
namespace mem = vt::util::memory;

static std::string ident() {
  static char const* w[] = {"vt", "a", "b1", "MyCol", "Msg", "_x", "handler", "T", "foo_bar", "std", "vector", "int", "(anonymous namespace)", "{lambda(int)#1}"};
  return w[rng()(14)];
}
// a qualified type: [ns::]*name with template arguments anywhere
static std::string type(int depth);
static std::string part(int depth) {
  std::string s = ident();
  if (depth > 0 && rng().chance(.4)) { s += "<"; for (size_t i = 1 + rng()(3); i-- > 0;) s += type(depth - 1) + (i ? ", " : ""); if (s.back() == '>') s += " "; s += ">"; }
  return s;
}
static std::string type(int depth) {
  std::string s; for (size_t i = rng()(3); i-- > 0;) s += part(depth) + "::"; return s + part(depth);
}

static void names() {
  mon::scenario("names");
  std::string ns; size_t n = rng()(4);
  for (size_t i = 0; i < n; i++) ns += (i ? "::" : "") + part(2);
  std::string bare = part(3), full = (n ? ns + "::" : "") + bare, lead = rng().chance(.3) ? "&" : "";
  if (rng().chance(.1)) lead = "::"; 
  mon::eval(2); mon::stat("names");
  std::string gn = TemplateExtract::getNamespace(lead + full), gb = TemplateExtract::getBarename(lead + full);
  MON_CHECK(gn == ns, "name:namespace", "of %s: \"%s\", not \"%s\"", full.c_str(), gn.c_str(), ns.c_str());
  MON_CHECK(gb == bare, "name:bare", "of %s: \"%s\", not \"%s\"", full.c_str(), gb.c_str(), bare.c_str());
  mon::distinct(mon::hashStr(full));
  // a pretty function: the value of the last template parameter
  std::string pf = "static constexpr const char *" + type(1) + "::f() [", last = rng().chance(.5) ? type(2) : "&" + type(2);
  size_t k = rng()(3); for (size_t i = 0; i < k; i++) pf += "A" + std::to_string(i) + " = " + ident() + ", ";
  std::string p2 = pf + "PF_VALUE_NAME = " + last + "]", g2 = TemplateExtract::lastNamedPfType(p2, "PF_VALUE_NAME");
  MON_CHECK(g2 == last, "name:last-parameter", "of %s: \"%s\"", p2.c_str(), g2.c_str());
  std::string p1 = "static constexpr const char *f() [T = " + last + "]", g1 = TemplateExtract::singlePfType(p1);
  MON_CHECK(g1 == last, "name:single-parameter", "of %s: \"%s\"", p1.c_str(), g1.c_str());
  MON_CHECK(TemplateExtract::lastNamedPfType("no parameters here", "PF_VALUE_NAME").empty() && TemplateExtract::singlePfType("nothing").empty(), "name:no-parameter", "text without parameters");
  // arguments of a function type
  std::string args; for (size_t i = rng()(4); i-- > 0;) args += type(1) + (rng().chance(.3) ? " *" : "") + (i ? ", " : "");
  std::string fn = std::string("void") + (rng().chance(.8) ? " " : "") + "(" + args + ")";
  MON_CHECK(TemplateExtract::getVoidFuncStrArgs(fn) == args, "name:arguments", "of %s: \"%s\"", fn.c_str(), TemplateExtract::getVoidFuncStrArgs(fn).c_str());
  for (std::string other : {"int (" + args + ")", "void (" + args + " x", std::string("void"), std::string(""), "(" + args + ")"})
    MON_CHECK(TemplateExtract::getVoidFuncStrArgs(other) == other, "name:not-a-function", "%s -> %s", other.c_str(), TemplateExtract::getVoidFuncStrArgs(other).c_str());
  // lists
  std::vector<std::string> parts; char delim = ",:;x"[rng()(4)];
  for (size_t i = 1 + rng()(6); i-- > 0;) { std::string s = rng().chance(.2) ? "" : ident() + " " + ident(); s.erase(std::remove(s.begin(), s.end(), delim), s.end()); parts.push_back(s); }
  if (parts.back().empty()) parts.back() = "z";
  std::string joined = DemanglerUtils::join(std::string(1, delim), parts);
  MON_CHECK(DemanglerUtils::splitString(joined, delim) == parts, "name:split-join", "\"%s\" at '%c'", joined.c_str(), delim);
  std::string nosp = DemanglerUtils::removeSpaces(joined), want; for (char c : joined) if (c != ' ') want += c;
  MON_CHECK(nosp == want, "name:spaces", "\"%s\" -> \"%s\"", joined.c_str(), nosp.c_str());
  std::string d2 = rng().chance(.5) ? ", " : ""; std::string j2 = DemanglerUtils::join(d2, parts), w2; for (size_t i = 0; i < parts.size(); i++) w2 += (i ? d2 : "") + parts[i];
  MON_CHECK(j2 == w2, "name:join", "\"%s\", not \"%s\"", j2.c_str(), w2.c_str());
  MON_CHECK(DemanglerUtils::join(",", {}).empty(), "name:join", "no parts");
}

static void memory() {
  mon::scenario("memory-units");
  static char const* const units[] = {"B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB", "ZiB", "YiB"};
  size_t b;
  switch (rng()(4)) { case 0: b = rng()(5000); break; case 1: b = size_t(1) << rng()(64); break; case 2: b = (size_t(1) << (10 * rng()(7))) - 1 + rng()(3); break; default: b = rng().next() >> rng()(64); }
  auto [name, v] = mem::getBestMemoryUnit(b);
  int k = -1; for (int i = 0; i < 9; i++) if (name == units[i]) k = i;
  mon::eval(); mon::stat("memory_amounts");
  MON_CHECK(k >= 0, "memory:unit", "%zu bytes in \"%s\"", b, name.c_str());
  MON_CHECK(std::ldexp(v, 10 * std::max(k, 0)) == double(b), "memory:amount", "%zu bytes as %.17g %s", b, v, name.c_str());
  MON_CHECK(v < 1024. && (v >= 1. || k == 0), "memory:best-unit", "%zu bytes as %.17g %s", b, v, name.c_str());
  for (int i = 0; i < 9; i++) {
    auto u = static_cast<mem::MemoryUnitEnum>(i);
    MON_CHECK(mem::getMemoryUnitName(u) == units[i] && mem::getUnitFromString(units[i]) == u, "memory:name", "unit %d is %s", i, mem::getMemoryUnitName(u).c_str());
  }
  mon::distinct(mon::mix(b, 3));
}

static void times() {
  mon::scenario("time-text");
  double t = (rng().chance(.2) ? -1 : 1) * (1 + rng().unit() * 9) * std::pow(10., double(rng()(30)) - 15);
  if (rng().chance(.1)) t = std::pow(10., double(rng()(20)) - 10); if (rng().chance(.05)) t = 0; if (rng().chance(.1)) t = 999.9999 * std::pow(1000., double(rng()(5)) - 3);
  std::string s = fmt::format("{}", vt::TimeType{t});
  mon::eval(); mon::stat("times_printed");
  char* end = nullptr; double back = strtod(s.c_str(), &end);
  MON_CHECK(std::fabs(back - t) <= 6e-5 * std::fabs(t), "time:text", "%.17g printed as \"%s\"", t, s.c_str());
  std::string rest = end; while (!rest.empty() && rest[0] == ' ') rest.erase(0, 1);
  MON_CHECK(rest == "s", "time:unit", "%.17g printed as \"%s\"", t, s.c_str());
  size_t e = s.find('e'); int ex = e == std::string::npos ? 1 : atoi(s.c_str() + e + 1);
  MON_CHECK(ex % 3 == 0, "time:engineering", "%.17g printed as \"%s\"", t, s.c_str());
  mon::distinct(mon::hashStr(s));
}

int main() {
  return comp::run([] {
    int n = mon::thorough() ? 60000 : 8000;
    for (int i = 0; i < n; i++) { names(); memory(); times(); if (i % 1000 == 0) mon::sample(type(3)); }
  });
}
