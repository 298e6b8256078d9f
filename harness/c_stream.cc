// C20: compressed streams and the JSON files written through them: what was written is what is read.
#include "comp.h"
#include <vt/config.h>
#include <vt/utils/compress/compressor.h>
#include <vt/utils/compress/decompressor.h>
#include <vt/utils/json/json_appender.h>
#include <vt/utils/json/json_reader.h>
#include <vt/utils/json/decompression_input_container.h>
#include <vt/utils/json/input_iterator.h>
#include <nlohmann/json.hpp>
#include <sstream>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

using comp::rng;
using nlohmann::json;
namespace vc = vt::util::compress;
namespace vj = vt::util::json;

static std::string data(size_t n) {
  std::string s(n, 0);
  int style = int(rng()(4));
  for (size_t i = 0; i < n; i++) s[i] = style == 0 ? char(rng().next()) : style == 1 ? char('a' + rng()(3)) : style == 2 ? char(i / 7) : char(rng().chance(.02) ? rng()(256) : 'x');
  return s;
}
static size_t length(size_t cap) {
  switch (rng()(5)) {
  case 0: return rng()(4);
  case 1: { size_t e[] = {255, 256, 1023, 1024, 4095, 4096, 65535, 65536, 65537, 131071, 131072, 131073}; return std::min(cap, e[rng()(12)]); }
  default: return rng()(std::min<size_t>(cap, size_t(1) << (2 + rng()(16))));
  }
}
static std::string squeeze(std::string const& in, bool random) {
  std::ostringstream os;
  auto q = int(random ? rng()(12) : 8), w = int(random ? 10 + rng()(15) : 20);
  if (rng().chance(.05)) q = 50; if (rng().chance(.05)) w = 3;
  vc::Compressor c(q, w, random && rng().chance(.5) ? 1 + rng()(300) : 1 << 20);
  size_t at = 0; int writes = 0;
  while (at < in.size()) {
    size_t n = std::min(in.size() - at, rng().chance(.3) ? 1 + rng()(5) : 1 + rng()(in.size()));
    if (rng().chance(.05)) c.write(os, reinterpret_cast<uint8_t const*>(in.data()) + at, 0);
    bool ok = c.write(os, reinterpret_cast<uint8_t const*>(in.data()) + at, n);
    MON_CHECK(ok, "stream:write", "write of %zu bytes at %zu failed", n, at);
    at += n; if (++writes > 4000) { c.write(os, reinterpret_cast<uint8_t const*>(in.data()) + at, in.size() - at); at = in.size(); }
  }
  MON_CHECK(c.finish(os), "stream:finish", "%zu bytes", in.size());
  return os.str();
}
static std::string expand(std::string const& z, size_t inbuf, size_t chunk, size_t limit) {
  std::string out;
  vc::Decompressor<std::istringstream> d(std::istringstream(z), inbuf);
  std::vector<uint8_t> b(chunk);
  while (!d.done()) {
    size_t want = 1 + rng()(chunk);
    size_t n = d.read(b.data(), want);
    MON_CHECK(n <= want, "stream:read-size", "%zu of %zu", n, want);
    out.append(reinterpret_cast<char*>(b.data()), n);
    if (out.size() > limit) break;
    MON_CHECK(n == want || d.done(), "stream:short-read", "%zu of %zu bytes, stream not done", n, want);
    if (n != want && !d.done()) break;
    mon::progress();
  }
  return out;
}

static void bytes() {
  mon::scenario("bytes");
  std::string in = data(length(mon::thorough() ? 1000000 : 200000)), z = squeeze(in, true);
  std::string out = expand(z, rng().chance(.4) ? 1 + rng()(40) : 1 << 16, rng().chance(.3) ? 1 + rng()(20) : 1 + rng()(70000), in.size() + 100);
  mon::eval(); mon::stat("streams"); mon::stat("stream_bytes", in.size());
  MON_CHECK(out == in, "stream:round-trip", "%zu bytes came back as %zu", in.size(), out.size());
  mon::distinct(mon::mix(in.size(), z.size()));
}

static std::string text(bool wide) {
  std::string s; size_t n = rng()(12);
  static char const* bits[] = {"a", "Z", "0", " ", "\"", "\\", "/", "\n", "\t", "\x01", "{", "}", "[", "]", ":", ",", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"};
  for (size_t i = 0; i < n; i++) s += bits[rng()(wide ? 19 : 3)];
  return s;
}
static json value(int depth) {
  switch (rng()(depth > 0 ? 8 : 6)) {
  case 0: return nullptr;
  case 1: return rng().chance(.5);
  case 2: return int64_t(rng().next() >> rng()(64));
  case 3: return uint64_t(rng().next());
  case 4: { double d = (rng().unit() - .5) * std::pow(10., double(rng()(40)) - 20); return d; }
  case 5: return text(true);
  case 6: { json a = json::array(); for (size_t i = rng()(5); i-- > 0;) a.push_back(value(depth - 1)); return a; }
  default: { json o = json::object(); for (size_t i = rng()(5); i-- > 0;) o[text(true)] = value(depth - 1); return o; }
  }
}
static json parse(vj::DecompressionInputContainer const& c) { return json::parse(c); }

static void documents(int k) {
  mon::scenario("documents");
  bool compress = rng().chance(.7);
  std::string file = mon::dir() + "/doc" + std::to_string(k), array = rng().chance(.5) ? "phases" : "a" + std::to_string(rng()(99));
  json meta = rng().chance(.2) ? json::object() : value(3), want; 
  want["metadata"] = meta; want[array] = json::array();
  size_t n = rng().chance(.15) ? 0 : rng()(30), staged = 0;
  if (rng().chance(.1)) n = 2000;
  // lengths around the chunks the reader works with
  size_t pad = rng().chance(.3) ? 65536 * (1 + rng()(2)) + rng()(5) : 0;
  std::stringstream mem;
  {
    vj::Appender<std::ofstream> a(array, meta, file, compress);
    vj::Appender<std::stringstream> m(array, meta, std::stringstream{}, compress);
    for (size_t i = 0; i < n; i++) {
      json e = value(3);
      if (rng().chance(.2)) {
        json o = json::object();
        for (size_t p = 1 + rng()(3); p-- > 0;) { json part = json::object(); for (size_t q = 1 + rng()(3); q-- > 0;) part[text(false)] = value(2); for (auto& kv : part.items()) o[kv.key()] = kv.value(); a.stageObject(part); m.stageObject(part); }
        a.commitStaged(); m.commitStaged(); want[array].push_back(o); staged++;
        if (rng().chance(.3)) { a.commitStaged(); m.commitStaged(); }    // nothing staged: nothing added
      } else { a.addElm(e); m.addElm(e); want[array].push_back(e); }
    }
    if (pad) {
      // the last element brings the whole document to a chosen length
      size_t len = json(want).dump().size();
      if (len + 10 < pad) { std::string s(pad - len - 2 - (want[array].empty() ? 0 : 1), 'p'); a.addElm(s); m.addElm(s); want[array].push_back(s); mon::stat("documents_of_exact_length"); }
    }
    if (rng().chance(.5)) a.finish();
    mem = m.finish();
  }
  mon::eval(2); mon::stat("documents"); mon::stat("staged", staged); if (compress) mon::stat("compressed_documents");
  vj::Reader r(file);
  MON_CHECK(r.isCompressed() == compress, "json:is-compressed", "document of %zu elements: %d", n, int(r.isCompressed()));
  try {
    auto got = r.readFile();
    MON_CHECK(*got == want, "json:round-trip", "file of %zu elements, %zu bytes: differs", n, want.dump().size());
  } catch (json::exception const& e) { mon::violation("json:unreadable", "file of %zu elements, %zu bytes: %s", n, want.dump().size(), e.what()); }
  std::string raw = mem.str();
  try {
    if (compress) {
      size_t chunk = rng().chance(.5) ? 1 + rng()(64) : 1 + rng()(70000);
      vj::DecompressionInputContainer c(vj::DecompressionInputContainer::AnyStreamTag{}, std::istringstream(raw), chunk);
      json got = parse(c); mon::eval();
      MON_CHECK(got == want, "json:chunked", "document of %zu bytes in chunks of %zu: differs", want.dump().size(), chunk);
    } else {
      MON_CHECK(json::parse(raw) == want, "json:stream", "document of %zu bytes: %s", raw.size(), json::diff(json::parse(raw), want).dump().c_str());
      // white space before a document does not make it a compressed one
      std::string ws; for (size_t i = rng()(5); i-- > 0;) ws += " \t\n"[rng()(3)];
      { std::ofstream f(file); f << ws << raw; }
      vj::Reader r2(file);
      MON_CHECK(!r2.isCompressed(), "json:is-compressed", "after %zu white spaces", ws.size());
      if (!r2.isCompressed()) MON_CHECK(*r2.readFile() == want, "json:round-trip", "after white space");
    }
  } catch (json::exception const& e) { mon::violation("json:unreadable", "stream of %zu elements, %zu bytes: %s", n, want.dump().size(), e.what()); }
  unlink(file.c_str());
  mon::distinct(mon::mix(want.dump().size(), compress));
}

// every character of a text read through the container is that of the text, at any chunk size
static void characters() {
  mon::scenario("characters");
  size_t chunk = 1 + rng()(rng().chance(.5) ? 12 : 5000);
  size_t n = rng().chance(.6) ? chunk * (1 + rng()(4)) + rng()(3) : 1 + rng()(8000);
  std::string in = data(n), got;
  vj::DecompressionInputContainer c(vj::DecompressionInputContainer::AnyStreamTag{}, std::istringstream(squeeze(in, false)), chunk);
  for (auto it = vj::begin(c); it != vj::end(c); ++it) { got += *it; if (got.size() > n + 10) break; }
  mon::eval(); mon::stat("containers");
  MON_CHECK(got == in, "json:characters", "%zu characters in chunks of %zu came back as %zu", in.size(), chunk, got.size());
  mon::distinct(mon::mix(n, chunk));
}

// a stream cut short or with something after its end is refused, and no damaged stream breaks the process
static void damaged() {
  mon::scenario("damaged");
  std::string in = data(1 + length(30000)), z = squeeze(in, true), bad = z;
  int kind = int(rng()(4));
  if (kind == 0) bad.resize(rng()(z.size())); else if (kind == 1) bad += data(1 + rng()(20)); else for (size_t i = 1 + rng()(6); i-- > 0;) bad[rng()(bad.size())] ^= char(1 + rng()(255));
  uint64_t s = rng().next();
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    int fd = open((mon::dir() + "/child").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    dup2(fd, 1); dup2(fd, 2);
    const_cast<vt::arguments::AppConfig*>(vt::debug::preConfig())->vt_throw_on_abort = false;
    rng() = mon::Rng(s); alarm(60);
    vc::Decompressor<std::istringstream> d(std::istringstream(bad), 1 + rng()(5000));
    std::vector<uint8_t> b(70000); size_t total = 0;
    while (!d.done() && total < 50000000) { size_t n = d.read(b.data(), 1 + rng()(b.size() - 1)); total += n; if (!n && !d.done()) _exit(9); }
    _exit(d.done() ? 0 : 8);
  }
  int st = 0; waitpid(p, &st, 0);
  mon::eval(); mon::stat(kind == 0 ? "cut_streams" : kind == 1 ? "extended_streams" : "corrupted_streams");
  MON_CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 88 && WEXITSTATUS(st) != 9, "stream:damaged-crash", "kind %d, %zu bytes: status %x", kind, bad.size(), st);
  bool accepted = WIFEXITED(st) && WEXITSTATUS(st) == 0;
  MON_CHECK(kind > 1 || !accepted, kind == 0 ? "stream:cut-accepted" : "stream:tail-accepted", "stream of %zu bytes, %zu given", z.size(), bad.size());
  if (!accepted) mon::stat("refused");
}

int main() {
  return comp::run([] {
    int n = mon::thorough() ? 900 : 130;
    for (int i = 0; i < n; i++) {
      bytes(); documents(i); characters(); characters(); damaged();
      mon::sample(mon::fmt("round %d: stream, document, characters, damaged stream", i));
    }
  });
}
