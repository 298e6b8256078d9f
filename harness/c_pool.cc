// C15: the message memory pool against a model of disjoint, stable blocks.
#include "comp.h"
#include <vt/config.h>
#include <vt/pool/pool.h>
#include <vt/pool/header/pool_header.h>
#include <vt/pool/static_sized/memory_pool_equal.h>
#include <memory>

using comp::rng;
using std::byte;

struct Block { size_t n, over; uint64_t id; size_t total() const { return n + over; } };

static void fill(byte* p, size_t from, size_t to, uint64_t id) {
  for (size_t i = from; i < to; i++) p[i] = byte(mon::mix(id, i / 8) >> (8 * (i & 7)));
}
static long diff(byte const* p, size_t n, uint64_t id) {
  for (size_t i = 0; i < n; i++) if (p[i] != byte(mon::mix(id, i / 8) >> (8 * (i & 7)))) return long(i);
  return -1;
}
static size_t pickSize() {
  static size_t const edges[] = {0, 1, 8, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 160, 200, 250, 255, 256, 257, 384, 500, 511, 512, 513, 600, 1000, 1008, 1016, 1023, 1024, 1025, 1040, 1100, 2000, 4096};
  size_t s = vt::pool::memory_size_small, m = vt::pool::memory_size_medium;
  switch (rng()(5)) {
  case 0: return edges[rng()(sizeof edges / sizeof *edges)];
  case 1: return s - 3 + rng()(7);
  case 2: return m - 3 + rng()(7);
  case 3: return rng()(s + 4);
  default: return rng()(1500);
  }
}
static char const* kind(size_t total) { return total <= size_t(vt::pool::memory_size_small) ? "small" : total <= size_t(vt::pool::memory_size_medium) ? "medium" : "large"; }

static void poolOps(int ops, int style) {
  mon::scenario("pool");
  auto pool = std::make_unique<vt::pool::Pool>();
  std::map<byte*, Block> live;      // by address
  uint64_t ids = rng().next();
  auto judge = [&](byte* p, Block const& b, char const* when) {
    mon::eval();
    long d = diff(p, b.total(), b.id);
    MON_CHECK(d < 0, "pool:contents", "%s: block of %zu+%zu bytes changed at %ld", when, b.n, b.over, d);
    MON_CHECK(pool->allocatedSize(p) == vt::pool::Pool::SizeType(b.total()), "pool:allocated-size", "%s: allocatedSize %lld of %zu+%zu", when, (long long)pool->allocatedSize(p), b.n, b.over);
  };
  auto disjoint = [&](byte* p, size_t n) {
    auto it = live.upper_bound(p);
    if (it != live.end() && p + std::max<size_t>(n, 1) > it->first) return false;
    if (it != live.begin()) { --it; if (it->first + std::max<size_t>(it->second.total(), 1) > p) return false; }
    return true;
  };
  auto pick = [&] { auto it = live.begin(); std::advance(it, rng()(live.size())); return it; };
  size_t target = style == 0 ? 30 : style == 1 ? 2600 : 200;
  for (int i = 0; i < ops; i++) {
    bool grow = live.size() < target ? rng().chance(.62) : rng().chance(.4);
    double u = rng().unit();
    if (u < .72) {
      if (grow || live.empty()) {
        size_t n = pickSize(), o = rng().chance(.5) ? 0 : rng().chance(.5) ? rng()(64) : pickSize();
        byte* p = pool->alloc(n, o);
        mon::stat(std::string("alloc_") + kind(n + o));
        MON_CHECK(p != nullptr, "pool:null", "alloc(%zu,%zu)", n, o);
        MON_CHECK(disjoint(p, n + o), "pool:overlap", "alloc(%zu,%zu) returned memory of a live block", n, o);
        MON_CHECK(reinterpret_cast<uintptr_t>(p) % alignof(std::max_align_t) == 0, "pool:alignment", "alloc(%zu,%zu) is not aligned", n, o);
        Block b{n, o, ids++};
        fill(p, 0, b.total(), b.id);
        live[p] = b;
        judge(p, b, "new");
        auto rem = pool->remainingSize(p);
        MON_CHECK(rem >= vt::pool::Pool::SizeType(o), "pool:remaining", "remainingSize %lld after alloc(%zu,%zu)", (long long)rem, n, o);
        // all of the remaining bytes after the requested ones may be written
        if (rem > 0) { memset(p + n, 0x5a, size_t(rem)); fill(p, n, b.total(), b.id); }
        mon::distinct(mon::mix(n, o));
      } else {
        auto it = pick();
        judge(it->first, it->second, "before free");
        memset(it->first, 0xee, it->second.total());
        byte* p = it->first;
        live.erase(it);
        pool->dealloc(p);
        mon::stat("free");
      }
    } else if (u < .85 && !live.empty()) {
      auto it = pick();
      Block& b = it->second;
      size_t g = rng().chance(.3) ? b.over : rng().chance(.5) ? rng()(64) : rng().chance(.5) ? size_t(std::max<int64_t>(0, int64_t(pool->remainingSize(it->first)))) : rng()(900);
      bool ok = pool->tryGrowAllocation(it->first, g);
      mon::eval();
      if (ok) {
        mon::stat("grown");
        size_t t = b.total();
        b.n += g;
        // the new end is the old end plus what was granted: all of it belongs to the block now
        fill(it->first, t, b.total(), b.id);
        auto nx = std::next(it);
        MON_CHECK(nx == live.end() || it->first + b.total() <= nx->first, "pool:grown-into-neighbour", "grown to %zu+%zu", b.n, b.over);
        mon::distinct(mon::mix(b.n * 8192 + b.over, g + 1000000));
      }
      judge(it->first, b, ok ? "after growing" : "after a refused growth");
    } else if (!live.empty()) {
      auto it = pick();
      judge(it->first, it->second, "at rest");
    }
    if (i % 200 == 0) for (auto& x : live) judge(x.first, x.second, "sweep");
  }
  for (auto& x : live) { judge(x.first, x.second, "end"); }
  while (!live.empty()) { auto it = rng().chance(.5) ? live.begin() : std::prev(live.end()); pool->dealloc(it->first); live.erase(it); }
  // what was given back is used again: blocks of a size class come out intact and disjoint
  std::vector<std::pair<byte*, Block>> again;
  for (int i = 0; i < 300; i++) {
    size_t n = rng().chance(.5) ? size_t(vt::pool::memory_size_small) - rng()(4) : size_t(vt::pool::memory_size_medium) - rng()(4);
    byte* p = pool->alloc(n, 0);
    Block b{n, 0, ids++};
    fill(p, 0, n, b.id);
    again.emplace_back(p, b);
  }
  for (auto& x : again) judge(x.first, x.second, "reused");
  for (auto& x : again) pool->dealloc(x.first);
  mon::stat("pools");
}

template <typename P> static void equalOps(P& pool, size_t max, int ops) {
  mon::scenario("equal-pool");
  std::vector<std::pair<byte*, Block>> live;
  uint64_t ids = rng().next();
  std::set<byte*> addr;
  for (int i = 0; i < ops; i++) {
    if (live.empty() || rng().chance(live.size() < 150 ? .6 : .45)) {
      size_t n = rng().chance(.3) ? max : rng()(max + 1), o = rng()(max - n + 1);
      byte* p = pool.alloc(n, o);
      MON_CHECK(addr.insert(p).second, "pool:same-block-twice", "slot pool gave out a live block");
      MON_CHECK(vt::pool::HeaderManager::getHeaderBytes(p) == n && vt::pool::HeaderManager::getHeaderOversizeBytes(p) == o, "pool:header", "header of (%zu,%zu)", n, o);
      Block b{n, o, ids++};
      memset(p, 0x11, max); fill(p, 0, max, b.id);
      live.emplace_back(p, b);
      mon::stat("equal_alloc");
    } else {
      size_t k = rng().chance(.3) ? live.size() - 1 : rng()(live.size());
      auto x = live[k]; live[k] = live.back(); live.pop_back();
      long d = diff(x.first, max, x.second.id);
      mon::eval();
      MON_CHECK(d < 0, "pool:contents", "slot changed at %ld", d);
      addr.erase(x.first);
      pool.dealloc(x.first);
    }
    mon::distinct(mon::mix(i, live.size()));
  }
  for (auto& x : live) pool.dealloc(x.first);
}

static void headers() {
  mon::scenario("pool-header");
  using H = vt::pool::HeaderManager;
  for (int i = 0; i < 200; i++) {
    size_t n = rng().chance(.2) ? size_t(1) << rng()(40) : pickSize(), o = rng().chance(.2) ? size_t(1) << rng()(40) : pickSize();
    alignas(16) byte buf[256];
    memset(buf, 0x77, sizeof buf);
    auto p = H::setHeader(n, o, buf);
    mon::eval();
    MON_CHECK(p > buf && p < buf + 128, "pool:header-offset", "offset %ld", long(p - buf));
    MON_CHECK(H::getHeaderBytes(p) == n && H::getHeaderOversizeBytes(p) == o && H::getHeaderPtr(p) == buf, "pool:header", "(%zu,%zu) read back as (%zu,%zu)", n, o, H::getHeaderBytes(p), H::getHeaderOversizeBytes(p));
    for (auto q = p; q < buf + sizeof buf; q++) if (*q != byte(0x77)) { mon::violation("pool:header-overwrites", "setHeader wrote %ld bytes past the header", long(q - p)); break; }
  }
}

int main() {
  return comp::run([] {
    int R = int(mon::argi("ROUNDS", 3));
    for (int r = 0; r < R; r++) {
      poolOps(3000, 0);
      poolOps(7000, 1);
      poolOps(3000, 2);
      { vt::pool::MemoryPoolEqual<vt::pool::memory_size_small> p(rng().chance(.3) ? 2 : 1 + rng()(40)); equalOps(p, vt::pool::memory_size_small, 1500); }
      { vt::pool::MemoryPoolEqual<vt::pool::memory_size_medium> p(64); equalOps(p, vt::pool::memory_size_medium, 1500); }
      headers();
    }
  });
}
