// One-sided communication for ranks of one machine, in place of the MPI library's own (whose components either
// need hardware this sandbox lacks or are unreliable here). It has the semantics of the MPI standard and uses all the
// freedom the standard leaves: operations take effect as late as allowed, buffers of reads hold garbage until the
// operation is complete, requests complete late. It checks the rules the caller has to keep.
#include <mpi.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <atomic>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "mon.h"

namespace {

struct Head { std::atomic<int> lock; std::atomic<int> busy; };  // lock: -1 exclusive, n shared

struct Mem { std::string file; std::size_t size, bytes; char* map; char* base; int attached = 0; };

std::size_t const page = 4096;

std::map<void*, Mem>& mems() { static std::map<void*, Mem> m; return m; }

mon::Rng& rng() { static mon::Rng r(mon::mix(mon::seed(), 0x817)); return r; }

std::size_t pages(std::size_t n) { return (n + page - 1) / page * page; }

// header page, then the data ending at a page boundary, then a page nobody may touch
char* attach(std::string const& file, std::size_t size) {
  int fd = open(file.c_str(), O_RDWR);
  if (fd < 0) { perror(file.c_str()); abort(); }
  auto n = page + pages(size);
  char* m = static_cast<char*>(mmap(nullptr, n + page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  if (mmap(m, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); abort(); }
  close(fd);
  return m;
}

enum Kind { PUT, GET, ACC, FETCH };

struct Op {
  Kind kind; int target; void const* origin; void* result; char* at; int n; std::size_t bytes; MPI_Datatype type; MPI_Op op;
  std::vector<char> copy; bool done = false;
};

struct Win {
  MPI_Comm comm; void* base; int rank, size; bool fenced = false;
  std::vector<char*> map; std::vector<std::size_t> bytes, extent; std::vector<int> unit, held;
  std::vector<std::deque<std::shared_ptr<Op>>> todo;
  Head* head(int r) { return reinterpret_cast<Head*>(map[r]); }
  char* data(int r) { return map[r] + page + pages(bytes[r]) - bytes[r]; }
};

std::map<Win*, std::unique_ptr<Win>>& wins() { static std::map<Win*, std::unique_ptr<Win>> m; return m; }
std::map<MPI_Request, std::shared_ptr<Op>>& requests() { static std::map<MPI_Request, std::shared_ptr<Op>> m; return m; }

Win* get(MPI_Win w, char const* who) {
  auto it = wins().find(reinterpret_cast<Win*>(w));
  if (it != wins().end()) return it->first;
  mon::violation("rdma:no-window", "%s on a window that does not exist (any more)", who);
  return nullptr;
}

void apply(Win& w, Op& o) {
  if (o.done) return;
  o.done = true;
  void const* from = o.copy.empty() ? o.origin : o.copy.data();
  auto& busy = w.head(o.target)->busy;
  if (o.kind >= ACC) while (busy.exchange(1)) sched_yield();
  if (o.kind == GET || o.kind == FETCH) memcpy(o.result, o.at, o.bytes);
  if (o.kind == PUT || (o.kind >= ACC && o.op == MPI_REPLACE)) memcpy(o.at, from, o.bytes);
  else if (o.kind >= ACC && o.op != MPI_NO_OP) PMPI_Reduce_local(from, o.at, o.n, o.type, o.op);
  if (o.kind >= ACC) busy = 0;
}

void flush(Win& w, int r) {
  for (auto& o : w.todo[r]) apply(w, *o);
  w.todo[r].clear();
  std::atomic_thread_fence(std::memory_order_seq_cst);
}

std::shared_ptr<Op> issue(char const* who, MPI_Win win, Kind k, void const* origin, void* result, int n, MPI_Datatype t, int target, MPI_Aint disp, MPI_Op op) {
  auto w = get(win, who);
  if (w == nullptr) return nullptr;
  auto o = std::make_shared<Op>();
  int ts = 0;
  PMPI_Type_size(t, &ts);
  o->kind = k, o->target = target, o->origin = origin, o->result = result, o->n = n, o->bytes = std::size_t(ts) * n, o->type = t, o->op = op;
  mon::stat("win.operations");
  if (target < 0 || target >= w->size) { mon::violation("rdma:no-target", "%s of a window of %d ranks names rank %d", who, w->size, target); return nullptr; }
  if (!w->held[target] && !w->fenced) { mon::violation("rdma:no-access-epoch", "%s on rank %d without holding a lock of its window", who, target); return nullptr; }
  if (n < 0 || disp < 0 || std::size_t(disp) * w->unit[target] + o->bytes > w->extent[target]) {
    mon::violation("rdma:out-of-window", "%s of %d times %d bytes at %ld in the window of rank %d, which has %zu cells of %d bytes", who, n, ts, long(disp), target, w->extent[target] / w->unit[target], w->unit[target]);
    return nullptr;
  }
  o->at = w->data(target) + std::size_t(disp) * w->unit[target];
  if (k == GET || k == FETCH) memset(result, 0xA5, o->bytes);
  w->todo[target].push_back(o);
  if (rng().chance(0.3)) flush(*w, target);
  return o;
}

int query(void*, MPI_Status* s) { PMPI_Status_set_elements(s, MPI_BYTE, 0); PMPI_Status_set_cancelled(s, 0); s->MPI_SOURCE = MPI_UNDEFINED; s->MPI_TAG = MPI_UNDEFINED; return MPI_SUCCESS; }
int release(void*) { return MPI_SUCCESS; }
int cancel(void*, int) { return MPI_SUCCESS; }

int request(std::shared_ptr<Op> o, MPI_Request* req) {
  PMPI_Grequest_start(query, release, cancel, nullptr, req);
  if (o == nullptr) return PMPI_Grequest_complete(*req);
  requests()[*req] = o;
  return MPI_SUCCESS;
}

Win* owner(Op& o) {
  for (auto& w : wins()) for (auto& p : w.second->todo[o.target < w.second->size ? o.target : 0]) if (p.get() == &o) return w.first;
  return nullptr;
}

// local completion: a read has its value, a write no longer needs its buffer
void maybeComplete(MPI_Request req) {
  auto it = requests().find(req);
  if (it == requests().end() || rng().chance(0.5)) { if (it != requests().end()) mon::stat("win.requests_late"); return; }
  auto o = it->second;
  requests().erase(it);
  if (!o->done) {
    if (o->kind == PUT || o->kind == ACC) {
      if (o->copy.empty() && o->bytes) o->copy.assign(static_cast<char const*>(o->origin), static_cast<char const*>(o->origin) + o->bytes);
    } else if (auto w = owner(*o)) flush(*w, o->target);
  }
  PMPI_Grequest_complete(req);
}

} // namespace

namespace win {
// called by the MPI_Test of the delivery layer
void poll(MPI_Request req) { maybeComplete(req); }
} // namespace win

extern "C" {

int MPI_Alloc_mem(MPI_Aint size, MPI_Info, void* out) {
  static int count = 0;
  char const* dir = getenv("MON_DIR");
  Mem m;
  m.file = mon::fmt("%s/win.%d.%d", dir ? dir : "/tmp", int(getpid()), count++), m.size = size, m.bytes = page + pages(size);
  int fd = open(m.file.c_str(), O_RDWR | O_CREAT | O_EXCL, 0600);
  if (fd < 0 || ftruncate(fd, m.bytes) != 0) { perror(m.file.c_str()); abort(); }
  close(fd);
  m.map = attach(m.file, size), m.base = m.map + page + pages(size) - size;
  memset(m.base, 0xA5, size);
  *static_cast<void**>(out) = m.base;
  mems()[m.base] = m;
  return MPI_SUCCESS;
}

int MPI_Free_mem(void* p) {
  auto it = mems().find(p);
  if (it == mems().end()) { mon::violation("rdma:free-unknown", "MPI_Free_mem of memory that MPI_Alloc_mem did not give, or that was freed"); return MPI_SUCCESS; }
  if (it->second.attached) mon::violation("rdma:free-attached", "MPI_Free_mem of memory that is part of a window");
  munmap(it->second.map, it->second.bytes + page);
  unlink(it->second.file.c_str());
  mems().erase(it);
  return MPI_SUCCESS;
}

int MPI_Win_create(void* base, MPI_Aint size, int unit, MPI_Info, MPI_Comm comm, MPI_Win* out) {
  auto w = std::make_unique<Win>();
  PMPI_Comm_dup(comm, &w->comm);
  PMPI_Comm_rank(w->comm, &w->rank);
  PMPI_Comm_size(w->comm, &w->size);
  struct Info { char file[256]; std::size_t bytes, extent; int unit; } me{};
  auto it = mems().find(base);
  if (it == mems().end()) { fprintf(stderr, "MPI_Win_create of memory not from MPI_Alloc_mem\n"); abort(); }
  if (std::size_t(size) > it->second.size) mon::violation("rdma:window-too-large", "a window of %ld bytes over %zu allocated", long(size), it->second.size);
  it->second.attached++;
  snprintf(me.file, sizeof me.file, "%s", it->second.file.c_str()), me.bytes = it->second.size, me.extent = size, me.unit = unit;
  std::vector<Info> all(w->size);
  PMPI_Allgather(&me, sizeof me, MPI_BYTE, all.data(), sizeof me, MPI_BYTE, w->comm);
  w->base = base, w->held.assign(w->size, 0), w->todo.resize(w->size);
  for (int r = 0; r < w->size; r++) {
    w->map.push_back(r == w->rank ? it->second.map : attach(all[r].file, all[r].bytes));
    w->bytes.push_back(all[r].bytes), w->extent.push_back(all[r].extent), w->unit.push_back(all[r].unit);
  }
  PMPI_Barrier(w->comm);
  *out = reinterpret_cast<MPI_Win>(w.get());
  wins()[w.get()] = std::move(w);
  mon::stat("win.windows");
  return MPI_SUCCESS;
}

int MPI_Win_free(MPI_Win* win) {
  auto w = get(*win, "MPI_Win_free");
  if (w == nullptr) return MPI_SUCCESS;
  for (int r = 0; r < w->size; r++) if (w->held[r]) mon::violation("rdma:free-locked", "a window is freed while its lock on rank %d is held", r);
  PMPI_Barrier(w->comm);
  for (int r = 0; r < w->size; r++) if (r != w->rank) munmap(w->map[r], page + pages(w->bytes[r]) + page);
  mems()[w->base].attached--;
  PMPI_Comm_free(&w->comm);
  wins().erase(w);
  *win = MPI_WIN_NULL;
  return MPI_SUCCESS;
}

int MPI_Win_lock(int type, int r, int, MPI_Win win) {
  auto w = get(win, "MPI_Win_lock");
  if (w == nullptr) return MPI_SUCCESS;
  if (r < 0 || r >= w->size) { mon::violation("rdma:no-target", "locking rank %d of a window of %d ranks", r, w->size); return MPI_SUCCESS; }
  if (w->held[r]) { mon::violation("rdma:lock-twice", "rank %d of a window is locked while its lock is held", r); return MPI_SUCCESS; }
  auto& l = w->head(r)->lock;
  for (;;) {
    int v = l.load();
    if (type == MPI_LOCK_EXCLUSIVE ? v == 0 : v >= 0) { if (l.compare_exchange_strong(v, type == MPI_LOCK_EXCLUSIVE ? -1 : v + 1)) break; }
    else { mon::stat("win.lock_waits"); usleep(50); mon::poll(); }
  }
  w->held[r] = type == MPI_LOCK_EXCLUSIVE ? 2 : 1;
  mon::stat(type == MPI_LOCK_EXCLUSIVE ? "win.exclusive_locks" : "win.shared_locks");
  if (rng().chance(0.05)) usleep(rng()(300));
  return MPI_SUCCESS;
}

int MPI_Win_unlock(int r, MPI_Win win) {
  auto w = get(win, "MPI_Win_unlock");
  if (w == nullptr) return MPI_SUCCESS;
  if (r < 0 || r >= w->size || !w->held[r]) { mon::violation("rdma:unlock-unlocked", "unlocking rank %d of a window, whose lock is not held", r); return MPI_SUCCESS; }
  flush(*w, r);
  auto& l = w->head(r)->lock;
  if (w->held[r] == 2) l = 0; else l--;
  w->held[r] = 0;
  return MPI_SUCCESS;
}

int MPI_Win_fence(int, MPI_Win win) {
  auto w = get(win, "MPI_Win_fence");
  if (w == nullptr) return MPI_SUCCESS;
  for (int r = 0; r < w->size; r++) flush(*w, r);
  PMPI_Barrier(w->comm);
  w->fenced = true;
  return MPI_SUCCESS;
}

int MPI_Win_sync(MPI_Win win) { get(win, "MPI_Win_sync"); std::atomic_thread_fence(std::memory_order_seq_cst); return MPI_SUCCESS; }

int MPI_Win_flush(int r, MPI_Win win) {
  auto w = get(win, "MPI_Win_flush");
  if (w == nullptr) return MPI_SUCCESS;
  if (r < 0 || r >= w->size || !w->held[r]) mon::violation("rdma:flush-unlocked", "flushing rank %d of a window, whose lock is not held", r); else flush(*w, r);
  return MPI_SUCCESS;
}

int MPI_Win_flush_local(int r, MPI_Win win) { return MPI_Win_flush(r, win); }

int MPI_Win_flush_all(MPI_Win win) {
  auto w = get(win, "MPI_Win_flush_all");
  if (w == nullptr) return MPI_SUCCESS;
  bool any = false;
  for (int r = 0; r < w->size; r++) if (w->held[r]) any = true, flush(*w, r);
  if (!any) mon::violation("rdma:flush-unlocked", "flushing a window without holding any lock of it");
  return MPI_SUCCESS;
}

int MPI_Put(void const* p, int n, MPI_Datatype t, int r, MPI_Aint d, int, MPI_Datatype, MPI_Win w) { issue("MPI_Put", w, PUT, p, nullptr, n, t, r, d, MPI_REPLACE); return MPI_SUCCESS; }
int MPI_Get(void* p, int n, MPI_Datatype t, int r, MPI_Aint d, int, MPI_Datatype, MPI_Win w) { issue("MPI_Get", w, GET, nullptr, p, n, t, r, d, MPI_NO_OP); return MPI_SUCCESS; }
int MPI_Accumulate(void const* p, int n, MPI_Datatype t, int r, MPI_Aint d, int, MPI_Datatype, MPI_Op op, MPI_Win w) { issue("MPI_Accumulate", w, ACC, p, nullptr, n, t, r, d, op); return MPI_SUCCESS; }
int MPI_Fetch_and_op(void const* p, void* q, MPI_Datatype t, int r, MPI_Aint d, MPI_Op op, MPI_Win w) { issue("MPI_Fetch_and_op", w, FETCH, p, q, 1, t, r, d, op); return MPI_SUCCESS; }
int MPI_Rput(void const* p, int n, MPI_Datatype t, int r, MPI_Aint d, int, MPI_Datatype, MPI_Win w, MPI_Request* req) { return request(issue("MPI_Rput", w, PUT, p, nullptr, n, t, r, d, MPI_REPLACE), req); }
int MPI_Rget(void* p, int n, MPI_Datatype t, int r, MPI_Aint d, int, MPI_Datatype, MPI_Win w, MPI_Request* req) { return request(issue("MPI_Rget", w, GET, nullptr, p, n, t, r, d, MPI_NO_OP), req); }
int MPI_Raccumulate(void const* p, int n, MPI_Datatype t, int r, MPI_Aint d, int, MPI_Datatype, MPI_Op op, MPI_Win w, MPI_Request* req) { return request(issue("MPI_Raccumulate", w, ACC, p, nullptr, n, t, r, d, op), req); }

int MPI_Testall(int n, MPI_Request* reqs, int* flag, MPI_Status* st) {
  for (int i = 0; i < n; i++) maybeComplete(reqs[i]);
  *flag = 0;  // instrumented, where the library is not
  return PMPI_Testall(n, reqs, flag, st);
}

} // extern "C"
