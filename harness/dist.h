// Shared skeleton of the harnesses that run the whole runtime under mpirun.
#pragma once
#include "mon.h"
#include "chaos.h"
#include <vt/transport.h>
#include <mpi.h>
#include <functional>

namespace dist {

inline MPI_Comm& comm() { static MPI_Comm c = MPI_COMM_NULL; return c; }
inline int& me() { static int r = 0; return r; }
inline int& np() { static int r = 1; return r; }
inline mon::Rng& shared() { static mon::Rng r(mon::mix(mon::seed(), 5)); return r; }      // same on all ranks
inline mon::Rng& local() { static mon::Rng r(mon::mix(mon::seed(), 900 + me())); return r; }  // differs

// Wait for all ranks while the runtime keeps making progress.  Uses MPI on the side: independent
// of the code being judged.
inline void syncAll() {
  MPI_Request req; PMPI_Ibarrier(comm(), &req);
  int done = 0;
  while (!done) {
    PMPI_Test(&req, &done, MPI_STATUS_IGNORE);
    if (!done && vt::curRT && vt::curRT->theSched) vt::theSched()->runSchedulerOnceImpl();
  }
  mon::progress();
}
template <typename T> std::vector<std::vector<T>> gather(std::vector<T> const& v) {
  syncAll();
  int n = int(v.size() * sizeof(T));
  std::vector<int> cnt(np()), off(np());
  PMPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, comm());
  int tot = 0;
  for (int i = 0; i < np(); i++) { off[i] = tot; tot += cnt[i]; }
  std::vector<char> buf(tot + 1);
  PMPI_Allgatherv(v.data(), n, MPI_BYTE, buf.data(), cnt.data(), off.data(), MPI_BYTE, comm());
  std::vector<std::vector<T>> out(np());
  for (int i = 0; i < np(); i++) {
    out[i].resize(cnt[i] / sizeof(T));
    if (cnt[i]) memcpy(out[i].data(), buf.data() + off[i], cnt[i]);
  }
  return out;
}
inline int64_t sumAll(int64_t x) {
  syncAll(); int64_t r = 0;
  PMPI_Allreduce(&x, &r, 1, MPI_INT64_T, MPI_SUM, comm());
  return r;
}
inline bool isAnyRank(bool b) { return sumAll(b ? 1 : 0) > 0; }

// body runs between vt initialize and finalize; post runs after finalize
inline int run(int argc, char** argv, std::function<void()> body, std::function<void()> post = nullptr) {
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &me());
  MPI_Comm_size(MPI_COMM_WORLD, &np());
  PMPI_Comm_dup(MPI_COMM_WORLD, &comm());
  mon::start(me());
  chaos::configure(mon::seed(), me());
  MPI_Comm c = MPI_COMM_WORLD;
  mon::scenario("initialize");
  std::vector<char*> av(argv, argv + argc);
  static char nodetect[] = "--vt_no_detect_hang";   // its wave counter would fire while a rank waits in syncAll; mon::poll decides hangs
  av.push_back(nodetect); av.push_back(nullptr);
  argc = int(av.size()) - 1; argv = av.data();
  vt::initialize(argc, argv, &c);
  // keeps the global epoch open: between two pieces of work the runtime would otherwise, rightly, find that all is done
  vt::theTerm()->produce(vt::term::any_epoch_sentinel);
  body();
  syncAll();
  vt::theTerm()->consume(vt::term::any_epoch_sentinel);
  mon::scenario("finalize");
  vt::finalize();
  mon::progress();
  if (post) post();
  chaos::report();
  mon::distinct(mon::mix(chaos::schedule(), 0xabc));
  mon::finish();
  PMPI_Barrier(comm());
  MPI_Finalize();
  return 0;
}

inline uint64_t payloadWord(uint64_t id, uint64_t i) { return mon::mix(id, i * 2654435761u + 17); }
inline void fill(void* p, size_t n, uint64_t id) {
  auto c = static_cast<unsigned char*>(p);
  for (size_t i = 0; i < n; i++) c[i] = (unsigned char)(payloadWord(id, i >> 3) >> ((i & 7) * 8));
}
inline long mismatch(void const* p, size_t n, uint64_t id) {   // -1 when equal
  auto c = static_cast<unsigned char const*>(p);
  for (size_t i = 0; i < n; i++)
    if (c[i] != (unsigned char)(payloadWord(id, i >> 3) >> ((i & 7) * 8))) return long(i);
  return -1;
}

} // namespace dist
