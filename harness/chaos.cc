// MPI interposition: makes the message layer hostile within what MPI allows.
//  - Iprobe: may report "nothing yet"; with MPI_ANY_SOURCE picks the source itself, in a random
//    order, and may starve a source for a long stretch (per-source order is MPI's, untouched)
//  - Test/Testall: may report "not complete yet"
//  - Isend: may become a synchronous send (no hidden buffering)
//  - a rank may stall for a while
#include "mon.h"
#include "chaos.h"
#include <mpi.h>
#include <sched.h>

namespace chaos {
Cfg& cfg() { static Cfg c; return c; }
static mon::Rng rng{1};
static bool inited = false;
static uint64_t freezeLeft = 0; static int frozen = -1;
static uint64_t stallLeft = 0;
static int commRank = -1;
uint64_t nSend, nRecv, nHidden, nReordered, nTestHidden, nSsend, nStall, bytesSent;
static uint64_t orderHash = 0;

void configure(uint64_t seed, int rank) {
  commRank = rank;
  mon::Rng shared(mon::mix(seed, 77));
  auto& c = cfg();
  rng = mon::Rng(mon::mix(seed, 1000 + rank));
  static double const P[] = {0, 0, 0.1, 0.4, 0.8};
  // level 0 disables; the profile is common to all ranks but some knobs vary by rank
  c.level = int(mon::argi("CHAOS", 1));
  if (c.level) {
    c.pHide = P[shared(5)];
    c.pTestHide = P[shared(5)];
    c.pSsend = shared(2) ? 0.3 : 0;
    c.pFreeze = shared(2) ? 0.002 : 0;
    c.pStall = shared(2) ? 0.0005 : 0;
    c.shuffle = shared(4) != 0;
    if (shared(3) == 0) { // one slow rank
      c.pHide = rng(3) == 0 ? 0.95 : 0;
    }
  }
  inited = true;
}
uint64_t schedule() { return orderHash; }
void report() {
  mon::stat("mpi.sends", nSend); mon::stat("mpi.recvs", nRecv); mon::stat("mpi.bytes", bytesSent);
  mon::stat("mpi.probes_hidden", nHidden); mon::stat("mpi.source_reordered", nReordered);
  mon::stat("mpi.tests_hidden", nTestHidden); mon::stat("mpi.ssends", nSsend); mon::stat("mpi.stalls", nStall);
}
} // namespace chaos
using namespace chaos;

extern "C" int MPI_Iprobe(int src, int tag, MPI_Comm comm, int* flag, MPI_Status* st) {
  mon::poll();
  auto& c = cfg();
  if (c.hold >= 0 && src == MPI_ANY_SOURCE) {
    int n = 1; PMPI_Comm_size(comm, &n);
    *flag = 0;
    for (int s = 0; s < n && !*flag; s++) if (s != c.hold) { int r = PMPI_Iprobe(s, tag, comm, flag, st); if (r != MPI_SUCCESS) return r; }
    return MPI_SUCCESS;
  }
  if (!inited || !c.level || !c.on) return PMPI_Iprobe(src, tag, comm, flag, st);
  if (stallLeft) { stallLeft--; sched_yield(); *flag = 0; return MPI_SUCCESS; }
  if (c.pStall && rng.chance(c.pStall)) { nStall++; stallLeft = rng(2000); }
  if (c.pHide && rng.chance(c.pHide)) {
    nHidden++; *flag = 0;
    if (rng(8) == 0) sched_yield();
    return MPI_SUCCESS;
  }
  if (src != MPI_ANY_SOURCE || !c.shuffle) {
    int r = PMPI_Iprobe(src, tag, comm, flag, st);
    return r;
  }
  int size = 1;
  PMPI_Comm_size(comm, &size);
  if (freezeLeft) { if (--freezeLeft == 0) frozen = -1; }
  else if (c.pFreeze && size > 2 && rng.chance(c.pFreeze)) { frozen = int(rng(size)); freezeLeft = 200 + rng(3000); }
  // one wildcard probe first: cheap when nothing is there
  int r = PMPI_Iprobe(src, tag, comm, flag, st);
  if (r != MPI_SUCCESS || !*flag) return r;
  int s0 = int(rng(size));
  for (int i = 0; i < size; i++) {
    int s = (s0 + i) % size;
    if (s == frozen) continue;
    r = PMPI_Iprobe(s, tag, comm, flag, st);
    if (r != MPI_SUCCESS) return r;
    if (*flag) {
      if (i) nReordered++;
      orderHash = mon::mix(orderHash, uint64_t(s) + 1);
      return r;
    }
  }
  *flag = 0;
  return MPI_SUCCESS;
}

extern "C" int MPI_Test(MPI_Request* req, int* flag, MPI_Status* st) {
  auto& c = cfg();
  if (inited && c.level && c.on && c.pTestHide && rng.chance(c.pTestHide)) {
    nTestHidden++; *flag = 0;
    int f; // still lets MPI make progress
    PMPI_Iprobe(MPI_ANY_SOURCE, 0, MPI_COMM_SELF, &f, MPI_STATUS_IGNORE);
    return MPI_SUCCESS;
  }
  return PMPI_Test(req, flag, st);
}

extern "C" int MPI_Isend(void const* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm comm, MPI_Request* req) {
  auto& c = cfg();
  nSend++; bytesSent += n;
  if (inited && c.level && c.on && c.pSsend && rng.chance(c.pSsend)) {
    nSsend++;
    return PMPI_Issend(b, n, t, dst, tag, comm, req);
  }
  return PMPI_Isend(b, n, t, dst, tag, comm, req);
}

extern "C" int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Request* req) {
  nRecv++;
  return PMPI_Irecv(b, n, t, src, tag, comm, req);
}
