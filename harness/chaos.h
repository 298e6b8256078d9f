#pragma once
#include <cstdint>
namespace chaos {
struct Cfg {
  int level = 0; bool on = true, shuffle = true; int hold = -1;   // hold: a source not served for now
  double pHide = 0, pTestHide = 0, pSsend = 0, pFreeze = 0, pStall = 0;
};
Cfg& cfg();
void configure(uint64_t seed, int rank);
void report();
uint64_t schedule();   // hash of the order in which sources were served
}
