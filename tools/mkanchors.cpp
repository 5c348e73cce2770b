// Writes data/anchors.txt: prime sums at structured x, by the Lucy_Hedgehog
// recurrence (no code shared with the repository).  usage: mkanchors MAX DENSE shard shards
#include "common.h"
#include <cstdlib>
int main(int c, char** v) {
  uint64_t max = (uint64_t) atof(v[1]); int dense = atoi(v[2]), sh = atoi(v[3]), n = atoi(v[4]);
  auto xs = O::structured(max, dense);
  uint64_t k = 0, prev = 0; u128 ps = 0; uint64_t cluster = 0;
  for (uint64_t x : xs) {
    if (x < (1u << 20)) continue;
    if (!prev || x - prev > 300000) cluster++;
    bool fresh = !prev || x - prev > 300000;
    uint64_t was = prev; prev = x;
    if ((int) (cluster % n) != sh) { ps = 0; continue; }
    if (fresh || ps == 0) ps = O::lucy_sum(x);
    else for (uint64_t p : O::primes_in(was + 1, x)) ps += p;
    printf("%llu %s\n", (unsigned long long) x, H::s128(ps).c_str()); fflush(stdout); k++;
  }
}
