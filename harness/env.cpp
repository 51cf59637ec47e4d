// The environment the explorer owns: wall clock, randomness, DNS.
#include "env.h"
#include <cstring>
#include <string>
#include <vector>
#include <sys/types.h>
#include <time.h>
namespace env { uint64_t now = 1600000000ull; uint64_t rnd = 0; bool dnsOk = false; }
extern "C" {
time_t time(time_t *t) noexcept { if (t) *t = (time_t)env::now; return (time_t)env::now; }
// splitmix64 stream, reset by the harness before every execution
void generate_random_bytes(size_t n, void *out) {
  unsigned char *o = (unsigned char *)out;
  while (n) {
    uint64_t z = (env::rnd += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31;
    size_t k = n < 8 ? n : 8; memcpy(o, &z, k); o += k; n -= k;
  }
}
}
namespace common { bool fetch_dns_txt(const std::string, std::vector<std::string> &) { return env::dnsOk; } }
