// Stand-in for the proof-of-work hash: a keccak of the hashing blob, tagged
// with the algorithm that was selected.  The explored properties are about what
// the node does with a proof of work, not about the memory-hard function itself.
#include "crypto/hash.h"
#include <string>
namespace crypto {
static void h(char tag, const void *data, size_t length, Hash &hash) {
  std::string s(1, tag); s.append(static_cast<const char *>(data), length);
  cn_fast_hash(s.data(), s.size(), hash);
}
void cn_slow_hash_v0(cn_context &, const void *d, size_t n, Hash &r) { h('a', d, n, r); }
void cn_fast_slow_hash_v1(cn_context &, const void *d, size_t n, Hash &r) { h('b', d, n, r); }
void cn_conceal_slow_hash_v0(cn_context &, const void *d, size_t n, Hash &r) { h('c', d, n, r); }
void cn_gpu_hash_v0(cn_context &, const void *d, size_t n, Hash &r) { h('d', d, n, r); }
}
