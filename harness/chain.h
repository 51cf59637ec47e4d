// Closed chain world: a finite universe of transactions and blocks, a reference
// ledger, a reference fork-choice/pool model, and the real node driven through
// its public interface.
#pragma once
#include "env.h"
#include "ref.h"
#include "CryptoNoteCore/Core.h"
#include "CryptoNoteCore/CoreConfig.h"
#include "CryptoNoteCore/Currency.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <cstring>
namespace crypto {
inline bool operator<(const KeyImage &a, const KeyImage &b) { return memcmp(&a, &b, 32) < 0; }
inline bool operator<(const PublicKey &a, const PublicKey &b) { return memcmp(&a, &b, 32) < 0; }
inline bool operator<(const Hash &a, const Hash &b) { return memcmp(&a, &b, 32) < 0; }
}
namespace ch {
using crypto::Hash; using crypto::KeyImage; using crypto::PublicKey; using crypto::SecretKey;
typedef cn::BinaryArray Bytes;
struct KP { PublicKey pub; SecretKey sec; KeyImage img; };
const KP &kp(uint32_t n);

struct In {
  bool msig = false; int tx = -1, out = 0;           // universe output spent
  std::vector<std::pair<int, int>> decoys;           // further ring members
  std::vector<uint32_t> signers;                     // multisignature: who really signs
  static In key(int tx, int out, std::vector<std::pair<int, int>> d = {}) { In i; i.tx = tx; i.out = out; i.decoys = d; return i; }
  static In ms(int tx, int out) { In i; i.msig = true; i.tx = tx; i.out = out; return i; }
};
struct Out {
  uint64_t amount = 0; bool msig = false; uint32_t key = 0; uint32_t term = 0; uint8_t req = 1; int nkeys = 1;
  static Out to(uint64_t a, uint32_t k) { Out o; o.amount = a; o.key = k; return o; }
  static Out dep(uint64_t a, uint32_t k, uint32_t term, uint8_t req = 1, int n = 1) { Out o; o.amount = a; o.key = k; o.msig = true; o.term = term; o.req = req; o.nkeys = n; return o; }
};
struct TxSpec {
  std::string name; std::vector<In> in; std::vector<Out> out; uint64_t unlock = 0; int version = 0; Bytes extra; bool torsion = false;
  std::function<void(cn::Transaction &)> pre, post;  // before / after signing
};
struct TxU {
  std::string name; cn::Transaction tx; Hash id; Bytes blob; size_t size = 0; bool coinbase = false; int block = -1;
  std::vector<Out> outs;
  struct Sig { bool msig = false, good = true; std::vector<PublicKey> ring; }; std::vector<Sig> sigs;
  uint64_t ttl = 0; bool hasPid = false; Hash pid;
};
struct OutE { int tx, out; uint32_t h; };
struct MsE { int tx, out; uint32_t h; bool used; };
struct Ledger {                                      // reference ledger after one chain
  std::vector<int> chain; ref::V ts, cum, gen, size; std::vector<int64_t> dep; ref::V interest, gentx;
  std::map<uint64_t, std::vector<OutE>> outs; std::map<uint64_t, std::vector<MsE>> ms;
  std::set<KeyImage> spent; std::map<int, std::pair<uint32_t, uint32_t>> txs; std::map<int, std::vector<uint32_t>> gidx;
  uint64_t next = 0;                                 // size
};
struct BlkSpec {
  std::string name; int parent; std::vector<int> txs; uint64_t ts = 0; std::vector<Out> cb;
  std::function<void(cn::Block &)> tweak;            // before mining
  bool badPow = false; int64_t rewardDelta = 0; uint64_t feeDelta = 0;
};
struct BlkU {
  std::string name; cn::Block b; Hash id; Bytes blob; int parent = -1; std::vector<int> txs; int cb = -1; uint32_t h = 0;
  std::vector<int> anc;                              // ancestry including itself
  ref::V ts, cum;                                    // along anc
  uint64_t diff = 0; bool pow = false;
  std::string why;                                   // context-invalid reason with parent's ledger ("" = valid)
  std::string altWhy;                                // reason it is refused as an alternative block
  std::shared_ptr<Ledger> st;                        // null unless fully valid
};
struct Cfg {
  ref::Params p; uint64_t now = 1527078920ull + 4000000; std::map<uint32_t, int> checkpoints; // height -> block
  void apply(cn::CurrencyBuilder &b) const;
};

struct World {
  Cfg cfg; std::unique_ptr<cn::Currency> cur; std::vector<TxU> tx; std::vector<BlkU> blk;
  std::map<Hash, int> txOf, blkOf;
  explicit World(const Cfg &c);
  int addTx(const TxSpec &s, int atBlock);           // refs resolved in the ledger after atBlock
  int addBlk(const BlkSpec &s);
  int T(const std::string &n) const; int B(const std::string &n) const;
  // "" if valid in the ledger; semantic = context-free part only
  std::string semantic(const TxU &t, uint32_t height, uint32_t *feeHeight = nullptr) const;
  std::string inputs(const Ledger &l, const TxU &t, uint64_t now) const;
  uint64_t inAmount(const TxU &t, uint32_t h) const; uint64_t outAmount(const TxU &t) const; uint64_t fee(const TxU &t, uint32_t h) const; uint64_t interest(const TxU &t, uint32_t h) const;
  std::string applyBlock(const Ledger &par, const BlkU &b, Ledger &out, bool skipPow = false) const;
  std::string coinbaseShape(const cn::Block &b, uint32_t h) const;
  bool unlocked(uint64_t u, uint64_t size, uint64_t now) const;
  const Ledger &L(int b) const { return *blk[b].st; }
  int inCheckpointZone(uint32_t h) const;            // 1 if h <= last checkpoint
  std::string txName(const Hash &h) const; std::string blkName(const Hash &h) const;
  std::vector<KeyImage> images; 
};

typedef std::map<std::string, std::string> Dump;
std::string diffDump(const Dump &want, const Dump &got);

struct Verdict { bool ok = false, exists = false, added = false, switched = false, failed = false, orphan = false; bool notified = false; std::string str() const; bool operator==(const Verdict &o) const { return ok == o.ok && exists == o.exists && added == o.added && switched == o.switched && failed == o.failed && orphan == o.orphan && notified == o.notified; } };
struct TxVerdict { bool ok = false, failed = false, impossible = false, relay = false, added = false; std::string str() const; bool operator==(const TxVerdict &o) const { return ok == o.ok && failed == o.failed && impossible == o.impossible && relay == o.relay && added == o.added; } };

struct PoolE { bool kept; uint64_t recv, fee; uint32_t order; };
struct Model {
  const World *w; int tip = 0; std::set<int> alts; std::map<int, PoolE> pool; std::map<int, uint64_t> deleted; uint64_t now; uint64_t lastCheck = 0; uint32_t order = 0;
  explicit Model(const World &w);
  bool inMain(int b) const; bool known(int b) const { return inMain(b) || alts.count(b); }
  uint32_t size() const { return w->blk[tip].h + 1; }
  TxVerdict tx(int t, bool kept);
  Verdict block(int b);
  void rollback(uint32_t h); void restart(); void idle(); void checkpoints(const World &n);
  Dump dump() const; std::string key() const;
  bool spentInPool(const TxU &t) const;
  std::string ready(int t) const;                    // "" if it could go into the next block
private:
  bool poolAdd(int t, bool kept, uint32_t h, TxVerdict &v);
  Verdict push(int b); bool pushOne(int b); void popOne(); Verdict alt(int b);
  void expire();
};

struct Node {
  World *pw; std::string dir; std::unique_ptr<cn::core> core; struct Obs; std::unique_ptr<Obs> obs;
  Node(World &w, const std::string &dir); ~Node();
  bool start(bool load = true); void stop(); void kill();
  Verdict block(int b); Verdict blockRaw(const Bytes &blob); TxVerdict tx(int t, bool kept);
  Dump dump();
};
// end-of-execution probes: they change the node, so they come last
std::string probe(World &w, Node &n, Model &m, bool txs, bool tmpl);
std::string hex(const Hash &h);
bool mine(cn::Block &b, uint64_t diff, bool good);
}
