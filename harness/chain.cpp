#include "chain.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/CryptoNoteBasicImpl.h"
#include "CryptoNoteCore/TransactionExtra.h"
#include "CryptoNoteCore/Miner.h"
#include "CryptoNoteCore/MinerConfig.h"
#include "CryptoNoteCore/VerificationContext.h"
#include "Rpc/CoreRpcServerCommandsDefinitions.h"
#include "CryptoNoteCore/CoreConfig.h"
#include "CryptoNoteCore/ICoreObserver.h"
#include "Common/StringTools.h"
#include "Logging/ILogger.h"
extern "C" {
#include "crypto/crypto-ops.h"
}
#include "crypto/hash.h"
#include <sstream>
#include <cstring>
#include <iostream>
#include <stdexcept>
namespace ch {
struct NullLog : logging::ILogger { void operator()(const std::string &, logging::Level, boost::posix_time::ptime, const std::string &b) override { if (getenv("MC_LOG")) std::cerr << b; } };
static NullLog g_log;

const KP &kp(uint32_t n) {
  static std::map<uint32_t, KP> cache; auto it = cache.find(n); if (it != cache.end()) return it->second;
  KP k; std::string s = "verif key " + std::to_string(n); Hash h; crypto::cn_fast_hash(s.data(), s.size(), h);
  memcpy(&k.sec, &h, 32); sc_reduce32((unsigned char *)&k.sec); crypto::secret_key_to_public_key(k.sec, k.pub); crypto::generate_key_image(k.pub, k.sec, k.img);
  return cache[n] = k;
}
std::string hex(const Hash &h) { return common::podToHex(h).substr(0, 12); }

void Cfg::apply(cn::CurrencyBuilder &b) const {
  b.testnet(p.testnet);
  b.upgradeHeightV2(p.v2).upgradeHeightV3(p.v3).upgradeHeightV6(p.v6).upgradeHeightV7(p.v7).upgradeHeightV8(p.v8);
  b.difficultyLag(p.lag).difficultyCut(p.cut); b.difficultyWindow(p.window); b.difficultyTarget(p.target);
  b.minedMoneyUnlockWindow(p.unlockWindow).timestampCheckWindow(p.tsWindow).blockFutureTimeLimit(p.futureLimit);
  b.moneySupply(p.supply).rewardBlocksWindow(p.rewardWindow).blockGrantedFullRewardZone(p.fullZone);
  b.maxBlockSizeInitial(p.maxInitial).maxBlockSizeGrowthSpeedNumerator(p.growN).maxBlockSizeGrowthSpeedDenominator(p.growD);
  b.depositMinAmount(p.depMinAmount).depositMinTerm(p.depMinTerm).depositMaxTerm(p.depMaxTerm).depositMaxTermV1(p.depMaxTermV1).depositMinTermV3(p.minV3).depositMaxTermV3(p.maxV3).depositHeightV3(p.hV3).depositHeightV4(p.hV4).blockWithMissingInterest(p.missing);
  b.depositMinTotalRateFactor(p.minRateFactor).depositMaxTotalRate(p.maxRate);
  b.lockedTxAllowedDeltaBlocks(p.deltaBlocks).lockedTxAllowedDeltaSeconds(p.deltaSeconds);
  b.mempoolTxLiveTime(p.live).mempoolTxFromAltBlockLiveTime(p.liveAlt).numberOfPeriodsToForgetTxDeletedFromPool(p.forget);
}

static char powTag(int v) { return v >= 8 ? 'd' : v >= 7 ? 'c' : v >= 3 ? 'b' : 'a'; }
static Hash powOf(const cn::Block &b) { Bytes bd; cn::get_block_hashing_blob(b, bd); std::string s(1, powTag(b.majorVersion)); s.append((char *)bd.data(), bd.size()); Hash h; crypto::cn_fast_hash(s.data(), s.size(), h); return h; }
bool mine(cn::Block &b, uint64_t diff, bool good) {
  for (uint32_t n = 0; n < 20000000; ++n) { b.nonce = n; Hash h = powOf(b); if (ref::checkHash((unsigned char *)&h, diff) == good) return true; }
  return false;
}

// ------------------------------------------------------------------ universe
World::World(const Cfg &c) : cfg(c) {
  cn::CurrencyBuilder bld(g_log); c.apply(bld); cur.reset(new cn::Currency(bld.currency()));
  TxU t; t.name = "cb:genesis"; t.tx = cur->genesisBlock().baseTransaction; t.id = cn::getObjectHash(t.tx); t.blob = cn::toBinaryArray(t.tx); t.size = t.blob.size(); t.coinbase = true; t.block = 0;
  for (auto &o : t.tx.outputs) { Out x; x.amount = o.amount; t.outs.push_back(x); }
  tx.push_back(t); txOf[t.id] = 0;
  BlkU g; g.name = "genesis"; g.b = cur->genesisBlock(); g.id = cur->genesisBlockHash(); g.blob = cn::toBinaryArray(g.b); g.cb = 0; g.anc = {0}; g.ts = {g.b.timestamp}; g.diff = 1; g.cum = {1}; g.pow = true; g.altWhy = "height 0";
  auto l = std::make_shared<Ledger>(); l->chain = {0}; l->ts = g.ts; l->cum = {1}; l->size = {t.size}; l->dep = {0}; l->interest = {0}; l->gentx = {1};
  uint64_t r; int64_t em; ref::reward(cfg.p, 0, t.size, 0, 0, 0, r, em); l->gen = {(uint64_t)em}; l->next = 1; l->txs[0] = {0, 0};
  for (size_t i = 0; i < t.outs.size(); ++i) { l->gidx[0].push_back(l->outs[t.outs[i].amount].size()); l->outs[t.outs[i].amount].push_back({0, (int)i, 0}); }
  g.st = l; blk.push_back(g); blkOf[g.id] = 0;
}
int World::T(const std::string &n) const { for (size_t i = 0; i < tx.size(); ++i) if (tx[i].name == n) return i; throw std::runtime_error("no tx " + n); }
int World::B(const std::string &n) const { for (size_t i = 0; i < blk.size(); ++i) if (blk[i].name == n) return i; throw std::runtime_error("no block " + n); }
std::string World::txName(const Hash &h) const { auto i = txOf.find(h); return i == txOf.end() ? "?" + hex(h) : tx[i->second].name; }
std::string World::blkName(const Hash &h) const { auto i = blkOf.find(h); return i == blkOf.end() ? "?" + hex(h) : blk[i->second].name; }
int World::inCheckpointZone(uint32_t h) const { return !cfg.checkpoints.empty() && h <= cfg.checkpoints.rbegin()->first; }

static void putOuts(cn::Transaction &t, const std::vector<Out> &outs) {
  for (auto &o : outs) {
    cn::TransactionOutput x; x.amount = o.amount;
    if (!o.msig) { cn::KeyOutput k; k.key = kp(o.key).pub; x.target = k; }
    else { cn::MultisignatureOutput m; for (int i = 0; i < o.nkeys; ++i) m.keys.push_back(kp(o.key + i).pub); m.requiredSignatureCount = o.req; m.term = o.term; x.target = m; }
    t.outputs.push_back(x);
  }
}
int World::addTx(const TxSpec &s, int at) {
  env::rnd = 77 + tx.size() * 1000;
  const Ledger &l = L(at); TxU u; u.name = s.name; u.outs = s.out; u.tx.unlockTime = s.unlock; u.tx.extra = s.extra;
  bool ms = false; for (auto &i : s.in) ms |= i.msig; for (auto &o : s.out) ms |= o.msig;
  u.tx.version = s.version ? s.version : ms ? 2 : 1;
  struct Sg { bool msig; const Out *o; std::vector<PublicKey> ring; size_t real; std::vector<uint32_t> signers; }; std::vector<Sg> sg;
  for (auto &i : s.in) {
    const Out &o = tx[i.tx].outs[i.out];
    if (!i.msig) {
      std::vector<std::pair<uint32_t, PublicKey>> mem; auto add = [&](int t, int k) { auto g = l.gidx.find(t); uint32_t gi = g == l.gidx.end() ? 0xffff : g->second[k]; const auto &tg = tx[t].tx.outputs[k].target; PublicKey pk = tg.type() == typeid(cn::KeyOutput) ? boost::get<cn::KeyOutput>(tg).key : boost::get<cn::MultisignatureOutput>(tg).keys[0]; mem.push_back({gi, pk}); };
      add(i.tx, i.out); PublicKey real = mem[0].second; for (auto &d : i.decoys) add(d.first, d.second);
      std::sort(mem.begin(), mem.end(), [](const std::pair<uint32_t, PublicKey> &a, const std::pair<uint32_t, PublicKey> &b) { return a.first < b.first; });
      cn::KeyInput k; k.amount = o.amount; k.keyImage = kp(o.key).img; Sg g; g.msig = false; g.o = &o;  g.real = 0; uint32_t prev = 0;
      for (size_t j = 0; j < mem.size(); ++j) { k.outputIndexes.push_back(mem[j].first - prev); prev = mem[j].first; g.ring.push_back(mem[j].second); if (mem[j].second == real) g.real = j; }
      u.tx.inputs.push_back(k); sg.push_back(g);
    } else {
      cn::MultisignatureInput m; m.amount = o.amount; m.signatureCount = o.req; m.term = o.term; auto g = l.gidx.find(i.tx); m.outputIndex = g == l.gidx.end() ? 0xffff : g->second[i.out];
      u.tx.inputs.push_back(m); sg.push_back({true, &o, {}, 0, i.signers});
    }
  }
  putOuts(u.tx, s.out);
  if (s.pre) s.pre(u.tx);
  Hash ph = cn::getObjectHash(*static_cast<cn::TransactionPrefix *>(&u.tx));
  for (auto &g : sg) {
    TxU::Sig sr; sr.msig = g.msig; std::vector<crypto::Signature> sv;
    if (!g.msig) {
      sv.resize(g.ring.size()); std::vector<const PublicKey *> pk; for (auto &r : g.ring) pk.push_back(&r);
      for (int t = 0; t < 64; ++t) { crypto::generate_ring_signature(ph, boost::get<cn::KeyInput>(u.tx.inputs[u.tx.signatures.size()]).keyImage, pk, kp(g.o->key).sec, g.real, sv.data()); if (!s.torsion || !(((unsigned char *)&sv[g.real])[0] & 7)) break; }
      sr.ring = g.ring;
    } else for (int i = 0; i < g.o->req; ++i) { uint32_t kn = i < (int)g.signers.size() ? g.signers[i] : g.o->key + i; crypto::Signature x; crypto::generate_signature(ph, kp(kn).pub, kp(kn).sec, x); sv.push_back(x); sr.ring.push_back(kp(kn).pub); }
    u.tx.signatures.push_back(sv); u.sigs.push_back(sr);
  }
  for (size_t i = 0; i < u.tx.inputs.size() && i < sg.size(); ++i)   // remember what was really signed
    if (u.tx.inputs[i].type() == typeid(cn::KeyInput) && !sg[i].msig && !(boost::get<cn::KeyInput>(u.tx.inputs[i]).keyImage == kp(sg[i].o->key).img)) u.sigs[i].good = false;
  if (s.post) { auto before = u.tx.signatures; auto px = cn::toBinaryArray(*static_cast<cn::TransactionPrefix *>(&u.tx)); s.post(u.tx);
    bool prefixChanged = px != cn::toBinaryArray(*static_cast<cn::TransactionPrefix *>(&u.tx));
    for (size_t i = 0; i < u.sigs.size(); ++i) if (prefixChanged || i >= u.tx.signatures.size() || u.tx.signatures[i].size() != before[i].size() || memcmp(u.tx.signatures[i].data(), before[i].data(), before[i].size() * 64)) u.sigs[i].good = false; }
  u.id = cn::getObjectHash(u.tx); u.blob = cn::toBinaryArray(u.tx); u.size = u.blob.size();
  std::vector<cn::TransactionExtraField> ef; cn::parseTransactionExtra(u.tx.extra, ef); cn::TransactionExtraTTL ttl; if (cn::findTransactionExtraFieldByType(ef, ttl)) u.ttl = ttl.ttl; u.hasPid = cn::getPaymentIdFromTxExtra(std::vector<uint8_t>(u.tx.extra.begin(), u.tx.extra.end()), u.pid);
  for (auto &i : u.tx.inputs) if (i.type() == typeid(cn::KeyInput)) images.push_back(boost::get<cn::KeyInput>(i).keyImage);
  if (txOf.count(u.id)) throw std::runtime_error("duplicate tx " + s.name);
  tx.push_back(u); txOf[u.id] = tx.size() - 1; return tx.size() - 1;
}
uint64_t World::outAmount(const TxU &t) const { uint64_t s = 0; for (auto &o : t.tx.outputs) s += o.amount; return s; }
uint64_t World::interest(const TxU &t, uint32_t h) const { uint64_t s = 0; for (auto &i : t.tx.inputs) if (i.type() == typeid(cn::MultisignatureInput)) { auto &m = boost::get<cn::MultisignatureInput>(i); s += ref::inputInterest(cfg.p, m.amount, m.term, h); } return s; }
uint64_t World::inAmount(const TxU &t, uint32_t h) const {
  uint64_t s = 0; for (auto &i : t.tx.inputs) { if (i.type() == typeid(cn::KeyInput)) s += boost::get<cn::KeyInput>(i).amount; else if (i.type() == typeid(cn::MultisignatureInput)) s += boost::get<cn::MultisignatureInput>(i).amount; } return s + interest(t, h);
}
uint64_t World::fee(const TxU &t, uint32_t h) const {
  uint64_t a = inAmount(t, h), b = outAmount(t); if (b <= a) return a - b;
  for (auto &i : t.tx.inputs) if (i.type() == typeid(cn::MultisignatureInput) && boost::get<cn::MultisignatureInput>(i).term) return 10;
  return 0;
}
static std::string outsOk(const ref::Params &p, const cn::Transaction &t, uint32_t h) {
  for (auto &o : t.outputs) {
    if (o.target.type() == typeid(cn::KeyOutput)) { if (o.amount == 0) return "zero output"; if (!crypto::check_key(boost::get<cn::KeyOutput>(o.target).key)) return "bad output key"; }
    else { if (t.version < 2) return "multisignature output in a version 1 transaction"; auto &m = boost::get<cn::MultisignatureOutput>(o.target); if (!ref::outTermOk(p, o.amount, m.term, h)) return "bad deposit term or amount"; if (m.requiredSignatureCount > m.keys.size()) return "more signatures than keys"; for (auto &k : m.keys) if (!crypto::check_key(k)) return "bad multisignature key"; }
  }
  return "";
}
std::string World::semantic(const TxU &t, uint32_t h, uint32_t *fh) const {
  if (t.tx.inputs.empty()) return "no inputs";
  for (auto &i : t.tx.inputs) { if (i.type() == typeid(cn::BaseInput)) return "base input"; if (i.type() == typeid(cn::MultisignatureInput) && t.tx.version < 2) return "multisignature input in version 1"; }
  std::string o = outsOk(cfg.p, t.tx, h); if (!o.empty()) return o;
  uint64_t s = 0; for (auto &i : t.tx.inputs) { uint64_t a = i.type() == typeid(cn::KeyInput) ? boost::get<cn::KeyInput>(i).amount : boost::get<cn::MultisignatureInput>(i).amount; if (s + a < s) return "input overflow"; s += a; }
  s = 0; for (auto &x : t.tx.outputs) { if (s + x.amount < s) return "output overflow"; s += x.amount; }
  if (inAmount(t, h) < outAmount(t)) {
    uint32_t th = h > 12750 ? 0 : (uint32_t)-1;
    if (h > cfg.p.hV4 || inAmount(t, th) < outAmount(t)) return "outputs exceed inputs";
    if (fh) *fh = th;
  } else if (fh) *fh = h;
  std::set<KeyImage> ki; std::set<std::pair<uint64_t, uint32_t>> mi;
  for (auto &i : t.tx.inputs) { if (i.type() == typeid(cn::KeyInput)) { if (!ki.insert(boost::get<cn::KeyInput>(i).keyImage).second) return "same key image twice"; } else { auto &m = boost::get<cn::MultisignatureInput>(i); if (!mi.insert({m.amount, m.outputIndex}).second) return "same multisignature output twice"; } }
  return "";
}
bool World::unlocked(uint64_t u, uint64_t size, uint64_t now) const { return u < cfg.p.maxBlockNumber ? size - 1 + cfg.p.deltaBlocks >= u : now + cfg.p.deltaSeconds >= u; }
std::string World::inputs(const Ledger &l, const TxU &t, uint64_t now) const {
  bool zone = inCheckpointZone(l.next);
  if (t.tx.signatures.size() != t.tx.inputs.size()) return "signature rows";
  for (size_t n = 0; n < t.tx.inputs.size(); ++n) {
    auto &i = t.tx.inputs[n]; const TxU::Sig *sg = n < t.sigs.size() ? &t.sigs[n] : nullptr;
    if (i.type() == typeid(cn::KeyInput)) {
      auto &k = boost::get<cn::KeyInput>(i); if (k.outputIndexes.empty()) return "empty ring";
      if (l.spent.count(k.keyImage)) return "key image already spent";
      auto it = l.outs.find(k.amount); if (it == l.outs.end()) return "no outputs of that amount";
      uint64_t abs = 0; std::vector<PublicKey> keys;
      for (size_t j = 0; j < k.outputIndexes.size(); ++j) {
        abs += k.outputIndexes[j]; if (abs >= it->second.size()) return "referenced output does not exist";
        const OutE &e = it->second[abs]; if (!unlocked(tx[e.tx].tx.unlockTime, l.next, now)) return "referenced output is locked";
        keys.push_back(boost::get<cn::KeyOutput>(tx[e.tx].tx.outputs[e.out].target).key);
      }
      if (t.tx.signatures[n].size() != keys.size()) return "signature count";
      if (zone) continue;
      if (!sg || sg->msig || !sg->good || sg->ring.size() != keys.size()) return "bad ring signature";
      for (size_t j = 0; j < keys.size(); ++j) if (!(keys[j] == sg->ring[j])) return "ring signature over other keys";
    } else {
      auto &m = boost::get<cn::MultisignatureInput>(i); auto it = l.ms.find(m.amount); if (it == l.ms.end() || m.outputIndex >= it->second.size()) return "no such multisignature output";
      const MsE &e = it->second[m.outputIndex]; if (e.used) return "multisignature output already spent";
      if (!unlocked(tx[e.tx].tx.unlockTime, l.next, now)) return "multisignature output locked";
      auto &o = boost::get<cn::MultisignatureOutput>(tx[e.tx].tx.outputs[e.out].target);
      if (m.signatureCount != o.requiredSignatureCount) return "signature count differs"; if (m.term != o.term) return "term differs";
      if (o.term && (uint64_t)e.h + o.term > l.next) return "deposit still locked";
      if (zone) continue;
      if (!sg || !sg->msig || !sg->good) return "bad multisignature";
      if (t.tx.signatures[n].size() != m.signatureCount) return "multisignature count";
      size_t key = 0; for (auto &signer : sg->ring) { while (key < o.keys.size() && !(o.keys[key] == signer)) ++key; if (key++ >= o.keys.size()) return "multisignature by other keys"; }
    }
  }
  return "";
}
std::string World::coinbaseShape(const cn::Block &b, uint32_t h) const {
  auto &t = b.baseTransaction; if (t.inputs.size() != 1) return "coinbase inputs"; if (t.signatures.size() > 1) return "coinbase signatures";
  if (t.inputs[0].type() != typeid(cn::BaseInput)) return "coinbase input type"; if (boost::get<cn::BaseInput>(t.inputs[0]).blockIndex != h) return "coinbase height"; if (t.unlockTime != h + cfg.p.unlockWindow) return "coinbase unlock time";
  std::string o = outsOk(cfg.p, t, h); if (!o.empty()) return "coinbase: " + o;
  uint64_t s = 0; for (auto &x : t.outputs) { if (s + x.amount < s) return "coinbase overflow"; s += x.amount; }
  return "";
}
static uint64_t medSizes(const ref::Params &p, const Ledger &l) { ref::V v; for (size_t i = l.size.size() - std::min<size_t>(l.size.size(), p.rewardWindow); i < l.size.size(); ++i) v.push_back(l.size[i]); return ref::median(v); }
std::string World::applyBlock(const Ledger &par, const BlkU &b, Ledger &l, bool skipPow) const {
  const ref::Params &p = cfg.p; uint32_t h = par.next;
  if (b.b.majorVersion != ref::version(p, boost::get<cn::BaseInput>(b.b.baseTransaction.inputs[0]).blockIndex)) return "block version";
  if (par.ts.size() >= p.tsWindow) { ref::V v(par.ts.end() - p.tsWindow, par.ts.end()); if (b.b.timestamp < ref::median(v)) return "timestamp below median"; }
  if (inCheckpointZone(h)) { auto c = cfg.checkpoints.find(h); if (c != cfg.checkpoints.end() && c->second != (blkOf.count(b.id) ? blkOf.at(b.id) : (int)blk.size())) return "checkpoint"; }
  else if (!b.pow) return "proof of work";
  std::string s = coinbaseShape(b.b, h); if (!s.empty()) return s;
  l = par; l.chain.push_back(blkOf.count(b.id) ? blkOf.at(b.id) : (int)blk.size()); l.ts.push_back(b.b.timestamp); l.cum.push_back(par.cum.back() + b.diff);
  auto addOuts = [&](int t) { auto &g = l.gidx[t]; for (size_t i = 0; i < tx[t].tx.outputs.size(); ++i) { auto &o = tx[t].tx.outputs[i]; if (o.target.type() == typeid(cn::KeyOutput)) { g.push_back(l.outs[o.amount].size()); l.outs[o.amount].push_back({t, (int)i, h}); } else { g.push_back(l.ms[o.amount].size()); l.ms[o.amount].push_back({t, (int)i, h, false}); } } };
  if (l.txs.count(b.cb)) return "coinbase already in chain"; l.txs[b.cb] = {h, 0}; addOuts(b.cb);
  uint64_t size = cn::toBinaryArray(b.b.baseTransaction).size(), fees = 0, intr = 0; int64_t dep = 0; uint32_t pos = 0;
  auto depo = [&](const cn::Transaction &t) { for (auto &i : t.inputs) if (i.type() == typeid(cn::MultisignatureInput) && boost::get<cn::MultisignatureInput>(i).term) dep -= boost::get<cn::MultisignatureInput>(i).amount; for (auto &o : t.outputs) if (o.target.type() == typeid(cn::MultisignatureOutput) && boost::get<cn::MultisignatureOutput>(o.target).term) dep += o.amount; };
  depo(b.b.baseTransaction);
  for (int t : b.txs) {
    const TxU &u = tx[t]; if (l.txs.count(t)) return "transaction already in chain";
    if (b.b.majorVersion == 1 && u.tx.version > 1) return "transaction version";
    // outputs of the block itself are not spendable inside it
    Ledger view = par; view.spent = l.spent; view.ms = l.ms; for (auto &m : view.ms) { size_t n = par.ms.count(m.first) ? par.ms.at(m.first).size() : 0; m.second.resize(n); } for (auto it = view.ms.begin(); it != view.ms.end();) if (it->second.empty()) it = view.ms.erase(it); else ++it;
    s = inputs(view, u, cfg.now); if (!s.empty()) return u.name + ": " + s;
    s = outsOk(p, u.tx, h); if (!s.empty()) return u.name + ": " + s;
    s = semantic(u, h); if (!s.empty()) return u.name + ": " + s;
    for (auto &i : u.tx.inputs) { if (i.type() == typeid(cn::KeyInput)) l.spent.insert(boost::get<cn::KeyInput>(i).keyImage); else { auto &m = boost::get<cn::MultisignatureInput>(i); l.ms[m.amount][m.outputIndex].used = true; } }
    l.txs[t] = {h, ++pos}; addOuts(t); size += u.size; fees += fee(u, h); intr += interest(u, h); depo(u.tx);
  }
  if (size > p.maxInitial + h * p.growN / p.growD) return "block too big";
  uint64_t r, total = 0; int64_t em; if (!ref::reward(p, medSizes(p, par), size, par.gen.back(), fees, h, r, em)) return "block exceeds twice the median";
  for (auto &o : b.b.baseTransaction.outputs) total += o.amount;
  if (total < r) return "coinbase below reward"; if (total - r > 10) return "coinbase above reward";
  l.size.push_back(size); l.gen.push_back(par.gen.back() + em + intr); l.dep.push_back(par.dep.back() + dep); l.interest.push_back(par.interest.back() + intr); l.gentx.push_back(par.gentx.back() + 1 + b.txs.size()); ++l.next;
  return "";
}
int World::addBlk(const BlkSpec &s) {
  const BlkU par = blk[s.parent]; BlkU u; u.name = s.name; u.parent = s.parent; u.txs = s.txs; u.h = par.h + 1; u.anc = par.anc; u.anc.push_back(blk.size()); u.ts = par.ts; u.cum = par.cum;
  cn::Block &b = u.b; b.majorVersion = ref::version(cfg.p, u.h); b.minorVersion = 0; b.timestamp = s.ts ? s.ts : par.b.timestamp + 120; b.previousBlockHash = par.id; b.nonce = 0;
  for (int t : s.txs) b.transactionHashes.push_back(tx[t].id);
  u.diff = ref::nextDifficulty(cfg.p, par.ts, par.cum);
  // coinbase
  std::vector<Out> outs = s.cb; uint32_t kbase = 100000 + blk.size() * 100; bool rest = true; for (auto &o : outs) if (o.amount == 0) rest = false; if (rest) outs.push_back(Out::to(0, kbase));
  bool ms = false; for (auto &o : outs) ms |= o.msig; uint64_t fees = 0, txsize = 0; for (int t : s.txs) { fees += fee(tx[t], u.h); txsize += tx[t].size; }
  Ledger l0; const Ledger *pl = par.st.get(); if (!pl) { for (int a = s.parent; !pl; a = blk[a].parent) pl = blk[a].st.get(); }
  TxU c; c.coinbase = true; c.name = "cb:" + s.name; c.block = blk.size(); uint64_t guess = 1000000;
  for (int it = 0; it < 6; ++it) {
    auto o2 = outs; uint64_t used = 0; for (auto &o : o2) used += o.amount; for (auto &o : o2) if (o.amount == 0) { o.amount = guess > used ? guess - used : 1; break; }
    cn::Transaction t; t.version = ms ? 2 : 1; t.unlockTime = u.h + cfg.p.unlockWindow; cn::BaseInput bi; bi.blockIndex = u.h; t.inputs.push_back(bi); putOuts(t, o2);
    std::string tag = "blk" + std::to_string(blk.size()); t.extra.assign(tag.begin(), tag.end()); t.extra.insert(t.extra.begin(), {2, (uint8_t)tag.size()}); // extra nonce: unique coinbase
    c.tx = t; c.outs = o2; uint64_t r; int64_t em; uint64_t sz = cn::toBinaryArray(t).size() + txsize;
    if (!ref::reward(cfg.p, medSizes(cfg.p, *pl), sz, pl->gen.back(), fees, u.h, r, em)) { r = ref::baseReward(cfg.p, pl->gen.back(), u.h) + fees; }
    r += s.rewardDelta; if (r == guess) break; guess = r;
  }
  b.baseTransaction = c.tx; if (s.tweak) s.tweak(b); c.tx = b.baseTransaction;
  if (!mine(b, u.diff, !s.badPow)) throw std::runtime_error("cannot mine " + s.name);
  u.pow = !s.badPow; if (!s.badPow) { Hash ph = powOf(b); u.pow = ref::checkHash((unsigned char *)&ph, u.diff); }
  c.id = cn::getObjectHash(c.tx); c.blob = cn::toBinaryArray(c.tx); c.size = c.blob.size(); tx.push_back(c); txOf[c.id] = tx.size() - 1; u.cb = tx.size() - 1;
  u.id = cn::get_block_hash(b); u.blob = cn::toBinaryArray(b); u.ts.push_back(b.timestamp); u.cum.push_back(par.cum.back() + u.diff);
  if (blkOf.count(u.id)) throw std::runtime_error("duplicate block " + s.name);
  uint32_t cbh = boost::get<cn::BaseInput>(b.baseTransaction.inputs[0]).blockIndex;
  if (cbh == 0) u.altWhy = "height 0"; else if (b.majorVersion != ref::version(cfg.p, cbh)) u.altWhy = "version";
  else if (par.ts.size() - 0 >= cfg.p.tsWindow && b.timestamp < ref::median(ref::V(par.ts.end() - cfg.p.tsWindow, par.ts.end()))) u.altWhy = "timestamp below median";
  else if (cfg.checkpoints.count(u.h) && cfg.checkpoints.at(u.h) != (int)blk.size()) u.altWhy = "checkpoint"; else if (!u.pow) u.altWhy = "proof of work"; else u.altWhy = coinbaseShape(b, u.h);
  if (par.st) { auto l = std::make_shared<Ledger>(); u.why = applyBlock(*par.st, u, *l); if (u.why.empty()) u.st = l; } else u.why = "parent invalid: " + par.why;
  blk.push_back(u); blkOf[u.id] = blk.size() - 1; return blk.size() - 1;
}

// ------------------------------------------------------------------ model
std::string Verdict::str() const { std::ostringstream o; o << "ok=" << ok << " exists=" << exists << " added=" << added << " switched=" << switched << " failed=" << failed << " orphan=" << orphan << " notified=" << notified; return o.str(); }
std::string TxVerdict::str() const { std::ostringstream o; o << "ok=" << ok << " failed=" << failed << " impossible=" << impossible << " relay=" << relay << " added=" << added; return o.str(); }
Model::Model(const World &w_) : w(&w_), now(w_.cfg.now) {}
bool Model::inMain(int b) const { auto &a = w->blk[tip].anc; return w->blk[b].h < a.size() && a[w->blk[b].h] == b; }
bool Model::spentInPool(const TxU &t) const {
  for (auto &i : t.tx.inputs) for (auto &e : pool) for (auto &j : w->tx[e.first].tx.inputs) {
    if (i.type() == typeid(cn::KeyInput) && j.type() == typeid(cn::KeyInput)) { if (boost::get<cn::KeyInput>(i).keyImage == boost::get<cn::KeyInput>(j).keyImage) return true; }
    else if (i.type() == j.type() && !e.second.kept) { auto &a = boost::get<cn::MultisignatureInput>(i); auto &b = boost::get<cn::MultisignatureInput>(j); if (a.amount == b.amount && a.outputIndex == b.outputIndex) return true; }
  }
  return false;
}
bool Model::poolAdd(int t, bool kept, uint32_t h, TxVerdict &v) {
  const TxU &u = w->tx[t]; const ref::Params &p = w->cfg.p;
  if (w->inAmount(u, h) < w->outAmount(u)) { v.failed = true; return false; }
  uint64_t f = w->fee(u, h);
  if (u.ttl && !kept) { if (u.ttl <= now || u.ttl - now > p.live + p.futureLimit || f) { v.failed = true; return false; } }
  if (!kept && spentInPool(u)) { v.failed = true; return false; }
  const Ledger &l = w->L(tip); std::string bad = w->inputs(l, u, now);
  if (!bad.empty()) { if (!kept) { v.failed = true; return false; } v.impossible = true; }
  ref::V sz; for (size_t i = l.size.size() - std::min<size_t>(l.size.size(), p.rewardWindow); i < l.size.size(); ++i) sz.push_back(l.size[i]);
  if (!kept && u.size > 2 * std::max(ref::median(sz), p.fullZone) - 600) { v.failed = true; return false; }
  if (!kept && deleted.count(t)) return true;
  pool[t] = {kept, now, f, order++};
  v.added = true; bool fusion = false; bool ms = false; for (auto &i : u.tx.inputs) ms |= i.type() == typeid(cn::MultisignatureInput);
  v.relay = bad.empty() && (h >= p.v8 ? f == 1000 || fusion || ms || u.ttl : f > 0 || fusion || u.ttl);
  return true;
}
TxVerdict Model::tx(int t, bool kept) {
  TxVerdict v; const TxU &u = w->tx[t]; const Ledger &l = w->L(tip);
  auto in = l.txs.find(t); uint32_t h = in != l.txs.end() ? in->second.first : size(); uint32_t fh = h;
  if (!w->semantic(u, h, &fh).empty()) { v.failed = true; return v; }
  if (in != l.txs.end() || pool.count(t)) { v.ok = true; return v; }
  v.ok = poolAdd(t, kept, fh, v); return v;
}
bool Model::pushOne(int b) {   // pool transactions are taken one by one; put back when the block is refused
  const BlkU &k = w->blk[b]; size_t i = 0; std::vector<int> taken;
  for (; i < k.txs.size(); ++i) { if (!pool.count(k.txs[i])) break; pool.erase(k.txs[i]); taken.push_back(k.txs[i]); }
  bool good = i == k.txs.size() && k.why.empty() && k.parent == tip && k.b.timestamp <= now + w->cfg.p.futureLimit;
  if (!good) { for (size_t j = taken.size(); j--;) { TxVerdict v; poolAdd(taken[j], true, i == k.txs.size() ? size() + 1 : size() + 1, v); } return false; }
  tip = b; return true;
}
void Model::popOne() {
  const BlkU &k = w->blk[tip]; uint32_t h = size();
  for (size_t j = k.txs.size(); j--;) if (!pool.count(k.txs[j])) { TxVerdict v; poolAdd(k.txs[j], true, h, v); }
  tip = k.parent;
}
Verdict Model::push(int b) { Verdict v; if (pushOne(b)) { v.ok = v.added = v.notified = true; } else v.failed = true; return v; }
Verdict Model::block(int b) {
  Verdict v; if (known(b)) { v.exists = true; return v; }
  if (w->blk[b].parent == tip) return push(b);
  return alt(b);
}
Verdict Model::alt(int b) {
  const BlkU &k = w->blk[b]; Verdict v; uint32_t cbh = boost::get<cn::BaseInput>(k.b.baseTransaction.inputs[0]).blockIndex;
  auto refuse = [&] { v = Verdict(); v.failed = true; return v; };
  if (cbh == 0) return refuse();
  if (!w->inCheckpointZone(cbh) && cbh < (size() > 10 ? size() - 10 : 0)) return refuse();
  { auto &c = w->cfg.checkpoints; auto it = c.upper_bound(size()); if (it != c.begin()) { --it; if (!(it->first < cbh)) return refuse(); } }
  if (k.b.majorVersion != ref::version(w->cfg.p, cbh)) return refuse();
  { uint64_t sz = w->tx[k.cb].size; for (int t : k.txs) if (pool.count(t) || w->L(tip).txs.count(t)) sz += w->tx[t].size; if (sz > w->cfg.p.maxInitial + cbh * w->cfg.p.growN / w->cfg.p.growD) return refuse(); }
  bool pm = inMain(k.parent), pa = alts.count(k.parent);
  if (!pm && !pa) { v.ok = v.orphan = true; return v; }
  std::vector<int> ac; if (pa) for (int a = k.parent; alts.count(a); a = w->blk[a].parent) ac.insert(ac.begin(), a);
  if (!ac.empty()) { int root = w->blk[ac[0]].parent; if (!inMain(root) || w->blk[root].h + 1 >= size()) return v; }
  if (!k.altWhy.empty()) return refuse();
  bool cp = w->cfg.checkpoints.count(k.h);
  alts.insert(b); ac.push_back(b);
  if (!cp && !(k.cum.back() > w->blk[tip].cum.back())) { v.ok = true; return v; }
  // switch
  uint32_t split = w->blk[ac[0]].h; std::vector<int> old(w->blk[tip].anc.begin() + split, w->blk[tip].anc.end());
  std::set<int> have; for (int a : ac) have.insert(w->blk[a].txs.begin(), w->blk[a].txs.end());
  for (int o : old) for (int t : w->blk[o].txs) if (!have.count(t)) return refuse();
  for (size_t i = 0; i < old.size(); ++i) popOne();
  for (size_t i = 0; i < ac.size(); ++i) if (!pushOne(ac[i])) {
    while (size() > split) popOne();
    for (int o : old) if (!pushOne(o)) throw std::runtime_error("model: original chain cannot be restored");
    for (size_t j = i; j < ac.size(); ++j) alts.erase(ac[j]);
    return refuse();
  }
  for (int a : ac) alts.erase(a);
  if (!cp) for (int o : old) if (alt(o).failed) break;
  v.ok = v.added = v.switched = v.notified = true; return v;
}
void Model::rollback(uint32_t h) { while (size() > h + 1) tip = w->blk[tip].parent; }
void Model::expire() {
  for (auto i = deleted.begin(); i != deleted.end();) if (now - i->second > w->cfg.p.forget * w->cfg.p.live) i = deleted.erase(i); else ++i;
  for (auto i = pool.begin(); i != pool.end();) { bool r = now - i->second.recv > (i->second.kept ? w->cfg.p.liveAlt : w->cfg.p.live); uint64_t ttl = w->tx[i->first].ttl; if (ttl && ttl <= now) r = true; if (r) { deleted[i->first] = now; i = pool.erase(i); } else ++i; }
}
void Model::idle() { if (now - lastCheck > 60) { expire(); lastCheck = now; } }
// restart with another checkpoint list: the chain is cut back to the last checkpoint it agrees with
void Model::checkpoints(const World &n) {
  w = &n; restart(); uint32_t last = 0;
  for (auto &c : n.cfg.checkpoints) { if (size() <= c.first) return; if (n.blk[tip].anc[c.first] == c.second) last = c.first; else { rollback(last); return; } }
}
void Model::restart() { alts.clear(); lastCheck = 0; expire(); }
std::string Model::ready(int t) const { const Ledger &l = w->L(tip); std::string s = w->inputs(l, w->tx[t], now); if (s.empty() && w->inAmount(w->tx[t], size()) < w->outAmount(w->tx[t])) s = "outputs exceed inputs"; if (s.empty() && w->tx[t].ttl) s = "ttl"; return s; }
std::string Model::key() const { std::ostringstream o; o << tip << "|"; for (int a : alts) o << a << ","; o << "|"; for (auto &e : pool) o << e.first << (e.second.kept ? "k" : "n") << e.second.recv - w->cfg.now << "f" << e.second.fee << ","; o << "|"; for (auto &d : deleted) o << d.first << "@" << d.second - w->cfg.now << ","; o << "|" << now - w->cfg.now; return o.str(); }

static std::string S(uint64_t x) { return std::to_string(x); }
Dump Model::dump() const {
  Dump d; const Ledger &l = w->L(tip); const ref::Params &p = w->cfg.p; uint32_t n = size();
  d["height"] = S(n); d["top"] = w->blk[tip].name; d["tail"] = w->blk[tip].name; d["totaltx"] = S(l.txs.size()); d["total"] = S(l.gen.back());
  d["nextdiff"] = S(ref::nextDifficulty(p, l.ts, l.cum)); d["alts"] = ""; d["altcount"] = S(alts.size());
  { std::set<std::string> a; for (int x : alts) a.insert(w->blk[x].name); for (auto &x : a) d["alts"] += x + " "; }
  for (uint32_t h = 0; h < n; ++h) {
    std::string k = "[" + S(h) + "]"; int b = l.chain[h]; d["id" + k] = w->blk[b].name; d["diff" + k] = S(l.cum[h] - (h ? l.cum[h - 1] : 0)); d["gen" + k] = S(l.gen[h]); d["size" + k] = S(l.size[h]); d["ts" + k] = S(l.ts[h]);
    d["deposit" + k] = S(l.dep[h]); d["interest" + k] = S(l.interest[h]); d["gentx" + k] = S(l.gentx[h]);
  }
  d["gentx[end]"] = "none"; d["fulldeposit"] = S(l.dep.back());
  for (size_t i = 0; i < w->blk.size(); ++i) { auto &b = w->blk[i]; d["block " + b.name] = inMain(i) ? "main@" + S(b.h) : alts.count(i) ? "alternative" : "unknown"; }
  for (size_t i = 0; i < w->tx.size(); ++i) {
    auto &t = w->tx[i]; auto it = l.txs.find(i); std::string s;
    if (it != l.txs.end()) { s = "chain@" + S(it->second.first) + " g"; for (auto g : l.gidx.at(i)) s += " " + S(g); } else s = pool.count(i) ? "pool" : "unknown";
    d["tx " + t.name] = s;
  }
  { std::map<KeyImage, int> seen; int c = 0; for (auto &k : w->images) if (seen.insert({k, c}).second) { d["image#" + S(c)] = l.spent.count(k) ? "spent" : "unspent"; ++c; } }
  std::set<uint64_t> ka, ma; for (auto &t : w->tx) for (auto &o : t.tx.outputs) (o.target.type() == typeid(cn::KeyOutput) ? ka : ma).insert(o.amount);
  for (auto a : ma) { auto it = l.ms.find(a); size_t c = it == l.ms.end() ? 0 : it->second.size(); for (size_t i = 0; i <= c; ++i) d["msig " + S(a) + "/" + S(i)] = i < c ? w->tx[it->second[i].tx].name + ":" + S(it->second[i].out) : "none"; }
  for (auto a : ka) { std::string s; auto it = l.outs.find(a); if (it != l.outs.end()) { size_t end = 0; for (size_t i = 0; i < it->second.size(); ++i) if (it->second[i].h + p.unlockWindow <= n) end = i + 1; for (size_t i = 0; i < end; ++i) if (w->unlocked(w->tx[it->second[i].tx].tx.unlockTime, n, now)) s += S(i) + "=" + w->tx[it->second[i].tx].name + ":" + S(it->second[i].out) + " "; } d["outs " + S(a)] = s; }
  { std::multimap<uint64_t, std::string> m; for (int b : l.chain) m.insert({w->blk[b].b.timestamp, w->blk[b].name}); std::set<std::string> s; for (auto &x : m) s.insert(x.second); std::string o; for (auto &x : s) o += x + " "; d["by-timestamp"] = o; }
  { std::map<uint32_t, std::set<std::string>> o; for (int a : alts) o[boost::get<cn::BaseInput>(w->blk[a].b.baseTransaction.inputs[0]).blockIndex].insert(w->blk[a].name); uint32_t mh = 0; for (auto &b : w->blk) mh = std::max(mh, b.h); for (uint32_t h = 0; h <= mh; ++h) { std::string s; for (auto &x : o[h]) s += x + " "; d["orphans[" + S(h) + "]"] = s; } }
  { std::string s; for (uint32_t i = 1; i <= n; i *= 2) s += w->blk[l.chain[n - i]].name + " "; if (l.chain.size() == 1 || s.find("genesis") == std::string::npos) if (s != "genesis ") s += "genesis "; d["sparse"] = s; }
  { std::map<Hash, std::set<std::string>> by; for (size_t i = 0; i < w->tx.size(); ++i) if (w->tx[i].hasPid) { auto &x = by[w->tx[i].pid]; if (l.txs.count(i) || pool.count(i)) x.insert(w->tx[i].name); } for (auto &x : by) { std::string o; for (auto &n : x.second) o += n + " "; d["payment-id " + S((unsigned char)x.first.data[0])] = o; } }
  { std::set<std::string> a, r; for (auto &e : pool) { a.insert(w->tx[e.first].name); if (w->inputs(l, w->tx[e.first], now).empty()) r.insert(w->tx[e.first].name); } std::string o; for (auto &x : a) o += x + " "; d["pool-by-timestamp"] = o; o = ""; for (auto &x : r) o += x + " "; d["pool-ready"] = o; }
  std::string pl; std::set<std::string> ps; for (auto &e : pool) ps.insert(w->tx[e.first].name + (e.second.kept ? "/kept" : "") + " fee=" + S(e.second.fee) + " size=" + S(w->tx[e.first].size) + " recv+" + S(e.second.recv - w->cfg.now)); for (auto &x : ps) pl += x + "; "; d["pool"] = pl; d["poolcount"] = S(pool.size());
  return d;
}
std::string diffDump(const Dump &want, const Dump &got) {
  std::string o; int n = 0; for (auto &x : want) { auto g = got.find(x.first); std::string gv = g == got.end() ? "<missing>" : g->second; if (gv != x.second && n++ < 6) o += x.first + ": expected '" + x.second + "' got '" + gv + "'; "; }
  for (auto &x : got) if (!want.count(x.first) && n++ < 6) o += x.first + ": unexpected '" + x.second + "'; ";
  if (n > 6) o += "(" + S(n) + " differences)"; return o;
}

// ------------------------------------------------------------------ node
struct Node::Obs : cn::ICoreObserver { int chain = 0, pool = 0; void blockchainUpdated() override { ++chain; } void poolUpdated() override { ++pool; } };
Node::Node(World &w_, const std::string &d) : pw(&w_), dir(d), obs(new Obs) {}
Node::~Node() { kill(); }
bool Node::start(bool load) {
  World &w = *pw;
  core.reset(new cn::core(*w.cur, nullptr, g_log, true, false));
  if (!w.cfg.checkpoints.empty()) { cn::Checkpoints c(g_log); for (auto &x : w.cfg.checkpoints) c.add_checkpoint(x.first, common::podToHex(w.blk[x.second].id)); core->set_checkpoints(std::move(c)); }
  cn::CoreConfig cc; cc.configFolder = dir; cc.configFolderDefaulted = false; cc.testnet = w.cfg.p.testnet; cn::MinerConfig mc;
  if (!core->init(cc, mc, load)) return false; core->addObserver(obs.get()); return true;
}
void Node::stop() { if (core) { core->removeObserver(obs.get()); core->deinit(); core.reset(); } }
void Node::kill() { if (core) { core->removeObserver(obs.get()); core.reset(); } }
Verdict Node::blockRaw(const Bytes &blob) {
  cn::block_verification_context c = boost::value_initialized<cn::block_verification_context>(); int n0 = obs->chain; core->handle_incoming_block_blob(blob, c, false, false);
  Verdict v; v.exists = c.m_already_exists; v.added = c.m_added_to_main_chain; v.switched = c.m_switched_to_alt_chain; v.failed = c.m_verification_failed; v.orphan = c.m_marked_as_orphaned; v.notified = obs->chain > n0; return v;
}
Verdict Node::block(int b) { return blockRaw(pw->blk[b].blob); }
TxVerdict Node::tx(int t, bool kept) { cn::tx_verification_context c = boost::value_initialized<cn::tx_verification_context>(); TxVerdict v; v.ok = core->handle_incoming_tx(pw->tx[t].blob, c, kept); v.failed = c.m_verification_failed; v.impossible = c.m_verification_impossible; v.relay = c.m_should_be_relayed; v.added = c.m_added_to_pool; return v; }
Dump Node::dump() {
  World &w = *pw;
  Dump d; cn::core &c = *core; uint32_t n = c.get_current_blockchain_height(); uint32_t th; Hash top; c.get_blockchain_top(th, top);
  d["height"] = S(n); d["top"] = th + 1 == n ? w.blkName(top) : "height " + S(th); d["tail"] = w.blkName(c.get_tail_id()); d["totaltx"] = S(c.get_blockchain_total_transactions()); d["total"] = S(c.getTotalGeneratedAmount()); d["nextdiff"] = S(c.getNextBlockDifficulty());
  std::list<cn::Block> al; c.get_alternative_blocks(al); { std::set<std::string> a; for (auto &b : al) a.insert(w.blkName(cn::get_block_hash(b))); for (auto &x : a) d["alts"] += x + " "; d["alts"]; } d["altcount"] = S(c.get_alternative_blocks_count());
  std::list<cn::Block> bl; std::list<cn::Transaction> tl; c.get_blocks(0, n, bl, tl); auto bi = bl.begin(); std::vector<size_t> bs; c.getBackwardBlocksSizes(n - 1, bs, n);
  for (uint32_t h = 0; h < n; ++h) {
    std::string k = "[" + S(h) + "]"; Hash id = c.getBlockIdByHeight(h); std::string nm = w.blkName(id); if (bi == bl.end() || !(cn::get_block_hash(*bi) == id)) nm += " (get_blocks disagrees)"; if (bi != bl.end()) ++bi; d["id" + k] = nm;
    cn::difficulty_type df = 0; c.getBlockDifficulty(h, df); d["diff" + k] = df == c.difficultyAtHeight(h) ? S(df) : S(df) + "/" + S(c.difficultyAtHeight(h));
    uint64_t g = 0; c.getAlreadyGeneratedCoins(id, g); d["gen" + k] = g == c.coinsEmittedAtHeight(h) ? S(g) : S(g) + "/" + S(c.coinsEmittedAtHeight(h)); size_t s = 0; c.getBlockSize(id, s); d["size" + k] = bs.size() == n && bs[h] == s ? S(s) : S(s) + "/backwards differ"; uint64_t t = 0; c.getBlockTimestamp(h, t); d["ts" + k] = S(t);
    d["deposit" + k] = S(c.depositAmountAtHeight(h)); d["interest" + k] = S(c.depositInterestAtHeight(h)); uint64_t gt = 0; d["gentx" + k] = c.getGeneratedTransactionsNumber(h, gt) ? S(gt) : "none";
  }
  uint64_t gt = 0; d["gentx[end]"] = c.getGeneratedTransactionsNumber(n, gt) ? S(gt) : "none"; d["fulldeposit"] = S(c.fullDepositAmount());
  std::set<std::string> altn; for (auto &b : al) altn.insert(w.blkName(cn::get_block_hash(b)));
  for (auto &b : w.blk) { std::string s; uint32_t h = 0; bool hb = c.have_block(b.id), gh = c.getBlockHeight(b.id, h); cn::Block x; bool gb = c.getBlockByHash(b.id, x); if (gh) s = "main@" + S(h); else if (hb) s = altn.count(b.name) ? "alternative" : "known but not listed"; else s = "unknown"; if (hb != gb || (gh && !hb)) s += " (lookup disagrees)"; else if (gb && cn::toBinaryArray(x) != b.blob) s += " (content differs)"; d["block " + b.name] = s; }
  std::map<Hash, int> pl; auto pt = c.getPoolTransactions(); for (auto &t : pt) pl[cn::getObjectHash(t)]++;
  for (auto &t : w.tx) {
    std::string s; Hash bid; uint32_t h = 0; cn::Transaction x;
    if (c.getBlockContainingTx(t.id, bid, h)) { s = "chain@" + S(h) + " g"; std::vector<uint32_t> g; c.get_tx_outputs_gindexs(t.id, g); for (auto i : g) s += " " + S(i); if (!c.getTransaction(t.id, x, false) || cn::toBinaryArray(x) != t.blob) s += " (content differs)"; if (h < n && !(c.getBlockIdByHeight(h) == bid)) s += " (block differs)"; if (pl.count(t.id)) s += " AND pool"; std::list<Hash> miss; std::vector<std::pair<cn::Transaction, std::vector<uint32_t>>> tg; std::vector<Hash> q(1, t.id); c.getTransactionsWithOutputGlobalIndexes(q, miss, tg); if (tg.size() != 1 || tg[0].second != g) s += " (indexes differ)"; }
    else if (pl.count(t.id)) { s = "pool"; cn::Transaction y; if (!c.getPoolTransaction(t.id, y) || cn::toBinaryArray(y) != t.blob) s += " (content differs)"; }
    else s = c.getTransaction(t.id, x, true) ? "found but nowhere" : "unknown";
    d["tx " + t.name] = s;
  }
  { std::map<KeyImage, int> seen; int k = 0; for (auto &i : w.images) if (seen.insert({i, k}).second) { d["image#" + S(k)] = c.is_key_image_spent(i) ? "spent" : "unspent"; ++k; } }
  std::set<uint64_t> ka, ma; for (auto &t : w.tx) for (auto &o : t.tx.outputs) (o.target.type() == typeid(cn::KeyOutput) ? ka : ma).insert(o.amount);
  for (auto a : ma) for (size_t i = 0; i < 64; ++i) { cn::MultisignatureInput m; m.amount = a; m.outputIndex = i; m.signatureCount = 1; m.term = 0; std::pair<Hash, size_t> r; bool ok = c.getMultisigOutputReference(m, r); cn::MultisignatureOutput mo; bool ok2 = c.getOutByMSigGIndex(a, i, mo); d["msig " + S(a) + "/" + S(i)] = ok != ok2 ? "lookups disagree" : ok ? w.txName(r.first) + ":" + S(r.second) : "none"; if (!ok) break; }
  { cn::COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::request q; cn::COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::response r; q.outs_count = 1000; for (auto a : ka) q.amounts.push_back(a); c.get_random_outs_for_amounts(q, r);
    std::map<std::pair<uint64_t, PublicKey>, std::vector<std::string>> byKey; for (auto &t : w.tx) for (size_t i = 0; i < t.tx.outputs.size(); ++i) if (t.tx.outputs[i].target.type() == typeid(cn::KeyOutput)) byKey[{t.tx.outputs[i].amount, boost::get<cn::KeyOutput>(t.tx.outputs[i].target).key}].push_back(t.name + ":" + S(i));
    for (auto &o : r.outs) { std::map<uint32_t, std::string> m; for (auto &e : o.outs) { if (m.count(e.global_amount_index)) m[e.global_amount_index] = "twice"; else { auto b = byKey.find({o.amount, e.out_key}); m[e.global_amount_index] = b == byKey.end() ? "?" : b->second[0]; } } std::string s; for (auto &x : m) s += S(x.first) + "=" + x.second + " "; d["outs " + S(o.amount)] = s; } }
  { std::vector<cn::Block> v; uint32_t k = 0; c.getBlocksByTimestamp(0, UINT64_MAX / 2, 1000, v, k); std::set<std::string> s; for (auto &b : v) s.insert(w.blkName(cn::get_block_hash(b))); std::string o; for (auto &x : s) o += x + " "; if (k != v.size()) o += "count " + S(k); d["by-timestamp"] = o; }
  { uint32_t mh = 0; for (auto &b : w.blk) mh = std::max(mh, b.h); for (uint32_t h = 0; h <= mh; ++h) { std::vector<cn::Block> v; c.getOrphanBlocksByHeight(h, v); std::set<std::string> s; for (auto &b : v) s.insert(w.blkName(cn::get_block_hash(b))); std::string o; for (auto &x : s) o += x + " "; if (s.size() != v.size()) o += "(duplicates)"; d["orphans[" + S(h) + "]"] = o; } }
  { std::string s; for (auto &h : c.buildSparseChain()) s += w.blkName(h) + " "; d["sparse"] = s; }
  { std::map<Hash, std::string> by; for (auto &t : w.tx) if (t.hasPid && !by.count(t.pid)) { std::vector<cn::Transaction> v; c.getTransactionsByPaymentId(t.pid, v); std::set<std::string> s; for (auto &x : v) s.insert(w.txName(cn::getObjectHash(x))); std::string o; for (auto &x : s) o += x + " "; if (s.size() != v.size()) o += "(duplicates)"; by[t.pid] = o; } for (auto &x : by) d["payment-id " + S((unsigned char)x.first.data[0])] = x.second; }
  { std::vector<cn::Transaction> v; uint64_t k = 0; c.getPoolTransactionsByTimestamp(0, UINT64_MAX / 2, 1000, v, k); std::set<std::string> s; for (auto &x : v) s.insert(w.txName(cn::getObjectHash(x))); std::string o; for (auto &x : s) o += x + " "; if (s.size() != v.size() || k != v.size()) o += "(count)"; d["pool-by-timestamp"] = o;
    std::vector<cn::Transaction> ad; std::vector<Hash> del; c.getPoolChanges(top, {}, ad, del); s.clear(); for (auto &x : ad) s.insert(w.txName(cn::getObjectHash(x))); o = ""; for (auto &x : s) o += x + " "; if (!del.empty()) o += "(deleted)"; d["pool-ready"] = o; }
  std::set<std::string> ps; for (auto &e : c.getMemoryPool()) ps.insert(w.txName(e.id) + (e.keptByBlock ? "/kept" : "") + " fee=" + S(e.fee) + " size=" + S(e.blobSize) + " recv+" + S((uint64_t)e.receiveTime - w.cfg.now)); std::string o; for (auto &x : ps) o += x + "; "; d["pool"] = o; d["poolcount"] = S(c.get_pool_transactions_count());
  if (pt.size() != ps.size()) d["poolcount"] += " (lists disagree)";
  return d;
}

// every transaction of the universe is submitted and the verdict compared; then the
// node's own block template is mined and must be accepted
std::string probe(World &w, Node &n, Model &m, bool txs, bool tmpl) {
  if (txs) for (size_t t = 0; t < w.tx.size(); ++t) {
    if (w.tx[t].coinbase) continue;
    TxVerdict want = m.tx(t, false), got = n.tx(t, false);
    if (!(want == got)) return "afterwards submitting " + w.tx[t].name + ": expected " + want.str() + (m.ready(t).empty() ? "" : " (" + m.ready(t) + ")") + ", got " + got.str();
  }
  if (tmpl) {
    cn::Block b; cn::AccountPublicAddress a; a.spendPublicKey = kp(5).pub; a.viewPublicKey = kp(6).pub; cn::difficulty_type diff; uint32_t h; env::rnd = 5;
    if (!n.core->get_block_template(b, a, diff, h, Bytes())) return "no block template";
    if (h != m.size()) return "template height " + S(h);
    uint64_t wd = ref::nextDifficulty(w.cfg.p, w.L(m.tip).ts, w.L(m.tip).cum); if (diff != wd) return "template difficulty " + S(diff) + " expected " + S(wd);
    if (b.majorVersion != ref::version(w.cfg.p, h)) return "template version " + S(b.majorVersion);
    std::set<int> in; for (auto &x : b.transactionHashes) { auto i = w.txOf.find(x); if (i == w.txOf.end() || !m.pool.count(i->second)) return "template contains a transaction that is not in the pool: " + w.txName(x); in.insert(i->second); std::string r = m.ready(i->second); if (!r.empty()) return "template contains " + w.tx[i->second].name + " although: " + r; }
    if (w.cfg.p.fullZone >= 10000) for (auto &e : m.pool) { if (in.count(e.first) || !m.ready(e.first).empty()) continue; bool conflict = false; for (auto &f : m.pool) if (f.first != e.first) { Model t(w); t.pool.clear(); t.pool[f.first] = f.second; t.pool[f.first].kept = false; if (t.spentInPool(w.tx[e.first])) conflict = true; } if (!conflict) return "template leaves out the includable pool transaction " + w.tx[e.first].name; }
    if (!mine(b, diff, true)) return "cannot mine the template";
    Verdict v = n.blockRaw(cn::toBinaryArray(b)); if (w.cfg.checkpoints.count(h)) return v.added || !v.failed ? "a block other than the checkpointed one was accepted at its height (" + v.str() + ")" : ""; if (!v.added) { std::string l; for (int i : in) l += w.tx[i].name + " "; return "mined block template refused (" + v.str() + "), transactions: " + l; }
    if (n.core->get_current_blockchain_height() != m.size() + 1) return "height after the mined template is wrong";
    // ledger after the mined block
    BlkU u; u.b = b; u.id = cn::get_block_hash(b); u.parent = m.tip; u.h = h; u.pow = true; u.diff = diff; for (auto &x : b.transactionHashes) u.txs.push_back(w.txOf[x]);
    TxU c; c.tx = b.baseTransaction; c.coinbase = true; for (auto &o : c.tx.outputs) c.outs.push_back(Out::to(o.amount, 5)); w.tx.push_back(c); u.cb = w.tx.size() - 1; Ledger l; std::string why = w.applyBlock(w.L(m.tip), u, l); w.tx.pop_back();
    if (!why.empty()) return "accepted template block is invalid: " + why;
    if (n.core->getTotalGeneratedAmount() != l.gen.back()) return "coins after the template block: " + S(n.core->getTotalGeneratedAmount()) + " expected " + S(l.gen.back());
    if (n.core->getNextBlockDifficulty() != ref::nextDifficulty(w.cfg.p, l.ts, l.cum)) return "difficulty after the template block is wrong";
  }
  return "";
}
}
