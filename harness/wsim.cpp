#include "wsim.h"
#include <dirent.h>
#include <fstream>
#include <algorithm>
namespace ws {
logging::LoggerGroup log;
Keys::Keys(uint64_t seed) { uint64_t save = env::rnd; env::rnd = seed; crypto::generate_keys(k.address.spendPublicKey, k.spendSecretKey); crypto::generate_keys(k.address.viewPublicKey, k.viewSecretKey); env::rnd = save; }
static int rm(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
void wipe(const std::string &d) { nftw(d.c_str(), rm, 16, FTW_DEPTH | FTW_PHYS); }
void copyDir(const std::string &a, const std::string &b) {
  mkdir(b.c_str(), 0700); DIR *d = opendir(a.c_str()); if (!d) return;
  while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat st; std::string f = a + "/" + n; if (stat(f.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { copyDir(f, b + "/" + n); continue; } std::ifstream i(f, std::ios::binary); std::ofstream o(b + "/" + n, std::ios::binary); if (st.st_size) o << i.rdbuf(); }
  closedir(d);
}
void SimNode::relayTransaction(const cn::Transaction &t, const Callback &c) {
  if (hold && defer.count(cn::getObjectHash(t))) { pending.push_back({"the node handles a transaction", [=] { hold = false; relayTransaction(t, c); hold = true; }}); return; }
  relayed.push_back(t); if (failRelay) { c(err()); return; }
  cn::BinaryArray b = cn::toBinaryArray(t); cn::tx_verification_context v = boost::value_initialized<cn::tx_verification_context>();
  if (!core->handle_incoming_tx(b, v, false) || v.m_verification_failed) { c(err()); return; }
  bool bad = !v.m_should_be_relayed || swallowRelay; if (bad) unsure.insert(cn::getObjectHash(t)); c(bad ? err() : std::error_code());   // like the node: accepted, and reported as an error
}
void SimNode::getRandomOutsByAmounts(std::vector<uint64_t> &&a, uint64_t n, std::vector<cn::COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::outs_for_amount> &r, const Callback &c) {

  if (failMix) { c(err()); return; }
  cn::COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::response res; cn::COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::request req; req.amounts = a; req.outs_count = n;
  if (!core->get_random_outs_for_amounts(req, res)) { c(err()); return; } r = std::move(res.outs); c(std::error_code());
}
void SimNode::queryBlocks(std::vector<Hash> &&k, uint64_t ts, std::vector<cn::BlockShortEntry> &out, uint32_t &s, const Callback &c) {
  uint32_t cur, full; std::vector<cn::BlockShortInfo> e; if (failBlocks || !core->queryBlocksLite(k, ts, s, cur, full, e)) { c(err()); return; }
  for (auto &x : e) { cn::BlockShortEntry b; b.blockHash = x.blockId; b.hasBlock = false; if (!x.block.empty()) { b.hasBlock = true; if (!cn::fromBinaryArray(b.block, common::asBinaryArray(x.block))) { c(err()); return; } } for (auto &t : x.txPrefixes) { cn::TransactionShortInfo i; i.txId = t.txHash; i.txPrefix = t.txPrefix; b.txsShortInfo.push_back(i); } out.push_back(std::move(b)); }
  c(std::error_code());
}
void SimNode::getPoolSymmetricDifference(std::vector<Hash> &&k, Hash tail, bool &actual, std::vector<std::unique_ptr<cn::ITransactionReader>> &add, std::vector<Hash> &del, const Callback &c) {
  if (failPool) { c(err()); return; }
  std::vector<cn::TransactionPrefixInfo> a; actual = core->getPoolChangesLite(tail, k, a, del);
  for (auto &t : a) add.push_back(cn::createTransactionPrefix(t.txPrefix, t.txHash));
  c(std::error_code());
}

Chain::Chain(const std::string &d) : dir(d), F(101), X(102) {
  cfg.p.v2 = 1; cfg.p.v3 = 2; cfg.p.v6 = 3; cfg.p.v7 = 4; cfg.p.v8 = 5; cfg.p.unlockWindow = 10; cfg.p.tsWindow = 4;
  cfg.p.depMinTerm = 2; cfg.p.depMaxTerm = 36; cfg.p.depMaxTermV1 = 1000; cfg.p.minV3 = 3; cfg.p.maxV3 = 36; cfg.p.hV3 = 0; cfg.p.hV4 = 0;
  cn::CurrencyBuilder b(log); cfg.apply(b); cur.reset(new cn::Currency(b.currency()));
}
bool Chain::start(bool load) {
  core.reset(new cn::core(*cur, nullptr, log, true, false)); cn::CoreConfig cc; cc.configFolder = dir; cc.configFolderDefaulted = false; cc.testnet = cfg.p.testnet; cn::MinerConfig mc;
  if (!core->init(cc, mc, load)) return false; node.core = core.get(); return true;
}
void Chain::stop() { if (core) { core->deinit(); core.reset(); node.core = nullptr; } }
std::string Chain::mine(const cn::AccountPublicAddress &to, bool withPool, const std::vector<Hash> *only) {
  env::now += 120; cn::Block b; cn::difficulty_type diff; uint32_t h; cn::BinaryArray en(4); ++nonce; for (int i = 0; i < 4; ++i) en[i] = nonce >> (8 * i);
  if (!core->get_block_template(b, to, diff, h, en)) return "no block template";
  if (!withPool || only) {
    b.transactionHashes.clear(); uint64_t fee = 0; size_t size = 0; uint64_t gen = core->getTotalGeneratedAmount();
    if (only) for (auto &x : *only) { cn::Transaction t; if (!core->getTransaction(x, t, true)) return "no such transaction"; b.transactionHashes.push_back(x); uint64_t f = cur->getTransactionFee(t, h); fee += f; size += cn::toBinaryArray(t).size(); }
    std::vector<size_t> sizes; core->getBackwardBlocksSizes(h - 1, sizes, cur->rewardBlocksWindow()); size_t med; { auto s2 = sizes; std::sort(s2.begin(), s2.end()); med = s2.empty() ? 0 : s2.size() % 2 ? s2[s2.size() / 2] : (s2[s2.size() / 2 - 1] + s2[s2.size() / 2]) / 2; }; size_t cum = size;
    for (int i = 0; i < 10; ++i) { if (!cur->constructMinerTx(h, med, gen, cum, fee, to, b.baseTransaction, en, 14)) return "no miner tx"; size_t n = size + cn::toBinaryArray(b.baseTransaction).size(); if (n == cum) break; cum = n; }
  }
  if (!ch::mine(b, diff, true)) return "not mined";
  cn::block_verification_context v = boost::value_initialized<cn::block_verification_context>(); core->handle_incoming_block_blob(cn::toBinaryArray(b), v, false, false);
  if (!v.m_added_to_main_chain) return std::string("block refused") + (v.m_verification_failed ? " (verification)" : v.m_marked_as_orphaned ? " (orphan)" : v.m_already_exists ? " (exists)" : "");
  return "";
}
cn::Transaction Chain::pay(const FO &f, const std::vector<Pay> &p, uint64_t unlock, bool change) {
  cn::Transaction src; if (!core->getTransaction(f.tx, src, true)) throw std::runtime_error("purse transaction lost");
  std::vector<uint32_t> g; core->get_tx_outputs_gindexs(f.tx, g); PublicKey txk = cn::getTransactionPublicKeyFromExtra(src.extra);
  auto t = cn::createTransaction(); cn::transaction_types::InputKeyInfo in; in.amount = f.amount; in.realOutput.transactionPublicKey = txk; in.realOutput.transactionIndex = 0; in.realOutput.outputInTransaction = f.idx;
  in.outputs.push_back({boost::get<cn::KeyOutput>(src.outputs[f.idx].target).key, g[f.idx]}); cn::KeyPair eph; t->addInput(F.k, in, eph); uint64_t sum = 0;
  for (auto &x : p) { sum += x.amount; if (x.term) t->addOutput(x.amount, std::vector<cn::AccountPublicAddress>{x.to}, 1, x.term); else t->addOutput(x.amount, x.to); }
  if (change && f.amount > sum + FEE) t->addOutput(f.amount - sum - FEE, F.k.address);
  t->setUnlockTime(unlock); t->signInputKey(0, in, eph); cn::Transaction r; if (!cn::fromBinaryArray(r, t->getTransactionData())) throw std::runtime_error("tx"); return r;
}
bool Chain::submit(const cn::Transaction &t) { cn::tx_verification_context v = boost::value_initialized<cn::tx_verification_context>(); return core->handle_incoming_tx(cn::toBinaryArray(t), v, false) && !v.m_verification_failed && v.m_added_to_pool; }
std::vector<Hash> Chain::poolIds() { std::vector<Hash> r; for (auto &t : core->getPoolTransactions()) r.push_back(cn::getObjectHash(t)); std::sort(r.begin(), r.end()); return r; }

View Chain::scan(const std::vector<SecretKey> &spend, const SecretKey &view) {
  std::vector<PublicKey> pub(spend.size()); for (size_t i = 0; i < spend.size(); ++i) crypto::secret_key_to_public_key(spend[i], pub[i]);
  View v; std::map<KeyImage, size_t> byImg; std::map<std::pair<uint64_t, uint32_t>, size_t> byMs; uint32_t n = core->get_current_blockchain_height(); v.top = n - 1;
  auto one = [&](const cn::Transaction &t, const Hash &id, uint32_t h, bool conf, uint64_t ts) {
    if (!conf) for (auto &i : t.inputs) {               // dead in the pool: an own output it spends is spent in the chain; undecided: two in the pool
      size_t o = SIZE_MAX; if (i.type() == typeid(cn::KeyInput)) { auto x = byImg.find(boost::get<cn::KeyInput>(i).keyImage); if (x != byImg.end()) o = x->second; } else if (i.type() == typeid(cn::MultisignatureInput)) { auto &k = boost::get<cn::MultisignatureInput>(i); auto x = byMs.find({k.amount, k.outputIndex}); if (x != byMs.end()) o = x->second; }
      if (o != SIZE_MAX && v.outs[o].spent) { auto x = v.at.find(v.outs[o].spender); if (x != v.at.end() && v.txs[x->second].confirmed) return; rivals.insert(id); rivals.insert(v.outs[o].spender); }
    }
    RTx r; r.id = id; r.height = h; r.confirmed = conf; r.unlock = t.unlockTime; r.extra.assign(t.extra.begin(), t.extra.end()); r.pos = v.txs.size(); r.ts = ts;
    for (auto &i : t.inputs) {
      if (i.type() == typeid(cn::BaseInput)) { r.base = true; continue; }
      size_t o = SIZE_MAX; if (i.type() == typeid(cn::KeyInput)) { auto &k = boost::get<cn::KeyInput>(i); r.in += k.amount; auto x = byImg.find(k.keyImage); if (x != byImg.end()) o = x->second; if (!conf && everImg.count(k.keyImage) && (o == SIZE_MAX || !v.outs[o].confirmed)) dangled.insert(id); }
      else { auto &k = boost::get<cn::MultisignatureInput>(i); r.in += k.amount; auto x = byMs.find({k.amount, k.outputIndex}); if (x != byMs.end()) o = x->second; cn::MultisignatureOutput mo; if (!conf && !core->getOutByMSigGIndex(k.amount, k.outputIndex, mo)) dangled.insert(id); }
      if (o != SIZE_MAX) { ROut &x = v.outs[o]; x.spent = true; x.spender = id; r.mine = true; r.gave[x.owner] += x.amount; }
    }
    std::vector<uint32_t> g; if (conf) core->get_tx_outputs_gindexs(id, g); PublicKey txk = cn::getTransactionPublicKeyFromExtra(t.extra); crypto::KeyDerivation d; bool ok = crypto::generate_key_derivation(txk, view, d); size_t ki = 0;
    for (size_t i = 0; i < t.outputs.size(); ++i) {
      auto &o = t.outputs[i]; r.out += o.amount; if (!ok) continue;
      auto own = [&](const PublicKey &k, size_t n) { PublicKey s; if (!crypto::underive_public_key(d, n, k, s)) return -1; for (size_t j = 0; j < pub.size(); ++j) if (pub[j] == s) return (int)j; return -1; };
      ROut x; x.tx = id; x.idx = i; x.amount = o.amount; x.height = h; x.confirmed = conf; x.unlock = t.unlockTime; x.gidx = conf ? g[i] : 0xffffffffu; x.interest = 0; x.owner = -1; x.term = 0; x.dep = false;
      if (o.target.type() == typeid(cn::KeyOutput)) { int w = own(boost::get<cn::KeyOutput>(o.target).key, ki++); if (w < 0) continue; x.owner = w; PublicKey e; SecretKey es; crypto::derive_public_key(d, i, pub[w], e); crypto::derive_secret_key(d, i, spend[w], es); crypto::generate_key_image(e, es, x.img); byImg[x.img] = v.outs.size(); everImg[x.img]; }
      else { auto &m = boost::get<cn::MultisignatureOutput>(o.target); for (auto &k : m.keys) { int w = own(k, ki); ++ki; if (w >= 0) x.owner = w; } if (x.owner < 0) continue; x.dep = true; x.term = m.term; x.interest = cur->calculateInterest(o.amount, m.term, conf ? h : 0xffffffffu); if (conf) byMs[{o.amount, x.gidx}] = v.outs.size(); }
      r.mine = true; r.got[x.owner] += o.amount; v.outs.push_back(x);
    }
    if (r.mine) { v.at[id] = v.txs.size(); v.txs.push_back(r); }
  };
  for (uint32_t h = 0; h < n; ++h) { Hash id = core->getBlockIdByHeight(h); v.blocks.push_back(id); cn::Block b; core->getBlockByHash(id, b); one(b.baseTransaction, cn::getObjectHash(b.baseTransaction), h, true, b.timestamp); for (auto &x : b.transactionHashes) { cn::Transaction t; core->getTransaction(x, t, false); one(t, x, h, true, b.timestamp); } }
  for (auto &t : core->getPoolTransactions()) one(t, cn::getObjectHash(t), 0xffffffffu, false, 0);
  for (auto &t : core->getPoolTransactions()) { Hash id = cn::getObjectHash(t); if (dangled.count(id) || rivals.count(id)) v.dangling = true; }
  return v;
}
}
