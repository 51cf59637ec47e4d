// Wallet world: a real node core on a private directory, a synchronous INode in
// front of it, and a reference rescan that knows the wallet's keys.
#pragma once
#include <functional>
#include "chain.h"
#include "env.h"
#include "mc.h"
#include "CryptoNoteCore/Account.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/TransactionApi.h"
#include "CryptoNoteCore/TransactionExtra.h"
#include "INode.h"
#include "Logging/LoggerGroup.h"
#include "Logging/ConsoleLogger.h"
#include <ftw.h>
#include <mutex>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_set>
namespace ws {
using crypto::Hash; using crypto::PublicKey; using crypto::SecretKey; using crypto::KeyImage;
static const uint64_t M = 1000000, FEE = 1000;
extern logging::LoggerGroup log;
struct Keys { cn::AccountKeys k; explicit Keys(uint64_t seed); };

struct SimNode : cn::INode {
  cn::core *core = nullptr; std::mutex m; std::set<cn::INodeObserver *> obs; bool failRelay = false, failMix = false, failPool = false, failBlocks = false, swallowRelay = false; std::vector<cn::Transaction> relayed; std::set<Hash> unsure; bool hold = false; std::set<Hash> defer; std::vector<std::pair<std::string, std::function<void()>>> pending;   // hold: a request is answered when the harness says so
  bool addObserver(cn::INodeObserver *o) override { std::lock_guard<std::mutex> l(m); return obs.insert(o).second; }
  bool removeObserver(cn::INodeObserver *o) override { std::lock_guard<std::mutex> l(m); return obs.erase(o) > 0; }
  void init(const Callback &c) override { c(std::error_code()); }
  bool shutdown() override { return true; }
  size_t getPeerCount() const override { return 8; }
  uint32_t top() const { return core->get_current_blockchain_height() - 1; }
  uint32_t getLastLocalBlockHeight() const override { return top(); }
  uint32_t getLastKnownBlockHeight() const override { return top(); }
  uint32_t getLocalBlockCount() const override { return top() + 1; }
  uint32_t getKnownBlockCount() const override { return top() + 1; }
  uint64_t getLastLocalBlockTimestamp() const override { return env::now; }
  static std::error_code err() { return std::make_error_code(std::errc::io_error); }
  void relayTransaction(const cn::Transaction &t, const Callback &c) override;
  void getRandomOutsByAmounts(std::vector<uint64_t> &&a, uint64_t n, std::vector<cn::COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::outs_for_amount> &r, const Callback &c) override;
  void getNewBlocks(std::vector<Hash> &&k, std::vector<cn::block_complete_entry> &b, uint32_t &s, const Callback &c) override { c(err()); }
  void getTransactionOutsGlobalIndices(const Hash &h, std::vector<uint32_t> &g, const Callback &c) override { c(core->get_tx_outputs_gindexs(h, g) ? std::error_code() : err()); }
  void queryBlocks(std::vector<Hash> &&k, uint64_t ts, std::vector<cn::BlockShortEntry> &b, uint32_t &s, const Callback &c) override;
  void getPoolSymmetricDifference(std::vector<Hash> &&k, Hash tail, bool &actual, std::vector<std::unique_ptr<cn::ITransactionReader>> &add, std::vector<Hash> &del, const Callback &c) override;
  void getMultisignatureOutputByGlobalIndex(uint64_t a, uint32_t g, cn::MultisignatureOutput &o, const Callback &c) override { c(core->getOutByMSigGIndex(a, g, o) ? std::error_code() : err()); }
  void getTransaction(const Hash &h, cn::Transaction &t, const Callback &c) override { c(core->getTransaction(h, t, true) ? std::error_code() : err()); }
  void getBlocks(const std::vector<uint32_t> &, std::vector<std::vector<cn::BlockDetails>> &, const Callback &c) override { c(err()); }
  void getBlocks(const std::vector<Hash> &, std::vector<cn::BlockDetails> &, const Callback &c) override { c(err()); }
  void getBlocks(uint64_t, uint64_t, uint32_t, std::vector<cn::BlockDetails> &, uint32_t &, const Callback &c) override { c(err()); }
  void getTransactions(const std::vector<Hash> &, std::vector<cn::TransactionDetails> &, const Callback &c) override { c(err()); }
  void getTransactionsByPaymentId(const Hash &, std::vector<cn::TransactionDetails> &, const Callback &c) override { c(err()); }
  void getPoolTransactions(uint64_t, uint64_t, uint32_t, std::vector<cn::TransactionDetails> &, uint64_t &, const Callback &c) override { c(err()); }
  void isSynchronized(bool &s, const Callback &c) override { s = true; c(std::error_code()); }
};

struct ROut { Hash tx; uint32_t idx; uint64_t amount; bool dep; uint32_t term; uint32_t height; bool confirmed; int owner; KeyImage img; uint32_t gidx; uint64_t unlock; uint64_t interest; bool spent = false; Hash spender; };
struct RTx { Hash id; uint32_t height; bool confirmed; uint64_t in = 0, out = 0, unlock = 0; bool base = false; std::string extra; std::map<int, uint64_t> got, gave; bool mine = false; size_t pos; uint64_t ts = 0; };
struct View { std::vector<ROut> outs; std::vector<RTx> txs; std::map<Hash, size_t> at; uint32_t top; std::vector<Hash> blocks; bool dangling = false; };   // owners: index into spend keys

struct Chain {                                         // node + miner + faucet
  std::string dir; ch::Cfg cfg; std::unique_ptr<cn::Currency> cur; std::unique_ptr<cn::core> core; SimNode node; uint32_t nonce = 0;
  Keys F, X; struct FO { Hash tx; uint32_t idx; uint64_t amount; int group; }; std::vector<FO> purse; std::map<KeyImage, int> everImg; std::set<Hash> dangled, rivals; // pool transactions that at some time spent an output the chain no longer had
  explicit Chain(const std::string &d);
  bool start(bool load); void stop();
  std::string addr(const cn::AccountPublicAddress &a) const { return cur->accountAddressAsString(a); }
  // mines one block paying `to`; returns "" or why it was refused
  std::string mine(const cn::AccountPublicAddress &to, bool withPool, const std::vector<Hash> *only = nullptr);
  struct Pay { cn::AccountPublicAddress to; uint64_t amount; uint32_t term = 0; };
  cn::Transaction pay(const FO &from, const std::vector<Pay> &p, uint64_t unlock = 0, bool change = true);
  bool submit(const cn::Transaction &t);
  std::vector<Hash> poolIds();
  View scan(const std::vector<SecretKey> &spend, const SecretKey &view);
  void saveTo(const std::string &d) const; 
};
void copyDir(const std::string &from, const std::string &to);
void wipe(const std::string &d);
}
