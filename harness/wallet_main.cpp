// Wallet spaces: every sequence of chain and wallet events up to a depth, run on
// a real wallet against a real node core, judged by a rescan of the node's chain
// and pool with the wallet's keys.
#include "wsim.h"
#include "Wallet/WalletGreen.h"
#include "Wallet/WalletErrors.h"
#include <System/Dispatcher.h>
#include <System/ContextGroup.h>
#include <algorithm>
#include <cstdio>
#include <fstream>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <sys/resource.h>
#include <errno.h>
#include <cstring>
#include <deque>
#include "crashfs.h"
using namespace ws;
static std::string S(uint64_t v) { return std::to_string(v); }
static std::string SI(int64_t v) { return std::to_string(v); }
static std::string hx(const Hash &h) { return common::podToHex(h).substr(0, 8); }
static const char *PW = "correct horse";
struct Base { std::string dir; std::vector<SecretKey> spend; SecretKey view; std::vector<Chain::FO> purse; uint64_t now; uint32_t nonce; } B;

struct Exec {
  Chain c; platform_system::Dispatcher disp; std::shared_ptr<cn::WalletGreen> w; std::string path; uint64_t purse = 0; bool lag = false, stale = false; Hash lastPay; Chain::FO lastFrom; bool hasPay = false; std::map<Hash, cn::Transaction> seen;
  std::vector<cn::AccountPublicAddress> A; std::vector<std::string> a; std::string x, pw = PW, extra, dir; std::set<int> held{0, 1}; bool reset = false, loose = false, paidC = false, anyExtra = false, wrongExtra = false;
  explicit Exec(const std::string &dir, const std::string &from = "") : c(dir + "/node"), dir(dir) {   // from: go on with the node and the wallet files there
    wipe(dir + "/node"); copyDir((from.empty() ? B.dir : from) + "/node", dir + "/node"); wipe(dir + "/wal"); copyDir((from.empty() ? B.dir : from) + "/wal", dir + "/wal"); path = dir + "/wal/w";
    if (from.empty()) env::now = B.now; env::rnd = 77; c.purse = B.purse; c.nonce = B.nonce;
    if (!c.start(true)) throw std::runtime_error("node does not start");
    PublicKey vp; crypto::secret_key_to_public_key(B.view, vp); for (auto &k : B.spend) { cn::AccountPublicAddress p; crypto::secret_key_to_public_key(k, p.spendPublicKey); p.viewPublicKey = vp; A.push_back(p); a.push_back(c.addr(p)); } x = c.addr(c.X.k.address);
  }
  ~Exec() { if (w) try { w->shutdown(); } catch (...) {} w.reset(); }
  void open(bool fresh = false) {
    w.reset(new cn::WalletGreen(disp, *c.cur, c.node, ws::log));
    if (fresh) { ::unlink(path.c_str()); w->initializeWithViewKey(path, pw, B.view); w->createAddressList({B.spend[0], B.spend[1]}); } else { std::string got; w->load(path, pw, got); if (got != extra && !anyExtra) wrongExtra = true; }
    pump();
  }
  void pump() { for (;;) if (w->getEvent().type == cn::SYNC_COMPLETED) return; }
  void notify(bool own = false) { if (lag && !own) { lag = false; stale = true; return; } stale = false; std::set<cn::INodeObserver *> o; { std::lock_guard<std::mutex> l(c.node.m); o = c.node.obs; } if (o.empty()) throw std::runtime_error("wallet not observing the node"); for (auto i : o) { i->localBlockchainUpdated(c.node.top()); } pump(); }
  void reload() { lag = stale = false; w->shutdown(); w.reset(); open(); }
  Chain::FO next() { return c.purse.at(purse++); }
};

static bool spendable(const Chain &c, const ROut &o, uint32_t top) {
  bool un = o.unlock < c.cfg.p.maxBlockNumber ? top + c.cfg.p.deltaBlocks >= o.unlock : env::now + c.cfg.p.deltaSeconds >= o.unlock;
  return o.confirmed && un && top >= o.height + 1;
}
static std::string checkView(Exec &e, bool afterReset) {
  cn::WalletGreen &w = *e.w; std::string r; std::vector<SecretKey> ks; std::vector<std::string> ad; std::set<int> got;
  auto bad = [&](const std::string &s) { if (r.size() < 600) r += s + "; "; };
  for (size_t i = 0; i < w.getAddressCount(); ++i) { int f = -1; for (size_t j = 0; j < e.a.size(); ++j) if (w.getAddress(i) == e.a[j]) f = j; if (f < 0 || !got.insert(f).second) { bad("the wallet has an address it never had, or twice: " + w.getAddress(i)); return r; } auto k = w.getAddressSpendKey(i); if (!(k.secretKey == B.spend[f]) || !(k.publicKey == e.A[f].spendPublicKey)) bad("wrong spend key for an address"); ks.push_back(B.spend[f]); ad.push_back(e.a[f]); }
  if (!(w.getViewKey().secretKey == B.view)) bad("wrong view key");
  if (got != e.held) { bad("the wallet has " + S(got.size()) + " addresses, it should have " + S(e.held.size()) + " or others"); return r; }
  View v = e.c.scan(ks, B.view); if (v.dangling) return r; const size_t K = ks.size();
  std::vector<uint64_t> act(K), pen(K), lo(K), un(K); std::multiset<std::string> uns, gotUns;
  for (auto &o : v.outs) if (!o.spent) {
    if (o.dep) { bool open = o.confirmed && v.top + 1 >= o.height + o.term && spendable(e.c, o, v.top); (open ? un : lo)[o.owner] += o.amount + o.interest; }
    else { bool s = spendable(e.c, o, v.top); (s ? act : pen)[o.owner] += o.amount; if (s) uns.insert(hx(o.tx) + ":" + S(o.idx) + "=" + S(o.amount) + "#" + S(o.gidx)); }
  }
  uint64_t ta = 0, tp = 0, tl = 0, tu = 0;
  for (size_t j = 0; j < K; ++j) {
    uint64_t g[4] = {w.getActualBalance(ad[j]), w.getPendingBalance(ad[j]), w.getLockedDepositBalance(ad[j]), w.getUnlockedDepositBalance(ad[j])}, x[4] = {act[j], pen[j], lo[j], un[j]}; const char *n[4] = {"actual", "pending", "locked deposit", "unlocked deposit"};
    for (int k = 0; k < 4; ++k) if (g[k] != x[k]) bad(std::string(n[k]) + " balance of address " + S(j) + " is " + S(g[k]) + ", chain says " + S(x[k]));
    ta += act[j]; tp += pen[j]; tl += lo[j]; tu += un[j];
  }
  if (w.getActualBalance() != ta) bad("total actual balance " + S(w.getActualBalance()) + ", chain says " + S(ta));
  if (w.getPendingBalance() != tp) bad("total pending balance " + S(w.getPendingBalance()) + ", chain says " + S(tp));
  if (w.getLockedDepositBalance() != tl) bad("total locked deposits " + S(w.getLockedDepositBalance()) + ", chain says " + S(tl));
  if (w.getUnlockedDepositBalance() != tu) bad("total unlocked deposits " + S(w.getUnlockedDepositBalance()) + ", chain says " + S(tu));
  for (auto &o : w.getUnspentOutputs()) gotUns.insert(hx(o.transactionHash) + ":" + S(o.outputInTransaction) + "=" + S(o.amount) + "#" + S(o.globalOutputIndex));
  if (gotUns != uns) { std::string d; for (auto &x : uns) if (!gotUns.count(x)) d += " missing " + x; for (auto &x : gotUns) if (!uns.count(x)) d += " extra " + x; bad("unspent outputs:" + (d.empty() ? " duplicated" : d)); }
  if (w.getBlockCount() != v.blocks.size()) bad("block count " + S(w.getBlockCount()) + ", chain has " + S(v.blocks.size()));
  else { auto bh = w.getBlockHashes(0, v.blocks.size()); if (bh != v.blocks) bad("block hashes differ"); }
  if (e.loose) return r;
  // transactions
  std::map<Hash, std::vector<size_t>> ids; size_t n = w.getTransactionCount(); for (size_t i = 0; i < n; ++i) ids[w.getTransaction(i).hash].push_back(i);
  for (auto &t : v.txs) {
    std::string nm = "transaction " + hx(t.id); auto f = ids.find(t.id); if (f == ids.end()) { bad(nm + (t.confirmed ? " (block " + S(t.height) + ")" : " (pool)") + " is not in the wallet"); continue; }
    if (f->second.size() != 1) bad(nm + " is listed " + S(f->second.size()) + " times");
    cn::WalletTransaction x = w.getTransaction(f->second[0]); int64_t tot = 0; for (auto &g : t.got) tot += g.second; for (auto &g : t.gave) tot -= g.second;
    if (x.state != cn::WalletTransactionState::SUCCEEDED && (t.confirmed || (x.state != cn::WalletTransactionState::FAILED && x.state != cn::WalletTransactionState::CREATED) || !e.c.node.unsure.count(t.id))) bad(nm + " is in state " + S((int)x.state));
    if (x.blockHeight != t.height) bad(nm + " is at height " + S(x.blockHeight) + ", chain says " + S(t.height));
    if (x.totalAmount != tot) bad(nm + " amount " + SI(x.totalAmount) + ", chain says " + SI(tot));
    uint64_t fee = t.base ? 0 : t.out > t.in ? 10 : t.in - t.out; if (x.fee != fee) bad(nm + " fee " + S(x.fee) + ", chain says " + S(fee));
    if (x.isBase != t.base) bad(nm + " isBase"); if (x.extra != t.extra) bad(nm + " extra differs"); if (x.unlockTime != t.unlock) bad(nm + " unlock time " + S(x.unlockTime) + " not " + S(t.unlock));
    if (t.confirmed && x.timestamp != t.ts) bad(nm + " time " + S(x.timestamp) + " not " + S(t.ts));
    std::map<std::string, int64_t> pos, neg; for (size_t k = 0; k < w.getTransactionTransferCount(f->second[0]); ++k) { auto y = w.getTransactionTransfer(f->second[0], k); (y.amount < 0 ? neg : pos)[y.address] += y.amount; }
    for (size_t j = 0; j < K; ++j) { int64_t p = t.got.count(j) ? t.got.at(j) : 0, m = t.gave.count(j) ? -(int64_t)t.gave.at(j) : 0; if (pos[ad[j]] != p) bad(nm + " says address " + S(j) + " received " + SI(pos[ad[j]]) + ", chain says " + SI(p)); if (neg[ad[j]] != m) bad(nm + " says address " + S(j) + " spent " + SI(neg[ad[j]]) + ", chain says " + SI(m)); }
  }
  for (auto &i : ids) if (!v.at.count(i.first)) for (size_t k : i.second) { auto x = w.getTransaction(k); if (x.state == cn::WalletTransactionState::SUCCEEDED || x.state == cn::WalletTransactionState::CREATED || x.blockHeight != cn::WALLET_UNCONFIRMED_TRANSACTION_HEIGHT) bad("transaction " + hx(i.first) + " is neither in the chain nor in the pool, yet the wallet shows it in state " + S((int)x.state) + " at height " + S(x.blockHeight)); }
  if (getenv("MC_VERBOSE")) for (size_t i = 0; i < w.getWalletDepositCount(); ++i) { auto d = w.getDeposit(i); fprintf(stderr, "dep %zu tx %s:%u create %zu spend %zu h %lu amount %lu\n", i, hx(d.transactionHash).c_str(), d.outputInTransaction, d.creatingTransactionId, d.spendingTransactionId, d.height, d.amount); }
  // deposits
  std::map<std::pair<Hash, uint32_t>, std::vector<size_t>> dp; for (size_t i = 0; i < w.getWalletDepositCount(); ++i) { auto d = w.getDeposit(i); if (d.creatingTransactionId < n) { auto t = w.getTransaction(d.creatingTransactionId); if (t.state != cn::WalletTransactionState::SUCCEEDED || t.blockHeight == cn::WALLET_UNCONFIRMED_TRANSACTION_HEIGHT) continue; if (!(t.hash == d.transactionHash)) bad("deposit " + S(i) + " names the wrong transaction"); } else bad("deposit " + S(i) + " has no transaction"); dp[{d.transactionHash, d.outputInTransaction}].push_back(i); }
  for (auto &o : v.outs) if (o.dep && o.confirmed) {
    std::string nm = "deposit " + hx(o.tx) + ":" + S(o.idx); auto f = dp.find({o.tx, o.idx}); if (f == dp.end()) { bad(nm + " is not in the wallet"); continue; } if (f->second.size() != 1) bad(nm + " is listed " + S(f->second.size()) + " times");
    auto d = w.getDeposit(f->second.back()); if (d.amount != o.amount || d.term != o.term || d.interest != o.interest || d.height != o.height || d.unlockHeight != o.height + o.term) bad(nm + " amount/term/interest/height/unlock " + S(d.amount) + "/" + S(d.term) + "/" + S(d.interest) + "/" + S(d.height) + "/" + S(d.unlockHeight) + ", chain says " + S(o.amount) + "/" + S(o.term) + "/" + S(o.interest) + "/" + S(o.height) + "/" + S(o.height + o.term));
    if (d.locked != !(v.top + 1 >= o.height + o.term)) bad(nm + (d.locked ? " is called locked" : " is called unlocked") + " at the wrong time");
    if (o.spent) { if (d.spendingTransactionId >= n || !(w.getTransaction(d.spendingTransactionId).hash == o.spender)) bad(nm + " was withdrawn by " + hx(o.spender) + " but the wallet does not say so"); }
    else if (d.spendingTransactionId != cn::WALLET_INVALID_TRANSACTION_ID) bad(nm + " is not withdrawn but the wallet says it is");
    dp.erase(f);
  }
  for (auto &x : dp) bad("the wallet lists a deposit " + hx(x.first.first) + ":" + S(x.first.second) + " that is not on the chain");
  // per-block queries
  if (r.empty()) { std::map<std::string, int> want, got; for (auto &t : v.txs) if (t.confirmed) want[S(t.height) + hx(t.id)]++; uint32_t h = 0; for (auto &bi : w.getTransactions((uint32_t)0, v.blocks.size())) { for (auto &t : bi.transactions) got[S(h) + hx(t.transaction.hash)]++; if (!(bi.blockHash == v.blocks[h])) bad("per-block listing names the wrong block"); ++h; } if (want != got) bad("per-block listing of transactions differs");
    std::set<std::string> wu, gu; for (auto &t : v.txs) if (!t.confirmed && !e.c.node.unsure.count(t.id)) wu.insert(hx(t.id)); for (auto &t : w.getUnconfirmedTransactions()) if (t.transaction.state == cn::WalletTransactionState::SUCCEEDED && !e.c.node.unsure.count(t.transaction.hash)) gu.insert(hx(t.transaction.hash)); if (wu != gu) bad("unconfirmed listing differs"); }
  (void)afterReset; if (getenv("MC_NOJUDGE")) { fprintf(stderr, "judge: %s\n", r.c_str()); return ""; } return r;
}

// runs f in a process of its own; sig: the signal that ended it, or 0
static std::string child(const std::function<std::string()> &f, int *sig = nullptr) {
  if (sig && getenv("MC_INLINE")) { *sig = 0; return f(); }   // for a debugger
  int p[2]; if (pipe(p)) throw std::runtime_error("pipe"); fflush(nullptr); pid_t c = fork(); if (c < 0) throw std::runtime_error("fork");
  if (!c) { prctl(PR_SET_PDEATHSIG, SIGKILL); ::close(p[0]); std::string o; int rc = 0; try { o = "." + f(); } catch (const std::exception &x) { o = std::string("!") + x.what(); rc = 3; } for (size_t i = 0; i < o.size();) { ssize_t n = ::write(p[1], o.data() + i, o.size() - i); if (n <= 0) break; i += n; } _exit(rc); }
  ::close(p[1]); std::string o; char b[65536]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) o.append(b, n); ::close(p[0]); int w = 0; waitpid(c, &w, 0); if (sig) *sig = 0;
  if (WIFSIGNALED(w)) { if (!sig) throw std::runtime_error("a process died of signal " + S(WTERMSIG(w))); *sig = WTERMSIG(w); return ""; }
  if (o.empty() || o[0] == '!') throw std::runtime_error(o.empty() ? "no answer from the execution" : o.substr(1)); return o.substr(1);
}
struct Pack { std::string s; size_t at = 0; Pack() {} explicit Pack(const std::string &x) : s(x) {} void put(const std::string &x) { uint64_t n = x.size(); s.append((const char *)&n, 8); s += x; } void num(uint64_t v) { s.append((const char *)&v, 8); } uint64_t num() { uint64_t n; if (at + 8 > s.size()) throw std::runtime_error("bad answer from the execution"); memcpy(&n, s.data() + at, 8); at += 8; return n; } std::string get() { uint64_t n = num(); std::string r = s.substr(at, n); at += n; return r; } };
static mc::Step forked(const std::function<mc::Step()> &f, size_t nops) {
  int sig; std::string o = child([&] { mc::Step st = f(); Pack p; p.num(st.bad); p.num(st.work); p.num(st.next.size()); p.put(st.klass); p.put(st.msg); return p.s; }, &sig); mc::Step st;
  if (sig) { st.bad = true; st.msg = "the wallet process died of signal " + S(sig); return st; }
  Pack p(o); st.bad = p.num(); st.work = p.num(); if (p.num()) for (size_t i = 0; i < nops; ++i) st.next.push_back(i); st.klass = p.get(); st.msg = p.get(); return st;
}
struct Op { std::string id, name; std::function<std::string(Exec &)> f; };
static std::string mineX(Exec &e, bool pool) { std::string r = e.c.mine(e.c.X.k.address, pool); if (!r.empty()) return "harness: " + r; e.notify(); return ""; }
static std::string reorg(Exec &e, uint32_t d, bool pool) {
  uint32_t h = e.c.node.top(); e.c.core->rollback_chain_to(h - d); if (e.c.node.top() != h - d) return "harness: rollback";
  for (uint32_t i = 0; i <= d; ++i) { std::string r = e.c.mine(e.c.X.k.address, pool && i == d); if (!r.empty()) return "harness: " + r; }
  e.notify(); return "";
}
static cn::TransactionParameters params(Exec &e, std::vector<std::pair<std::string, uint64_t>> to, int from = 0, uint64_t mix = 0) { cn::TransactionParameters p; p.sourceAddresses = {e.a[from]}; for (auto &t : to) p.destinations.push_back({t.first, t.second}); p.fee = FEE; p.mixIn = mix; p.changeDestination = e.a[from]; return p; }
static std::vector<Op> allOps() {
  std::vector<Op> o;
  o.push_back({"mine", "a block without the pool's transactions", [](Exec &e) { return mineX(e, false); }});
  o.push_back({"mineP", "a block with the pool's transactions", [](Exec &e) { return mineX(e, true); }});
  o.push_back({"mineA", "a block whose reward goes to the wallet", [](Exec &e) -> std::string { std::string r = e.c.mine(e.A[0], false); if (!r.empty()) return "harness: " + r; e.notify(); return ""; }});
  o.push_back({"pay", "somebody pays both addresses (two outputs to one, an unlock height in the future)", [](Exec &e) -> std::string { auto f = e.next(); auto t = e.c.pay(f, {{e.A[0], 30 * M}, {e.A[1], 20 * M}, {e.A[0], 5 * M}}, e.c.node.top() + 4); if (!e.c.submit(t)) return "harness: payment refused"; e.hasPay = true; e.lastFrom = f; e.lastPay = cn::getObjectHash(t); e.notify(); return ""; }});
  o.push_back({"payDep", "somebody makes a deposit in the wallet's name", [](Exec &e) -> std::string { auto f = e.next(); auto t = e.c.pay(f, {{e.A[0], 20 * M, 3}, {e.A[1], 7 * M, 0}}); if (!e.c.submit(t)) return "harness: deposit refused"; e.hasPay = true; e.lastFrom = f; e.lastPay = cn::getObjectHash(t); e.notify(); return ""; }});
  o.push_back({"reorg1", "the last block is replaced by two others without the pool's transactions", [](Exec &e) { return reorg(e, 1, false); }});
  o.push_back({"reorg2", "the last two blocks are replaced by three others, the last with the pool's transactions", [](Exec &e) { return reorg(e, 2, true); }});
  o.push_back({"reorg3", "the last three blocks are replaced by four others without the pool's transactions", [](Exec &e) { return reorg(e, 3, false); }});
  auto back = [](Exec &e, uint32_t d) -> std::string {
    uint32_t h = e.c.node.top(); std::vector<cn::Transaction> undone; for (uint32_t i = h - d + 1; i <= h; ++i) { cn::Block b; e.c.core->getBlockByHash(e.c.core->getBlockIdByHeight(i), b); for (auto &t : b.transactionHashes) { cn::Transaction x; if (!e.c.core->getTransaction(t, x, true)) return "harness: no transaction"; undone.push_back(x); } }
    if (undone.empty()) return "skip"; e.c.core->rollback_chain_to(h - d); for (auto &t : undone) { cn::tx_verification_context tv = boost::value_initialized<cn::tx_verification_context>(); e.c.core->handle_incoming_tx(cn::toBinaryArray(t), tv, true); }
    for (uint32_t i = 0; i <= d; ++i) { std::string r = e.c.mine(e.c.X.k.address, false); if (!r.empty()) return "harness: " + r; } e.notify(); return ""; };
  o.push_back({"back1", "the last block is replaced by two others, its transactions are in the pool again", [back](Exec &e) { return back(e, 1); }});
  o.push_back({"back2", "the last two blocks are replaced by three others, their transactions are in the pool again", [back](Exec &e) { return back(e, 2); }});
  o.push_back({"mine3", "three blocks without the pool's transactions", [](Exec &e) -> std::string { for (int i = 0; i < 3; ++i) { std::string r = e.c.mine(e.c.X.k.address, false); if (!r.empty()) return "harness: " + r; } e.notify(); return ""; }});
  o.push_back({"payLock", "somebody makes a deposit in the wallet's name and pays it, both locked up to a height beyond the deposit's term", [](Exec &e) -> std::string { auto f = e.next(); auto t = e.c.pay(f, {{e.A[0], 20 * M, 3}, {e.A[1], 7 * M, 0}, {e.A[1], 12 * M, 6}}, e.c.node.top() + 7); if (!e.c.submit(t)) return "harness: deposit refused"; e.notify(); return ""; }});
  o.push_back({"payTime", "somebody makes a deposit in the wallet's name and pays it, both locked up to a time", [](Exec &e) -> std::string { auto f = e.next(); auto t = e.c.pay(f, {{e.A[0], 20 * M, 3}, {e.A[1], 7 * M, 0}}, env::now + 5 * 120 + e.c.cfg.p.deltaSeconds); if (!e.c.submit(t)) return "harness: deposit refused"; e.notify(); return ""; }});
  o.push_back({"expire", "the pool's transactions grow too old and vanish", [](Exec &e) -> std::string { env::now += 43200 + 130; e.c.core->on_idle(); env::now += 1; e.c.core->on_idle(); e.notify(); return ""; }});
  o.push_back({"redo", "the payer of the last payment double-spends it in a block", [](Exec &e) -> std::string { if (!e.hasPay) return "skip"; auto ids = e.c.poolIds(); cn::Transaction dummy; Hash b; uint32_t h; if (e.c.core->getBlockContainingTx(e.lastPay, b, h)) return "skip"; if (std::count(ids.begin(), ids.end(), e.lastPay)) return "skip"; auto t = e.c.pay(e.lastFrom, {{e.A[1], 40 * M}}); if (!e.c.submit(t)) return "harness: redo refused"; Hash id = cn::getObjectHash(t); std::vector<Hash> only{id}; std::string r = e.c.mine(e.c.X.k.address, false, &only); if (!r.empty()) return "harness: " + r; e.hasPay = false; e.notify(); return ""; }});
  o.push_back({"lag", "the wallet does not hear of the next event until the one after it", [](Exec &e) -> std::string { if (e.lag) return "skip"; e.lag = true; return ""; }});
  o.push_back({"send", "the wallet sends 130 units to a stranger and 7 to its own second address", [](Exec &e) -> std::string { auto p = params(e, {{e.x, 130 * M}, {e.a[1], 7 * M}}); crypto::SecretKey k; try { e.w->transfer(p, k); } catch (const std::system_error &x) { return "skip"; } e.notify(true); return ""; }});
  o.push_back({"deposit", "the wallet makes a deposit of 20 units", [](Exec &e) -> std::string { std::string h; try { e.w->createDeposit(20 * M, 3, e.a[0], e.a[0], h); } catch (const std::system_error &x) { if (getenv("MC_VERBOSE")) fprintf(stderr, "deposit: %s\n", x.what()); return "skip"; } e.notify(true); return ""; }});
  o.push_back({"withdraw", "the wallet withdraws the first matured deposit", [](Exec &e) -> std::string { std::string h; for (size_t i = 0; i < e.w->getWalletDepositCount(); ++i) { auto d = e.w->getDeposit(i); if (d.spendingTransactionId != cn::WALLET_INVALID_TRANSACTION_ID) continue; try { e.w->withdrawDeposit(i, h); } catch (const std::system_error &x) { continue; } e.notify(true); return ""; } return "skip"; }});
  auto twin = [](Exec &e, bool conflict) -> std::string {
    View v = e.c.scan(B.spend, B.view); const ROut *pick = nullptr; for (auto &x : v.outs) { if (x.owner != 0 || x.dep || x.amount != 100 * M || !x.confirmed || !spendable(e.c, x, v.top)) continue; bool inPool = x.spent && !v.txs[v.at[x.spender]].confirmed; if (x.spent && !inPool) continue; if (conflict == inPool) { pick = &x; break; } }
    if (!pick) return "skip"; cn::AccountKeys k; k.address = e.A[0]; k.spendSecretKey = B.spend[0]; k.viewSecretKey = B.view; Keys save = e.c.F; e.c.F.k = k; Chain::FO f{pick->tx, pick->idx, pick->amount, 0}; cn::Transaction t = e.c.pay(f, {{e.c.X.k.address, 40 * M}}); e.c.F = save;
    cn::tx_verification_context tv = boost::value_initialized<cn::tx_verification_context>(); if (!e.c.core->handle_incoming_tx(cn::toBinaryArray(t), tv, true) || tv.m_verification_failed) return "harness: twin refused";
    std::vector<Hash> only{cn::getObjectHash(t)}; std::string r = e.c.mine(e.c.X.k.address, false, &only); if (!r.empty()) return "harness: " + r; e.notify(); return ""; };
  o.push_back({"twin", "a block in which another wallet with the same keys spends an output", [twin](Exec &e) { return twin(e, false); }});
  o.push_back({"twinC", "a block in which another wallet with the same keys spends an output this wallet's pending transaction spends too", [twin](Exec &e) { return twin(e, true); }});
  o.push_back({"reset", "rescan from the start", [](Exec &e) -> std::string { e.w->reset(0); e.lag = e.stale = false; e.pump(); return ""; }});
  o.push_back({"save", "save everything and reopen", [](Exec &e) -> std::string { e.w->save(cn::WalletSaveLevel::SAVE_ALL); e.reload(); return ""; }});
  o.push_back({"saveT", "save keys and transactions and reopen", [](Exec &e) -> std::string { e.w->save(cn::WalletSaveLevel::SAVE_KEYS_AND_TRANSACTIONS); e.reload(); return ""; }});
  o.push_back({"saveK", "save keys only and reopen", [](Exec &e) -> std::string { e.w->save(cn::WalletSaveLevel::SAVE_KEYS_ONLY); e.reload(); return ""; }});
  o.push_back({"addNew", "import a third address as new", [](Exec &e) -> std::string { if (e.held.count(2) || e.paidC || e.lag || e.stale) return "skip"; e.w->createAddress(B.spend[2]); e.held.insert(2); e.pump(); return ""; }});
  o.push_back({"addOld", "import a third address with its history", [](Exec &e) -> std::string { if (e.held.count(2)) return "skip"; e.w->createAddressList({B.spend[2]}, true); e.held.insert(2); e.pump(); return ""; }});
  o.push_back({"delB", "delete the second address", [](Exec &e) -> std::string { if (!e.held.count(1)) return "skip"; e.w->deleteAddress(e.a[1]); e.held.erase(1); e.loose = true; e.pump(); return ""; }});
  o.push_back({"addB", "import the second address again", [](Exec &e) -> std::string { if (e.held.count(1)) return "skip"; e.w->createAddressList({B.spend[1]}, true); e.held.insert(1); e.pump(); return ""; }});
  o.push_back({"payC", "somebody pays the third address and the first", [](Exec &e) -> std::string { auto f = e.next(); auto t = e.c.pay(f, {{e.A[2], 30 * M}, {e.A[0], 20 * M}}); if (!e.c.submit(t)) return "harness: payment refused"; e.paidC = true; e.notify(); return ""; }});
  o.push_back({"pw", "change the password", [](Exec &e) -> std::string { std::string n = e.pw == PW ? "another" : PW; e.w->changePassword(e.pw, n); e.pw = n; return ""; }});
  o.push_back({"saveX", "save everything, with a note, and reopen", [](Exec &e) -> std::string { std::string n = e.extra == "note" ? "another note" : "note"; e.w->save(cn::WalletSaveLevel::SAVE_ALL, n); e.extra = n; e.reload(); return ""; }});
  o.push_back({"create9", "import nine more addresses with their history", [](Exec &e) -> std::string { if (e.held.count(3)) return "skip"; std::vector<SecretKey> k(B.spend.begin() + 3, B.spend.begin() + 12); e.w->createAddressList(k, true); for (int i = 3; i < 12; ++i) e.held.insert(i); e.pump(); return ""; }});
  o.push_back({"wS", "write everything to the file", [](Exec &e) -> std::string { e.w->save(cn::WalletSaveLevel::SAVE_ALL, e.extra); e.pump(); return ""; }});
  o.push_back({"wT", "write keys and transactions to the file", [](Exec &e) -> std::string { e.w->save(cn::WalletSaveLevel::SAVE_KEYS_AND_TRANSACTIONS, e.extra); e.pump(); return ""; }});
  o.push_back({"wK", "write keys only to the file", [](Exec &e) -> std::string { e.w->save(cn::WalletSaveLevel::SAVE_KEYS_ONLY, e.extra); e.pump(); return ""; }});
  o.push_back({"nosave", "close without saving and reopen the older file", [](Exec &e) -> std::string { e.reload(); return ""; }});
  return o;
}
static void buildBase(const std::string &dir) {
  B.dir = dir; wipe(dir); mkdir(dir.c_str(), 0700); mkdir((dir + "/node").c_str(), 0700); mkdir((dir + "/wal").c_str(), 0700); Keys k0(201); B.spend.clear(); for (int i = 0; i < 12; ++i) B.spend.push_back(Keys(201 + i).k.spendSecretKey); B.view = k0.k.viewSecretKey;
  Chain c(dir + "/node"); env::now = c.cfg.now; env::rnd = 5; if (!c.start(false)) throw std::runtime_error("base node");
  auto need = [](const std::string &r) { if (!r.empty()) throw std::runtime_error("base: " + r); };
  cn::AccountPublicAddress A[3]; for (int j = 0; j < 3; ++j) { crypto::secret_key_to_public_key(B.spend[j], A[j].spendPublicKey); crypto::secret_key_to_public_key(B.view, A[j].viewPublicKey); }
  need(c.mine(c.F.k.address, false)); for (int i = 0; i < 11; ++i) need(c.mine(i == 5 ? A[0] : c.X.k.address, false));
  cn::Block b1; c.core->getBlockByHash(c.core->getBlockIdByHeight(1), b1); Hash cb = cn::getObjectHash(b1.baseTransaction); std::vector<Chain::FO> big; for (uint32_t i = 0; i < b1.baseTransaction.outputs.size(); ++i) if (b1.baseTransaction.outputs[i].amount >= 20000 * M) big.push_back({cb, i, b1.baseTransaction.outputs[i].amount, 0});
  if (big.size() < 2) throw std::runtime_error("premine");
  std::vector<Chain::Pay> p; for (int i = 0; i < 40; ++i) p.push_back({c.F.k.address, 200 * M}); auto t1 = c.pay(big[0], p); if (!c.submit(t1)) throw std::runtime_error("base split"); Hash h1 = cn::getObjectHash(t1);
  for (uint32_t i = 0; i < t1.outputs.size(); ++i) if (t1.outputs[i].amount == 200 * M) B.purse.push_back({h1, i, 200 * M, 0});
  p.clear(); for (int i = 0; i < 10; ++i) p.push_back({c.X.k.address, 100 * M}); for (int i = 0; i < 3; ++i) p.push_back({A[0], 100 * M}); auto t2 = c.pay(big[1], p); if (!c.submit(t2)) throw std::runtime_error("base pay");
  need(c.mine(c.X.k.address, true)); for (int i = 0; i < 7; ++i) need(c.mine(i == 1 ? A[0] : c.X.k.address, false));
  p.clear(); for (int i = 0; i < 3; ++i) p.push_back({A[0], 100 * M}); p.push_back({A[1], 100 * M}); p.push_back({A[0], 20 * M, 3}); p.push_back({A[1], 10 * M, 6});
  { Hash h2 = cn::getObjectHash(t2); Chain::FO rest; for (uint32_t i = 0; i < t2.outputs.size(); ++i) if (i >= 13) { rest = {h2, i, t2.outputs[i].amount, 0}; break; } auto t3 = c.pay(rest, p); if (!c.submit(t3)) throw std::runtime_error("base pay 2"); }
  need(c.mine(c.X.k.address, true)); for (int i = 0; i < 2; ++i) need(c.mine(c.X.k.address, false));
  B.now = env::now; B.nonce = c.nonce; c.stop();
  if (!c.start(true)) throw std::runtime_error("base restart");
  { platform_system::Dispatcher d; auto w = std::make_shared<cn::WalletGreen>(d, *c.cur, c.node, ws::log); w->initializeWithViewKey(dir + "/wal/w", PW, B.view); w->createAddressList({B.spend[0], B.spend[1]}); while (w->getEvent().type != cn::SYNC_COMPLETED); w->save(); w->shutdown(); }
  c.stop();
}
static mc::Step run1(mc::Session &s, const std::vector<Op> &ops, const mc::Seq &q, bool fresh) {
  mc::Step st; Exec e(s.scratch()); e.open(fresh); std::string r; int skips = 0;
  auto judge = [&](const std::string &at) { std::string r = e.stale ? (e.c.scan(B.spend, B.view), "") : checkView(e, false); if (!r.empty()) { st.bad = true; st.msg = at + ": " + r; } return r.empty(); };
  if (q.empty() && !judge("at the start")) return st;
  for (size_t i = 0; i < q.size(); ++i) { std::string r = ops[q[i]].f(e); ++st.work; if (getenv("MC_VERBOSE")) fprintf(stderr, "op %s: %s; wallet blocks %u\n", ops[q[i]].id.c_str(), r.c_str(), e.w->getBlockCount()); if (r == "skip") { ++skips; if (i + 1 == q.size()) { st.klass = ops[q[i]].id + " n/a"; return st; } continue; } if (!r.empty()) { st.bad = true; st.msg = "step " + S(i + 1) + ": " + r; return st; } if (!judge("after step " + S(i + 1) + " (" + ops[q[i]].id + ")")) return st; }
  st.klass = q.empty() ? "start" : ops[q.back()].id;
  for (size_t i = 0; i < ops.size(); ++i) st.next.push_back(i); return st;
}
static mc::Step run(mc::Session &s, const std::vector<Op> &ops, const mc::Seq &q, bool fresh) {   // every execution is a process of its own: the wallet keeps process-wide state
  return forked([&] { return run1(s, ops, q, fresh); }, ops.size());
}
static bool space(mc::Session &s, const std::string &name, const std::vector<std::string> &ids, int depth, bool fresh = false) {
  if (!s.wants(name)) return true; std::vector<Op> ops; for (auto &i : ids) for (auto &o : allOps()) if (o.id == i) ops.push_back(o);
  mc::Space sp; sp.name = name; sp.depth = depth; sp.full = depth; sp.run = [&, fresh](const mc::Seq &q) { return run(s, ops, q, fresh); };
  sp.show = [&](const mc::Seq &q) { std::string o; for (auto i : q) o += "  " + ops[i].name + "\n"; return o; }; return s.explore(sp);
}
#include "wallet_file.h"
#include "wallet_send.h"
int main(int argc, char **argv) {
  mc::Session s(argc, argv);
  s.assumptions = {"proof of work replaced by a keccak stub", "wall clock and randomness are owned by the harness", "the node in front of the wallet answers synchronously"};
  try {
    if (getenv("MC_LOG")) { static logging::ConsoleLogger cl; ws::log.addLogger(cl); }
    std::string dir = s.scratch() + "-base"; buildBase(dir); bool T = s.thorough(); const std::string &p = s.property();
    if (p == "C15") {
      space(s, "chain", {"mine", "mineP", "mineA", "pay", "payDep", "reorg1", "reorg2", "expire", "redo", "lag"}, T ? 4 : 3);
      space(s, "own", {"mine", "mineP", "send", "deposit", "withdraw", "reorg1", "reorg3", "expire", "lag"}, T ? 4 : 3);
    }
    if (p == "C15") space(s, "locks", {"mine", "mineP", "mine3", "payLock", "payTime", "reorg2", "back1"}, T ? 5 : 4);
    if (p == "C15") space(s, "back", {"mine", "mineP", "pay", "send", "deposit", "withdraw", "reorg1", "back1", "back2", "expire"}, T ? 4 : 3);
    if (p == "C15") space(s, "shared-keys", {"mineP", "send", "twin", "twinC", "reorg1", "expire", "nosave"}, T ? 4 : 3);
    if (p == "C15") space(s, "reset", {"mineP", "send", "pay", "payDep", "withdraw", "reorg2", "expire", "reset", "nosave"}, T ? 4 : 3);
    if (p == "C15") space(s, "addresses", {"mineP", "send", "payC", "addNew", "addOld", "delB", "addB", "reorg2", "save"}, T ? 4 : 3);
    if (p == "C17") space(s, "reopen", {"mineP", "pay", "payDep", "send", "reorg2", "save", "saveT", "saveK", "nosave"}, T ? 4 : 3);
    if (p == "C17") fileSpaces(s);
    if (p == "C16") sendSpaces(s);
    wipe(dir);
  } catch (const std::exception &e) { fprintf(stderr, "harness: %s\n", e.what()); return 2; }
  return s.finish();
}
