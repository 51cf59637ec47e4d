// Sending: what a transaction made by the wallet contains, against what was
// asked for, and what a refused one leaves behind. Included by wallet_main.cpp.
struct Ask {
  std::vector<std::pair<int, uint64_t>> to; std::vector<int> src; int change = -1; uint64_t fee = FEE, mix = 0, unlock = 0, ttl = 0; std::string extra; std::vector<std::pair<int, std::string>> notes; int donate = -1; uint64_t threshold = 0;   // addresses: 0.. own, 100 a stranger, 101 another stranger, -2 rubbish
  std::string show() const { auto nm = [](int a) { return a == 100 ? std::string("a stranger") : a == 101 ? std::string("another stranger") : a == -2 ? std::string("a malformed address") : "own address " + S(a); }; std::string s = "send"; for (auto &t : to) s += " " + S(t.second) + " to " + nm(t.first) + ","; s += " from"; if (src.empty()) s += " anywhere"; for (int a : src) s += " " + nm(a); s += ", change to " + (change == -1 ? std::string("the default") : nm(change)) + ", fee " + S(fee) + ", mixin " + S(mix) + ", unlock " + S(unlock) + ", ttl " + S(ttl) + (extra.empty() ? "" : ", with a payment id") + (notes.empty() ? "" : ", with " + S(notes.size()) + " messages") + (donate == -1 ? "" : ", donation to " + nm(donate)); return s; }
};
static std::string addrOf(Exec &e, int a) { return a == 100 ? e.x : a == 101 ? e.c.addr(e.c.F.k.address) : a == -2 ? e.x.substr(0, e.x.size() - 1) + (e.x.back() == '1' ? "2" : "1") : e.a.at(a); }
static cn::TransactionParameters paramsOf(Exec &e, const Ask &q) {
  cn::TransactionParameters p; for (int s : q.src) p.sourceAddresses.push_back(addrOf(e, s)); for (auto &t : q.to) p.destinations.push_back({addrOf(e, t.first), t.second}); for (auto &n : q.notes) p.messages.push_back({addrOf(e, n.first), n.second});
  p.fee = q.fee; p.mixIn = q.mix; p.extra = q.extra; p.unlockTimestamp = q.unlock; p.ttl = q.ttl; if (q.change != -1) p.changeDestination = addrOf(e, q.change); if (q.donate != -1) { p.donation.address = addrOf(e, q.donate); p.donation.threshold = q.threshold; } return p;
}
static std::vector<SecretKey> heldKeys(Exec &e) { std::vector<SecretKey> k; for (int h : e.held) k.push_back(B.spend[h]); return k; }
// where every output of t goes: address number -> sum; -99: nobody we know
static std::map<int, uint64_t> receivers(Exec &e, const cn::Transaction &t) {
  std::map<int, uint64_t> r; PublicKey txk = cn::getTransactionPublicKeyFromExtra(t.extra); size_t ki = 0;
  for (size_t i = 0; i < t.outputs.size(); ++i) {
    int who = -99; auto &o = t.outputs[i]; std::vector<PublicKey> keys; if (o.target.type() == typeid(cn::KeyOutput)) keys.push_back(boost::get<cn::KeyOutput>(o.target).key); else keys = boost::get<cn::MultisignatureOutput>(o.target).keys;
    for (auto &k : keys) { auto tryOne = [&](int id, const SecretKey &view, const PublicKey &spend) { crypto::KeyDerivation d; PublicKey s; if (crypto::generate_key_derivation(txk, view, d) && crypto::underive_public_key(d, ki, k, s) && s == spend) who = id; }; for (size_t j = 0; j < e.A.size(); ++j) tryOne(j, B.view, e.A[j].spendPublicKey); tryOne(100, e.c.X.k.viewSecretKey, e.c.X.k.address.spendPublicKey); tryOne(101, e.c.F.k.viewSecretKey, e.c.F.k.address.spendPublicKey); ++ki; }
    r[who] += o.amount; }
  return r;
}
// the transaction the wallet made is the one that was asked for
static std::string judgeTx(Exec &e, const Ask &q, const cn::Transaction &t, const View &before, std::map<int, uint64_t> *out = nullptr) {
  uint64_t in = 0, sum = 0; std::set<size_t> used; std::map<KeyImage, size_t> by; for (size_t i = 0; i < before.outs.size(); ++i) if (!before.outs[i].dep) by[before.outs[i].img] = i;
  std::vector<int> held(e.held.begin(), e.held.end());
  for (auto &i : t.inputs) {
    if (i.type() != typeid(cn::KeyInput)) return "an input is not a key input"; auto &k = boost::get<cn::KeyInput>(i); auto f = by.find(k.keyImage); if (f == by.end()) return "an input spends nothing the wallet owns"; const ROut &o = before.outs[f->second];
    if (!used.insert(f->second).second) return "an output is spent twice"; if (o.spent) return "an output already spent is spent"; if (!spendable(e.c, o, before.top)) return "an output that is not yet available is spent"; if (o.amount != k.amount) return "an input has the wrong amount";
    if (!q.src.empty() && !std::count(q.src.begin(), q.src.end(), held[o.owner])) return "money of an address that was not to pay is spent"; in += k.amount;
    if (k.outputIndexes.size() != q.mix + 1) return "an input has " + S(k.outputIndexes.size()) + " possible origins, " + S(q.mix + 1) + " were asked for"; uint32_t at = 0; bool real = false; for (size_t j = 0; j < k.outputIndexes.size(); ++j) { if (j && !k.outputIndexes[j]) return "an input names an origin twice"; at += k.outputIndexes[j]; if (at == o.gidx) real = true; } if (!real) return "an input does not name its origin"; }
  for (auto &o : t.outputs) { if (!o.amount) return "an output of nothing"; if (o.target.type() != typeid(cn::KeyOutput)) return "an output is not a key output"; sum += o.amount; }
  uint64_t fee = q.ttl ? 0 : q.fee; if (in != sum + fee) return "inputs " + S(in) + " are not outputs " + S(sum) + " and the fee " + S(fee);
  std::map<int, uint64_t> want; uint64_t asked = 0; for (auto &x : q.to) { want[x.first] += x.second; asked += x.second; } auto got = receivers(e, t); if (got.count(-99)) return "an output goes to nobody"; uint64_t change = in - fee - asked;
  if (q.donate != -1) { uint64_t d = 0; for (auto &g : got) if (g.first == q.donate) d = g.second - (want.count(q.donate) ? want[q.donate] : 0); if (q.donate != q.change && (q.change != -1 || q.src.empty() || q.donate != q.src[0])) { if (d > q.threshold || d > change) return "a donation beyond what was allowed"; want[q.donate] += d; if (!want[q.donate]) want.erase(q.donate); change -= d; } }
  int ch = q.change != -1 ? q.change : !q.src.empty() ? q.src[0] : *e.held.begin(); if (change) want[ch] += change;
  if (got != want) { std::string d; for (auto &g : got) d += " " + S(g.first) + ":" + S(g.second); d += ", asked for"; for (auto &g : want) d += " " + S(g.first) + ":" + S(g.second); return "the receivers get" + d; }
  if (t.unlockTime != q.unlock) return "unlock time " + S(t.unlockTime) + ", asked for " + S(q.unlock);
  std::string ex(t.extra.begin(), t.extra.end()); if (!q.extra.empty() && ex.find(q.extra) == std::string::npos) return "the payment id is missing"; std::vector<cn::TransactionExtraField> fields; if (!cn::parseTransactionExtra(t.extra, fields)) return "the extra field cannot be read"; uint64_t ttl = 0; for (auto &f : fields) if (f.type() == typeid(cn::TransactionExtraTTL)) ttl = boost::get<cn::TransactionExtraTTL>(f).ttl; if (ttl != q.ttl) return "time to live " + S(ttl) + ", asked for " + S(q.ttl);
  PublicKey pk = cn::getTransactionPublicKeyFromExtra(t.extra); std::map<int, std::multiset<std::string>> notes; for (auto &n : q.notes) notes[n.first].insert(n.second);
  for (int who : {0, 1, 100, 101}) { SecretKey k = who == 100 ? e.c.X.k.spendSecretKey : who == 101 ? e.c.F.k.spendSecretKey : B.spend[who]; auto m = cn::get_messages_from_extra(t.extra, pk, &k); std::multiset<std::string> g(m.begin(), m.end()); if (g != notes[who]) return "receiver " + S(who) + " can read " + S(g.size()) + " messages, or others, than the " + S(notes[who].size()) + " sent"; }
  if (out) { *out = got; for (auto &x : q.to) (*out)[x.first] -= x.second; } return "";
}
static std::string judgeRecord(Exec &e, const Ask &q, size_t id, const cn::Transaction &t, cn::WalletTransactionState st, const std::map<int, uint64_t> &rest) {
  auto x = e.w->getTransaction(id); if (!(x.hash == cn::getObjectHash(t))) return "the wallet's record has another hash"; if (x.state != st) return "the wallet's record is in state " + S((int)x.state); if (x.unlockTime != q.unlock) return "the wallet's record has unlock time " + S(x.unlockTime);
  if (!q.ttl && x.fee != q.fee) return "the wallet's record has fee " + S(x.fee); std::map<std::string, int64_t> us, chg, don; for (size_t k = 0; k < e.w->getTransactionTransferCount(id); ++k) { auto y = e.w->getTransactionTransfer(id, k); if (y.amount > 0) (y.type == cn::WalletTransferType::CHANGE ? chg : y.type == cn::WalletTransferType::DONATION ? don : us)[y.address] += y.amount; }
  std::map<std::string, int64_t> want, wr, gr; for (auto &o : q.to) want[addrOf(e, o.first)] += o.second; for (auto &x : rest) if (x.second) wr[addrOf(e, x.first)] += x.second; if (us != want) return "the wallet's record does not list the payments that were made";
  for (auto &m : {chg, don}) for (auto &x : m) gr[x.first] += x.second; if (gr != wr) return "the wallet's record does not list the change and the donation that were made"; for (auto &x : don) if (q.donate == -1 || x.first != addrOf(e, q.donate) || x.second > (int64_t)std::min<uint64_t>(q.threshold, INT64_MAX)) return "the wallet's record lists another donation than was allowed"; return "";
}
static uint64_t available(Exec &e, const View &v, const std::vector<int> &src) { std::vector<int> held(e.held.begin(), e.held.end()); uint64_t s = 0; for (auto &o : v.outs) if (!o.spent && !o.dep && o.amount > 10 && spendable(e.c, o, v.top) && (src.empty() || std::count(src.begin(), src.end(), held[o.owner]))) s += o.amount; return s; }
// one request, all of it: made or refused as it must be, what is in it, the view now and when it is in a block
enum class Via { Send, Commit, Rollback, SaveCommit };
static std::string sendCase(Exec &e, const Ask &q, Via via, int mode, bool &made, bool twice = true) {
  View before = e.c.scan(heldKeys(e), B.view); auto pool = e.c.poolIds(); uint64_t have = e.w->getActualBalance(), need = q.ttl ? 0 : q.fee; bool sane = !q.to.empty(); for (auto &t : q.to) { if (t.first == -2 || !t.second || t.second > INT64_MAX || need + t.second < need) { sane = false; break; } need += t.second; }
  for (int s : q.src) if (s >= (int)e.a.size() || !e.held.count(s)) sane = false; if (q.change != -1 && (q.change < 0 || !e.held.count(q.change))) sane = false; if (q.change == -1 && q.src.size() != 1) sane = false; if (q.donate != -1 && !q.threshold) sane = false; if ((q.donate == -1) != (q.threshold == 0)) sane = false;
  bool enough = sane && need <= available(e, before, q.src), must = enough && q.mix == 0 && q.fee == FEE && q.threshold <= INT64_MAX && mode == 0 && q.donate != -2 && std::set<int>(q.src.begin(), q.src.end()).size() == q.src.size() && (!q.ttl || q.ttl > env::now);
  e.c.node.failRelay = mode == 1; e.c.node.swallowRelay = mode == 2; e.c.node.failMix = mode == 3; e.c.node.relayed.clear(); auto clear = [&] { e.c.node.failRelay = e.c.node.swallowRelay = e.c.node.failMix = false; };
  size_t id = 0; std::string why; bool ok = true; SecretKey sk{}; made = false;
  auto refused = [&](const std::string &at) -> std::string {
    clear(); if (!e.c.node.relayed.empty() && e.c.node.unsure.count(cn::getObjectHash(e.c.node.relayed.back()))) { e.notify(true); std::string r = checkView(e, false); if (r.empty()) r = judgeTx(e, q, e.c.node.relayed.back(), before); if (r.empty()) { r = e.c.mine(e.c.X.k.address, true); e.notify(); if (r.empty()) r = checkView(e, false); } return r.empty() ? r : "the node took the transaction but said it did not: " + r; }
    if (e.c.poolIds() != pool) return at + ": refused (" + why + "), yet the node has a new transaction"; std::string r = checkView(e, false); if (!r.empty()) return at + ": refused (" + why + "), and then " + r; if (e.w->getActualBalance() != have) return at + ": refused, and the balance changed"; e.notify(true); r = checkView(e, false); return r.empty() ? r : at + ": refused, and after the next news from the node " + r; };
  try { if (via == Via::Send) id = e.w->transfer(paramsOf(e, q), sk); else id = e.w->makeTransaction(paramsOf(e, q)); } catch (const std::system_error &x) { ok = false; why = x.what(); } catch (const std::exception &x) { ok = false; why = x.what(); }
  if (getenv("MC_VERBOSE")) fprintf(stderr, "%s: %s\n", q.show().c_str(), ok ? "made" : why.c_str());
  if (!ok) { if (must) return "the request is refused: " + why; return refused("making it"); }
  if (!sane) return "a request that makes no sense is carried out"; if (need > available(e, before, q.src)) return "more is sent than there is";
  if (via != Via::Send) {
    if (e.c.poolIds() != pool) return "a transaction not yet committed is sent"; if (!e.c.node.relayed.empty()) return "a transaction not yet committed is sent";
    if (via == Via::SaveCommit) { e.w->save(cn::WalletSaveLevel::SAVE_ALL, e.extra); e.reload(); Hash h{}; bool found = false; for (size_t i = 0; i < e.w->getTransactionCount(); ++i) if (e.w->getTransaction(i).state == cn::WalletTransactionState::CREATED) { id = i; found = true; } if (!found) return "a saved transaction not yet committed is lost"; (void)h; }
    if (via == Via::Rollback) { e.w->rollbackUncommitedTransaction(id); clear(); bool again = true; try { e.w->commitTransaction(id); } catch (const std::system_error &) { again = false; } if (again) return "a transaction taken back can be committed"; if (e.c.poolIds() != pool) return "a transaction taken back is sent"; e.notify(true); std::string r = checkView(e, false); if (!r.empty()) return "taken back: " + r; if (e.w->getActualBalance() != have) return "taken back, and the balance changed"; return ""; }
    try { e.w->commitTransaction(id); } catch (const std::system_error &x) { ok = false; why = x.what(); }
    if (!ok) { if (!e.c.node.unsure.empty()) return refused("committing it"); if (must) return "committing it is refused: " + why; clear(); if (e.c.poolIds() != pool) return "committing it failed, yet the node has a new transaction"; if (mode == 1) { try { e.w->commitTransaction(id); } catch (const std::system_error &x) { return std::string("committing it again when the node is back: ") + x.what(); } } else { e.w->rollbackUncommitedTransaction(id); return refused("committing it"); } }
    bool again = true; try { e.w->commitTransaction(id); } catch (const std::system_error &) { again = false; } if (again) return "a transaction is committed twice"; try { e.w->rollbackUncommitedTransaction(id); again = true; } catch (const std::system_error &) { again = false; } if (again) return "a transaction already committed is taken back";
  }
  clear(); made = true; if (e.c.node.relayed.empty()) return "nothing was sent"; cn::Transaction t = e.c.node.relayed.back(); std::map<int, uint64_t> rest; std::string r = judgeTx(e, q, t, before, &rest); if (!r.empty()) return r; r = judgeRecord(e, q, id, t, cn::WalletTransactionState::SUCCEEDED, rest); if (!r.empty()) return r;
  Hash h = cn::getObjectHash(t); auto ids = e.c.poolIds(); if (!std::count(ids.begin(), ids.end(), h)) return "the node does not have the transaction"; if (via == Via::Send) { PublicKey p; if (!crypto::secret_key_to_public_key(sk, p) || !(p == cn::getTransactionPublicKeyFromExtra(t.extra))) return "the transaction key given out is not that of the transaction"; }
  { SecretKey d = e.w->getTransactionDeterministicSecretKey(h); PublicKey p; if (!crypto::secret_key_to_public_key(d, p) || !(p == cn::getTransactionPublicKeyFromExtra(t.extra))) return "the transaction key derived later is not that of the transaction"; }
  e.notify(true); r = checkView(e, false); if (!r.empty()) return "in the pool: " + r; r = e.c.mine(e.c.X.k.address, true); if (!r.empty()) return "harness: " + r; Hash bh; uint32_t bt; bool ttlGone = q.ttl != 0; if (!e.c.core->getBlockContainingTx(h, bh, bt) && !ttlGone) return "the transaction is not put into a block"; e.notify(); r = checkView(e, false); if (!r.empty()) return "in a block: " + r;
  if (twice) { bool m2; Ask q2; q2.to = {{100, 3 * M}}; q2.src = {0}; q2.change = 0; r = sendCase(e, q2, Via::Send, 0, m2, false); if (!r.empty()) return "and then " + q2.show() + ": " + r; }
  return r;
}
struct SCase { Ask q; Via via; int mode; };
static std::string showCase(const SCase &c) { return c.q.show() + (c.via == Via::Send ? "" : c.via == Via::Commit ? "; made first, then committed" : c.via == Via::Rollback ? "; made, then taken back" : "; made, saved, reopened, committed") + (c.mode == 1 ? "; the node refuses it" : c.mode == 2 ? "; the node takes it and says it did not" : c.mode == 3 ? "; the node gives no other outputs" : ""); }
static void enumSends(mc::Session &s, const std::string &name, const std::vector<SCase> &cs) {
  if (!s.wants(name)) return;
  s.enumerate(name, cs.size(), [&](uint64_t i) -> std::string { int sig; std::string d = s.scratch(); mkdir(d.c_str(), 0700); std::string o = child([&]() -> std::string { Exec e(d); e.open(); bool made; return sendCase(e, cs[i].q, cs[i].via, cs[i].mode, made); }, &sig); return sig ? "the wallet process dies of signal " + S(sig) : o; }, [&](uint64_t i) { return showCase(cs[i]); }, 8, 120);
}
// deposits: the request, the transaction and what the wallet shows
static std::string depositCase(Exec &e, uint64_t amount, uint32_t term, int src, int dst, int mode) {
  View before = e.c.scan(heldKeys(e), B.view); auto pool = e.c.poolIds(); uint64_t have = e.w->getActualBalance(); int from = src == -1 ? 0 : src, to = dst == -1 ? from : dst; bool sane = (from == 0 || from == 1) && to != -2 && amount && amount <= UINT64_MAX - FEE; uint64_t avail = sane ? available(e, before, {from}) : 0; std::string h, why; bool ok = true;
  bool legal = amount >= e.c.cur->depositMinAmount() && term >= e.c.cur->depositMinTermV3() && term <= e.c.cur->depositMaxTermV3() && term % e.c.cur->depositMinTermV3() == 0;
  e.c.node.failRelay = mode == 1; e.c.node.failMix = mode == 3; e.c.node.relayed.clear(); auto name = [&](int a) { return a == -1 ? std::string() : addrOf(e, a); };
  try { e.w->createDeposit(amount, term, name(src), name(dst), h); } catch (const std::exception &x) { ok = false; why = x.what(); } e.c.node.failRelay = e.c.node.failMix = false;
  if (getenv("MC_VERBOSE")) fprintf(stderr, "deposit: %s\n", ok ? "made" : why.c_str());
  if (!ok) { if (sane && legal && !mode && amount + FEE <= avail) return "the deposit is refused: " + why; if (e.c.poolIds() != pool) return "refused (" + why + "), yet the node has a new transaction"; std::string r = checkView(e, false); if (r.empty() && e.w->getActualBalance() != have) r = "the balance changed"; if (!r.empty()) return "refused (" + why + "), and then " + r; e.notify(true); r = checkView(e, false); return r.empty() ? r : "refused, and after the next news " + r; }
  if (!sane || !legal || amount + FEE > avail) return "a deposit that must not be made is made"; if (e.c.node.relayed.empty()) return "nothing was sent"; cn::Transaction t = e.c.node.relayed.back(); if (h != common::podToHex(cn::getObjectHash(t))) return "the hash given out is not that of the transaction";
  uint64_t in = 0, deps = 0, sum = 0; std::map<KeyImage, const ROut *> by; for (auto &o : before.outs) if (!o.dep) by[o.img] = &o; for (auto &i : t.inputs) { if (i.type() != typeid(cn::KeyInput)) return "an input is not a key input"; auto &k = boost::get<cn::KeyInput>(i); auto f = by.find(k.keyImage); if (f == by.end() || f->second->spent || f->second->owner != (size_t)from || !spendable(e.c, *f->second, before.top)) return "an input spends what the source cannot spend"; by.erase(f); in += k.amount; }
  for (auto &o : t.outputs) { sum += o.amount; if (o.target.type() == typeid(cn::MultisignatureOutput)) { auto &m = boost::get<cn::MultisignatureOutput>(o.target); ++deps; if (m.keys.size() != 1 || m.requiredSignatureCount != 1 || m.term != term || o.amount != amount) return "the deposit in the transaction is not the one asked for"; } } if (deps != 1) return "the transaction has " + S(deps) + " deposits"; if (in != sum + FEE) return "the fee is not the minimum fee"; if (t.unlockTime) return "an unlock time nobody asked for";
  std::map<int, uint64_t> want; want[to] += amount; if (in - amount - FEE) want[from] += in - amount - FEE; auto got = receivers(e, t); if (got != want) return "the receivers are others than the owner of the deposit and the source";
  e.notify(true); std::string r = checkView(e, false); if (!r.empty()) return "in the pool: " + r; r = e.c.mine(e.c.X.k.address, true); if (!r.empty()) return "harness: " + r; e.notify(); r = checkView(e, false); if (!r.empty()) return "in a block: " + r;
  // every deposit of the wallet can be withdrawn when, and only when, it has matured, once, in full
  for (uint32_t i = 0; i < term + 2 && i < 12; ++i) { std::vector<size_t> open; for (size_t d = 0; d < e.w->getWalletDepositCount(); ++d) { auto x = e.w->getDeposit(d); bool may = x.spendingTransactionId == cn::WALLET_INVALID_TRANSACTION_ID && !x.locked && x.transactionHash == cn::getObjectHash(t); bool done = true; std::string wh; e.c.node.relayed.clear(); if (x.transactionHash == cn::getObjectHash(t)) { try { e.w->withdrawDeposit(d, wh); } catch (const std::system_error &y) { done = false; why = y.what(); } if (done != may) return done ? "a deposit is withdrawn that must not be" : "a matured deposit cannot be withdrawn: " + why; }
      if (done && may) { cn::Transaction wt = e.c.node.relayed.back(); uint64_t o = 0; for (auto &y : wt.outputs) o += y.amount; auto g = receivers(e, wt); if (wt.inputs.size() != 1 || o != x.amount + x.interest - 10 || g.size() != 1 || g.begin()->first != to) return "the withdrawal pays " + S(o) + " of " + S(x.amount + x.interest); } }
    e.notify(true); r = checkView(e, false); if (!r.empty()) return "after " + S(i) + " blocks: " + r; r = e.c.mine(e.c.X.k.address, true); if (!r.empty()) return "harness: " + r; e.notify(); r = checkView(e, false); if (!r.empty()) return "after " + S(i + 1) + " blocks: " + r; }
  return "";
}
// fusion: many small outputs become few, for the fee only
struct Fuse { std::vector<std::pair<int, int>> small; uint64_t threshold, mix; std::vector<int> src; int dst, mode; };   // small: owner, how many outputs of one unit
static std::string fuseCase(Exec &e, const Fuse &q) {
  { std::vector<Chain::Pay> p; for (auto &x : q.small) for (int i = 0; i < x.second; ++i) p.push_back({e.A[x.first], M}); auto t = e.c.pay(e.next(), p); if (!e.c.submit(t)) return "harness: payment refused"; for (int i = 0; i < 5; ++i) { std::string r = e.c.mine(e.c.X.k.address, true); if (!r.empty()) return "harness: " + r; e.notify(); } }
  View before = e.c.scan(heldKeys(e), B.view); auto pool = e.c.poolIds(); uint64_t have = e.w->getActualBalance(); size_t fit = 0; std::string why; bool ok = true;
  auto mine = [&](const ROut &o) { return !o.spent && !o.dep && o.confirmed && spendable(e.c, o, before.top) && (q.src.empty() || std::count(q.src.begin(), q.src.end(), (int)o.owner)); }; for (auto &o : before.outs) if (o.amount == M && mine(o) && o.amount < q.threshold) ++fit;
  bool sane = q.dst != -2 && q.dst != 100; for (int a : q.src) if (a != 0 && a != 1) sane = false; if (q.dst == -1 && q.src.size() != 1) sane = false;
  std::vector<std::string> from; for (int a : q.src) from.push_back(addrOf(e, a)); e.c.node.failRelay = q.mode == 1; e.c.node.failMix = q.mode == 3; e.c.node.relayed.clear(); size_t id = 0;
  try { id = e.w->createFusionTransaction(q.threshold, q.mix, from, q.dst == -1 ? std::string() : addrOf(e, q.dst)); if (id == cn::WALLET_INVALID_TRANSACTION_ID) { ok = false; why = "nothing to do"; } } catch (const std::exception &x) { ok = false; why = x.what(); } e.c.node.failRelay = e.c.node.failMix = false;
  if (getenv("MC_VERBOSE")) fprintf(stderr, "fusion: %s\n", ok ? "made" : why.c_str());
  if (!ok) { if (sane && !q.mode && !q.mix && fit >= 12 && std::set<int>(q.src.begin(), q.src.end()).size() == q.src.size()) return "the fusion is refused: " + why; if (e.c.poolIds() != pool) return "refused (" + why + "), yet the node has a new transaction"; std::string r = checkView(e, false); if (r.empty() && e.w->getActualBalance() != have) r = "the balance changed"; if (!r.empty()) return "refused (" + why + "), and then " + r; e.notify(true); r = checkView(e, false); return r.empty() ? r : "refused, and after the next news " + r; }
  if (!sane) return "a fusion that makes no sense is carried out"; if (e.c.node.relayed.empty()) return "nothing was sent"; cn::Transaction t = e.c.node.relayed.back(); uint64_t in = 0, out = 0; std::set<KeyImage> seen; std::map<KeyImage, const ROut *> by; for (auto &o : before.outs) if (!o.dep) by[o.img] = &o;
  for (auto &i : t.inputs) { if (i.type() != typeid(cn::KeyInput)) return "an input is not a key input"; auto &k = boost::get<cn::KeyInput>(i); auto f = by.find(k.keyImage); if (f == by.end() || !mine(*f->second) || !seen.insert(k.keyImage).second) return "an input spends what must not be spent"; if (f->second->amount >= q.threshold) return "an output that is not small is spent"; if (k.outputIndexes.size() != q.mix + 1) return "an input has the wrong number of possible origins"; in += k.amount; }
  for (auto &o : t.outputs) { if (o.target.type() != typeid(cn::KeyOutput)) return "an output is not a key output"; out += o.amount; } if (in - out != FEE) return "the fee is " + S(in - out); if (t.outputs.size() >= t.inputs.size()) return "nothing is fused"; if (t.unlockTime) return "an unlock time nobody asked for";
  int to = q.dst != -1 ? q.dst : q.src[0]; auto got = receivers(e, t); if (got.size() != 1 || got.begin()->first != to) return "the money does not go where it was to go"; if (!(e.w->getTransaction(id).hash == cn::getObjectHash(t))) return "the number given out is not that of the transaction";
  e.notify(true); std::string r = checkView(e, false); if (!r.empty()) return "in the pool: " + r; r = e.c.mine(e.c.X.k.address, true); if (!r.empty()) return "harness: " + r; e.notify(); r = checkView(e, false); if (!r.empty()) return "in a block: " + r; Hash bh; uint32_t bt; if (!e.c.core->getBlockContainingTx(cn::getObjectHash(t), bh, bt)) return "the transaction is not put into a block"; return "";
}
// requests made at the same time: every order in which they start and the node answers
struct Req { std::string name; std::function<void(Exec &)> f; };
static std::vector<Req> allReqs() {
  auto send = [](Exec &e, uint64_t a, uint64_t mix) { Ask q; q.to = {{100, a}}; q.src = {0}; q.change = 0; q.mix = mix; return paramsOf(e, q); };
  return {{"send 30 units", [send](Exec &e) { SecretKey k; e.w->transfer(send(e, 30 * M, 0), k); }}, {"send 40 units among others' outputs", [send](Exec &e) { SecretKey k; e.w->transfer(send(e, 40 * M, 3), k); }}, {"make a deposit of 20 units", [](Exec &e) { std::string h; e.w->createDeposit(20 * M, 3, e.a[0], e.a[0], h); }},
    {"withdraw the matured deposit", [](Exec &e) { for (size_t i = 0; i < e.w->getWalletDepositCount(); ++i) { auto d = e.w->getDeposit(i); if (!d.locked && d.amount == 20 * M) { std::string h; e.w->withdrawDeposit(i, h); return; } } throw std::runtime_error("no deposit"); }},
    {"prepare a transaction of 35 units, then commit it", [send](Exec &e) { size_t id = e.w->makeTransaction(send(e, 35 * M, 3)); e.c.node.defer.insert(e.w->getTransaction(id).hash); e.w->commitTransaction(id); }}, {"prepare a transaction of 45 units, then take it back", [send](Exec &e) { size_t id = e.w->makeTransaction(send(e, 45 * M, 0)); e.w->rollbackUncommitedTransaction(id); }},
    {"save", [](Exec &e) { e.w->save(cn::WalletSaveLevel::SAVE_ALL); e.pump(); }}, {"receive a block with the pool's transactions", [](Exec &e) { std::string r = e.c.mine(e.c.X.k.address, true); if (!r.empty()) throw std::runtime_error(r); e.notify(true); }},
    {"send 15 units from the second address", [](Exec &e) { Ask q; q.to = {{100, 15 * M}}; q.src = {1}; q.change = 1; SecretKey k; e.w->transfer(paramsOf(e, q), k); }}};
}
static mc::Step scheduleRun(mc::Session &s, const std::vector<std::vector<int>> &sets, const std::vector<Req> &rq, const mc::Seq &q) {
  mc::Step st; if (q.empty()) { for (size_t i = 0; i < sets.size(); ++i) st.next.push_back(i); st.klass = "choice of requests"; return st; }
  Exec *ep = new Exec(s.scratch()); Exec &e = *ep; e.open(); for (int i = 0; i < 3; ++i) { if (!e.c.mine(e.c.X.k.address, false).empty()) throw std::runtime_error("mine"); e.notify(); }   // the deposit of the prefix matures
  const auto &set = sets[q[0]]; size_t n = set.size(); struct One { bool started = false, done = false, ok = false; std::string why; }; auto *one = new std::vector<One>(n); auto *grp = new platform_system::ContextGroup(e.disp); e.c.node.hold = true;
  auto settle = [&] { for (int i = 0; i < 2000; ++i) { e.disp.yield(); bool busy = false; for (auto &o : *one) if (o.started && !o.done) busy = true; if (!busy || (i > 40 && !e.c.node.pending.empty())) return; if (i > 40) usleep(5000); } };
  auto enabled = [&] { std::vector<std::pair<int, size_t>> v; for (size_t i = 0; i < n; ++i) if (!(*one)[i].started) { bool twin = false; for (size_t j = 0; j < i; ++j) if (set[j] == set[i] && !(*one)[j].started) twin = true; if (!twin) v.push_back({0, i}); } for (size_t i = 0; i < e.c.node.pending.size(); ++i) v.push_back({1, i}); return v; };
  std::string trace; for (size_t k = 1; k < q.size(); ++k) { auto v = enabled(); if (q[k] >= v.size()) throw std::runtime_error("schedule does not replay"); auto c = v[q[k]];
    if (c.first == 0) { size_t i = c.second; (*one)[i].started = true; auto f = rq[set[i]].f; grp->spawn([ep, one, i, f] { One &o = (*one)[i]; try { f(*ep); o.ok = true; } catch (const std::exception &x) { o.why = x.what(); } o.done = true; }); }
    else { auto f = e.c.node.pending[c.second].second; e.c.node.pending.erase(e.c.node.pending.begin() + c.second); f(); }
    settle(); ++st.work; }
  auto v = enabled(); if (!v.empty()) { for (size_t i = 0; i < v.size(); ++i) st.next.push_back(i); st.klass = "under way"; return st; }
  for (size_t i = 0; i < n; ++i) if (!(*one)[i].done) { st.bad = true; st.msg = "nothing is left to happen, yet the request to " + rq[set[i]].name + " never ends"; return st; }
  e.c.node.hold = false; std::string r; e.notify(true); r = checkView(e, false);
  int withdrawals = 0; for (size_t i = 0; i < n && r.empty(); ++i) { if (set[i] == 3) { withdrawals += (*one)[i].ok; continue; } if (!(*one)[i].ok) r = "the money is there, yet the request to " + rq[set[i]].name + " is refused: " + (*one)[i].why; }
  if (r.empty() && std::count(set.begin(), set.end(), 3) && withdrawals != 1) r = "the deposit is withdrawn " + S(withdrawals) + " times";
  if (r.empty()) { size_t want = 0; for (size_t i = 0; i < n; ++i) if ((*one)[i].ok && set[i] != 5 && set[i] != 6 && set[i] != 7) ++want; if (e.c.node.relayed.size() < want) r = S(want) + " requests are carried out, " + S(e.c.node.relayed.size()) + " transactions were sent"; }
  if (r.empty()) { r = e.c.mine(e.c.X.k.address, true); e.notify(); if (r.empty()) r = checkView(e, false); if (!r.empty()) r = "in a block: " + r; }
  if (r.empty()) { e.w->save(cn::WalletSaveLevel::SAVE_ALL); e.reload(); r = checkView(e, false); if (!r.empty()) r = "reopened: " + r; }
  if (!r.empty()) { st.bad = true; st.msg = r; } st.klass = "judged"; for (size_t i = 0; i < n; ++i) st.klass += (*one)[i].ok ? " ok" : " refused"; return st;
}
static void scheduleSpace(mc::Session &s, const std::string &name, size_t per, const std::vector<int> &ids) {
  if (!s.wants(name)) return; auto rq = std::make_shared<std::vector<Req>>(allReqs()); auto sets = std::make_shared<std::vector<std::vector<int>>>(); std::function<void(std::vector<int>)> gen = [&](std::vector<int> v) { if (v.size() == per) { if (std::count(v.begin(), v.end(), 8) < 2 && std::count(v.begin(), v.end(), 6) + std::count(v.begin(), v.end(), 7) < 2) sets->push_back(v); return; } /* the second address has one output; one waiter for the wallet's events */ for (int i : ids) if (v.empty() || i >= v.back()) { auto w = v; w.push_back(i); gen(w); } }; gen({});
  mc::Space sp; sp.name = name; sp.depth = 40; sp.full = 40; sp.hang_s = 60; sp.run = [&s, rq, sets](const mc::Seq &q) { int sig; std::string o = child([&] { mc::Step st = scheduleRun(s, *sets, *rq, q); Pack p; p.num(st.bad); p.num(st.work); p.num(st.next.size()); p.put(st.klass); p.put(st.msg); return p.s; }, &sig); mc::Step st; if (sig) { st.bad = true; st.msg = "the wallet process dies of signal " + S(sig); return st; } Pack p(o); st.bad = p.num(); st.work = p.num(); size_t n = p.num(); for (size_t i = 0; i < n; ++i) st.next.push_back(i); st.klass = p.get(); st.msg = p.get(); return st; };
  sp.show = [rq, sets](const mc::Seq &q) { std::string o = "requests:"; if (!q.empty()) for (int i : (*sets)[q[0]]) o += " [" + (*rq)[i].name + "]"; o += "; choice among the requests not yet started and the answers not yet given:"; for (size_t k = 1; k < q.size(); ++k) o += " " + S(q[k]); return o + "\n"; }; s.explore(sp);
}
static void sendSpaces(mc::Session &s) {
  bool T = s.thorough(); (void)T; std::vector<SCase> c; typedef std::vector<std::pair<int, uint64_t>> To;
  const std::vector<To> tos = {{{100, 1}}, {{100, 7 * M}, {101, 5 * M + 3}}, {{100, 2 * M}, {100, 2 * M}}, {{1, 30 * M}, {100, 50 * M}}, {{0, 10 * M}}, {{100, 250 * M}}, {{100, 600 * M}}, {{100, 100 * M - FEE}}, {{100, 1000000 * M}}, {{100, 0}}, {{100, 5 * M}, {101, UINT64_MAX - 2 * M}}, {{100, INT64_MAX - 1}, {101, INT64_MAX - 1}}, {{100, 1ull << 63}}, {{-2, 5 * M}}, {}};
  const std::vector<std::vector<int>> srcs = {{0}, {1}, {0, 1}, {}, {2}, {0, 0}}; const std::vector<int> chs = {-1, 0, 1, 100, -2};
  for (auto &t : tos) for (auto &sr : srcs) for (int ch : chs) for (uint64_t mix : {0ull, 3ull}) { Ask q; q.to = t; q.src = sr; q.change = ch; q.mix = mix; c.push_back({q, Via::Send, 0}); }
  enumSends(s, "who", c); c.clear();
  std::string pid; { std::vector<uint8_t> ex; cn::BinaryArray n; Hash h; memset(&h, 7, sizeof h); cn::setPaymentIdToTransactionExtraNonce(n, h); cn::addExtraNonceToTransactionExtra(ex, n); pid.assign(ex.begin(), ex.end()); }
  const std::vector<std::vector<std::pair<int, std::string>>> notes = {{}, {{100, "hello"}}, {{100, "one"}, {101, std::string(300, 'x')}, {0, "to myself"}}};
  for (uint64_t fee : {0ull, 1ull, 999ull, 1000ull, 2000ull, 12345678ull}) for (int ttl : {0, 1, 2}) for (uint64_t un : {0ull, 40ull, 2000000000ull}) for (int ex : {0, 1}) for (size_t n = 0; n < notes.size(); ++n) { Ask q; q.to = {{100, 7 * M}, {1, 4 * M}}; q.src = {0}; q.change = 0; q.fee = fee; q.unlock = un; q.ttl = ttl == 0 ? 0 : ttl == 1 ? B.now + 600 : B.now - 600; if (ex) q.extra = pid; q.notes = notes[n]; c.push_back({q, Via::Send, 0}); }
  enumSends(s, "what", c); c.clear();
  for (Via v : {Via::Send, Via::Commit, Via::Rollback, Via::SaveCommit}) for (int mode = 0; mode < 4; ++mode) for (auto &t : std::vector<To>{{{100, 7 * M}}, {{1, 30 * M}, {100, 50 * M}}, {{100, 250 * M}}, {{100, 1000000 * M}}}) for (uint64_t mix : {0ull, 1ull, 3ull, 5ull, 8ull, 30ull}) for (int src : {0, 1}) { Ask q; q.to = t; q.src = {src}; q.change = src; q.mix = mix; c.push_back({q, v, mode}); }
  enumSends(s, "how", c); c.clear();
  for (int d : {0, 1, 100, 101, -2}) for (uint64_t th : {0ull, 1ull, 1000ull, 5 * (unsigned long long)M, 90 * (unsigned long long)M, ~0ull}) for (auto &t : std::vector<To>{{{100, 7 * M}}, {{101, 50 * M}, {100, 333}}}) for (int ch : {-1, 0, 1}) { Ask q; q.to = t; q.src = {0}; q.change = ch; q.donate = d; q.threshold = th; c.push_back({q, Via::Send, 0}); }
  enumSends(s, "donation", c); c.clear();
  struct D { uint64_t a; uint32_t t; int s, d, m; }; std::vector<D> ds; for (uint64_t a : {0ull, 1ull, (unsigned long long)M - 1, (unsigned long long)M, 20ull * M, 250ull * M, 300ull * M - 1000, 2000000ull * M, ~0ull - 2000, ~0ull - 999, ~0ull - 500, ~0ull}) for (uint32_t t : {1u, 3u, 4u, 6u, 9u, 1000u, ~0u}) for (int sr : {-1, 0, 1, 100, -2}) for (int d : {-1, 1, 100, -2}) for (int m : {0, 1, 3}) { if (m && (t != 3 || sr == 100 || sr == -2)) continue; if (!T && (sr == 100 || sr == -2) && (t != 3 || d != -1)) continue; if (!T && (t == 9 || t == 4) && (d != -1 || sr == -1)) continue; ds.push_back({a, t, sr, d, m}); }
  if (s.wants("deposits")) s.enumerate("deposits", ds.size(), [&](uint64_t i) -> std::string { int sig; std::string d = s.scratch(); mkdir(d.c_str(), 0700); const D &x = ds[i]; std::string o = child([&]() -> std::string { Exec e(d); e.open(); return depositCase(e, x.a, x.t, x.s, x.d, x.m); }, &sig); return sig ? "the wallet process dies of signal " + S(sig) : o; }, [&](uint64_t i) { const D &x = ds[i]; auto nm = [](int a) { return a == -1 ? std::string("none given") : a == 100 ? "a stranger" : a == -2 ? "a malformed address" : "own address " + S(a); }; return "a deposit of " + S(x.a) + " for " + S(x.t) + " blocks, from " + nm(x.s) + ", for " + nm(x.d) + (x.m == 1 ? "; the node refuses it" : x.m == 3 ? "; the node gives no other outputs" : ""); }, 8, 120);
  std::vector<Fuse> fs; for (auto &sm : std::vector<std::vector<std::pair<int, int>>>{{{0, 16}}, {{0, 11}, {1, 3}}, {{1, 12}}, {{0, 60}}}) for (uint64_t th : {1ull, 10ull, 11ull, (unsigned long long)M, (unsigned long long)M + 1, 200ull * M, ~0ull}) for (auto &sr : std::vector<std::vector<int>>{{}, {0}, {1}, {0, 1}, {0, 0}, {100}}) for (int d : {-1, 0, 1, 100, -2}) for (uint64_t mix : {0, 3, 8, 30, 500}) for (int m : {0, 1, 3}) { if (m && (th != M + 1ull || d != 0)) continue; if (mix > 3 && (d != 0 || th != M + 1ull)) continue; if (!T && (th < M || d == 100 || d == -2 || (sr.size() == 1 && sr[0] == 100)) && (mix || sm.size() > 1)) continue; fs.push_back({sm, th, mix, sr, d, m}); }
  if (s.wants("fusion")) s.enumerate("fusion", fs.size(), [&](uint64_t i) -> std::string { int sig; std::string d = s.scratch(); mkdir(d.c_str(), 0700); std::string o = child([&]() -> std::string { Exec e(d); e.open(); return fuseCase(e, fs[i]); }, &sig); return sig ? "the wallet process dies of signal " + S(sig) : o; }, [&](uint64_t i) { const Fuse &x = fs[i]; auto nm = [](int a) { return a == -1 ? std::string("none given") : a == 100 ? "a stranger" : a == -2 ? "a malformed address" : "own address " + S(a); }; std::string o = "paid"; for (auto &y : x.small) o += " " + S(y.second) + " x 1 unit to address " + S(y.first); o += "; fusion below " + S(x.threshold) + ", mixin " + S(x.mix) + ", from"; for (int a : x.src) o += " " + nm(a); return o + ", to " + nm(x.dst) + (x.mode == 1 ? "; the node refuses it" : x.mode == 3 ? "; the node gives no other outputs" : ""); }, 8, 120);
  scheduleSpace(s, "two-at-once", 2, {0, 1, 2, 3, 4, 5, 6, 7, 8});
  if (T) scheduleSpace(s, "three-at-once", 3, {1, 2, 3, 4, 7});
}
