// Scenario universes, grouped by property.
static const uint64_t M = 1000000;
static Cfg baseCfg() {
  Cfg c; c.p.v2 = 1; c.p.v3 = 2; c.p.v6 = 3; c.p.v7 = 4; c.p.v8 = 5; c.p.unlockWindow = 10; c.p.tsWindow = 4;
  c.p.depMinTerm = 2; c.p.depMaxTerm = 36; c.p.depMaxTermV1 = 1000; c.p.minV3 = 3; c.p.maxV3 = 36; c.p.hV3 = 0; c.p.hV4 = 0; return c;
}
static crypto::KeyImage addPoints(const crypto::KeyImage &a, const unsigned char *p) {
  ge_p3 A, P; ge_cached c; ge_p1p1 r; ge_p2 q; crypto::KeyImage o = a;
  if (ge_frombytes_vartime(&A, (const unsigned char *)&a) || ge_frombytes_vartime(&P, p)) throw std::runtime_error("point");
  ge_p3_to_cached(&c, &P); ge_add(&r, &A, &c); ge_p1p1_to_p2(&q, &r); ge_tobytes((unsigned char *)&o, &q); return o;
}
struct Builder {
  std::shared_ptr<World> w; bool pids = false;
  int blk(const std::string &n, int par, std::vector<int> txs = {}, std::function<void(BlkSpec &)> f = nullptr) { BlkSpec s; s.name = n; s.parent = par; s.txs = txs; if (f) f(s); return w->addBlk(s); }
  int tx(const std::string &n, std::vector<In> in, std::vector<Out> out, int at, std::function<void(TxSpec &)> f = nullptr) { TxSpec s; s.name = n; s.in = in; s.out = out; if (pids) { crypto::Hash h; memset(&h, 0, 32); ((char *)&h)[0] = 1 + w->tx.size() % 2; cn::BinaryArray n; std::vector<uint8_t> e; cn::setPaymentIdToTransactionExtraNonce(n, h); cn::addExtraNonceToTransactionExtra(e, n); s.extra.assign(e.begin(), e.end()); } if (f) f(s); return w->addTx(s, at); }
  // trunk of n blocks; block 1 pays a rich coinbase split into spendable outputs
  int trunk(int n, std::vector<Out> rich) { int p = 0; for (int i = 1; i <= n; ++i) p = blk("T" + std::to_string(i), p, {}, [&](BlkSpec &s) { if (i == 1) s.cb = rich; }); return p; }
};
static Scn scn(const std::string &name, const Cfg &c, int depth, int full) { Scn s; s.name = name; s.w = std::make_shared<World>(c); s.depth = depth; s.full = full; return s; }
static std::vector<Out> rich(int n = 6) { std::vector<Out> o; for (int i = 0; i < n; ++i) o.push_back(Out::to(100 * M, 1 + i)); o.push_back(Out::to(200 * M, 40)); o.push_back(Out::to(200 * M, 41)); o.push_back(Out::to(0, 99)); return o; }
static const uint64_t F = 1000;   // the fee transactions pay from version 8 on

// ---- two branches from the tip, one from below it; payments, a deposit made and withdrawn, conflicting spends
static Scn forkScn(int depth, int full) {
  Scn s = scn("forks", baseCfg(), depth, full); Builder b{s.w, true}; World &w = *s.w;
  int t = b.trunk(11, rich()), t10 = w.B("T10"); s.trunk = t; int cb = w.T("cb:T1");
  int pay = b.tx("pay", {In::key(cb, 0)}, {Out::to(100 * M - F, 20)}, t);
  int ring = b.tx("ring", {In::key(cb, 1, {{cb, 0}, {cb, 2}})}, {Out::to(60 * M, 21), Out::to(40 * M - F, 22)}, t);
  int pay2 = b.tx("pay-again", {In::key(cb, 0)}, {Out::to(50 * M, 23), Out::to(50 * M - F, 24)}, t);
  int dep = b.tx("deposit", {In::key(cb, 6)}, {Out::dep(150 * M, 30, 3), Out::to(50 * M - F, 25)}, t);
  int a1 = b.blk("A1", t, {pay, dep}), a2 = b.blk("A2", a1, {ring});
  int sp = b.tx("spend-pay", {In::key(pay, 0)}, {Out::to(100 * M - 2 * F, 26)}, a1);
  int a3 = b.blk("A3", a2, {sp}), a4 = b.blk("A4", a3);
  int wd = b.tx("withdraw", {In::ms(dep, 0)}, {Out::to(150 * M + ref::inputInterest(w.cfg.p, 150 * M, 3, 16) - F, 27)}, a4);
  b.blk("A5", a4, {wd});
  int b1 = b.blk("B1", t), b2 = b.blk("B2", b1, {dep, pay}), b3 = b.blk("B3", b2, {ring}); b.blk("B4", b3, {sp});
  b.blk("C1", a1, {pay2});
  int d1 = b.blk("D1", t10, {pay2}), d2 = b.blk("D2", d1); b.blk("D3", d2, {ring});
  for (auto n : {"A1", "A2", "A3", "A4", "A5", "B1", "B2", "B3", "B4", "C1", "D1", "D2", "D3"}) s.blk(n);
  for (auto n : {"pay", "pay-again", "withdraw"}) s.tx(n);
  return s;
}
// ---- linear history with deposits, undone by rollbacks and redone
static Scn rollbackScn(int depth, int full) {
  Scn s = scn("rollback", baseCfg(), depth, full); Builder b{s.w, true}; World &w = *s.w;
  int t = b.trunk(11, rich()); s.trunk = t; int cb = w.T("cb:T1");
  int dep = b.tx("deposit", {In::key(cb, 6)}, {Out::dep(150 * M, 30, 3), Out::to(50 * M - F, 25)}, t);
  int pay = b.tx("pay", {In::key(cb, 0)}, {Out::to(100 * M - F, 20)}, t);
  int a1 = b.blk("A1", t, {dep}), a2 = b.blk("A2", a1, {pay}), a3 = b.blk("A3", a2), a4 = b.blk("A4", a3);
  int wd = b.tx("withdraw", {In::ms(dep, 0)}, {Out::to(150 * M + ref::inputInterest(w.cfg.p, 150 * M, 3, 16) - F, 27)}, a4);
  b.blk("A5", a4, {wd}); b.blk("B1", t, {pay}); b.blk("B2", w.B("B1"), {dep});
  for (auto n : {"A1", "A2", "A3", "A4", "A5", "B1", "B2"}) s.blk(n);
  s.roll(11); s.roll(12); s.roll(13); s.roll(15); s.roll(10); s.restart();
  s.tx("pay");
  return s;
}
// ---- undoing blocks that carry one of everything: a matured withdrawal, several inputs, unlock times, payment ids, equal timestamps
static Scn undoScn(int depth, int full) {
  Scn s = scn("undo", baseCfg(), depth, full); Builder b{s.w, true}; World &w = *s.w; int t = b.trunk(11, rich(8)); int cb = w.T("cb:T1");
  int dep = b.tx("deposit", {In::key(cb, 8)}, {Out::dep(150 * M, 30, 3), Out::to(50 * M - F, 100)}, t), dep2 = b.tx("deposit-of-two", {In::key(cb, 9)}, {Out::dep(150 * M, 130, 3, 2, 3), Out::to(50 * M - F, 101)}, t);
  int p = b.blk("P1", t, {dep}); p = b.blk("P2", p, {dep2}); p = b.blk("P3", p); p = b.blk("P4", p); p = b.blk("P5", p); s.trunk = p; int p4 = w.B("P4");
  auto at = [&](int par, int d) { return [&w, par, d](BlkSpec &q) { q.ts = w.blk[par].b.timestamp + d; }; };
  int wd = b.tx("withdraw", {In::ms(dep, 0)}, {Out::to(150 * M - F, 24)}, p); In i2 = In::ms(dep2, 0); i2.signers = {130, 132};
  int wd2 = b.tx("withdraw-of-two-and-pay", {i2, In::key(cb, 2), In::key(cb, 3)}, {Out::to(350 * M - F, 25)}, p);
  int two = b.tx("two-inputs-locked", {In::key(cb, 0), In::key(cb, 1)}, {Out::to(150 * M, 26), Out::to(50 * M - F, 27)}, p, [](TxSpec &q) { q.unlock = 5; });
  int dep3 = b.tx("deposit-and-pay", {In::key(cb, 4), In::key(cb, 5)}, {Out::dep(120 * M, 31, 6), Out::dep(20 * M, 32, 3), Out::to(60 * M - F, 28)}, p);
  int a1 = b.blk("A1", p, {wd, two}, at(p, 0)); int a2 = b.blk("A2", a1, {wd2, dep3}, at(a1, 0)); (void)a2;
  int b1 = b.blk("B1", p, {}, at(p, 0)), b2 = b.blk("B2", b1, {two, wd}, at(b1, 60)), b3 = b.blk("B3", b2, {dep3, wd2}); b.blk("B4", b3);
  int c1 = b.blk("C1", p4, {two}, at(p4, 60)), c2 = b.blk("C2", c1, {wd}), c3 = b.blk("C3", c2, {wd2, dep3}); (void)c3;
  for (auto n : {"A1", "A2", "B1", "B2", "B3", "B4", "C1", "C2", "C3"}) s.blk(n);
  s.roll(14); s.roll(16); s.roll(17); s.roll(12); s.restart(); s.tx("withdraw"); s.tx("two-inputs-locked"); return s;
}

// ---- fork choice by work: timestamps decide the difficulty, so a longer branch can carry less work
static Scn workScn(int depth, int full) {
  Cfg c = baseCfg(); c.p.v2 = 1000; c.p.v3 = 1001; c.p.v6 = 1002; c.p.v7 = 1003; c.p.v8 = 1004; c.p.hV3 = c.p.hV4 = 100000;
  Scn s = scn("work", c, depth, full); Builder b{s.w}; World &w = *s.w;
  int p = 0; for (int i = 1; i <= 11; ++i) p = b.blk("T" + std::to_string(i), p, {}, [&](BlkSpec &q) { q.ts = w.blk[p].b.timestamp + (i == 1 ? 1200 : 40); if (i == 1) q.cb = rich(); });
  s.trunk = p; int t = p; int cb = w.T("cb:T1");
  auto after = [&](int par, int d) { return [&w, par, d](BlkSpec &q) { q.ts = w.blk[par].b.timestamp + d; }; };
  int pay = b.tx("pay", {In::key(cb, 0)}, {Out::to(100 * M - F, 20)}, t);
  int pay2 = b.tx("pay-again", {In::key(cb, 0)}, {Out::to(100 * M - 2 * F, 21)}, t);
  int a1 = b.blk("A1", t, {pay}, after(t, 1)), a2 = b.blk("A2", a1, {}, after(a1, 1)), a3 = b.blk("A3", a2, {}, after(a2, 1)); (void)a3;
  int b1 = b.blk("B1", t, {}, after(t, 1500)), b2 = b.blk("B2", b1, {pay}, after(b1, 1500)), b3 = b.blk("B3", b2, {}, after(b2, 1500)), b4 = b.blk("B4", b3, {}, after(b3, 1500)); b.blk("B5", b4, {}, after(b4, 1500));
  int c2 = b.blk("C2", a1, {}, after(a1, 900)); b.blk("C3", c2, {}, after(c2, 1));
  int d1 = b.blk("D1", t, {pay2}, after(t, 2)); b.blk("D2", d1, {}, after(d1, 1));
  for (auto n : {"A1", "A2", "A3", "B1", "B2", "B3", "B4", "B5", "C2", "C3", "D1", "D2"}) s.blk(n);
  s.probeTx = false;
  return s;
}
// ---- a branch of many light blocks against few heavy ones, invalid at its end, in the middle or not at all
static Scn longBranchScn(int depth, int full) {
  Cfg c = baseCfg(); c.p.v2 = 1000; c.p.v3 = 1001; c.p.v6 = 1002; c.p.v7 = 1003; c.p.v8 = 1004; c.p.hV3 = c.p.hV4 = 100000;
  Scn s = scn("long-branch", c, depth, full); Builder b{s.w}; World &w = *s.w;
  int p = 0; for (int i = 1; i <= 11; ++i) p = b.blk("T" + std::to_string(i), p, {}, [&](BlkSpec &q) { q.ts = w.blk[p].b.timestamp + (i == 1 ? 1200 : 60); if (i == 1) q.cb = rich(); }); s.trunk = p; int t = p; int cb = w.T("cb:T1");
  int pay = b.tx("pay", {In::key(cb, 0)}, {Out::to(100 * M - F, 20)}, t);
  auto after = [&](int par, int d) { return [&w, par, d](BlkSpec &q) { q.ts = w.blk[par].b.timestamp + d; }; };
  int a = t; for (int i = 1; i <= 3; ++i) { a = b.blk("A" + std::to_string(i), a, i == 2 ? std::vector<int>{pay} : std::vector<int>{}, after(a, 1)); s.blk("A" + std::to_string(i)); }
  std::vector<std::string> run; a = t; for (int i = 1; i <= 6; ++i) { a = b.blk("B" + std::to_string(i), a, i == 3 ? std::vector<int>{pay} : std::vector<int>{}, after(a, 1500)); run.push_back("B" + std::to_string(i)); }
  s.many("B1 to B6", run); int b7 = b.blk("B7", a, {}, after(a, 1500)), b8 = b.blk("B8", b7, {}, after(b7, 1500)), b9 = b.blk("B9", b8, {}, after(b8, 1500)); b.blk("B10", b9, {}, after(b9, 1500)); s.many("B7 and B8", {"B7", "B8"}); s.many("B9 and B10", {"B9", "B10"});
  auto bad = [&](int par) { return [&w, par](BlkSpec &q) { q.ts = w.blk[par].b.timestamp + 1500; q.rewardDelta = 100000; }; };
  int x7 = b.blk("B7-too-much", a, {}, bad(a)); int x8 = b.blk("X8", x7, {}, after(x7, 1500)); b.blk("X9", x8, {}, after(x8, 1)); s.many("B7-too-much, X8, X9", {"B7-too-much", "X8", "X9"});
  b.blk("B8-too-much", b7, {}, bad(b7)); s.many("B7 and B8-too-much", {"B7", "B8-too-much"});
  int f = w.B("B3"); f = b.blk("F4", f, {}, after(f, 1)); f = b.blk("F5", f, {}, after(f, 1)); s.many("F4 and F5 on B3", {"F4", "F5"});
  s.probeTx = false; return s;
}
// ---- branches that carry more work but contain an invalid block
static Scn badBranchScn(int depth, int full) {
  Scn s = scn("bad-branch", baseCfg(), depth, full); Builder b{s.w}; World &w = *s.w; int t = b.trunk(11, rich()); s.trunk = t; int cb = w.T("cb:T1");
  int pay = b.tx("pay", {In::key(cb, 0)}, {Out::to(100 * M - F, 20)}, t);
  int sig = b.tx("bad-signature", {In::key(cb, 1)}, {Out::to(100 * M - F, 21)}, t, [](TxSpec &q) { q.post = [](cn::Transaction &x) { ((uint8_t *)&x.signatures[0][0])[3] ^= 1; }; });
  int pay2 = b.tx("pay-again", {In::key(cb, 0)}, {Out::to(100 * M - 2 * F, 22)}, t);
  int other = b.tx("other", {In::key(cb, 2)}, {Out::to(100 * M - F, 23)}, t);
  int a1 = b.blk("A1", t, {other}), a2 = b.blk("A2", a1); (void)a2;
  int b1 = b.blk("B1", t, {other, pay}), b2 = b.blk("B2-double-spend", b1, {pay2}); b.blk("B3", b2); b.blk("B2", b1);
  int c1 = b.blk("C1-bad-signature", t, {other, sig}); b.blk("C2", c1);
  int d1 = b.blk("D1", t, {other}), d2 = b.blk("D2-too-much", d1, {}, [](BlkSpec &q) { q.rewardDelta = 11; }); b.blk("D3", d2); int d2g = b.blk("D2", d1); b.blk("D3g", d2g);
  for (auto n : {"A1", "A2", "B1", "B2-double-spend", "B3", "B2", "C1-bad-signature", "C2", "D1", "D2-too-much", "D3", "D2", "D3g"}) s.blk(n);
  s.probeTx = false;
  return s;
}
// ---- how far below the tip a branch may start
static Scn depthScn(int depth, int full) {
  Scn s = scn("deep-forks", baseCfg(), depth, full); Builder b{s.w}; World &w = *s.w; int t = b.trunk(16, rich()); s.trunk = t;
  for (int f : {4, 5, 6, 7}) { int p = w.B("T" + std::to_string(f)); std::string n = "F" + std::to_string(f); p = b.blk(n + "a", p); p = b.blk(n + "b", p); s.blk(n + "a"); s.blk(n + "b"); }
  b.blk("U1", t); s.blk("U1"); b.blk("U2", w.B("U1")); s.blk("U2");
  s.probeTx = false; return s;
}
// ---- branches across a protocol upgrade height
static Scn upgradeForkScn(int depth, int full, int v8) {
  Cfg c = baseCfg(); c.p.v8 = v8; Scn s = scn("upgrade-forks-" + std::to_string(v8), c, depth, full); Builder b{s.w}; World &w = *s.w; int t = b.trunk(11, rich()); s.trunk = t;
  int a = t; for (int i = 1; i <= 3; ++i) { a = b.blk("A" + std::to_string(i), a); s.blk("A" + std::to_string(i)); }
  a = t; for (int i = 1; i <= 4; ++i) { a = b.blk("B" + std::to_string(i), a, {}, [&](BlkSpec &q) { q.ts = w.blk[a].b.timestamp + 60; }); s.blk("B" + std::to_string(i)); }
  s.probeTx = false; return s;
}
// ---- every way a spend can be wrong, submitted directly, inside blocks and on branches
static Scn spendScn(int depth, int full, bool viaBlocks) {
  Scn s = scn(viaBlocks ? "spends-in-blocks" : "spends", baseCfg(), depth, full); Builder b{s.w}; World &w = *s.w; int t = b.trunk(11, rich()); s.trunk = t; int cb = w.T("cb:T1"), cb5 = w.T("cb:T5");
  auto one = [](uint64_t a, uint32_t k) { return std::vector<Out>{Out::to(a, k)}; };
  std::vector<int> v;
  int pay = b.tx("pay", {In::key(cb, 0)}, one(100 * M - F, 20), t);
  v.push_back(b.tx("pay-again", {In::key(cb, 0)}, one(100 * M - F, 21), t));
  v.push_back(b.tx("pay-again-in-ring", {In::key(cb, 0, {{cb, 1}, {cb, 2}})}, one(100 * M - F, 22), t));
  static const unsigned char tor[32] = {0xec, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f};
  v.push_back(b.tx("pay-with-twisted-image", {In::key(cb, 0)}, one(100 * M - F, 23), t, [&](TxSpec &q) { q.torsion = true; q.pre = [](cn::Transaction &x) { auto &k = boost::get<cn::KeyInput>(x.inputs[0]); crypto::KeyImage r = addPoints(k.keyImage, tor); k.keyImage = r; }; }));
  v.push_back(b.tx("bad-signature", {In::key(cb, 1)}, one(100 * M - F, 24), t, [](TxSpec &q) { q.post = [](cn::Transaction &x) { ((uint8_t *)&x.signatures[0][0])[40] ^= 1; }; }));
  v.push_back(b.tx("outputs-changed-after-signing", {In::key(cb, 1)}, one(100 * M - F, 25), t, [](TxSpec &q) { q.post = [](cn::Transaction &x) { boost::get<cn::KeyOutput>(x.outputs[0].target).key = kp(26).pub; }; }));
  v.push_back(b.tx("ring-points-elsewhere", {In::key(cb, 1, {{cb, 2}})}, one(100 * M - F, 27), t, [](TxSpec &q) { q.pre = [](cn::Transaction &x) { boost::get<cn::KeyInput>(x.inputs[0]).outputIndexes[1] = 2; }; }));
  v.push_back(b.tx("ring-beyond-the-outputs", {In::key(cb, 1, {{cb, 2}})}, one(100 * M - F, 28), t, [](TxSpec &q) { q.pre = [](cn::Transaction &x) { boost::get<cn::KeyInput>(x.inputs[0]).outputIndexes[1] = 50; }; }));
  v.push_back(b.tx("other-amount", {In::key(cb, 1)}, one(200 * M - F, 29), t, [](TxSpec &q) { q.pre = [](cn::Transaction &x) { boost::get<cn::KeyInput>(x.inputs[0]).amount = 200 * M; }; }));
  v.push_back(b.tx("unknown-amount", {In::key(cb, 1)}, one(100 * M - F, 30), t, [](TxSpec &q) { q.pre = [](cn::Transaction &x) { boost::get<cn::KeyInput>(x.inputs[0]).amount = 123 * M; }; }));
  v.push_back(b.tx("more-out-than-in", {In::key(cb, 2)}, one(100 * M + 1, 31), t));
  v.push_back(b.tx("output-overflow", {In::key(cb, 2)}, {Out::to(UINT64_MAX - 5, 32), Out::to(100 * M, 33)}, t));
  v.push_back(b.tx("zero-output", {In::key(cb, 2)}, {Out::to(100 * M - F, 34), Out::to(0, 35)}, t));
  v.push_back(b.tx("off-curve-output", {In::key(cb, 2)}, one(100 * M - F, 36), t, [](TxSpec &q) { q.pre = [](cn::Transaction &x) { memset(&boost::get<cn::KeyOutput>(x.outputs[0].target).key, 2, 32); }; }));
  v.push_back(b.tx("same-input-twice", {In::key(cb, 3), In::key(cb, 3)}, one(200 * M - F, 37), t));
  v.push_back(b.tx("immature-coinbase", {In::key(cb5, 0)}, one(4 * M, 38), t));
  v.push_back(b.tx("ring-with-immature-member", {In::key(cb5, 0, {{w.T("cb:T4"), 0}})}, one(4 * M, 39), t));
  v.push_back(b.tx("no-inputs", {}, one(5 * M, 50), t));
  v.push_back(b.tx("exact-zero-fee", {In::key(cb, 4)}, one(100 * M, 51), t));
  v.push_back(b.tx("fee-below-minimum", {In::key(cb, 4)}, one(100 * M - 999, 52), t));
  v.push_back(b.tx("base-input", {In::key(cb, 4)}, one(100 * M - F, 53), t, [](TxSpec &q) { q.post = [](cn::Transaction &x) { cn::BaseInput bi; bi.blockIndex = 12; x.inputs.push_back(bi); x.signatures.push_back({}); }; }));
  v.push_back(b.tx("two-inputs-one-bad", {In::key(cb, 4), In::key(cb, 5)}, one(200 * M - F, 54), t, [](TxSpec &q) { q.post = [](cn::Transaction &x) { ((uint8_t *)&x.signatures[1][0])[7] ^= 4; }; }));
  v.push_back(b.tx("two-good-inputs", {In::key(cb, 4), In::key(cb, 5)}, one(200 * M - F, 55), t));
  int a1 = b.blk("A1-pay", t, {pay}); s.blk("A1-pay"); int b1 = b.blk("B1", t); s.blk("B1"); int b2 = b.blk("B2-pay", b1, {pay}); s.blk("B2-pay"); (void)b2;
  int sp = b.tx("spend-unconfirmed", {In::key(pay, 0)}, one(100 * M - 2 * F, 56), a1);
  v.push_back(sp);
  if (viaBlocks) {
    for (int x : v) { std::string n = "X-" + w.tx[x].name; b.blk(n, t, {x}); s.blk(n); }
    b.blk("X-both", t, {pay, v[0]}); s.blk("X-both"); b.blk("X-both-in-ring", t, {pay, v[1]}); s.blk("X-both-in-ring"); b.blk("X-twisted-too", t, {pay, v[2]}); s.blk("X-twisted-too");
    b.blk("X-spend-in-same-block", t, {pay, sp}); s.blk("X-spend-in-same-block");
    b.blk("Y-again-later", a1, {v[0]}); s.blk("Y-again-later"); b.blk("Y-twisted-later", a1, {v[2]}); s.blk("Y-twisted-later"); b.blk("Y-same-tx-again", a1, {pay}); s.blk("Y-same-tx-again");
    b.blk("Z-more-work", b1, {v[1]}); s.blk("Z-more-work"); b.blk("Y-ok", a1, {sp}); s.blk("Y-ok");
  } else { for (int x : v) s.tx(w.tx[x].name); s.tx("pay"); b.blk("A2", a1, {sp}); s.blk("A2"); }
  return s;
}

// ---- coinbase and emission
static Scn coinbaseScn(int depth, int full, bool small, bool late) {
  Cfg c = baseCfg(); if (small) { c.p.fullZone = 600; c.p.rewardWindow = 4; c.p.maxInitial = 6000; } if (!late) { c.p.v8 = 100; }
  Scn s = scn(std::string(small ? "coinbase-big-blocks" : "coinbase") + (late ? "" : "-v7"), c, depth, full); Builder b{s.w}; World &w = *s.w; int t = b.trunk(11, rich(8)); s.trunk = t; int cb = w.T("cb:T1");
  auto pad = [](size_t n) { return [n](TxSpec &q) { q.extra.assign(n, 0); }; };
  int fee = b.tx("fee", {In::key(cb, 0)}, {Out::to(100 * M - F, 20)}, t), fee2 = b.tx("big-fee", {In::key(cb, 1)}, {Out::to(60 * M, 21)}, t);
  auto add = [&](const std::string &n, int par, std::vector<int> txs, std::function<void(BlkSpec &)> f) { int x = b.blk(n, par, txs, f); s.blk(n); return x; };
  for (int d : {-1, 1, 10, 11}) add("reward" + std::string(d < 0 ? "" : "+") + std::to_string(d), t, {fee}, [d](BlkSpec &q) { q.rewardDelta = d; });
  int g1 = add("exact", t, {fee}, nullptr); add("big-fee", t, {fee2}, nullptr); add("big-fee-taken-twice", t, {fee2}, [](BlkSpec &q) { q.rewardDelta = 40 * M; });
  add("empty", t, {}, nullptr); add("fee-not-claimed", t, {fee2}, [](BlkSpec &q) { q.rewardDelta = -(int64_t)(40 * M); });
  add("split", t, {}, [](BlkSpec &q) { q.cb = {Out::to(1 * M, 60), Out::to(2, 61), Out::to(0, 62)}; });
  add("overflow", t, {}, [](BlkSpec &q) { q.tweak = [](cn::Block &k) { auto &o = k.baseTransaction.outputs; auto x = o[0]; uint64_t r = x.amount; o.push_back(x); o[0].amount = UINT64_MAX - 3; o[1].amount = r + 4; }; });
  add("zero-output", t, {}, [](BlkSpec &q) { q.tweak = [](cn::Block &k) { auto x = k.baseTransaction.outputs[0]; x.amount = 0; k.baseTransaction.outputs.push_back(x); }; });
  add("off-curve", t, {}, [](BlkSpec &q) { q.tweak = [](cn::Block &k) { memset(&boost::get<cn::KeyOutput>(k.baseTransaction.outputs[0].target).key, 2, 32); }; });
  add("two-inputs", t, {}, [](BlkSpec &q) { q.tweak = [](cn::Block &k) { k.baseTransaction.inputs.push_back(k.baseTransaction.inputs[0]); }; });
  add("other-height", t, {}, [](BlkSpec &q) { q.tweak = [](cn::Block &k) { boost::get<cn::BaseInput>(k.baseTransaction.inputs[0]).blockIndex += 1; }; });
  add("early-unlock", t, {}, [](BlkSpec &q) { q.tweak = [](cn::Block &k) { k.baseTransaction.unlockTime -= 1; }; });
  add("multisig-v1", t, {}, [](BlkSpec &q) { q.cb = {Out::dep(1 * M, 63, 0)}; q.tweak = [](cn::Block &k) { k.baseTransaction.version = 1; }; });
  add("multisig-v2", t, {}, [](BlkSpec &q) { q.cb = {Out::dep(1 * M, 64, 0), Out::to(0, 65)}; });
  add("deposit-in-coinbase", t, {}, [](BlkSpec &q) { q.cb = {Out::dep(2 * M, 66, 6), Out::to(0, 67)}; });
  add("exact2", g1, {fee2}, nullptr); add("rival", t, {fee}, [](BlkSpec &q) { q.cb = {Out::to(5, 70), Out::to(0, 71)}; }); add("rival2", w.B("rival"), {}, nullptr);
  if (small) for (size_t n : {100, 300, 480, 700, 900, 940, 1000}) { int x = b.tx("pad" + std::to_string(n), {In::key(cb, 2)}, {Out::to(99 * M, 30)}, t, pad(n)); std::string nm = "padded" + std::to_string(n); int y = add(nm, t, {x}, nullptr); if (n == 700) add("padded700-then-full-reward", t, {x}, [](BlkSpec &q) { q.rewardDelta = 200000; }); if (n < 900) { int z = b.tx("padx" + std::to_string(n), {In::key(cb, 3)}, {Out::to(99 * M, 31)}, y, pad(n + 150)); add(nm + "+more", y, {z}, nullptr); } }
  s.probeTx = false; return s;
}
// ---- deposits
static Scn depositScn(int depth, int full, int kind, bool mature) {
  Cfg c = baseCfg(); std::string nm = kind == 0 ? "deposits" : kind == 1 ? "deposits-legacy-terms" : "deposits-by-one-block"; if (mature) nm += "-matured";
  if (kind == 1) { c.p.hV3 = 1000; c.p.hV4 = 1000; c.p.maxRate = 4; }
  Scn s = scn(nm, c, depth, full); Builder b{s.w}; World &w = *s.w; int t = b.trunk(11, rich(12)); s.trunk = t; int cb = w.T("cb:T1"); uint32_t term = kind == 1 ? 4 : 3;
  auto I = [&](uint64_t a, uint32_t te, uint32_t h) { return ref::inputInterest(w.cfg.p, a, te, h); };
  int d1 = b.tx("deposit", {In::key(cb, 12)}, {Out::dep(150 * M, 30, term), Out::to(50 * M - F, 100)}, t);
  int d2 = b.tx("deposit-2of3", {In::key(cb, 13)}, {Out::dep(150 * M, 130, term, 2, 3), Out::to(50 * M - F, 101)}, t);
  if (kind != 2) {
    int k = 0; auto mk = [&](const std::string &n, Out o) { b.tx("deposit-" + n, {In::key(cb, k++ % 12)}, {o, Out::to(50 * M, 110 + k)}, t); s.tx("deposit-" + n); };
    mk("term-longest", Out::dep(20 * M, 31, kind == 1 ? 1000 : 36)); mk("term-too-long", Out::dep(20 * M, 32, kind == 1 ? 1001 : 39)); mk("term-odd", Out::dep(20 * M, 33, kind == 1 ? 1 : 4)); mk("no-term", Out::dep(20 * M, 34, 0)); mk("too-small", Out::dep(M - 1, 35, term)); mk("smallest", Out::dep(M, 36, term)); mk("2-of-1", Out::dep(20 * M, 37, term, 2, 1));
    mk("0-of-1", Out::dep(20 * M, 38, term, 0, 1));
  }
  int a1 = b.blk("A1", t, {d1}); s.blk("A1"); int a2 = b.blk("A2", a1, {d2}); s.blk("A2"); int a3 = b.blk("A3", a2); s.blk("A3"); int a4 = b.blk("A4", a3); s.blk("A4"); int a5 = kind == 1 ? b.blk("A5", a4) : a4; if (kind == 1) s.blk("A5");
  uint32_t h = w.blk[a5].h + 1; uint64_t in = I(150 * M, term, h);
  auto wd = [&](const std::string &n, In i, std::vector<Out> o, std::function<void(TxSpec &)> f = nullptr) { int x = b.tx(n, {i}, o, a5, f); s.tx(n); return x; };
  int w1 = wd("withdraw", In::ms(d1, 0), {Out::to(150 * M + in - F, 200)});
  int w2 = wd("withdraw-no-fee", In::ms(d1, 0), {Out::to(150 * M + in, 201)});
  int w3 = wd("withdraw-one-too-much", In::ms(d1, 0), {Out::to(150 * M + in + 1, 202)});
  wd("withdraw-double-interest", In::ms(d1, 0), {Out::to(150 * M + 2 * in + 1, 203)});
  wd("withdraw-other-key", [&] { In i = In::ms(d1, 0); i.signers = {77}; return i; }(), {Out::to(150 * M - F, 204)});
  wd("withdraw-other-term", In::ms(d1, 0), {Out::to(150 * M - F, 205)}, [&](TxSpec &q) { q.pre = [term](cn::Transaction &x) { boost::get<cn::MultisignatureInput>(x.inputs[0]).term = term + 3; }; });
  wd("withdraw-zero-term", In::ms(d1, 0), {Out::to(150 * M - F, 206)}, [&](TxSpec &q) { q.pre = [](cn::Transaction &x) { boost::get<cn::MultisignatureInput>(x.inputs[0]).term = 0; }; });
  wd("withdraw-other-amount", In::ms(d1, 0), {Out::to(151 * M - F, 207)}, [&](TxSpec &q) { q.pre = [](cn::Transaction &x) { boost::get<cn::MultisignatureInput>(x.inputs[0]).amount = 151 * M; }; });
  wd("withdraw-no-such-index", In::ms(d1, 0), {Out::to(150 * M - F, 208)}, [&](TxSpec &q) { q.pre = [](cn::Transaction &x) { boost::get<cn::MultisignatureInput>(x.inputs[0]).outputIndex = 7; }; });
  wd("withdraw-2of3-first-and-last", [&] { In i = In::ms(d2, 0); i.signers = {130, 132}; return i; }(), {Out::to(150 * M - F, 209)});
  wd("withdraw-2of3-reversed", [&] { In i = In::ms(d2, 0); i.signers = {132, 130}; return i; }(), {Out::to(150 * M - F, 210)});
  wd("withdraw-2of3-same-key-twice", [&] { In i = In::ms(d2, 0); i.signers = {131, 131}; return i; }(), {Out::to(150 * M - F, 211)});
  int tw = b.tx("withdraw-twice-in-one", {In::ms(d1, 0), In::ms(d1, 0)}, {Out::to(300 * M - F, 212)}, a5); s.tx("withdraw-twice-in-one");
  for (int x : {w1, w2, w3, tw}) { b.blk("W-" + w.tx[x].name, a5, {x}); s.blk("W-" + w.tx[x].name); }
  b.blk("W-both", a5, {w1, w2}); s.blk("W-both"); int e = b.blk("W-early", kind == 1 ? w.B("A3") : w.B("A2"), {w1}); s.blk("W-early"); (void)e; b.blk("W-first-chance", kind == 1 ? w.B("A4") : w.B("A3"), {w1}); s.blk("W-first-chance");
  b.blk("W-then-again", w.B("W-withdraw"), {w2}); s.blk("W-then-again");
  int re = b.tx("deposit-again", {In::key(cb, 9), In::key(cb, 10)}, {Out::dep(150 * M, 220, term), Out::to(50 * M - F, 221)}, a5); b.blk("W-and-redeposit", a5, {w1, re}); s.blk("W-and-redeposit");
  int wd0 = b.tx("deposit-withdraw-same-block", {In::ms(d1, 0)}, {Out::to(150 * M - F, 213)}, a1); b.blk("W-same-block", t, {d1, wd0}); s.blk("W-same-block");
  // the other branch confirms the deposits in the other order: the output index the withdrawals name is somebody else's
  int b1 = b.blk("B1", t, {d2}); s.blk("B1"); int b2 = b.blk("B2", b1, {d1}); s.blk("B2"); int b3 = b.blk("B3", b2); s.blk("B3"); (void)b3;
  if (mature) { s.trunk = a5; s.restart(); }
  else { std::vector<Op> keep; for (auto &o : s.ops) if (o.k == 'b' || o.name.find("deposit") != std::string::npos || o.name == "submit transaction withdraw") { if (o.name.find("W-") == std::string::npos || o.name.find("W-withdraw ") != std::string::npos || o.name.find("W-early") != std::string::npos || o.name.find("W-first") != std::string::npos || o.name.find("W-and") != std::string::npos || o.name.find("W-same") != std::string::npos) keep.push_back(o); } s.ops = keep; }
  s.probeTx = true; return s;
}
// ---- every kind of refused block, followed by good ones
static Scn rejectScn(int depth, int full) {
  Cfg c = baseCfg(); c.p.maxInitial = 3000; c.p.fullZone = 1000; c.p.rewardWindow = 4; c.p.futureLimit = 600; c.now = 1527078920ull + 120 * 14;
  Scn s = scn("refused-blocks", c, depth, full); Builder b{s.w}; World &w = *s.w; int t = b.trunk(11, rich(9)); s.trunk = t; int cb = w.T("cb:T1");
  auto pad = [](size_t n) { return [n](TxSpec &q) { q.extra.assign(n, 0); }; };
  int pay = b.tx("pay", {In::key(cb, 0)}, {Out::to(100 * M - F, 20)}, t), pay2 = b.tx("pay-again", {In::key(cb, 0)}, {Out::to(100 * M - F, 21)}, t), dep = b.tx("deposit", {In::key(cb, 9)}, {Out::dep(150 * M, 30, 3), Out::to(50 * M - F, 100)}, t);
  int good = b.tx("good", {In::key(cb, 2)}, {Out::to(100 * M - F, 22)}, t), bad = b.tx("bad-signature", {In::key(cb, 1)}, {Out::to(100 * M - F, 24)}, t, [](TxSpec &q) { q.post = [](cn::Transaction &x) { ((uint8_t *)&x.signatures[0][0])[40] ^= 1; }; });
  int p1 = b.tx("pad1500", {In::key(cb, 3)}, {Out::to(99 * M, 30)}, t, pad(1500)), p2 = b.tx("pad1400", {In::key(cb, 4)}, {Out::to(99 * M, 31)}, t, pad(1400)), p3 = b.tx("pad1600", {In::key(cb, 5)}, {Out::to(99 * M, 32)}, t, pad(1600));
  auto add = [&](const std::string &n, int par, std::vector<int> txs, std::function<void(BlkSpec &)> f = nullptr) { int x = b.blk(n, par, txs, f); s.blk(n); return x; };
  add("weak-work", t, {good}, [](BlkSpec &q) { q.badPow = true; });
  add("old-version", t, {good}, [](BlkSpec &q) { q.tweak = [](cn::Block &k) { k.majorVersion = 7; }; });
  uint64_t tt = w.blk[t].b.timestamp; add("below-median-time", t, {good}, [tt](BlkSpec &q) { q.ts = tt - 120 * 4 - 1; }); add("at-median-time", t, {good}, [tt](BlkSpec &q) { q.ts = tt - 180; }); add("under-median-time", t, {good}, [tt](BlkSpec &q) { q.ts = tt - 181; });
  add("future", t, {good}, [&](BlkSpec &q) { q.ts = c.now + 601; }); add("almost-future", t, {good}, [&](BlkSpec &q) { q.ts = c.now + 600; });
  add("over-size-limit", t, {p1, p2, p3}); add("over-twice-median", t, {p1, p2}); add("penalised", t, {p1}, nullptr);
  add("bad-tx-last", t, {good, dep, bad}); add("bad-tx-first", t, {bad, good}); add("double-spend", t, {pay, good, pay2}); add("too-much", t, {good, dep}, [](BlkSpec &q) { q.rewardDelta = 11; }); add("coinbase-overflow", t, {good}, [](BlkSpec &q) { q.tweak = [](cn::Block &k) { auto &o = k.baseTransaction.outputs; auto x = o[0]; uint64_t r = x.amount; o.push_back(x); o[0].amount = UINT64_MAX - 3; o[1].amount = r + 4; }; });
  add("same-tx-twice", t, {good, good}); add("coinbase-height", t, {good}, [](BlkSpec &q) { q.tweak = [](cn::Block &k) { boost::get<cn::BaseInput>(k.baseTransaction.inputs[0]).blockIndex -= 1; }; });
  int g1 = add("G1", t, {good, dep}); add("G2", g1, {pay}); int o1 = b.blk("hidden", t); add("orphan", o1, {}); s.only("G1");
  add("G2-repeats-tx", g1, {good}); add("R1", t, {dep}); add("R2-bad", w.B("R1"), {bad}); add("R2", w.B("R1"), {good});
  s.tx("pay"); s.tx("bad-signature"); s.wait(61); s.probeTx = false;
  return s;
}
// ---- memory pool: submissions, blocks, expiry, restarts
static Scn poolScn(int depth, int full, bool v8) {
  Cfg c = baseCfg(); c.p.live = 600; c.p.liveAlt = 1200; c.p.forget = 3; if (!v8) c.p.v8 = 100;
  Scn s = scn(v8 ? "pool" : "pool-v7", c, depth, full); Builder b{s.w, true}; World &w = *s.w; int t = b.trunk(11, rich(8)); s.trunk = t; int cb = w.T("cb:T1");
  int dep0 = b.tx("deposit", {In::key(cb, 8)}, {Out::dep(150 * M, 30, 3), Out::to(50 * M - F, 100)}, t);
  int a = b.blk("P1", t, {dep0}); a = b.blk("P2", a); a = b.blk("P3", a); s.trunk = a; uint32_t h = w.blk[a].h + 1; uint64_t in = ref::inputInterest(w.cfg.p, 150 * M, 3, h);
  int pay = b.tx("pay", {In::key(cb, 0)}, {Out::to(100 * M - F, 20)}, a), pay2 = b.tx("pay-again", {In::key(cb, 0)}, {Out::to(100 * M - F, 21)}, a), ring = b.tx("ring", {In::key(cb, 1, {{cb, 0}, {cb, 2}})}, {Out::to(100 * M - F, 22)}, a);
  int both = b.tx("pay-and-more", {In::key(cb, 0), In::key(cb, 2)}, {Out::to(200 * M - F, 23)}, a);
  int w1 = b.tx("withdraw", {In::ms(dep0, 0)}, {Out::to(150 * M + in - F, 24)}, a), w2 = b.tx("withdraw-again", {In::ms(dep0, 0)}, {Out::to(150 * M + in - 2 * F, 25)}, a);
  b.tx("no-fee", {In::key(cb, 3)}, {Out::to(100 * M, 26)}, a); b.tx("odd-fee", {In::key(cb, 4)}, {Out::to(100 * M - 5 * F, 27)}, a);
  cn::TransactionExtraTTL ttl; ttl.ttl = c.now + 300; Bytes ex; std::vector<uint8_t> ev; cn::appendTTLToExtra(ev, ttl.ttl); ex.assign(ev.begin(), ev.end());
  b.tx("self-destructing", {In::key(cb, 5)}, {Out::to(100 * M, 28)}, a, [&](TxSpec &q) { q.extra = ex; });
  int sp = -1; int a1 = b.blk("A1", a, {pay}); sp = b.tx("spend-pay", {In::key(pay, 0)}, {Out::to(100 * M - 2 * F, 29)}, a1); b.blk("A2", a1, {sp, w1}); int b1 = b.blk("B1", a, {pay2}); b.blk("B2", b1, {ring, w2}); b.blk("B3", w.B("B2")); (void)both;
  for (auto n : {"pay", "pay-again", "ring", "pay-and-more", "withdraw", "withdraw-again", "no-fee", "odd-fee", "self-destructing", "spend-pay"}) s.tx(n);
  s.txk("pay-again"); s.txk("withdraw-again"); s.txk("spend-pay");
  for (auto n : {"A1", "A2", "B1", "B2"}) s.blk(n);
  s.wait(301); s.wait(700); s.wait(1300); s.restart(); s.probeTx = false; return s;
}
// ---- checkpoints
static Scn checkpointScn(int depth, int full) {
  std::shared_ptr<World> ws[4]; Scn s; s.name = "checkpoints"; s.depth = depth; s.full = full;
  std::map<uint32_t, int> pts[4]; int t = 0;
  for (int k = 0; k < 4; ++k) {
    Cfg c = baseCfg(); c.checkpoints = pts[k]; ws[k] = std::make_shared<World>(c); Builder b{ws[k]}; World &w = *ws[k]; t = b.trunk(11, rich(6)); int cb = w.T("cb:T1");
    int pay = b.tx("pay", {In::key(cb, 0)}, {Out::to(100 * M - F, 20)}, t), bad = b.tx("bad-signature", {In::key(cb, 1)}, {Out::to(100 * M - F, 24)}, t, [](TxSpec &q) { q.post = [](cn::Transaction &x) { ((uint8_t *)&x.signatures[0][0])[40] ^= 1; }; });
    int a1 = b.blk("A1", t, {pay}), a2 = b.blk("A2", a1), a3 = b.blk("A3", a2), a4 = b.blk("A4", a3); (void)a4; int b1 = b.blk("B1", t), b2 = b.blk("B2", b1, {pay}), b3 = b.blk("B3", b2), b4 = b.blk("B4", b3); (void)b4; b.blk("C2-bad-signature", b1, {bad}); int d = b.blk("D12-weak", t, {}, [](BlkSpec &q) { q.badPow = true; q.cb = {Out::to(1, 90), Out::to(0, 91)}; }); b.blk("D13", d); int n11 = b.blk("N11", w.B("T10")); int n12 = b.blk("N12", n11); b.blk("N13", n12);
    if (k == 0) { pts[1] = {{5, w.B("T5")}, {13, a2}}; pts[2] = {{11, w.B("T11")}, {12, b1}}; pts[3] = {{13, b2}, {15, b4}}; }
  }
  s.w = ws[0]; s.trunk = t; for (auto &x : ws) s.worlds.push_back(x);
  for (auto n : {"A1", "A2", "A3", "A4", "B1", "B2", "B3", "B4", "C2-bad-signature", "D12-weak", "D13", "N11", "N12", "N13"}) s.blk(n);
  s.points(1, "checkpoints at 5 and 13 (branch A)"); s.points(2, "checkpoints at 11 and 12 (branch B)"); s.points(3, "checkpoints at 13 and 15 (branch B)");
  s.probeTx = false; s.poolReady = false; return s; // readiness after a zone change: see known_findings
}
static void spaces(mc::Session &S) {
  bool th = S.thorough(); const std::string &P = S.property();
  auto on = [&](const char *props, const char *name, std::function<Scn()> f) { if (std::string(props).find(P) != std::string::npos && S.wants(name)) { Scn s = f(); go(S, s); } };
  on("C01", "forks", [&] { return forkScn(th ? 5 : 4, th ? 3 : 2); });
  on("C01", "undo", [&] { return undoScn(th ? 5 : 3, 2); });
  on("C02", "work", [&] { return workScn(th ? 7 : 5, th ? 3 : 2); });
  on("C02", "long-branch", [&] { return longBranchScn(th ? 7 : 5, th ? 3 : 2); });
  on("C02", "bad-branch", [&] { return badBranchScn(th ? 6 : 4, th ? 3 : 2); });
  on("C02", "deep-forks", [&] { return depthScn(th ? 5 : 4, th ? 3 : 2); });
  for (int v8 : {11, 12, 13}) on("C02", ("upgrade-forks-" + std::to_string(v8)).c_str(), [&] { return upgradeForkScn(th ? 6 : 4, th ? 4 : 2, v8); });
  on("C03", "spends", [&] { return spendScn(th ? 3 : 2, th ? 2 : 1, false); });
  on("C03", "spends-in-blocks", [&] { return spendScn(th ? 3 : 2, th ? 2 : 1, true); });
  on("C04", "coinbase", [&] { return coinbaseScn(th ? 4 : 3, th ? 2 : 2, false, true); });
  on("C04", "coinbase-v7", [&] { return coinbaseScn(th ? 4 : 2, th ? 2 : 1, false, false); });
  on("C04", "coinbase-big-blocks", [&] { return coinbaseScn(th ? 4 : 3, th ? 2 : 1, true, true); });
  for (int k : {0, 1}) for (bool m : {false, true}) on("C05", (std::string(k ? "deposits-legacy-terms" : "deposits") + (m ? "-matured" : "")).c_str(), [&] { return depositScn(m ? th ? 4 : k ? 2 : 3 : th ? 7 : 4, m && th ? 2 : 1, k, m); });
  on("C06", "refused-blocks", [&] { return rejectScn(th ? 4 : 3, th ? 3 : 2); });
  on("C08", "pool", [&] { return poolScn(th ? 4 : 3, th ? 3 : 2, true); });
  on("C08", "pool-v7", [&] { return poolScn(th ? 4 : 3, th ? 3 : 2, false); });
  on("C09", "checkpoints", [&] { return checkpointScn(th ? 7 : 6, th ? 3 : 2); });
  on("C01", "rollback", [&] { return rollbackScn(th ? 6 : 4, th ? 3 : 2); });
}
