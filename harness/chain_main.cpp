// Chain spaces: every sequence of deliveries / submissions / rollbacks / restarts
// over a closed universe of blocks and transactions, executed on the real node
// and compared, operation by operation, with the reference model.
#include "chain.h"
#include "mc.h"
#include "CryptoNoteCore/TransactionExtra.h"

extern "C" {
#include "crypto/crypto-ops.h"
}
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ftw.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace ch;
struct Op { char k; int a; std::string name; };
// k: 'b' deliver block a (its transactions first), 'o' deliver only the block, 't' submit tx, 'k' submit tx as kept by block,
//    'r' roll back to height a, 's' orderly restart, 'c' crash and restart, 'w' let a seconds pass + idle tick
struct Scn {
  std::string name; std::shared_ptr<World> w; std::vector<std::shared_ptr<World>> worlds; int trunk = 0; std::vector<Op> ops; std::vector<std::vector<int>> runs; bool dumpEach = false, poolReady = true, probeTx = true, probeTmpl = true;
  int depth = 4, full = 2;
  void blk(const std::string &n) { ops.push_back({'b', w->B(n), "deliver block " + n + " (its transactions first)"}); }
  void many(const std::string &n, std::vector<std::string> v) { runs.push_back({}); for (auto &x : v) runs.back().push_back(w->B(x)); ops.push_back({'m', (int)runs.size() - 1, "deliver blocks " + n}); }
  void only(const std::string &n) { ops.push_back({'o', w->B(n), "deliver block " + n + " alone"}); }
  void tx(const std::string &n) { ops.push_back({'t', w->T(n), "submit transaction " + n}); }
  void txk(const std::string &n) { ops.push_back({'k', w->T(n), "submit transaction " + n + " as part of a block"}); }
  void roll(int h) { ops.push_back({'r', h, "roll the chain back to height " + std::to_string(h)}); }
  void points(int i, const std::string &d) { ops.push_back({'p', i, "restart with " + d}); }
  void restart() { ops.push_back({'s', 0, "orderly restart"}); }
  void wait(int s) { ops.push_back({'w', s, "wait " + std::to_string(s) + " s, idle tick"}); }
};
static int rmcb(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
static std::string freshDir(mc::Session &s) { std::string d = s.scratch() + "/n"; nftw(d.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS); mkdir(d.c_str(), 0700); return d; }

static std::string apply(Scn &sc, Node &n, Model &m, const Op &op) {
  World &w = *n.pw;
  auto feed = [&](int t, bool kept) -> std::string { TxVerdict want = m.tx(t, kept), got = n.tx(t, kept); return want == got ? "" : "transaction " + w.tx[t].name + (kept ? " (kept by block)" : "") + ": expected " + want.str() + ", got " + got.str() + (m.ready(t).empty() ? "" : " [" + m.ready(t) + "]"); };
  switch (op.k) {
  case 't': return feed(op.a, false);
  case 'k': return feed(op.a, true);
  case 'b': for (int t : w.blk[op.a].txs) { std::string r = feed(t, true); if (!r.empty()) return r; } // fallthrough
  case 'o': { Verdict want = m.block(op.a), got = n.block(op.a); got.ok = want.ok; return want == got ? "" : "block " + w.blk[op.a].name + ": expected " + want.str() + ", got " + got.str() + (w.blk[op.a].why.empty() ? "" : " [" + w.blk[op.a].why + "]"); }
  case 'm': for (int x : sc.runs[op.a]) { std::string r = apply(sc, n, m, {'b', x, ""}); if (!r.empty()) return r; } return "";
  case 'r': m.rollback(op.a); n.core->rollback_chain_to(op.a); return "";
  case 's': m.restart(); n.stop(); return n.start() ? "" : "the node does not start again";
  case 'p': m.checkpoints(*sc.worlds[op.a]); n.stop(); n.pw = sc.worlds[op.a].get(); return n.start() ? "" : "the node does not start again";
  case 'w': m.now += op.a; env::now = m.now; m.idle(); n.core->on_idle(); return "";
  }
  return "?";
}
static mc::Step runScn(mc::Session &S, Scn &sc, const mc::Seq &q) {
  mc::Step st; World &w = *sc.w; env::now = w.cfg.now; env::rnd = 1;
  Node n(w, freshDir(S)); Model m(w);
  if (!n.start()) return mc::Step::fail("node does not start");
  auto cmp = [&](const std::string &at) { Dump want = m.dump(), got = n.dump(); if (!sc.poolReady) { want.erase("pool-ready"); got.erase("pool-ready"); } std::string d = diffDump(want, got); if (!d.empty()) { st.bad = true; st.msg = at + ": " + d; } return d.empty(); };
  for (size_t i = 1; i < w.blk[sc.trunk].anc.size(); ++i) {
    int b = w.blk[sc.trunk].anc[i]; std::string r = apply(sc, n, m, {'b', b, ""}); if (!r.empty() || m.tip != b) return mc::Step::fail("trunk: " + (r.empty() ? w.blk[b].name + ": " + w.blk[b].why : r));
  }
  st.klass = "start";
  for (size_t i = 0; i < q.size(); ++i) {
    const Op &op = sc.ops[q[i]]; int before = m.tip; size_t pb = m.pool.size(), ab = m.alts.size();
    std::string r = apply(sc, n, m, op); ++st.work;
    if (!r.empty()) { st.bad = true; st.msg = "step " + std::to_string(i + 1) + ": " + r; return st; }
    if (sc.dumpEach || i + 1 == q.size()) if (!cmp("after step " + std::to_string(i + 1))) return st;
    st.klass = std::string(1, op.k) + (m.tip == before ? "" : m.inMain(before) ? " extends" : w.blk[m.tip].h < w.blk[before].h && op.k == 'r' ? " shortens" : " switches") + (m.pool.size() > pb ? " pool+" : m.pool.size() < pb ? " pool-" : "") + (m.alts.size() > ab ? " alt+" : m.alts.size() < ab ? " alt-" : "");
  }
  if (q.empty() && !cmp("at the start")) return st;
  st.key = m.key() + (sc.worlds.empty() ? "" : n.pw == sc.worlds[0].get() ? "|w0" : n.pw == sc.worlds.back().get() ? "|wl" : "|wm");
  std::string p = probe(*n.pw, n, m, sc.probeTx, sc.probeTmpl); ++st.work;
  if (!p.empty()) { st.bad = true; st.msg = p; return st; }
  for (size_t i = 0; i < sc.ops.size(); ++i) st.next.push_back(i);
  return st;
}
static bool go(mc::Session &S, Scn &sc) {
  if (!S.wants(sc.name)) return true;
  mc::Space sp; sp.name = sc.name; sp.depth = sc.depth; sp.full = sc.full;
  sp.run = [&](const mc::Seq &q) { return runScn(S, sc, q); };
  sp.show = [&](const mc::Seq &q) { std::string o = "  chain of " + std::to_string(sc.w->blk[sc.trunk].h + 1) + " blocks\n"; for (auto i : q) o += "  " + sc.ops[i].name + "\n"; return o; };
  return S.explore(sp);
}
#include "chain_spaces.h"
int main(int argc, char **argv) {
  mc::Session S(argc, argv);
  S.assumptions = {"proof of work replaced by a keccak stub with the same interface (the memory-hard function itself is not judged here)", "wall clock and randomness are owned by the harness; CRYPTONOTE hash and signatures are the real ones"};
  try { spaces(S); } catch (const std::exception &e) { fprintf(stderr, "harness: %s\n", e.what()); return 2; }
  return S.finish();
}
