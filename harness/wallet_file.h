// The wallet file at every crash point, with every file operation failing, and
// damaged. Included by wallet_main.cpp.
static std::vector<Op> pick(const std::vector<std::string> &ids) { std::vector<Op> r; for (auto &i : ids) for (auto &o : allOps()) if (o.id == i) r.push_back(o); return r; }
static void putImage(Pack &p, const crashfs::Image &im) { p.num(im.size()); for (auto &f : im) { p.put(f.first); p.put(f.second); } }
static crashfs::Image getImage(Pack &p) { crashfs::Image im; for (uint64_t n = p.num(); n; --n) { std::string k = p.get(); im[k] = p.get(); } return im; }
struct State { std::set<int> held; std::string pw; bool loose; void put(Pack &p) const { p.num(held.size()); for (int h : held) p.num(h); p.put(pw); p.num(loose); } void get(Pack &p) { for (uint64_t n = p.num(); n; --n) held.insert(p.num()); pw = p.get(); loose = p.num(); } };
static State stateOf(const Exec &e) { return {e.held, e.pw, e.loose}; }
static std::string show(const crashfs::Image &im) { std::string s; for (auto &f : im) s += (s.empty() ? "" : ", ") + f.first + " (" + S(f.second.size()) + ")"; return s; }
// opens what a kill left behind; then works with it, saves and opens it again
static std::string recovered(Exec &e, const State &b, const State &a, std::vector<crashfs::Point> *again) {
  std::string why; bool ok = false; std::vector<std::string> pws{b.pw}; if (a.pw != b.pw) pws.push_back(a.pw); e.anyExtra = true; crashfs::Image left = crashfs::snapshot(e.dir + "/wal");
  for (auto &pw : pws) {
    e.pw = pw; auto go = [&] { try { e.open(); ok = true; } catch (const std::exception &x) { why += std::string(why.empty() ? "" : "; ") + x.what(); e.w.reset(); } };
    if (again) { auto v = crashfs::explore(e.dir + "/wal", false, go); for (auto &x : v) if (x.image != left) again->push_back(x); } else go();
    if (ok) break;
  }
  if (!ok) return "the wallet file cannot be opened: " + why;
  std::set<int> got; for (size_t i = 0; i < e.w->getAddressCount(); ++i) for (size_t j = 0; j < e.a.size(); ++j) if (e.w->getAddress(i) == e.a[j]) got.insert(j);
  for (int h : b.held) if (a.held.count(h) && !got.count(h)) return "address " + S(h) + " is lost";
  for (int h : got) if (!b.held.count(h) && !a.held.count(h)) return "address " + S(h) + " is back";
  e.held = got; e.loose = b.loose || a.loose; std::string r = checkView(e, false); if (!r.empty()) return r;
  e.w->save(cn::WalletSaveLevel::SAVE_ALL); e.reload(); r = checkView(e, false); return r.empty() ? r : "after saving and opening again: " + r;
}
static std::string steps(Exec &e, const std::vector<Op> &ops, const mc::Seq &q, size_t n) { for (size_t i = 0; i < n; ++i) { std::string r = ops[q[i]].f(e); if (!r.empty() && r != "skip") return r; } return ""; }
static mc::Step crashRun(mc::Session &s, const std::vector<Op> &ops, const mc::Seq &q, bool power) {
  mc::Step st; for (size_t i = 0; i < ops.size(); ++i) st.next.push_back(i); if (q.empty()) { st.klass = "start"; return st; }
  std::string dir = s.scratch(); for (auto d : {"", "/a", "/b"}) mkdir((dir + d).c_str(), 0700); int sig; struct Img { std::string op; crashfs::Image im; bool deep; }; std::deque<Img> todo; State b, a; uint64_t now; std::set<std::string> seen;
  std::string o = child([&] {
    Exec e(dir + "/a"); e.open(); Pack p; std::string r = steps(e, ops, q, q.size() - 1); if (!r.empty()) throw std::runtime_error(r); State b = stateOf(e); std::string f;
    auto v = crashfs::explore(dir + "/a/wal", power, [&] { f = ops[q.back()].f(e); }); if (!f.empty() && f != "skip") throw std::runtime_error(f); p.put(f); b.put(p); stateOf(e).put(p); p.num(env::now); p.num(v.size()); for (auto &x : v) { p.put(x.op); putImage(p, x.image); } e.w->shutdown(); e.w.reset(); e.c.stop(); return p.s; }, &sig);
  if (sig) return mc::Step::fail("the wallet process died of signal " + S(sig));
  Pack p(o); std::string f = p.get(); b.get(p); a.get(p); now = p.num(); for (uint64_t n = p.num(); n; --n) { std::string op = p.get(); auto im = getImage(p); todo.push_back({op, im, false}); }
  st.klass = ops[q.back()].id + (f == "skip" ? " n/a" : ""); st.work = 0;
  auto key = [](const crashfs::Image &im) { std::string k; for (auto &x : im) k += x.first + '\0' + std::to_string(x.second.size()) + '\0' + x.second; return mc::hash128(k); };
  for (; !todo.empty(); todo.pop_front()) {
    Img x = todo.front(); if (!seen.insert(key(x.im)).second) continue; ++st.work; int sig;
    std::string o = child([&] { env::now = now; Exec e(dir + "/b", dir + "/a"); crashfs::restore(x.im, dir + "/b/wal"); std::vector<crashfs::Point> again; std::string r = recovered(e, b, a, x.deep ? nullptr : &again); Pack p; p.put(r); p.num(again.size()); for (auto &y : again) { p.put(y.op); putImage(p, y.image); } return p.s; }, &sig);
    std::string r; if (sig) r = "the wallet process dies of signal " + S(sig); else { Pack p(o); r = p.get(); for (uint64_t n = p.num(); n; --n) { std::string op = p.get(); todo.push_back({x.op + ", then on opening before " + op, getImage(p), true}); } }
    if (!r.empty()) { st.bad = true; st.msg = "killed at: " + x.op + "; left " + show(x.im) + "; " + r; return st; }
  }
  return st;
}
// every file operation of the last step fails in turn; then the step is tried again, and the file has to say what the wallet says
static mc::Step failRun(mc::Session &s, const std::vector<Op> &ops, const mc::Seq &q) {
  mc::Step st; for (size_t i = 0; i < ops.size(); ++i) st.next.push_back(i); if (q.empty()) { st.klass = "start"; return st; }
  std::string dir = s.scratch(); mkdir(dir.c_str(), 0700); st.work = 0; std::set<std::string> kinds;
  for (int way = 0; way < (s.thorough() ? 4 : 2); ++way) for (long n = 0;; ++n) {
    const int err = way == 0 || way == 3 ? ENOSPC : EIO; const bool inPlace = way & 1;
    int sig; std::string o = child([&] {
      Exec e(dir); e.open(); Pack p; std::string r = steps(e, ops, q, q.size() - 1); if (!r.empty()) throw std::runtime_error(r); State b = stateOf(e); std::string f, at, threw; e.anyExtra = true;
      crashfs::watch(dir + "/wal", [&](const char *op, const std::string &path) { if (crashfs::calls() == n + 1) at = std::string(op) + " " + path.substr(dir.size() + 5); }); crashfs::failAt(n, err);
      try { f = ops[q.back()].f(e); } catch (const std::exception &x) { threw = x.what(); if (threw.empty()) threw = "?"; } crashfs::watch("", nullptr);
      if (at.empty()) { p.num(0); p.put(""); p.put(""); return p.s; } if (!f.empty() && f != "skip") throw std::runtime_error(f); State a = stateOf(e); std::string pw = e.pw;
      auto answer = [&](const std::string &r) { p.num(1); p.put(at); p.put(r.empty() ? r : "operation " + at + " fails with " + strerror(err) + (threw.empty() ? ", the wallet says nothing" : ", the wallet says: " + threw) + "; " + r); return p.s; };
      auto addresses = [&] { std::set<int> g; for (size_t i = 0; i < e.w->getAddressCount(); ++i) for (size_t j = 0; j < e.a.size(); ++j) if (e.w->getAddress(i) == e.a[j]) g.insert(j); return g; };
      const std::string &id = ops[q.back()].id; State want = b; if (id == "addNew" || id == "addOld") want.held.insert(2); if (id == "create9") for (int i = 3; i < 12; ++i) want.held.insert(i); if (id == "delB") want.held.erase(1); if (id == "pw") want.pw = b.pw == PW ? "another" : PW;
      std::set<int> now; bool alive = true; try { now = addresses(); } catch (const std::exception &) { alive = false; }
      if (alive) {
        for (int h : b.held) if (want.held.count(h) && !now.count(h)) return answer("address " + S(h) + " is gone from the running wallet"); for (int h : now) if (!b.held.count(h) && !want.held.count(h)) return answer("address " + S(h) + " is there from nowhere");
        if (threw.empty() && now != want.held) return answer("the step did not do its work"); if (threw.empty()) pw = want.pw;
        if (id == "delB" || b.loose) e.loose = true;
        if (inPlace) {   // the step again, in the wallet that saw it fail
          if (threw.empty()) { p.num(1); p.put(at); p.put(""); return p.s; } e.held = now; State w = b; e.pw = b.pw;
          try { f = ops[q.back()].f(e); } catch (const std::exception &x) { bool fine = (id == "addNew" || id == "addOld" || id == "create9") && now != b.held; if (!fine) return answer(std::string("tried again in the running wallet, it fails: ") + x.what()); }
          std::set<int> g = addresses(); if (id != "create9" && g != want.held) return answer("tried again in the running wallet, the addresses are wrong"); e.held = g; e.pw = want.pw; try { e.w->save(cn::WalletSaveLevel::SAVE_ALL, e.extra); e.reload(); } catch (const std::exception &x) { return answer(std::string("tried again in the running wallet; it cannot save and open any more: ") + x.what()); }
          std::string v = checkView(e, false); return answer(v.empty() ? v : "tried again in the running wallet and opened again: " + v); }
        e.held = now; try { e.w->shutdown(); } catch (const std::exception &) {} }
      else if (threw.empty()) return answer("and the wallet is closed"); else if (inPlace) { p.num(1); p.put(at); p.put(""); return p.s; }
      e.w.reset(); e.pw = pw; try { e.open(); } catch (const std::exception &x) { return answer(std::string("the wallet file cannot be opened: ") + x.what()); }
      std::set<int> got = addresses(); if (alive && got != now) return answer("the running wallet has " + S(now.size()) + " addresses, its file " + S(got.size()));
      for (int h : b.held) if (want.held.count(h) && !got.count(h)) return answer("address " + S(h) + " is gone from the file");
      e.held = got; if (id == "delB") e.loose = true; std::string v = checkView(e, false); if (!v.empty()) return answer("opened again: " + v);
      try { f = ops[q.back()].f(e); } catch (const std::exception &x) { bool fine = (id == "addNew" || id == "addOld" || id == "create9") && got != b.held; if (!fine) return answer(std::string("tried again, it fails: ") + x.what()); }
      got = addresses(); if (id != "create9" && got != want.held) return answer("tried again, the addresses are wrong"); e.held = got; try { e.w->save(cn::WalletSaveLevel::SAVE_ALL, e.extra); e.reload(); } catch (const std::exception &x) { return answer(std::string("cannot save and open any more: ") + x.what()); }
      v = checkView(e, false); return answer(v.empty() ? v : "tried again and opened again: " + v); }, &sig);
    ++st.work; std::string r, at; if (sig) r = "the wallet process dies of signal " + S(sig) + " when operation " + S(n) + " fails"; else { Pack p(o); if (!p.num()) break; at = p.get(); r = p.get(); kinds.insert(at.substr(0, at.find(' '))); }
    if (!r.empty()) { st.bad = true; st.msg = r; return st; }
  }
  st.klass = ops[q.back()].id; for (auto &k : kinds) st.klass += " " + k; return st;
}
// the encrypted records in the file: no two different ones may share an IV under one password
struct Ivs {
  std::map<std::string, std::string> used; std::string slurp(const std::string &p) { std::ifstream i(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), {}); }
  std::string look(const std::string &path, const std::string &pw) {
    std::string f = slurp(path); const size_t REC = 8 + 72, PRE = 1 + 8 + REC; if (f.size() < PRE + 16) return "harness: short file"; uint64_t cap, n; memcpy(&cap, &f[PRE], 8); memcpy(&n, &f[PRE + 8], 8); if (n > cap || PRE + 16 + cap * REC > f.size()) return "harness: file layout";
    auto one = [&](const std::string &iv, const std::string &data, const std::string &what) -> std::string { auto &u = used[pw + '\0' + iv]; if (u.empty()) u = data + what; else if (u.compare(0, 72, data, 0, 72)) return what + " shares its initialisation vector with " + u.substr(72) + ": the two can be read by anyone who knows one of them"; return ""; };
    std::string r = one(f.substr(9, 8), f.substr(17, 72), "the view key record"); for (uint64_t i = 0; i < n && r.empty(); ++i) { size_t at = PRE + 16 + i * REC; r = one(f.substr(at, 8), f.substr(at + 8, 72), "the record of address " + S(i)); }
    size_t at = PRE + 16 + cap * REC; if (r.empty() && f.size() > at + 8 + 80) { std::string d = f.substr(at + 8); size_t k = 0; while (k < d.size() && (d[k] & 0x80)) ++k; r = one(f.substr(at, 8), d.substr(k + 1, 72), "the saved state"); }
    return r; } };
static std::map<const Exec *, Ivs> g_ivs;
static std::string lookIvs(Exec &e) { return g_ivs[&e].look(e.path, e.pw); }
static std::vector<Op> passwordOps() {
  std::vector<Op> o = pick({"mineP", "send", "wS", "wK", "pw", "reset", "addNew", "delB", "nosave", "saveX"});
  o.push_back({"wrong", "open the file with wrong passwords, then with the right one", [](Exec &e) -> std::string {
    Ivs t; e.w->shutdown(); e.w.reset(); e.lag = e.stale = false; std::string before = t.slurp(e.path);
    for (bool same : {false, true}) for (std::string bad : {std::string(), e.pw + "x", e.pw.substr(0, e.pw.size() - 1), e.pw == PW ? std::string("another") : std::string(PW)}) {
      if (!same || !e.w) e.w.reset(new cn::WalletGreen(e.disp, *e.c.cur, e.c.node, ws::log)); std::string x; bool ok = true; try { e.w->load(e.path, bad, x); } catch (const std::system_error &) { ok = false; } catch (const std::exception &y) { return std::string("a wrong password is refused with ") + y.what(); }
      if (ok) return "the wallet opens with the wrong password '" + bad + "'"; if (t.slurp(e.path) != before) return "a wrong password changes the file"; }
    std::string got; try { e.w->load(e.path, e.pw, got); } catch (const std::exception &x) { return std::string("after a wrong password the right one is refused: ") + x.what(); } if (got != e.extra && !e.anyExtra) e.wrongExtra = true; e.pump(); return ""; }});
  auto exp = [](Exec &e, bool enc, cn::WalletSaveLevel lv) -> std::string {
    std::string out = e.dir + "/wal/exported"; ::unlink(out.c_str()); Ivs t; std::string note = "exported note"; e.w->exportWallet(out, lv, enc, note); std::string r = lookIvs(e); if (!r.empty()) return r; std::string own = enc ? e.pw : std::string(); r = g_ivs[&e].look(out, own); if (!r.empty()) return r;
    e.pump(); r = e.stale ? "" : checkView(e, false); if (!r.empty()) return "after the export: " + r; e.w->shutdown(); e.w.reset(); e.lag = e.stale = false;
    std::string path = e.path, pw = e.pw, ex = e.extra; e.path = out; e.pw = own; e.extra = note; try { e.open(); } catch (const std::exception &x) { return std::string("the exported wallet cannot be opened: ") + x.what(); } if (e.wrongExtra && lv != cn::WalletSaveLevel::SAVE_KEYS_ONLY) return "the exported wallet has the wrong note"; e.wrongExtra = false;
    r = checkView(e, false); if (!r.empty()) return "the exported wallet: " + r; e.w->shutdown(); e.w.reset(); e.path = path; e.pw = pw; e.extra = ex; bool any = e.anyExtra; e.anyExtra = true; e.open(); e.anyExtra = any; return ""; };
  o.push_back({"expE", "export with the password and look at the export", [exp](Exec &e) { return exp(e, true, cn::WalletSaveLevel::SAVE_ALL); }});
  o.push_back({"expP", "export without a password and look at the export", [exp](Exec &e) { return exp(e, false, cn::WalletSaveLevel::SAVE_KEYS_AND_TRANSACTIONS); }});
  o.push_back({"expX", "export onto the wallet's own file and onto another one", [](Exec &e) -> std::string { Ivs t; std::string other = e.dir + "/wal/other"; { std::ofstream f(other); f << "somebody's file"; }
    std::string a = t.slurp(e.path); for (auto &p : {e.path, other}) { bool ok = true; try { e.w->exportWallet(p, cn::WalletSaveLevel::SAVE_ALL, true, ""); } catch (const std::exception &) { ok = false; } e.pump(); if (ok) return "an export overwrites a file"; } if (t.slurp(e.path) != a || t.slurp(other) != "somebody's file") return "a refused export changes a file"; return ""; }});
  return o;
}
static mc::Step passwordRun(mc::Session &s, const std::vector<Op> &ops, const mc::Seq &q) {
  return forked([&] {
    mc::Step st; Exec e(s.scratch()); e.open(); for (size_t i = 0; i < ops.size(); ++i) st.next.push_back(i); std::string r = lookIvs(e);
    for (size_t i = 0; i <= q.size() && r.empty(); ++i) {
      if (i) { r = ops[q[i - 1]].f(e); ++st.work; if (r == "skip") { if (i == q.size()) { st.klass = ops[q.back()].id + " n/a"; return st; } r = ""; continue; } }
      if (r.empty()) r = lookIvs(e); if (r.empty() && !e.stale) r = checkView(e, false); if (r.empty() && e.wrongExtra) r = "the note saved with the wallet is not the one that comes back"; if (!r.empty()) r = (i ? "after step " + S(i) + " (" + ops[q[i - 1]].id + "): " : "at the start: ") + r; }
    if (!r.empty()) { st.bad = true; st.msg = r; } st.klass = q.empty() ? "start" : ops[q.back()].id; return st; }, ops.size());
}
static void damage(mc::Session &s, bool T) {
  if (!s.wants("damage")) return; std::string dir = s.scratch() + "-dmg"; wipe(dir); mkdir(dir.c_str(), 0700); mkdir((dir + "/wal").c_str(), 0700);
  std::string file = child([&] { Exec e(dir); e.open(); auto ops = pick({"send", "mineP", "wS"}); for (auto &o : ops) { std::string r = o.f(e); if (!r.empty()) throw std::runtime_error(r); } e.w->shutdown(); e.w.reset(); e.c.stop(); Ivs t; return t.slurp(e.path); });
  const size_t H = 89 + 16 + 10 * 80 + 24; struct D { size_t at; int how; }; std::vector<D> ds;
  for (size_t i = 0; i < file.size(); ++i) { bool used = i < 89 + 16 + 2 * 80 || i + 24 >= H; if (i < H ? !used : i % (T ? 7 : 61)) continue; for (int how = 0; how < 3; ++how) if (i < H || how == 0 || T) ds.push_back({i, how}); if (i < H ? i % 3 == 0 : true) ds.push_back({i, 9}); }
  for (size_t at : {89, 97}) for (int how = 10; how < 16; ++how) ds.push_back({at, how});   // the two counters: large values
  auto apply = [&](const D &d) { std::string f = file; if (d.how == 0) f[d.at] ^= 1; else if (d.how == 1) f[d.at] ^= 0x80; else if (d.how == 2) f[d.at] ^= 0xff; else if (d.how == 9) f.resize(d.at); else { uint64_t v[6] = {1ull << 32, 1ull << 60, 1ull << 63, ~0ull, 0x0333333333333334ull, ~0ull / 80 + 2}; memcpy(&f[d.at], &v[d.how - 10], 8); } return f; };
  s.enumerate("damage", ds.size(), [&](uint64_t i) -> std::string {
    std::string f = apply(ds[i]); if (f == file) return ""; int sig; std::string d2 = s.scratch(); mkdir(d2.c_str(), 0700);
    std::string o = child([&]() -> std::string { Exec e(d2, dir); { std::ofstream w(e.path, std::ios::binary | std::ios::trunc); w << f; } e.anyExtra = true; struct rlimit l; getrlimit(RLIMIT_AS, &l); l.rlim_cur = 3ull << 30; setrlimit(RLIMIT_AS, &l);
      try { e.open(); } catch (const std::bad_alloc &) { return "asks for an absurd amount of memory"; } catch (const std::length_error &) { return "asks for an absurd amount of memory"; } catch (const std::exception &x) { e.w.reset(); Ivs t; if (t.slurp(e.path) != f) return "refused, yet the file was changed"; return ""; }
      std::set<int> g; for (size_t i = 0; i < e.w->getAddressCount(); ++i) { int k = -1; for (size_t j = 0; j < e.a.size(); ++j) if (e.w->getAddress(i) == e.a[j]) k = j; if (k < 0) return "opens with an address it never had"; g.insert(k); if (!(e.w->getAddressSpendKey(i).secretKey == B.spend[k])) return "opens with a wrong spend key"; }
      if (!(e.w->getViewKey().secretKey == B.view)) return "opens with a wrong view key"; if (ds[i].at != 97 && ds[i].at / 8 != 12 && g.size() != 2) return "opens with " + S(g.size()) + " of two addresses"; return ""; }, &sig);
    return sig ? "the wallet process dies of signal " + S(sig) : o; }, [&](uint64_t i) { auto &d = ds[i]; return d.how == 9 ? "the file is cut to " + S(d.at) + " bytes" : d.how >= 10 ? "the counter at " + S(d.at) + " has large value no. " + S(d.how - 10) : "byte " + S(d.at) + " is changed (" + S(d.how) + ")"; }, 8, 120);
  wipe(dir);
}
static void fileSpaces(mc::Session &s) {
  bool T = s.thorough();
  auto seqSpace = [&](const std::string &name, const std::vector<std::string> &ids, int depth, std::function<mc::Step(const std::vector<Op> &, const mc::Seq &)> f) {
    if (!s.wants(name)) return; auto ops = ids.empty() ? passwordOps() : pick(ids); mc::Space sp; sp.name = name; sp.depth = depth; sp.full = depth; sp.hang_s = 300; sp.run = [&](const mc::Seq &q) { return f(ops, q); };
    sp.show = [&](const mc::Seq &q) { std::string o; for (auto i : q) o += "  " + ops[i].name + "\n"; return o; }; s.explore(sp); };
  seqSpace("crash", {"mineP", "send", "wS", "wT", "wK", "reset", "addNew", "addOld", "create9", "delB", "pw"}, T ? 3 : 2, [&](const std::vector<Op> &o, const mc::Seq &q) { return crashRun(s, o, q, false); });
  if (T) seqSpace("power", {"send", "wS", "wK", "reset", "addNew", "create9", "delB", "pw"}, 2, [&](const std::vector<Op> &o, const mc::Seq &q) { return crashRun(s, o, q, true); });
  seqSpace("failing", {"mineP", "send", "wS", "wT", "wK", "reset", "addNew", "addOld", "create9", "delB", "pw"}, T ? 3 : 2, [&](const std::vector<Op> &o, const mc::Seq &q) { return failRun(s, o, q); });
  seqSpace("passwords", {}, T ? 4 : 3, [&](const std::vector<Op> &o, const mc::Seq &q) { return passwordRun(s, o, q); });
  damage(s, T);
}
