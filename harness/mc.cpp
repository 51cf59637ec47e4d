#include "mc.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <unistd.h>
#include <time.h>
namespace mc {
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

std::string hash128(const std::string &s) {
  uint64_t a = 0xcbf29ce484222325ull, b = 0x9e3779b97f4a7c15ull;
  for (unsigned char c : s) { a = (a ^ c) * 0x100000001b3ull; b = (b + c) * 0xff51afd7ed558ccdull; b ^= b >> 29; }
  a ^= a >> 31; a *= 0xc4ceb9fe1a85ec53ull; a ^= a >> 33; a ^= s.size();
  std::string r((char *)&a, 8); r.append((char *)&b, 8); return r;
}

struct Shared {
  std::atomic<uint64_t> next; std::atomic<int> stop;
  struct Slot { std::atomic<uint64_t> idx; std::atomic<uint64_t> started_ms; } slot[64];
};

static std::string esc(const std::string &s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o;
}

struct Rec { uint64_t idx; bool bad; std::string msg, key, klass; std::vector<uint16_t> next; uint64_t work; };

static void wr(std::string &o, const void *p, size_t n) { o.append((const char *)p, n); }
static void wrs(std::string &o, const std::string &s) { uint32_t n = s.size(); wr(o, &n, 4); o += s; }
static std::string enc(uint64_t idx, const Step &s) {
  std::string o; wr(o, &idx, 8); uint8_t b = s.bad; wr(o, &b, 1); wrs(o, s.msg); wrs(o, s.key.size() > 16 ? hash128(s.key) : s.key); wrs(o, s.klass);
  uint32_t n = s.next.size(); wr(o, &n, 4); if (n) wr(o, s.next.data(), 2 * n); wr(o, &s.work, 8);
  uint32_t len = o.size(); std::string h((char *)&len, 4); return h + o;
}
static Rec dec(const char *p) {
  Rec r; memcpy(&r.idx, p, 8); p += 8; r.bad = *p++; auto rs = [&](std::string &s) { uint32_t n; memcpy(&n, p, 4); p += 4; s.assign(p, n); p += n; };
  rs(r.msg); rs(r.key); rs(r.klass); uint32_t n; memcpy(&n, p, 4); p += 4; r.next.resize(n); if (n) memcpy(r.next.data(), p, 2 * n); p += 2 * n; memcpy(&r.work, p, 8); return r;
}
static void writeAll(int fd, const std::string &s) { size_t o = 0; while (o < s.size()) { ssize_t k = ::write(fd, s.data() + o, s.size() - o); if (k <= 0) { if (errno == EINTR) continue; _exit(97); } o += k; } }

static int rmcb(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
static std::string g_scratch; static pid_t g_scratch_pid = 0; static std::string g_base;
static void dropScratch() { if (g_scratch_pid == getpid() && g_scratch.size() > 8) nftw(g_scratch.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS); }
static void cleanScratch() { if (!g_base.empty()) { nftw(g_base.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS); } }
std::string Session::scratch() {
  if (g_base.empty()) { char t[] = "/dev/shm/mcXXXXXX"; char t2[] = "/tmp/mcXXXXXX"; char *d = mkdtemp(t); if (!d) d = mkdtemp(t2); if (!d) { perror("scratch"); exit(2); } g_base = d; }
  if (g_scratch_pid != getpid()) { g_scratch_pid = getpid(); g_scratch = g_base + "/w" + std::to_string(getpid()); mkdir(g_scratch.c_str(), 0700); }
  return g_scratch;
}

struct Impl {
  // runs f(idx) for idx in [0,n) in forked workers; delivers records to sink.
  // crash/hang of a worker at idx is delivered as a bad record "crash:"/"hang:".
  static void pool(uint64_t n, int workers, double hang_s, std::function<Step(uint64_t)> f, std::function<void(Rec &)> sink, std::function<bool()> enough, double deadline, bool &capped, bool slice = false) {
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared(); sh->next = 0; sh->stop = 0;
    int W = (int)std::min<uint64_t>(workers, std::max<uint64_t>(1, n));
    struct Child { pid_t pid; int fd; std::string buf; bool alive; bool flagged; };
    std::vector<Child> ch(W);
    fflush(stdout); fflush(stderr);
    auto spawn = [&](int w) {
      int p[2]; if (pipe(p)) { perror("pipe"); exit(2); }
      sh->slot[w].idx = UINT64_MAX; sh->slot[w].started_ms = 0;
      pid_t pid = fork();
      if (pid == 0) {
        close(p[0]); for (auto &c : ch) if (c.alive) close(c.fd);
        if (!getenv("MC_VERBOSE")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); }
        std::string out;
        while (!sh->stop) {
          uint64_t i = sh->next++; if (i >= n) break;
          sh->slot[w].started_ms = (uint64_t)(now_s() * 1000); sh->slot[w].idx = i;
          Step s; try { s = f(i); } catch (const std::exception &e) { s = Step::fail(std::string("unexpected exception: ") + e.what()); } catch (...) { s = Step::fail("unexpected exception"); }
          sh->slot[w].idx = UINT64_MAX;
          out += enc(i, s);
          if (out.size() > 8192 || s.bad) { writeAll(p[1], out); out.clear(); }
        }
        writeAll(p[1], out); dropScratch(); _exit(0);
      }
      close(p[1]); ch[w] = {pid, p[0], "", true, false};
    };
    for (auto &c : ch) c.alive = false;
    for (int w = 0; w < W; ++w) spawn(w);
    int live = W;
    while (live) {
      std::vector<struct pollfd> pf; std::vector<int> who;
      for (int w = 0; w < W; ++w) if (ch[w].alive) { pf.push_back({ch[w].fd, POLLIN, 0}); who.push_back(w); }
      ::poll(pf.data(), pf.size(), 500);
      for (size_t k = 0; k < pf.size(); ++k) {
        int w = who[k]; Child &c = ch[w];
        if (pf[k].revents) {
          char b[65536]; ssize_t r = ::read(c.fd, b, sizeof b);
          if (r > 0) {
            c.buf.append(b, r); size_t o = 0;
            while (c.buf.size() - o >= 4) { uint32_t len; memcpy(&len, c.buf.data() + o, 4); if (c.buf.size() - o < 4 + len) break; Rec rec = dec(c.buf.data() + o + 4); o += 4 + len; sink(rec); }
            c.buf.erase(0, o);
          } else if (r == 0) {
            int st = 0; waitpid(c.pid, &st, 0); close(c.fd); c.alive = false; --live;
            uint64_t i = sh->slot[w].idx;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && i != UINT64_MAX && !(sh->stop && !c.flagged)) {
              Rec rec; rec.idx = i; rec.bad = true; rec.work = 1;
              rec.msg = c.flagged ? "hang: the execution did not finish" : WIFSIGNALED(st) ? std::string("crash: killed by signal ") + std::to_string(WTERMSIG(st)) : std::string("crash: process exited with status ") + std::to_string(WEXITSTATUS(st));
              sink(rec);
              if (!enough() && !sh->stop) { spawn(w); ++live; }
            }
          }
        }
      }
      uint64_t ms = (uint64_t)(now_s() * 1000);
      for (int w = 0; w < W; ++w) if (ch[w].alive) { uint64_t i = sh->slot[w].idx, s = sh->slot[w].started_ms; if (i != UINT64_MAX && s && ms > s && ms - s > hang_s * 1000) { ch[w].flagged = true; kill(ch[w].pid, SIGKILL); } }
      if (enough()) sh->stop = 1;
      if (now_s() > deadline && !sh->stop) { sh->stop = 1; capped = true; }
    }
    munmap(sh, sizeof(Shared));
  }
  static Rec one(std::function<Step(uint64_t)> f, double hang_s) {
    Rec out; out.idx = UINT64_MAX; out.bad = false; bool cap = false;
    pool(1, 1, hang_s, f, [&](Rec &r) { out = r; }, [] { return false; }, now_s() + 1e9, cap); return out;
  }
};

Session::Session(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0); t0 = now_s(); workers = 8; tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
  double b = 0;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--property") prop = v; else if (k == "--tier") tier = v; else if (k == "--evidence") evidence = v; else if (k == "--replay-out") replayOut = v;
    else if (k == "--known") known = v; else if (k == "--only") only = v; else if (k == "--replay") replayFile = v; else if (k == "--workers") workers = atoi(v.c_str()); else if (k == "--budget") b = atof(v.c_str());
    else { fprintf(stderr, "unknown option %s\n", k.c_str()); exit(2); }
  }
  budget_s = b ? b : thorough() ? 840 : 240;
  if (!replayFile.empty()) {
    std::ifstream f(replayFile); std::string l; replaying = true;
    while (std::getline(f, l)) { if (l.compare(0, 6, "space=") == 0) replaySpace = l.substr(6); if (l.compare(0, 4, "seq=") == 0) { std::istringstream s(l.substr(4)); int x; while (s >> x) replaySeq.push_back(x); } if (l.compare(0, 4, "idx=") == 0) replayIdx = strtoull(l.c_str() + 4, 0, 10); }
  }
  signal(SIGPIPE, SIG_IGN); scratch();
}
bool Session::wants(const std::string &s) const {
  if (violated) return false;
  if (replaying) return s == replaySpace;
  if (!only.empty()) return s.find(only) != std::string::npos;
  return true;
}
std::string Session::knownAs(const std::string &space, const std::string &seqText, const std::string &msg) const {
  // a listed finding is identified by property, space, history and message part:
  // known: property=<id> space=<space> seq=<numbers|*> match=<text> :: description
  if (known.empty()) return "";
  static std::vector<std::string> lines; static bool loaded = false;
  if (!loaded) { loaded = true; std::ifstream f(known); std::string l; while (std::getline(f, l)) lines.push_back(l); }
  for (auto &l : lines) {
    std::string want = "known: property=" + prop + " space=" + space + " ";
    if (l.compare(0, want.size(), want)) continue;
    size_t a = l.find(" match="), d = l.find(" :: "), q = l.find(" seq="); if (a == std::string::npos || d == std::string::npos || q == std::string::npos) continue;
    std::string m = l.substr(a + 7, d - a - 7), sq = l.substr(q + 5, a - q - 5), st = seqText.substr(seqText.find('=') + 1);
    if ((sq == "*" || sq == st) && msg.find(m) != std::string::npos) return l.substr(d + 4);
  }
  return "";
}
bool Session::report(const std::string &space, const std::string &shown, const std::string &seqText, const std::string &msg) {
  std::string kf = knownAs(space, seqText, msg);
  if (!kf.empty()) { std::string line = "KNOWN-FINDING: property=" + prop + " " + kf; if (knownHit.insert(line).second) printf("%s\n", line.c_str()); return false; }
  violated = true;
  if (!replaying) { FILE *f = fopen(replayOut.c_str(), "w"); if (f) { fprintf(f, "property=%s\nspace=%s\n%s\nhistory:\n%s\nobserved: %s\n", prop.c_str(), space.c_str(), seqText.c_str(), shown.c_str(), msg.c_str()); fclose(f); } }
  printf("--- %s: %s\nhistory:\n%s\nobserved: %s\n", prop.c_str(), space.c_str(), shown.c_str(), msg.c_str());
  printf("VIOLATION property=%s replay=%s\n", prop.c_str(), (replaying ? replayFile : replayOut).c_str());
  return true;
}
static std::string seqText(const Seq &s) { std::string o = "seq="; for (size_t i = 0; i < s.size(); ++i) { if (i) o += ' '; o += std::to_string(s[i]); } return o; }

bool Session::explore(const Space &sp) {
  if (!wants(sp.name)) return !violated;
  double start = now_s();
  if (replaying) { Rec r = Impl::one([&](uint64_t) { return sp.run(replaySeq); }, sp.hang_s * 3); if (r.bad) report(sp.name, sp.show(replaySeq), seqText(replaySeq), r.msg); else printf("replay: no violation\n"); return !violated; }
  std::vector<Seq> frontier(1); std::unordered_set<std::string> seen; uint64_t exec = 0, st = 0, tr = 0; int done = -1; bool spCapped = false; std::map<std::string, uint64_t> cls;
  std::string sample;
  for (int d = 0; d <= sp.depth && !frontier.empty() && !violated; ++d) {
    std::vector<std::pair<uint64_t, std::string>> bads; std::vector<Seq> nextF; std::vector<Rec> recs; bool cap = false; size_t fresh_bad = 0;
    // collect, then merge in index order so that exploration is deterministic
    Impl::pool(frontier.size(), workers, sp.hang_s, [&](uint64_t i) { return sp.run(frontier[i]); }, [&](Rec &r) { ++exec; recs.push_back(std::move(r)); if (recs.back().bad) { bads.push_back({recs.back().idx, recs.back().msg}); if (knownAs(sp.name, seqText(frontier[recs.back().idx]), recs.back().msg).empty()) ++fresh_bad; } },
               [&] { return fresh_bad >= 16; }, t0 + budget_s, cap);
    std::sort(bads.begin(), bads.end());
    for (auto &b : bads) {
      if (violated) break;
      const Seq &q = frontier[b.first];
      Rec r = Impl::one([&](uint64_t) { return sp.run(q); }, sp.hang_s * 3);   // replay before report
      if (!r.bad) { ++unreproduced; printf("note: not reproduced: %s %s: %s\n", sp.name.c_str(), seqText(q).c_str(), b.second.c_str()); continue; }
      report(sp.name, sp.show(q), seqText(q), r.msg);
    }
    if (violated) break;
    std::sort(recs.begin(), recs.end(), [](const Rec &a, const Rec &b) { return a.idx < b.idx; });
    for (auto &r : recs) {
      if (d > 0) ++tr; comparisons += r.work; if (r.bad) continue; cls[r.klass]++;
      bool fresh = seen.insert(r.key).second; if (fresh) ++st;
      if ((fresh || (int)frontier[r.idx].size() <= sp.full) && d < sp.depth) for (auto o : r.next) { Seq q = frontier[r.idx]; q.push_back(o); nextF.push_back(std::move(q)); }
      if (fresh && d >= 1) { if (sample.empty() || (int)frontier[r.idx].size() == d) sample = sp.show(frontier[r.idx]); }
    }
    if (cap) { spCapped = capped = true; break; }
    done = d; frontier.swap(nextF);
  }
  states += st; transitions += tr; traces += exec; for (auto &c : cls) classes[sp.name + ":" + c.first] += c.second;
  if (samples.size() < 12 && !sample.empty()) samples.push_back(sp.name + ": " + sample);
  char b[512]; snprintf(b, sizeof b, "%s: depth %d%s, %lu executions, %lu states, %lu transitions, %zu outcome classes, %.1fs", sp.name.c_str(), done, spCapped ? " (time cap hit; the next level was cut short)" : !violated && done < sp.depth ? " (closed: no unexplored operation left)" : "", exec, st, tr, cls.size(), now_s() - start);
  spaceLines.push_back(b); printf("%s\n", b);
  return !violated;
}

bool Session::enumerate(const std::string &name, uint64_t n, std::function<std::string(uint64_t)> f, std::function<std::string(uint64_t)> show, uint64_t chunk, double hang_s) {
  if (!wants(name)) return !violated;
  double start = now_s();
  auto text = [](uint64_t i) { return "idx=" + std::to_string(i); };
  auto solo = [&](uint64_t i) { return Impl::one([&](uint64_t) { std::string m = f(i); return m.empty() ? Step() : Step::fail(m); }, hang_s * 3); };
  if (replaying) { Rec r = solo(replayIdx); if (r.bad) report(name, show(replayIdx), text(replayIdx), r.msg); else printf("replay: no violation\n"); return !violated; }
  std::vector<std::pair<uint64_t, std::string>> bads; bool cap = false; uint64_t done = 0, chunks = (n + chunk - 1) / chunk;
  // a record's klass carries listed findings met inside the chunk ("i|msg\n")
  std::vector<std::pair<uint64_t, std::string>> knownBads;
  Impl::pool(chunks, workers, hang_s, [&](uint64_t c) { Step s; s.work = 0; for (uint64_t i = c * chunk; i < std::min(n, (c + 1) * chunk); ++i) { std::string m = f(i); ++s.work; if (!m.empty()) { if (!knownAs(name, text(i), m).empty()) { s.klass += std::to_string(i) + "|" + m + "\n"; continue; } s.bad = true; s.msg = std::to_string(i) + "|" + m; break; } } return s; },
             [&](Rec &r) { done += r.work; if (r.bad) bads.push_back({r.idx, r.msg}); if (!r.klass.empty()) { std::istringstream is(r.klass); std::string l; while (std::getline(is, l)) { size_t k = l.find('|'); if (k != std::string::npos && isdigit(l[0])) knownBads.push_back({strtoull(l.c_str(), 0, 10), l.substr(k + 1)}); } } }, [&] { return bads.size() >= 4; }, t0 + budget_s, cap);
  for (auto &k : knownBads) report(name, show(k.first), text(k.first), k.second);
  std::sort(bads.begin(), bads.end());
  for (auto &b : bads) {
    if (violated) break;
    uint64_t i = b.first * chunk; bool found = false; std::string msg;
    if (isdigit(b.second[0])) i = strtoull(b.second.c_str(), 0, 10);
    uint64_t end = isdigit(b.second[0]) ? i + 1 : std::min(n, i + chunk);
    for (; i < end; ++i) { Rec r = solo(i); if (r.bad) { found = true; msg = r.msg; break; } }
    if (!found) { ++unreproduced; printf("note: not reproduced: %s %s\n", name.c_str(), b.second.c_str()); continue; }
    report(name, show(i), text(i), msg);
  }
  if (cap) capped = true;
  states += done; transitions += done; traces += done; comparisons += done; enumerated += done;
  if (samples.size() < 12 && n) samples.push_back(name + ": " + show(n / 2));
  char b[400]; snprintf(b, sizeof b, "%s: %lu of %lu points of the finite domain evaluated%s, %.1fs", name.c_str(), done, n, cap ? " (time cap hit)" : "", now_s() - start);
  spaceLines.push_back(b); printf("%s\n", b);
  return !violated;
}

int Session::finish() {
  cleanScratch();
  if (replaying) return violated ? 1 : 0;
  printf("%s: states=%lu transitions=%lu executions=%lu outcome-classes=%zu wall=%.1fs%s\n", prop.c_str(), states, transitions, traces, classes.size(), now_s() - t0, capped ? " CAPPED" : "");
  if (!evidence.empty()) {
    FILE *f = fopen(evidence.c_str(), "w");
    if (!f) { perror("evidence"); return 2; }
    fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%d,\"level\":\"model_checking\",\"coverage\":{\"states\":%lu,\"transitions\":%lu,\"traces_validated_against_impl\":%lu,\"comparisons\":%lu,\"unreproduced\":%lu,\"exhaustive\":%s,", prop.c_str(), tier.c_str(), getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1, states, transitions, traces, comparisons, unreproduced, capped || violated ? "false" : "true");
    fprintf(f, "\"spaces\":["); for (size_t i = 0; i < spaceLines.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(spaceLines[i]).c_str());
    fprintf(f, "],\"outcome_classes\":{"); size_t k = 0; for (auto &c : classes) { if (k > 80) break; fprintf(f, "%s\"%s\":%lu", k++ ? "," : "", esc(c.first).c_str(), c.second); }
    fprintf(f, "},\"samples\":["); for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i].substr(0, 1200)).c_str());
    fprintf(f, "]"); for (auto &n : notes) fprintf(f, ",\"%s\":\"%s\"", esc(n.first).c_str(), esc(n.second).c_str());
    fprintf(f, "},\"assumptions\":["); for (size_t i = 0; i < assumptions.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(assumptions[i]).c_str());
    fprintf(f, "],\"wall_s\":%.2f,\"violations\":%d}\n", now_s() - t0, violated ? 1 : 0);
    fclose(f);
  }
  return violated ? 1 : 0;
}
}
