#include "crashfs.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <stdarg.h>
#include <string.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
namespace crashfs {
static std::string g_dir; static std::function<void(const char *, const std::string &)> g_cb; static thread_local bool g_in = false; static long g_n = 0, g_fail = -1; static int g_err = 0;
static std::function<void(const std::string &, uint64_t, uint64_t)> g_synced; // after a successful msync: path, from, to
struct Map { std::string path; char *at; size_t size; }; static std::map<char *, Map> g_maps;
static std::string fdPath(int fd) { char l[64], b[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, b, sizeof b); return n > 0 ? std::string(b, n) : ""; }
static bool under(const std::string &p) { return !g_dir.empty() && p.compare(0, g_dir.size() + 1, g_dir + "/") == 0; }
// true: go ahead; false: fail with errno set
static bool announce(const char *op, const std::string &p) {
  if (g_in || !under(p)) return true; g_in = true; bool fail = g_n == g_fail; ++g_n; if (g_cb) g_cb(op, p); g_in = false; if (fail) { errno = g_err; return false; } return true;
}
void watch(const std::string &dir, std::function<void(const char *, const std::string &)> b) { g_dir = dir; g_cb = b; g_n = 0; g_fail = -1; }
void failAt(long n, int err) { g_fail = n; g_err = err; }
long calls() { return g_n; }
static void walk(const std::string &d, const std::string &rel, Image &im) {
  DIR *x = opendir(d.c_str()); if (!x) return;
  while (dirent *e = readdir(x)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string f = d + "/" + n; struct stat st; if (lstat(f.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { walk(f, rel + n + "/", im); continue; } std::ifstream i(f, std::ios::binary); std::string s((std::istreambuf_iterator<char>(i)), {}); im[rel + n] = s; }
  closedir(x);
}
Image snapshot(const std::string &dir) { bool o = g_in; g_in = true; Image im; walk(dir, "", im); g_in = o; return im; }
void restore(const Image &im, const std::string &dir) {
  bool o = g_in; g_in = true; Image have; walk(dir, "", have); for (auto &x : have) if (!im.count(x.first)) ::remove((dir + "/" + x.first).c_str());
  for (auto &x : im) { auto h = have.find(x.first); if (h != have.end() && h->second == x.second) continue; for (size_t i = x.first.find('/'); i != std::string::npos; i = x.first.find('/', i + 1)) mkdir((dir + "/" + x.first.substr(0, i)).c_str(), 0700); std::string p = dir + "/" + x.first; ::remove(p.c_str()); std::ofstream f(p, std::ios::binary | std::ios::trunc); f << x.second; }
  g_in = o;
}
std::vector<Point> explore(const std::string &dir, bool power, const std::function<void()> &f) {
  std::vector<Point> r; std::set<std::string> seen; std::map<ino_t, std::string> durable; const size_t PG = 4096;
  auto add = [&](const std::string &op, const Image &im) { std::string key; for (auto &x : im) key += x.first + '\0' + std::to_string(x.second.size()) + '\0' + x.second; if (seen.insert(key).second) r.push_back({op, im}); };
  Image prev; bool first = true;
  auto images = [&](const std::string &op) {
    Image now = snapshot(dir);
    // a run of bytes stored into a mapped file since the last call: a kill can fall in the middle
    if (!first) for (auto &x : now) { auto o = prev.find(x.first); if (o == prev.end() || o->second.size() != x.second.size() || o->second == x.second) continue; std::vector<size_t> d; for (size_t i = 0; i < x.second.size(); ++i) if (o->second[i] != x.second[i]) d.push_back(i);
      bool one = true; for (size_t i = 1; i < d.size(); ++i) if (d[i] - d[i - 1] > 32) one = false; if (!one) continue; // several stores: in which order is not known
      std::set<size_t> cuts; for (int k = 0; k < 8; ++k) cuts.insert(d.size() * k / 8); cuts.insert(1); cuts.insert(d.size() - 1); cuts.erase(0); cuts.erase(d.size()); for (size_t c : cuts) { Image t = now; for (size_t i = c; i < d.size(); ++i) t[x.first][d[i]] = o->second[d[i]]; add("in the middle of a write to " + x.first, t); } }
    prev = now; first = false; add(op, now); if (!power) return;
    struct P { std::string f; size_t pg; }; std::vector<P> dirty; Image base = now;
    for (auto &x : now) { struct stat st; if (stat((dir + "/" + x.first).c_str(), &st)) continue; auto d = durable.find(st.st_ino); std::string old = d == durable.end() ? std::string() : d->second; old.resize(x.second.size(), '\0'); for (size_t p = 0; p * PG < x.second.size(); ++p) if (x.second.compare(p * PG, PG, old, p * PG, PG)) { dirty.push_back({x.first, p}); base[x.first].replace(p * PG, PG, old, p * PG, PG); } }
    size_t n = dirty.size(); auto build = [&](const std::vector<bool> &on) { Image im = base; for (size_t i = 0; i < n; ++i) if (on[i]) im[dirty[i].f].replace(dirty[i].pg * PG, PG, now[dirty[i].f], dirty[i].pg * PG, PG); add(op + " (power cut)", im); };
    if (n <= 5) for (size_t m = 0; m < (1u << n); ++m) { std::vector<bool> v(n); for (size_t i = 0; i < n; ++i) v[i] = m >> i & 1; build(v); }
    else for (size_t k = 0; k <= n; ++k) { std::vector<bool> a(n), b(n), c(n); for (size_t i = 0; i < n; ++i) { a[i] = i < k; b[i] = i >= k; c[i] = i == k; } build(a); build(b); build(c); auto d = c; d.flip(); build(d); }
  };
  { bool o = g_in; g_in = true; Image im; walk(dir, "", im); for (auto &x : im) { struct stat st; if (!stat((dir + "/" + x.first).c_str(), &st)) durable[st.st_ino] = x.second; } g_in = o; }
  g_synced = [&](const std::string &p, uint64_t from, uint64_t to) { bool o = g_in; g_in = true; struct stat st; if (!stat(p.c_str(), &st)) { std::ifstream i(p, std::ios::binary); std::string s((std::istreambuf_iterator<char>(i)), {}); std::string &d = durable[st.st_ino]; d.resize(s.size(), '\0'); from = from / PG * PG; to = std::min<uint64_t>((to + PG - 1) / PG * PG, s.size()); if (from < to) d.replace(from, to - from, s, from, to - from); } g_in = o; };
  watch(dir, [&](const char *op, const std::string &p) { images(std::string(op) + " " + p.substr(dir.size() + 1)); });
  try { f(); } catch (...) { watch("", nullptr); g_synced = nullptr; throw; }
  g_in = true; images("end"); g_in = false; watch("", nullptr); g_synced = nullptr; return r;
}
}
using namespace crashfs;
template <class F> static F real(const char *n) { void *p = dlsym(RTLD_NEXT, n); F f; memcpy(&f, &p, sizeof f); return f; }
#define REAL(name) static auto r = real<decltype(&::name)>(#name)
static bool changes(int fl) { return (fl & (O_CREAT | O_TRUNC)) != 0; }
extern "C" {
int open(const char *p, int fl, ...) { REAL(open); mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } if (changes(fl) && !announce("open", p)) return -1; return r(p, fl, m); }
int open64(const char *p, int fl, ...) { REAL(open64); mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } if (changes(fl) && !announce("open", p)) return -1; return r(p, fl, m); }
FILE *fopen(const char *p, const char *m) { REAL(fopen); if (*m != 'r' && !announce("fopen", p)) return nullptr; return r(p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64); if (*m != 'r' && !announce("fopen", p)) return nullptr; return r(p, m); }
ssize_t write(int fd, const void *b, size_t n) { REAL(write); if (!g_dir.empty() && !g_in && !announce("write", fdPath(fd))) return -1; return r(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(writev); if (!g_dir.empty() && !g_in && !announce("write", fdPath(fd))) return -1; return r(fd, v, n); }
int ftruncate(int fd, off_t n) noexcept { REAL(ftruncate); if (!g_dir.empty() && !announce("ftruncate", fdPath(fd))) return -1; return r(fd, n); }
int rename(const char *a, const char *b) noexcept { REAL(rename); if (!announce("rename", a)) return -1; return r(a, b); }
int unlink(const char *p) noexcept { REAL(unlink); struct stat st; if (!g_dir.empty() && !lstat(p, &st) && !announce("unlink", p)) return -1; return r(p); }
int remove(const char *p) noexcept { REAL(remove); struct stat st; if (!g_dir.empty() && !lstat(p, &st) && !announce("unlink", p)) return -1; bool o = g_in; g_in = true; int x = r(p); g_in = o; return x; }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) noexcept { REAL(mmap); void *x = r(a, n, pr, fl, fd, o); if (!g_dir.empty() && !g_in && fd >= 0 && x != MAP_FAILED) { std::string p = fdPath(fd); if (under(p)) g_maps[(char *)x] = {p, (char *)x, n}; } return x; }
int msync(void *a, size_t n, int fl) {
  REAL(msync); if (g_dir.empty() || g_in) return r(a, n, fl);
  std::string p; uint64_t from = 0; { FILE *f; bool o = g_in; g_in = true; f = fopen("/proc/self/maps", "r"); char l[4608]; while (f && fgets(l, sizeof l, f)) { unsigned long b, e, off; int at = 0; if (sscanf(l, "%lx-%lx %*s %lx %*s %*s %n", &b, &e, &off, &at) >= 3 && (char *)a >= (char *)b && (char *)a < (char *)e) { p = l + at; if (!p.empty() && p.back() == '\n') p.pop_back(); from = off + ((char *)a - (char *)b); } } if (f) fclose(f); g_in = o; }
  if (!announce("msync", p)) return -1; int x = r(a, n, fl); if (!x && g_synced && under(p)) g_synced(p, from, from + n); return x;
}
int munmap(void *a, size_t n) noexcept { REAL(munmap); return r(a, n); }
}
