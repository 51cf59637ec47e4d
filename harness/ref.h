// Reference semantics, transcribed once and independently of the code under
// test: block versions, difficulty, proof of work, rewards, deposit interest.
// Nothing here calls into the node.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <vector>
namespace ref {
typedef unsigned __int128 u128;
typedef std::vector<uint64_t> V;

struct Params {
  bool testnet = true;
  uint64_t v2 = 1, v3 = 2, v6 = 3, v7 = 4, v8 = 5;
  uint64_t window = 720, lag = 15, cut = 60, target = 120;   // legacy difficulty window
  uint64_t unlockWindow = 2, tsWindow = 60, futureLimit = 7200;
  uint64_t supply = 200000000000000ull, rewardWindow = 100, fullZone = 100000;
  uint64_t maxInitial = 1000000, growN = 100 * 1024, growD = 365 * 24 * 60 * 60 / 120;
  uint64_t depMinAmount = 1000000; uint32_t depMinTerm = 5040, depMaxTerm = 262800, depMaxTermV1 = 1296000, minV3 = 21900, maxV3 = 262800, hV3 = 413400, hV4 = 1162162, missing = 0;
  uint64_t minRateFactor = 0, maxRate = 4; uint64_t deltaBlocks = 1, deltaSeconds = 120; uint64_t maxBlockNumber = 500000000;
  uint64_t coin = 1000000;
  uint64_t live = 43200, liveAlt = 43200, forget = 7, maxTxSize = 1000000000;
};

inline int version(const Params &p, uint64_t h) {
  if (h > p.v8) return 8; if (h > p.v7) return 7; if (h > p.v6) return 4; if (h > p.v3) return 3; if (h > p.v2) return 2; return 1;
}
inline uint64_t median(V v) {
  if (v.empty()) return 0; std::sort(v.begin(), v.end()); size_t n = v.size();
  return n & 1 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2;
}

// --- difficulty -------------------------------------------------------------
inline uint64_t classic(const Params &p, int ver, uint64_t index, V ts, V cum, bool zawy2 = true, int zawyVer = 2) {
  if (index >= 12750 && index < 13500) return 2160;
  uint64_t window = ver >= 4 ? 60 : ver >= 2 ? p.window : 720, cut = ver >= 2 ? p.cut : 60;
  if (ts.size() > window) { ts.resize(window); cum.resize(window); }
  size_t n = ts.size();
  if (n <= 1) return 1;
  std::sort(ts.begin(), ts.end());
  size_t keep = window - 2 * cut, b = 0, e = n;
  if (n > keep) { b = (n - keep + 1) / 2; e = b + keep; }
  uint64_t span = ts[e - 1] - ts[b]; if (!span) span = 1;
  u128 num = (u128)(cum[e - 1] - cum[b]) * p.target;
  if (num >> 64) return 0;
  uint64_t low = (uint64_t)num;
  if (UINT64_MAX - low < span - 1) return 0;
  int z = zawy2 ? 2 : zawyVer;
  if (z && ver >= z) return low / span;
  return (low + span - 1) / span;
}
inline uint64_t lwma3(V ts, V cum) {
  const uint64_t T = 120; uint64_t N = 60;
  if (ts.size() <= 10) return 100;
  if (ts.size() < 61) N = ts.size() - 1;
  uint64_t prev = ts[0], L = 0, last3 = 0;
  for (uint64_t i = 1; i <= N; ++i) {
    uint64_t t = std::max(ts[i], prev + 1), st = std::min<uint64_t>(720, t - prev);
    prev = t; L += i * st; if (i + 3 > N) last3 += st;
  }
  uint64_t d = (cum[N] - cum[0]) * T * (N + 1) * 99 / (200 * L), pd = cum[N] - cum[N - 1];
  uint64_t r = std::max(pd * 67 / 100, std::min(d, pd * 150 / 100));
  if (last3 < 96) r = std::max(r, pd * 108 / 100);
  return r;
}
inline uint64_t lwma1(const Params &p, const V &ts, const V &cum, uint64_t height) {
  const uint64_t T = 120, N = 60;
  if (height >= p.v8 && height < p.v8 + N) return p.testnet ? 10 : 7200000;
  uint64_t L = 0, prev = ts[0] - T;
  for (uint64_t i = 1; i <= N; ++i) { uint64_t t = ts[i] > prev ? ts[i] : prev + 1; L += i * std::min<uint64_t>(720, t - prev); prev = t; }
  L = std::max<uint64_t>(L, N * N * T / 20);
  uint64_t avg = (cum[N] - cum[0]) / N, d;
  if (avg > 2000000ull * N * N * T) d = avg / (200 * L) * (N * (N + 1) * T * 99); else d = avg * N * (N + 1) * T * 99 / (200 * L);
  for (uint64_t i = 1000000000; i > 1; i /= 10) if (d > i * 100) { d = (d + i / 2) / i * i; break; }
  return d;
}
// ts/cum: the whole ancestry starting with the genesis block; size of it = height of the block to be found
inline uint64_t nextDifficulty(const Params &p, const V &ts, const V &cum) {
  uint64_t size = ts.size(); uint64_t count = version(p, size) >= 4 ? 61 : p.window + p.lag;
  uint64_t off = size - std::min(size, count); if (off == 0) off = 1;
  V t, c; for (uint64_t i = off; i < size; ++i) { t.push_back(ts[i]); c.push_back(cum[i]); }
  int v = version(p, size + 1);
  if (v >= 8) return lwma1(p, t, c, size);
  if (v >= 4) return lwma3(t, c);
  return classic(p, v, size, t, c);
}
inline bool checkHash(const unsigned char *h, uint64_t d) {   // little-endian h times d fits in 256 bits
  u128 carry = 0;
  for (int i = 0; i < 4; ++i) { uint64_t w = 0; for (int k = 7; k >= 0; --k) w = w << 8 | h[8 * i + k]; u128 m = (u128)w * d + carry; carry = m >> 64; }
  return carry == 0;
}

// --- money --------------------------------------------------------------
inline uint64_t baseReward(const Params &p, uint64_t gen, uint64_t h) {
  if (h == 1) return 12000000ull * 1000000;
  uint64_t r;
  if (h > p.v8) r = 6000000; else r = std::min<uint64_t>(5000000 + 250000 * (h / 21900), 15000000);
  return std::min(r, p.supply - gen);
}
inline uint64_t penalize(uint64_t a, uint64_t med, uint64_t size) {
  if (!a || size <= med) return a;
  u128 n = (u128)a * (size * (2 * med - size));
  return (uint64_t)(n / med / med);
}
// false: block bigger than twice the median
inline bool reward(const Params &p, uint64_t med, uint64_t size, uint64_t gen, uint64_t fee, uint64_t h, uint64_t &r, int64_t &em) {
  med = std::max(med, p.fullZone);
  if (size > 2 * med) return false;
  uint64_t b = penalize(baseReward(p, gen, h), med, size), f = penalize(fee, med, size);
  em = (int64_t)(b - (fee - f)); r = b + f; return true;
}
inline uint64_t interestV2(uint64_t amount, uint32_t term) {
  if (term % 64800 == 0) {
    uint64_t a = amount / 1000000; float q = 1;
    static const struct { uint64_t lo, hi; double q; } tiers[] = {{110001, 180000, 1.01}, {180000, 260000, 1.02}, {260000, 350000, 1.03}, {350000, 450000, 1.04}, {450000, 560000, 1.05}, {560000, 680000, 1.06}, {680000, 810000, 1.07}, {810000, 950000, 1.08}, {950000, 1100000, 1.09}, {1100000, 1260000, 1.10}, {1260000, 1430000, 1.11}, {1430000, 1610000, 1.12}, {1610000, 1800000, 1.13}, {1800000, 2000000, 1.14}, {2000001, UINT64_MAX, 1.15}};
    for (auto &t : tiers) if (a >= t.lo && a < t.hi) q = (float)t.q;
    float mq = (float)1.4473, quarters = (float)(term / 64800);
    float m8 = (float)(100.0 * std::pow(1.0 + (mq / 100.0), quarters) - 100.0), m5 = quarters * 0.5f, m7 = m8 * (1 + (m5 / 100)), rate = m7 * q;
    return (uint64_t)((float)amount * (rate / 100));
  }
  float w = (float)(term / 5040), rate = (float)0.0696 + w * (float)0.0002;
  return (uint64_t)((float)amount * ((w * rate) / 100));
}
inline uint64_t interestV3(const Params &p, uint64_t amount, uint32_t term) {
  uint64_t a = amount / p.coin; float base = a >= 20000 ? (float)0.049 : a >= 10000 ? (float)0.039 : (float)0.029;
  float m = std::min<float>((float)(term / p.minV3), 12);
  float ear = base + (m - 1) * 0.001f, eir = (ear / 12) * m;
  return (uint64_t)((float)amount * eir);
}
inline uint64_t interest(const Params &p, uint64_t amount, uint32_t term, uint32_t lock) {
  term = std::min(term, p.depMaxTermV1);
  if (term % p.minV3 == 0 && lock > p.hV3) return interestV3(p, amount, term);
  if (term % 64800 == 0 || term % 5040 == 0) return interestV2(amount, term);
  uint64_t tr = (uint64_t)term * p.maxRate; if (tr < p.minRateFactor) return 0;
  u128 x = (u128)amount * (tr - p.minRateFactor) / (100ull * p.depMaxTerm);
  uint64_t c = (uint64_t)x;
  if (lock <= 12750) { u128 y = (u128)c * 100; return y >> 64 ? UINT64_MAX : (uint64_t)y; }
  return c;
}
inline uint64_t inputInterest(const Params &p, uint64_t amount, uint32_t term, uint32_t height) {
  if (term == 0 || term > p.depMaxTermV1) return 0;
  uint32_t lock = height - term; if (p.missing && height == p.missing) lock = height;
  return interest(p, amount, term, lock);
}
inline bool outTermOk(const Params &p, uint64_t amount, uint32_t term, uint32_t height) {
  if (!term) return true;
  if (height > p.hV4) { if (term < p.minV3 || term > p.maxV3 || term % p.minV3) return false; }
  else if (term < p.depMinTerm || term > p.depMaxTermV1) return false;
  return amount >= p.depMinAmount;
}
}
