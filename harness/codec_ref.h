// Independent references for the byte formats: a second encoder for blocks and
// transactions, Keccak, Merkle tree, ChaCha8, Base58, decimal amounts, CRC32.
#pragma once
#include "CryptoNote.h"
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
namespace cr {
typedef std::vector<uint8_t> B;
inline void vi(B &o, uint64_t v) { do { uint8_t b = v % 128; v /= 128; o.push_back(v ? b + 128 : b); } while (v); }
inline void raw(B &o, const void *p, size_t n) { o.insert(o.end(), (const uint8_t *)p, (const uint8_t *)p + n); }
struct InV : boost::static_visitor<> { B &o; explicit InV(B &o) : o(o) {}
  void operator()(const cn::BaseInput &i) const { o.push_back(0xff); vi(o, i.blockIndex); }
  void operator()(const cn::KeyInput &i) const { o.push_back(2); vi(o, i.amount); vi(o, i.outputIndexes.size()); for (auto x : i.outputIndexes) vi(o, x); raw(o, &i.keyImage, 32); }
  void operator()(const cn::MultisignatureInput &i) const { o.push_back(3); vi(o, i.amount); vi(o, i.signatureCount); vi(o, i.outputIndex); vi(o, i.term); } };
struct OutV : boost::static_visitor<> { B &o; explicit OutV(B &o) : o(o) {}
  void operator()(const cn::KeyOutput &k) const { o.push_back(2); raw(o, &k.key, 32); }
  void operator()(const cn::MultisignatureOutput &k) const { o.push_back(3); vi(o, k.keys.size()); for (auto &x : k.keys) raw(o, &x, 32); vi(o, k.requiredSignatureCount); vi(o, k.term); } };
inline B prefix(const cn::TransactionPrefix &t) {
  B o; vi(o, t.version); vi(o, t.unlockTime); vi(o, t.inputs.size()); for (auto &i : t.inputs) boost::apply_visitor(InV(o), i);
  vi(o, t.outputs.size()); for (auto &x : t.outputs) { vi(o, x.amount); boost::apply_visitor(OutV(o), x.target); }
  vi(o, t.extra.size()); raw(o, t.extra.data(), t.extra.size()); return o;
}
inline B tx(const cn::Transaction &t) { B o = prefix(t); for (auto &s : t.signatures) for (auto &x : s) raw(o, &x, 64); return o; }
inline B header(const cn::BlockHeader &b) { B o; vi(o, b.majorVersion); vi(o, b.minorVersion); vi(o, b.timestamp); raw(o, &b.previousBlockHash, 32); raw(o, &b.nonce, 4); return o; }
inline B block(const cn::Block &b) { B o = header(b); B t = tx(b.baseTransaction); raw(o, t.data(), t.size()); vi(o, b.transactionHashes.size()); for (auto &h : b.transactionHashes) raw(o, &h, 32); return o; }

// Keccak[1600], rate 136, pad 01..80 (written from the specification)
struct H { uint8_t d[32]; bool operator==(const H &o) const { return !memcmp(d, o.d, 32); } };
inline uint64_t rol(uint64_t x, int n) { n %= 64; return n ? (x << n) | (x >> (64 - n)) : x; }
inline void keccakf(uint64_t A[5][5]) {
  uint8_t lfsr = 1; auto rc = [&]() -> bool { bool r = lfsr & 1; lfsr = (lfsr & 0x80) ? (lfsr << 1) ^ 0x71 : lfsr << 1; return r; };
  for (int r = 0; r < 24; ++r) {
    uint64_t C[5], D[5], Bm[5][5];
    for (int x = 0; x < 5; ++x) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
    for (int x = 0; x < 5; ++x) D[x] = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1);
    for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) A[x][y] ^= D[x];
    int x = 1, y = 0; Bm[0][0] = A[0][0];
    for (int t = 0; t < 24; ++t) { int nx = y, ny = (2 * x + 3 * y) % 5; Bm[nx][ny] = rol(A[x][y], (t + 1) * (t + 2) / 2); x = nx; y = ny; }
    for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) A[i][j] = Bm[i][j] ^ (~Bm[(i + 1) % 5][j] & Bm[(i + 2) % 5][j]);
    uint64_t RC = 0; for (int j = 0; j <= 6; ++j) if (rc()) RC |= 1ull << ((1 << j) - 1);
    A[0][0] ^= RC;
  }
}
inline H keccak(const void *p, size_t n) {
  B m((const uint8_t *)p, (const uint8_t *)p + n); m.push_back(1); while (m.size() % 136) m.push_back(0); m.back() |= 0x80;
  uint64_t A[5][5]; memset(A, 0, sizeof A);
  for (size_t o = 0; o < m.size(); o += 136) { for (int i = 0; i < 17; ++i) { uint64_t w = 0; for (int k = 7; k >= 0; --k) w = w << 8 | m[o + 8 * i + k]; A[i % 5][i / 5] ^= w; } keccakf(A); }
  H h; for (int i = 0; i < 4; ++i) for (int k = 0; k < 8; ++k) h.d[8 * i + k] = A[i % 5][i / 5] >> (8 * k); return h;
}
inline H keccak(const B &b) { return keccak(b.data(), b.size()); }
inline H pair(const H &a, const H &b) { uint8_t t[64]; memcpy(t, a.d, 32); memcpy(t + 32, b.d, 32); return keccak(t, 64); }
// Merkle root: the last 2*(n-m) leaves are paired first, m = largest power of two below n
inline H tree(std::vector<H> l) {
  if (l.size() == 1) return l[0];
  size_t m = 1; while (m * 2 < l.size()) m *= 2;
  std::vector<H> a; size_t keep = 2 * m - l.size(); for (size_t i = 0; i < keep; ++i) a.push_back(l[i]); for (size_t i = keep; i + 1 < l.size(); i += 2) a.push_back(pair(l[i], l[i + 1]));
  while (a.size() > 1) { std::vector<H> b; for (size_t i = 0; i + 1 < a.size(); i += 2) b.push_back(pair(a[i], a[i + 1])); a = b; }
  return a[0];
}
inline H blockId(const cn::Block &b) {
  std::vector<H> l; l.push_back(keccak(tx(b.baseTransaction))); for (auto &h : b.transactionHashes) { H x; memcpy(x.d, &h, 32); l.push_back(x); }
  B o = header(b); H r = tree(l); raw(o, r.d, 32); vi(o, l.size()); B p; vi(p, o.size()); raw(p, o.data(), o.size()); return keccak(p);
}
// ChaCha, 8 rounds, 64-bit nonce and counter
inline std::string chacha8(const std::string &m, const uint8_t key[32], const uint8_t iv[8]) {
  std::string out = m; auto le = [](const uint8_t *p) { return (uint32_t)p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }; const char *sg = "expand 32-byte k";
  for (uint64_t blk = 0; blk * 64 < m.size(); ++blk) {
    uint32_t s[16], x[16]; for (int i = 0; i < 4; ++i) s[i] = le((const uint8_t *)sg + 4 * i); for (int i = 0; i < 8; ++i) s[4 + i] = le(key + 4 * i); s[12] = blk; s[13] = blk >> 32; s[14] = le(iv); s[15] = le(iv + 4);
    memcpy(x, s, 64); auto R = [](uint32_t v, int n) { return v << n | v >> (32 - n); }; auto q = [&](int a, int b, int c, int d) { x[a] += x[b]; x[d] = R(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = R(x[b] ^ x[c], 12); x[a] += x[b]; x[d] = R(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = R(x[b] ^ x[c], 7); };
    for (int r = 0; r < 4; ++r) { q(0, 4, 8, 12); q(1, 5, 9, 13); q(2, 6, 10, 14); q(3, 7, 11, 15); q(0, 5, 10, 15); q(1, 6, 11, 12); q(2, 7, 8, 13); q(3, 4, 9, 14); }
    for (int i = 0; i < 64 && blk * 64 + i < m.size(); ++i) out[blk * 64 + i] ^= (uint8_t)((x[i / 4] + s[i / 4]) >> (8 * (i % 4)));
  }
  return out;
}
static const char B58[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
static const int B58LEN[] = {0, 2, 3, 5, 6, 7, 9, 10, 11};
inline std::string b58(const std::string &d) {
  std::string o; for (size_t i = 0; i < d.size(); i += 8) { size_t n = std::min<size_t>(8, d.size() - i); uint64_t v = 0; for (size_t k = 0; k < n; ++k) v = v << 8 | (uint8_t)d[i + k]; std::string s; for (int k = 0; k < B58LEN[n]; ++k) { s.insert(s.begin(), B58[v % 58]); v /= 58; } o += s; } return o;
}
// true and value if the text is a plain decimal amount with at most `dec` significant fraction digits that fits 64 bits
inline bool amount(const std::string &text, int dec, uint64_t &v) {
  size_t a = 0, b = text.size(); auto ws = [](char c) { return c == ' ' || (c >= 9 && c <= 13); }; while (a < b && ws(text[a])) ++a; while (b > a && ws(text[b - 1])) --b;
  std::string s = text.substr(a, b - a), ip, fp; size_t dot = s.find('.'); ip = s.substr(0, dot); if (dot != std::string::npos) fp = s.substr(dot + 1);
  for (char c : ip + fp) if (c < '0' || c > '9') return false;
  if (ip.empty() && fp.empty()) return false;
  while ((int)fp.size() > dec) { if (fp.back() != '0') return false; fp.pop_back(); }
  while ((int)fp.size() < dec) fp += '0';
  unsigned __int128 x = 0; for (char c : ip + fp) { x = x * 10 + (c - '0'); if (x >> 64) return false; } v = (uint64_t)x; return true;
}
}
