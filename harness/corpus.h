// The closed universe of byte-level objects: transactions, blocks, messages.
#pragma once
#include "codec_ref.h"
#include "crypto/crypto.h"
#include "env.h"
namespace cp {
using namespace cn;
inline crypto::Hash hsh(uint32_t n) { cr::H h = cr::keccak(&n, 4); crypto::Hash r; memcpy(&r, h.d, 32); return r; }
template <class T> T pod(uint32_t n) { T t; uint8_t *p = (uint8_t *)&t; for (size_t i = 0; i < sizeof(T); i += 32) { crypto::Hash h = hsh(n * 1000 + i); memcpy(p + i, &h, std::min<size_t>(32, sizeof(T) - i)); } return t; }
static const uint64_t BV[] = {0, 1, 127, 128, 16383, 16384, 0xffffffffull, 0x100000000ull, 1ull << 63, ~0ull};
static const uint32_t BW[] = {0, 1, 127, 128, 16384, 0x7fffffff, 0xffffffff};
struct Dice { uint64_t i; uint64_t pick(uint64_t n) { uint64_t r = i % n; i /= n; return r; } };   // mixed-radix decoder
inline TransactionInput input(int k, Dice &d) {
  switch (k) {
  case 0: return BaseInput{BW[d.pick(7)]};
  case 1: { KeyInput x; x.amount = BV[d.pick(10)]; size_t n = d.pick(4); for (size_t i = 0; i < n; ++i) x.outputIndexes.push_back(BW[(d.i + i) % 7]); x.keyImage = pod<crypto::KeyImage>(7); return x; }
  default: { MultisignatureInput x; x.amount = BV[d.pick(10)]; static const uint8_t S[] = {0, 1, 2, 127, 128, 255}; x.signatureCount = S[d.pick(6)]; x.outputIndex = BW[d.pick(7)]; x.term = BW[d.pick(7)]; return x; }
  }
}
inline TransactionOutput output(int k, Dice &d) {
  TransactionOutput o; o.amount = BV[d.pick(10)];
  if (k == 0) o.target = KeyOutput{pod<crypto::PublicKey>(9)};
  else { MultisignatureOutput m; size_t n = d.pick(4); for (size_t i = 0; i < n; ++i) m.keys.push_back(pod<crypto::PublicKey>(20 + i)); static const uint8_t S[] = {0, 1, 2, 128, 255}; m.requiredSignatureCount = S[d.pick(5)]; m.term = BW[d.pick(7)]; o.target = m; }
  return o;
}
inline size_t sigs(const TransactionInput &i) { if (auto k = boost::get<KeyInput>(&i)) return k->outputIndexes.size(); if (auto m = boost::get<MultisignatureInput>(&i)) return m->signatureCount; return 0; }
inline void sign(Transaction &t) { t.signatures.clear(); uint32_t n = 0; for (auto &i : t.inputs) { t.signatures.emplace_back(); for (size_t k = 0; k < sigs(i); ++k) t.signatures.back().push_back(pod<crypto::Signature>(100 + n++ % 5)); } }
inline Transaction small(int k) {
  Transaction t; t.version = 1; t.unlockTime = 0; Dice d{0};
  auto key = [&](uint64_t a, std::vector<uint32_t> o) { KeyInput x; x.amount = a; x.outputIndexes = o; x.keyImage = pod<crypto::KeyImage>(3); t.inputs.push_back(x); };
  auto ko = [&](uint64_t a) { TransactionOutput o; o.amount = a; o.target = KeyOutput{pod<crypto::PublicKey>(5)}; t.outputs.push_back(o); };
  switch (k) {
  case 0: t.inputs.push_back(BaseInput{5}); ko(1000000); t.unlockTime = 15; t.extra.assign(33, 0); t.extra[0] = 1; break;
  case 1: key(1000000, {3}); ko(500); ko(499500); break;
  case 2: key(1000000, {3, 1, 200}); key(70, {0}); ko(5); t.unlockTime = 300; t.extra = {2, 3, 1, 2, 3}; break;
  case 3: { t.version = 2; MultisignatureInput m{1000000, 2, 130, 5040}; t.inputs.push_back(m); ko(1000001); break; }
  case 4: { t.version = 2; key(5000, {}); TransactionOutput o; o.amount = 5000; MultisignatureOutput mo; mo.keys = {pod<crypto::PublicKey>(1), pod<crypto::PublicKey>(2)}; mo.requiredSignatureCount = 1; mo.term = 21900; o.target = mo; t.outputs.push_back(o); break; }
  case 5: break;
  case 6: { std::vector<uint32_t> big(130, 1); big[0] = 40000; key(~0ull, big); ko(~0ull); t.extra.assign(200, 0x11); break; }
  }
  sign(t); return t;
}
static const int SMALL = 7;
inline Block blk(int k) {
  Block b; b.majorVersion = k == 3 ? 8 : 1 + k; b.minorVersion = k; b.nonce = 0x01020380u + k; b.timestamp = 1527078920ull + k; b.previousBlockHash = hsh(50 + k); b.baseTransaction = small(0); for (int i = 0; i < k; ++i) b.transactionHashes.push_back(hsh(60 + i)); return b;
}
static const int BLK = 4;
// every edit at distance one of a byte string (plus length-field blow-ups)
struct Edits {
  cr::B b; size_t n; explicit Edits(const cr::B &x, size_t window = ~(size_t)0) : b(x), n(std::min(x.size(), window)) {}   // edits at positions below the window only
  static const std::vector<cr::B> &blobs() { static std::vector<cr::B> v = {{0x80, 0x00}, {0x81, 0x00}, {0xff, 0x7f}, {0xff, 0xff, 0xff, 0xff, 0x0f}, {0x80, 0x80, 0x80, 0x80, 0x10}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x02}, {0xff, 0xff, 0xff, 0x3f}, {0x80, 0x80, 0x80, 0x40}, {0xff, 0xff, 0xff, 0xff}, {0xfe, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}}; return v; }
  static const std::vector<uint8_t> &ins() { static std::vector<uint8_t> v = {0, 1, 2, 0x7f, 0x80, 0xff}; return v; }
  uint64_t count() const { return 256 * n + n + n + ins().size() * (n + 1) + (n ? n - 1 : 0) + blobs().size() * n; }
  cr::B at(uint64_t i, std::string *what = nullptr) const {
    cr::B r = b; auto say = [&](const std::string &s) { if (what) *what = s; };
    if (i < 256 * n) { r[i / 256] = i % 256; say("byte " + std::to_string(i / 256) + " set to " + std::to_string(i % 256)); return r; } i -= 256 * n;
    if (i < n) { r.resize(i); say("cut to " + std::to_string(i) + " bytes"); return r; } i -= n;
    if (i < n) { r.erase(r.begin() + i); say("byte " + std::to_string(i) + " removed"); return r; } i -= n;
    if (i < ins().size() * (n + 1)) { r.insert(r.begin() + i / ins().size(), ins()[i % ins().size()]); say("byte " + std::to_string(ins()[i % ins().size()]) + " inserted at " + std::to_string(i / ins().size())); return r; } i -= ins().size() * (n + 1);
    if (n && i < n - 1) { std::swap(r[i], r[i + 1]); say("bytes " + std::to_string(i) + " and next swapped"); return r; } i -= n ? n - 1 : 0;
    const cr::B &x = blobs()[i % blobs().size()]; size_t p = i / blobs().size(); r.erase(r.begin() + p); r.insert(r.begin() + p, x.begin(), x.end()); say("byte " + std::to_string(p) + " replaced by number pattern " + std::to_string(i % blobs().size())); return r;
  }
};
// a family of edit neighbourhoods indexed as one range
struct Family {
  std::vector<std::string> names; std::vector<Edits> e; std::vector<uint64_t> base; uint64_t total = 0;
  void add(const std::string &n, const cr::B &b, size_t window = ~(size_t)0) { names.push_back(n); e.push_back(Edits(b, window)); base.push_back(total); total += e.back().count(); }
  int which(uint64_t i) const { int k = 0; while (k + 1 < (int)base.size() && base[k + 1] <= i) ++k; return k; }
  cr::B get(uint64_t i, std::string *w = nullptr) const { int k = which(i); return e[k].at(i - base[k], w); }
  std::string show(uint64_t i) const { std::string w; get(i, &w); return "  " + names[which(i)] + ": " + w; }
};
}
