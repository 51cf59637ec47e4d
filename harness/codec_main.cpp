// Byte formats, keys and text forms: exhaustive evaluation over finite domains,
// each point compared with an independent reference (codec_ref.h).
#include "corpus.h"
#include "mc.h"
#include "Common/Base58.h"
#include "Common/Base64.h"
#include "Common/StringTools.h"
#include "Common/Varint.h"
#include "Common/MemoryInputStream.h"
#include "Common/StreamTools.h"
#include "Common/VectorOutputStream.h"
#include "CryptoNoteCore/Account.h"
#include "CryptoNoteCore/CryptoNoteBasicImpl.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/Currency.h"
#include "CryptoNoteCore/TransactionApi.h"
#include "CryptoNoteCore/TransactionExtra.h"
#include "Logging/LoggerGroup.h"
#include "Mnemonics/Mnemonics.h"
#include "Mnemonics/WordList.h"
#include "crypto/chacha8.h"
extern "C" {
#include "crypto/crypto-ops.h"
#include "crypto/hash-ops.h"
}
using namespace cn; using namespace cp; using cr::B;
static std::string hexs(const B &b) { return common::toHex(b.data(), b.size()); }
static logging::LoggerGroup LG;
static Currency CUR = CurrencyBuilder(LG).currency();
static Currency TEST = CurrencyBuilder(LG).testnet(true).currency();

// ---------------------------------------------------------------- C10
static std::string judgeTx(const Transaction &t) {
  B want = cr::tx(t), got; if (!toBinaryArray(t, got)) return "a well-formed transaction cannot be written";
  if (got != want) return "written as " + hexs(got) + ", the format says " + hexs(want);
  Transaction u; if (!fromBinaryArray(u, want)) return "its own bytes are refused";
  B again = toBinaryArray(u); if (again != want) return "read back as something else: " + hexs(again);
  if (cr::prefix(u) != cr::prefix(t) || u.signatures != t.signatures) return "a field changed in the round trip";
  cr::H id = cr::keccak(want), pid = cr::keccak(cr::prefix(t)); crypto::Hash a = getObjectHash(t), p = getObjectHash(*static_cast<const TransactionPrefix *>(&t));
  if (memcmp(&a, id.d, 32)) return "wrong id"; if (memcmp(&p, pid.d, 32)) return "wrong prefix hash";
  Transaction v; crypto::Hash h1, h2; if (!parseAndValidateTransactionFromBinaryArray(want, v, h1, h2)) return "parse-and-validate refuses it"; if (h1 != a || h2 != p || cr::tx(v) != want) return "parse-and-validate computes other ids";
  if (getObjectBinarySize(t) != want.size()) return "wrong size";
  return "";
}
static std::string judgeBlock(const Block &b) {
  B want = cr::block(b), got; if (!toBinaryArray(b, got)) return "a well-formed block cannot be written"; if (got != want) return "written as " + hexs(got) + ", the format says " + hexs(want);
  Block u; if (!fromBinaryArray(u, want)) return "its own bytes are refused"; if (cr::block(u) != want) return "a field changed in the round trip";
  cr::H id = cr::blockId(b); crypto::Hash h = get_block_hash(b); if (memcmp(&h, id.d, 32)) return "wrong id";
  BinaryArray hb; if (!get_block_hashing_blob(b, hb)) return "no hashing blob"; B pre; std::vector<cr::H> l; l.push_back(cr::keccak(cr::tx(b.baseTransaction))); for (auto &x : b.transactionHashes) { cr::H y; memcpy(y.d, &x, 32); l.push_back(y); } pre = cr::header(b); cr::H r = cr::tree(l); cr::raw(pre, r.d, 32); cr::vi(pre, l.size()); if (hb != pre) return "proof of work covers other bytes";
  return "";
}
struct TxU { std::string n; Transaction t; };
static Transaction gen(uint64_t i) {   // two inputs and two outputs of every kind over boundary values
  Dice d{i}; Transaction t; t.version = 1 + d.pick(2); t.unlockTime = BV[d.pick(10)]; int a = d.pick(4), o = d.pick(3), e = d.pick(5);
  if (a < 3) t.inputs.push_back(input(a, d)); else { t.inputs.push_back(input(1, d)); t.inputs.push_back(input(2, d)); }
  if (o < 2) t.outputs.push_back(output(o, d)); else { t.outputs.push_back(output(0, d)); t.outputs.push_back(output(1, d)); }
  static const size_t E[] = {0, 1, 127, 128, 300}; for (size_t k = 0; k < E[e]; ++k) t.extra.push_back(k * 7); sign(t); return t;
}
static uint64_t genIndex(const std::vector<std::pair<uint64_t, uint64_t>> &digits) { uint64_t r = 0, m = 1; for (auto &x : digits) { r += x.first * m; m *= x.second; } return r; }
static Block genBlk(uint64_t i) { Dice d{i}; Block b; b.majorVersion = 1 + d.pick(8); static const uint8_t MV[] = {0, 1, 127, 128, 255}; b.minorVersion = MV[d.pick(5)]; b.timestamp = BV[d.pick(10)]; b.nonce = BW[d.pick(7)]; b.previousBlockHash = hsh(d.pick(2)); b.baseTransaction = small(d.pick(2) ? 5 : 0); size_t n = d.pick(20); for (size_t k = 0; k < n; ++k) b.transactionHashes.push_back(hsh(200 + k)); return b; }
static Family txFam(bool deep) { Family f; for (int k = 0; k < SMALL; ++k) f.add("transaction " + std::to_string(k), cr::tx(small(k)), k == 6 ? deep ? 1200 : 260 : ~(size_t)0); return f; }
static Family blFam() { Family f; for (int k = 0; k < BLK; ++k) f.add("block " + std::to_string(k), cr::block(blk(k))); return f; }

struct ExF { int kind; uint64_t a; };
static std::vector<TransactionExtraField> exKinds() {
  std::vector<TransactionExtraField> v; TransactionExtraPublicKey pk; pk.publicKey = pod<crypto::PublicKey>(1); v.push_back(pk); pk.publicKey = pod<crypto::PublicKey>(2); v.push_back(pk);
  for (size_t n : {0, 1, 33, 255}) { TransactionExtraNonce x; x.nonce.assign(n, 0x55); if (n) x.nonce[0] = n == 33 ? 0 : 9; v.push_back(x); }
  for (uint64_t dpt : {0ull, 1ull, 300ull}) { TransactionExtraMergeMiningTag m; m.depth = dpt; m.merkleRoot = hsh(3); v.push_back(m); }
  for (size_t n : {4, 5, 200}) { tx_extra_message m; m.data.assign(n, 'm'); v.push_back(m); }
  for (uint64_t t : {0ull, 1ull, 127ull, 128ull, 1527078920ull, ~0ull}) { TransactionExtraTTL x; x.ttl = t; v.push_back(x); }
  TransactionExtraPadding p; for (size_t n : {1, 2, 255}) { p.size = n; v.push_back(p); } return v;
}
static B exBytes(const TransactionExtraField &f) {
  struct V : boost::static_visitor<B> {
    B operator()(const TransactionExtraPadding &p) const { return B(p.size, 0); }
    B operator()(const TransactionExtraPublicKey &p) const { B o{1}; cr::raw(o, &p.publicKey, 32); return o; }
    B operator()(const TransactionExtraNonce &n) const { B o{2, (uint8_t)n.nonce.size()}; cr::raw(o, n.nonce.data(), n.nonce.size()); return o; }
    B operator()(const TransactionExtraMergeMiningTag &m) const { B in; cr::vi(in, m.depth); cr::raw(in, &m.merkleRoot, 32); B o{3}; cr::vi(o, in.size()); cr::raw(o, in.data(), in.size()); return o; }
    B operator()(const tx_extra_message &m) const { B o{4}; cr::vi(o, m.data.size()); cr::raw(o, m.data.data(), m.data.size()); return o; }
    B operator()(const TransactionExtraTTL &t) const { B in; cr::vi(in, t.ttl); B o{5}; cr::vi(o, in.size()); cr::raw(o, in.data(), in.size()); return o; }
  }; return boost::apply_visitor(V(), f);
}
static void c10(mc::Session &S) {
  auto showTx = [](uint64_t i) { return "  transaction " + hexs(cr::tx(gen(i))); };
  // every pair of (input kind and values) with (output kind and values), remaining digits boundary by boundary
  uint64_t nIn = 4ull * 10 * 4 * 7 * 7, nOut = 3ull * 10 * 4 * 5 * 7;
  S.enumerate("tx-fields", nIn * 12, [&](uint64_t i) { Dice d{i}; uint64_t lo = d.pick(12); return judgeTx(gen(genIndex({{lo % 2, 2}, {lo % 10, 10}, {d.pick(4), 4}, {lo % 3, 3}, {lo % 5, 5}}) + d.i * 1200)); }, [&](uint64_t i) { Dice d{i}; uint64_t lo = d.pick(12); return showTx(genIndex({{lo % 2, 2}, {lo % 10, 10}, {d.pick(4), 4}, {lo % 3, 3}, {lo % 5, 5}}) + d.i * 1200); }, 256);
  S.enumerate("tx-mix", S.thorough() ? 1200ull * 2000 : 1200ull * 60, [&](uint64_t i) { return judgeTx(gen((i % 1200) + 1200 * (i / 1200 * 7919))); }, [&](uint64_t i) { return showTx((i % 1200) + 1200 * (i / 1200 * 7919)); }, 256);
  (void)nOut;
  S.enumerate("block-fields", 8ull * 5 * 10 * 7 * 2 * 2 * 20, [](uint64_t i) { return judgeBlock(genBlk(i)); }, [](uint64_t i) { return "  block " + hexs(cr::block(genBlk(i))); }, 256);
  Family tf = txFam(S.thorough()), bf = blFam();
  S.enumerate("tx-edits", tf.total, [&](uint64_t i) -> std::string {
    B e = tf.get(i), o = tf.e[tf.which(i)].b; Transaction t; crypto::Hash h1, h2; Transaction t2; bool a = fromBinaryArray(t, e), a2 = parseAndValidateTransactionFromBinaryArray(e, t2, h1, h2);
    if (a != a2) return "the two readers disagree"; if (!a) return ""; B w = cr::tx(t); if (w != e) return "bytes " + hexs(e) + " are read as a transaction whose bytes are " + hexs(w); if (e != o && getObjectHash(t) == getObjectHash(small(tf.which(i)))) return "a different transaction has the same id"; cr::H id = cr::keccak(e); if (memcmp(&h1, id.d, 32)) return "wrong id"; return "";
  }, [&](uint64_t i) { return tf.show(i); }, 512);
  S.enumerate("block-edits", bf.total, [&](uint64_t i) -> std::string {
    B e = bf.get(i), o = bf.e[bf.which(i)].b; Block b; if (!fromBinaryArray(b, e)) return ""; B w = cr::block(b); if (w != e) return "bytes " + hexs(e) + " are read as a block whose bytes are " + hexs(w); if (e != o && get_block_hash(b) == get_block_hash(blk(bf.which(i)))) return "a different block has the same id"; return "";
  }, [&](uint64_t i) { return bf.show(i); }, 512);
  S.enumerate("refused-shapes", 12, [](uint64_t i) -> std::string {   // what the format does not allow must be refused in both directions
    Transaction t = small(1); Block b = blk(1); B o;
    if (i < 3) { t.version = i == 0 ? 3 : i == 1 ? 128 : 255; B w = cr::tx(t); Transaction u; return fromBinaryArray(u, w) || toBinaryArray(t, o) ? "transaction version " + std::to_string(t.version) + " accepted" : ""; }
    if (i < 6) { b.majorVersion = i == 3 ? 9 : i == 4 ? 128 : 255; B w = cr::block(b); Block u; return fromBinaryArray(u, w) || toBinaryArray(b, o) ? "block version " + std::to_string(b.majorVersion) + " accepted" : ""; }
    if (i < 9) { B w = cr::tx(t); static const uint8_t T[] = {0, 1, 4}; size_t p = 3; if (w[p] != 2) return "corpus"; w[p] = T[i - 6]; Transaction u; return fromBinaryArray(u, w) ? "unknown input tag accepted" : ""; }
    if (i == 9) { t.signatures.pop_back(); return toBinaryArray(t, o) ? "missing signatures written" : ""; } if (i == 10) { t.signatures[0].pop_back(); return toBinaryArray(t, o) ? "too few signatures written" : ""; } t.signatures.clear(); return toBinaryArray(t, o) ? "no signatures written" : "";
  }, [](uint64_t i) { return "  malformed shape " + std::to_string(i); }, 1);
  // numbers
  S.enumerate("varint", 65536 + 64 * 6, [](uint64_t i) -> std::string {
    uint64_t v = i < 65536 ? i : [&] { uint64_t k = (i - 65536) / 6, m = (i - 65536) % 6; uint64_t p = 1ull << k; return m == 0 ? p : m == 1 ? p - 1 : m == 2 ? p + 1 : m == 3 ? ~p : m == 4 ? 0 - p : p * 3; }();
    B w; cr::vi(w, v); std::string s = tools::get_varint_data(v); if (B(s.begin(), s.end()) != w) return "written differently (varint)"; uint64_t r; int n = tools::read_varint(s.begin(), s.end(), r); if (n != (int)w.size() || r != v) return "read differently (varint)";
    B o; common::VectorOutputStream os(o); common::writeVarint(os, v); if (o != w) return "written differently (stream)"; common::MemoryInputStream is(w.data(), w.size()); uint64_t q; common::readVarint(is, q); if (q != v) return "read differently (stream)";
    B pad = w; pad.back() |= 0x80; pad.push_back(0); { common::MemoryInputStream x(pad.data(), pad.size()); try { common::readVarint(x, q); return "padded number accepted (stream)"; } catch (std::exception &) {} } std::string ps(pad.begin(), pad.end()); if (tools::read_varint(ps.begin(), ps.end(), r) > 0) return "padded number accepted (varint)";
    auto narrow = [&](auto T, const char *n) -> std::string { decltype(T) x; common::MemoryInputStream y(w.data(), w.size()); bool ok = true; try { common::readVarint(y, x); } catch (std::exception &) { ok = false; } bool fits = v <= std::numeric_limits<decltype(T)>::max(); if (ok != fits) return std::string(n) + (ok ? " accepts a number that does not fit" : " refuses a number that fits"); if (ok && x != v) return std::string(n) + " read differently"; return ""; };
    std::string e = narrow(uint8_t(), "u8"); if (e.empty()) e = narrow(uint16_t(), "u16"); if (e.empty()) e = narrow(uint32_t(), "u32"); return e;
  }, [](uint64_t i) { return "  number case " + std::to_string(i); }, 1024);
  // hashes and Merkle tree
  S.enumerate("hash", 420, [](uint64_t n) -> std::string { B m; for (uint64_t i = 0; i < n; ++i) m.push_back(i * 13 + n); crypto::Hash h = crypto::cn_fast_hash(m.data(), m.size()); cr::H w = cr::keccak(m); return memcmp(&h, w.d, 32) ? "cn_fast_hash differs from Keccak" : ""; }, [](uint64_t n) { return "  " + std::to_string(n) + " bytes"; }, 16);
  S.enumerate("merkle", 70, [](uint64_t n) -> std::string { ++n; std::vector<crypto::Hash> v; std::vector<cr::H> l; for (uint64_t i = 0; i < n; ++i) { v.push_back(hsh(i)); cr::H x; memcpy(x.d, &v.back(), 32); l.push_back(x); } crypto::Hash r; crypto::tree_hash(v.data(), n, r); cr::H w = cr::tree(l); if (memcmp(&r, w.d, 32)) return "wrong root";
    for (uint64_t i = 0; i < n; ++i) { auto u = v; u[i].data[5] ^= 1; crypto::Hash q; crypto::tree_hash(u.data(), n, q); if (q == r) return "leaf " + std::to_string(i) + " is not covered"; } 
    std::vector<crypto::Hash> br(64); size_t d = crypto::tree_depth(n); crypto::tree_branch(v.data(), n, br.data()); crypto::Hash q; crypto::tree_hash_from_branch(br.data(), d, v[0], 0, q); if (q != r) return "branch of the first leaf does not lead to the root"; return ""; }, [](uint64_t n) { return "  " + std::to_string(n + 1) + " leaves"; }, 2);
  // extra fields
  auto K = exKinds(); uint64_t k = K.size();
  S.enumerate("extra-fields", 1 + k + k * k + k * k * k, [&](uint64_t i) -> std::string {
    std::vector<TransactionExtraField> f; if (i >= 1) { i -= 1; if (i < k) f = {K[i]}; else { i -= k; if (i < k * k) f = {K[i / k], K[i % k]}; else { i -= k * k; f = {K[i / k / k], K[i / k % k], K[i % k]}; } } }
    B want; for (auto &x : f) { B b = exBytes(x); want.insert(want.end(), b.begin(), b.end()); }
    bool pad = false; for (size_t j = 0; j < f.size(); ++j) if (f[j].type() == typeid(TransactionExtraPadding) && j + 1 < f.size()) pad = true;   // padding only makes sense last
    B got; if (!writeTransactionExtra(got, f)) return "cannot be written"; if (got != want) return "written as " + hexs(got) + ", the format says " + hexs(want);
    std::vector<TransactionExtraField> r; bool ok = parseTransactionExtra(want, r); if (pad) { return ""; } if (!ok) return "its own bytes are refused"; if (r.size() != f.size()) return "fields lost or invented"; for (size_t j = 0; j < f.size(); ++j) if (exBytes(r[j]) != exBytes(f[j]) || r[j].type() != f[j].type()) return "field " + std::to_string(j) + " read differently";
    crypto::PublicKey pk = getTransactionPublicKeyFromExtra(want), wpk = crypto::PublicKey(); memset(&wpk, 0, 32); for (auto &x : f) if (x.type() == typeid(TransactionExtraPublicKey)) { wpk = boost::get<TransactionExtraPublicKey>(x).publicKey; break; } if (memcmp(&pk, &wpk, 32)) return "wrong public key extracted";
    crypto::Hash pid; bool has = getPaymentIdFromTxExtra(want, pid), hw = false; crypto::Hash wp; for (auto &x : f) if (x.type() == typeid(TransactionExtraNonce)) { auto &n = boost::get<TransactionExtraNonce>(x).nonce; if (n.size() == 33 && n[0] == 0) { hw = true; memcpy(&wp, &n[1], 32); } break; } if (has != hw || (has && pid != wp)) return "wrong payment id extracted";
    return "";
  }, [&](uint64_t i) { return "  extra field combination " + std::to_string(i); }, 256);
  // relative <-> absolute ring offsets
  S.enumerate("offsets", 7 * 7 * 7 * 7 * 7, [](uint64_t i) -> std::string { static const uint32_t V[] = {0, 1, 2, 100, 65536, 0x7fffffff, 0xfffffff0}; std::vector<uint32_t> a; uint64_t j = i; for (int k = 0; k < 5; ++k) { a.push_back(V[j % 7]); j /= 7; } std::sort(a.begin(), a.end()); for (size_t n = 0; n <= 5; ++n) { std::vector<uint32_t> s(a.begin(), a.begin() + n), w; for (size_t k = 0; k < n; ++k) w.push_back(k ? s[k] - s[k - 1] : s[k]); auto r = absolute_output_offsets_to_relative(s); if (r != w) return "wrong relative offsets"; if (relative_output_offsets_to_absolute(w) != s) return "offsets do not come back"; } return ""; }, [](uint64_t i) { return "  offset set " + std::to_string(i); }, 1024);
}

// ---------------------------------------------------------------- C11
struct Ring { std::vector<KeyPair> k; std::vector<const crypto::PublicKey *> p; crypto::KeyImage img; size_t real; crypto::Hash h; std::vector<crypto::Signature> s; };
static KeyPair kpair(uint32_t n) { env::rnd = n * 1000003ull + 7; KeyPair k; crypto::generate_keys(k.publicKey, k.secretKey); return k; }
static Ring ring(size_t n, size_t real) { Ring r; for (size_t i = 0; i < n; ++i) r.k.push_back(kpair(10 + i)); for (auto &k : r.k) r.p.push_back(&k.publicKey); r.real = real; r.h = hsh(77); crypto::generate_key_image(r.k[real].publicKey, r.k[real].secretKey, r.img); r.s.resize(n); env::rnd = 5; crypto::generate_ring_signature(r.h, r.img, r.p.data(), n, r.k[real].secretKey, real, r.s.data()); return r; }
static bool okRing(const Ring &r) { std::vector<const crypto::PublicKey *> p; for (auto &k : r.k) p.push_back(&k.publicKey); return crypto::check_ring_signature(r.h, r.img, p.data(), p.size(), r.s.data()); }
static void addL(uint8_t *s) { static const uint8_t L[32] = {0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10}; int c = 0; for (int i = 0; i < 32; ++i) { c += s[i] + L[i]; s[i] = c; c >>= 8; } }
static std::vector<std::pair<size_t, size_t>> rings() { std::vector<std::pair<size_t, size_t>> v; for (size_t n = 1; n <= 4; ++n) for (size_t r = 0; r < n; ++r) v.push_back({n, r}); return v; }
static void c11(mc::Session &S) {
  S.enumerate("keys", 400, [](uint64_t i) -> std::string {
    KeyPair a = kpair(i), b = kpair(i + 5000); crypto::PublicKey p; if (!crypto::check_key(a.publicKey)) return "a generated key is called invalid"; if (!crypto::secret_key_to_public_key(a.secretKey, p) || p != a.publicKey) return "public key does not belong to the secret key";
    crypto::KeyDerivation d1, d2; if (!crypto::generate_key_derivation(b.publicKey, a.secretKey, d1) || !crypto::generate_key_derivation(a.publicKey, b.secretKey, d2) || memcmp(&d1, &d2, 32)) return "sender and receiver derive different secrets";
    for (size_t idx : {(size_t)0, (size_t)1, (size_t)127, (size_t)128, (size_t)70000}) { KeyPair sp = kpair(i + 9000); crypto::PublicKey op, back, pp; crypto::SecretKey os; if (!crypto::derive_public_key(d1, idx, sp.publicKey, op)) return "derivation fails"; crypto::derive_secret_key(d2, idx, sp.secretKey, os); if (!crypto::secret_key_to_public_key(os, pp) || pp != op) return "the receiver's one-time secret does not fit the one-time key"; if (!crypto::underive_public_key(d2, idx, op, back) || back != sp.publicKey) return "the receiver does not recognise the one-time key"; if (crypto::underive_public_key(d2, idx + 1, op, back) && back == sp.publicKey) return "output position is not part of the derivation";
      crypto::KeyImage k1, k2; crypto::generate_key_image(op, os, k1); crypto::generate_key_image(op, os, k2); if (memcmp(&k1, &k2, 32)) return "key image is not a function of the key"; }
    return ""; }, [](uint64_t i) { return "  key pair " + std::to_string(i); }, 8);
  S.enumerate("signature-bits", 1 + 256 + 256 + 512 + 8, [](uint64_t i) -> std::string {
    KeyPair k = kpair(1); crypto::Hash h = hsh(9); crypto::Signature s; env::rnd = 3; crypto::generate_signature(h, k.publicKey, k.secretKey, s); auto flip = [](void *p, uint64_t b) { ((uint8_t *)p)[b / 8] ^= 1 << (b % 8); }; bool want = false;
    if (i == 0) want = true; else if (i <= 256) flip(&h, i - 1); else if (i <= 512) flip(&k.publicKey, i - 257); else if (i <= 1024) flip(&s, i - 513); else { uint8_t *p = (uint8_t *)&s; switch (i - 1025) { case 0: addL(p); break; case 1: addL(p + 32); break; case 2: memset(p, 0, 64); break; case 3: std::swap_ranges(p, p + 32, p + 32); break; case 4: memset(p, 0, 32); break; case 5: memset(p + 32, 0, 32); break; case 6: memset(p, 0xff, 64); break; case 7: { KeyPair o = kpair(2); crypto::generate_signature(h, o.publicKey, o.secretKey, s); break; } } }
    if (!crypto::check_key(k.publicKey)) return "";   bool got = crypto::check_signature(h, k.publicKey, s); return got == want ? "" : got ? "a signature that was not made is accepted" : "a proper signature is refused"; }, [](uint64_t i) { return "  change " + std::to_string(i) + " of a signature"; }, 16);
  auto R = rings(); std::vector<uint64_t> base; uint64_t tot = 0; for (auto &r : R) { base.push_back(tot); tot += 1 + 256 + 256 + 256 * r.first + 512 * r.first + 16; }
  auto which = [&](uint64_t i) { size_t k = 0; while (k + 1 < base.size() && base[k + 1] <= i) ++k; return k; };
  S.enumerate("ring-bits", tot, [&](uint64_t i) -> std::string {
    size_t w = which(i); i -= base[w]; Ring r = ring(R[w].first, R[w].second); size_t n = R[w].first; auto flip = [](void *p, uint64_t b) { ((uint8_t *)p)[b / 8] ^= 1 << (b % 8); }; bool want = false;
    if (i == 0) want = true; else if (i <= 256) flip(&r.h, i - 1); else if (i <= 512) flip(&r.img, i - 257); else if (i <= 512 + 256 * n) { i -= 513; flip(&r.k[i / 256].publicKey, i % 256); } else if (i <= 512 + 768 * n) { i -= 513 + 256 * n; flip(&r.s[i / 512], i % 512); }
    else { i -= 513 + 768 * n; uint8_t *p = (uint8_t *)&r.s[0], *q = (uint8_t *)&r.s[n - 1];
      switch (i) { case 0: addL(p); break; case 1: addL(p + 32); break; case 2: addL(q); break; case 3: addL(q + 32); break; case 4: memset(p, 0, 64); break; case 5: for (auto &s : r.s) memset(&s, 0, 64); break;
        case 6: if (n < 2) return ""; std::swap(r.k[0], r.k[1]); break; case 7: if (n < 2) return ""; std::swap(r.s[0], r.s[1]); break; case 8: if (n < 2) return ""; r.k.pop_back(); r.s.pop_back(); break; case 9: r.k.push_back(kpair(99)); r.s.push_back(r.s[0]); break;
        case 10: { KeyPair o = kpair(98); crypto::generate_key_image(o.publicKey, o.secretKey, r.img); break; } case 11: { KeyPair o = kpair(98); crypto::generate_ring_signature(r.h, r.img, r.p.data(), n, o.secretKey, r.real, r.s.data()); break; }
        case 12: memset(&r.img, 0, 32); ((uint8_t *)&r.img)[0] = 1; break; case 13: memset(&r.img, 0, 32); break; case 14: if (n < 2) return ""; r.k[0] = r.k[1]; break; case 15: if (n < 2) return ""; { std::vector<const crypto::PublicKey *> pp; for (auto &k : r.k) pp.push_back(&k.publicKey); crypto::generate_ring_signature(r.h, r.img, pp.data(), n, r.k[(r.real + 1) % n].secretKey, (r.real + 1) % n, r.s.data()); } break; } }
    for (auto &k : r.k) if (!crypto::check_key(k.publicKey)) return ""; bool got = okRing(r); return got == want ? "" : got ? "a ring signature that was not made is accepted" : "a proper ring signature is refused"; }, [&](uint64_t i) { size_t w = which(i); return "  ring of " + std::to_string(R[w].first) + ", signer " + std::to_string(R[w].second) + ", change " + std::to_string(i - base[w]); }, 32);
  S.enumerate("images", 24 * 24, [](uint64_t i) -> std::string { KeyPair a = kpair(300 + i / 24), b = kpair(300 + i % 24); crypto::KeyImage x, y; crypto::generate_key_image(a.publicKey, a.secretKey, x); crypto::generate_key_image(b.publicKey, b.secretKey, y); bool same = !memcmp(&x, &y, 32); return same == (i / 24 == i % 24) ? "" : same ? "two keys share an image" : "one key has two images"; }, [](uint64_t i) { return "  keys " + std::to_string(i / 24) + "," + std::to_string(i % 24); }, 32);
  // outputs built for an account are found by that account only, with the right amount
  S.enumerate("outputs", 5 * 5 * 6, [](uint64_t i) -> std::string {
    auto acct = [](uint32_t n) { AccountBase a; env::rnd = n * 77 + 1; a.generate(); return a; }; AccountBase to = acct(i % 5), me = acct(i / 5 % 5); size_t n = 1 + i / 25 % 6; auto tx = createTransaction(); env::rnd = 9; for (size_t k = 0; k < n; ++k) tx->addOutput(1000 + k, k % 2 ? to.getAccountKeys().address : acct(40 + k).getAccountKeys().address);
    std::vector<uint32_t> outs; uint64_t amt = 0; tx->findOutputsToAccount(me.getAccountKeys().address, me.getAccountKeys().viewSecretKey, outs, amt); std::vector<uint32_t> want; uint64_t wa = 0; if (i % 5 == i / 5 % 5) for (size_t k = 1; k < n; k += 2) { want.push_back(k); wa += 1000 + k; } if (outs != want || amt != wa) return "found " + std::to_string(outs.size()) + " outputs, " + std::to_string(want.size()) + " are addressed to the account";
    Transaction t; if (!fromBinaryArray(t, tx->getTransactionData())) return "built transaction cannot be read"; std::vector<size_t> o2; uint64_t a2 = 0; lookup_acc_outs(me.getAccountKeys(), t, o2, a2); if (o2.size() != want.size() || a2 != wa) return "the two searches disagree"; 
    for (auto k : want) { KeyPair e; crypto::KeyImage ki; if (!generate_key_image_helper(me.getAccountKeys(), tx->getTransactionPublicKey(), k, e, ki)) return "no key image"; if (boost::get<KeyOutput>(t.outputs[k].target).key != e.publicKey) return "the owner's derived key is not the output key"; crypto::PublicKey pp; if (!crypto::secret_key_to_public_key(e.secretKey, pp) || pp != e.publicKey) return "the owner cannot sign for the output"; } return ""; }, [](uint64_t i) { return "  addressed to account " + std::to_string(i % 5) + ", searched by " + std::to_string(i / 5 % 5) + ", " + std::to_string(1 + i / 25 % 6) + " outputs"; }, 4);
  // messages
  S.enumerate("messages", 4 * 4 * 4 * 4 * 7, [](uint64_t i) -> std::string {
    uint64_t j = i; auto pick = [&](uint64_t n) { uint64_t r = j % n; j /= n; return r; }; size_t ei = pick(4), di = pick(4), to = pick(4), by = pick(4); static const size_t LEN[] = {0, 1, 3, 4, 63, 64, 260}; std::string m(LEN[pick(7)], 'x'); for (size_t k = 0; k < m.size(); ++k) m[k] = k * 11; KeyPair tk = kpair(1); auto who = [](size_t n) { return kpair(700 + n); }; AccountPublicAddress a; a.spendPublicKey = who(to).publicKey; a.viewPublicKey = kpair(3).publicKey;
    tx_extra_message e; bool clear = to == 3; if (!e.encrypt(ei, m, clear ? nullptr : &a, tk)) return "cannot encrypt"; 
    if (!clear) { crypto::KeyDerivation d; crypto::generate_key_derivation(a.spendPublicKey, tk.secretKey, d); B kd; cr::raw(kd, &d, 32); kd.push_back(0x80); kd.push_back(0); cr::H key = cr::keccak(kd); uint8_t iv[8] = {(uint8_t)ei}; if (cr::chacha8(m + std::string(4, '\0'), key.d, iv) != e.data) return "cipher text differs from the format"; }
    std::string r; KeyPair rd = who(by); bool ok = e.decrypt(di, tk.publicKey, by == 3 ? nullptr : &rd.secretKey, r), want = clear ? by == 3 : (by == to && di == ei); if (ok != want) return ok ? "someone else can read the message" : "the recipient cannot read the message"; if (ok && r != m) return "the message changed"; return ""; }, [](uint64_t i) { return "  message case " + std::to_string(i); }, 16);
  S.enumerate("chacha", 200 * 3, [](uint64_t i) -> std::string { std::string m; for (uint64_t k = 0; k < i / 3; ++k) m += (char)(k * 5 + i); cr::H key = cr::keccak(&i, 8); uint8_t iv[8]; for (int k = 0; k < 8; ++k) iv[k] = i % 3 == 0 ? 0 : key.d[k]; std::string o(m.size(), 0); crypto::chacha8(m.data(), m.size(), key.d, iv, &o[0]); return o == cr::chacha8(m, key.d, iv) ? "" : "differs from ChaCha8"; }, [](uint64_t i) { return "  length " + std::to_string(i / 3); }, 16);
  // transaction and reserve proofs style signature over (prefix, R, A, D)
  S.enumerate("tx-proof", 1 + 256 * 4 + 512, [](uint64_t i) -> std::string { KeyPair r = kpair(21), a = kpair(22); crypto::KeyDerivation d; crypto::generate_key_derivation(a.publicKey, r.secretKey, d); crypto::PublicKey D; { crypto::KeyImage ai, bi; memcpy(&ai, &a.publicKey, 32); memcpy(&bi, &r.secretKey, 32); crypto::KeyImage x = crypto::scalarmultKey(ai, bi); memcpy(&D, &x, 32); } crypto::Hash h = hsh(4); crypto::Signature s; env::rnd = 8; try { crypto::generate_tx_proof(h, r.publicKey, a.publicKey, D, r.secretKey, s); } catch (std::exception &e) { return std::string("cannot prove: ") + e.what(); } auto flip = [](void *p, uint64_t b) { ((uint8_t *)p)[b / 8] ^= 1 << (b % 8); }; bool want = i == 0; if (i) { --i; if (i < 256) flip(&h, i); else if (i < 512) flip(&r.publicKey, i - 256); else if (i < 768) flip(&a.publicKey, i - 512); else if (i < 1024) flip(&D, i - 768); else flip(&s, i - 1024); } bool got; try { got = crypto::check_tx_proof(h, r.publicKey, a.publicKey, D, s); } catch (std::exception &) { got = false; } return got == want ? "" : got ? "a proof that was not made is accepted" : "a proper proof is refused"; }, [](uint64_t i) { return "  change " + std::to_string(i); }, 32);
}

// ---------------------------------------------------------------- C12
static std::vector<AccountPublicAddress> addrs() { std::vector<AccountPublicAddress> v; for (uint32_t i = 0; i < 4; ++i) { AccountPublicAddress a; a.spendPublicKey = kpair(i).publicKey; a.viewPublicKey = kpair(i + 50).publicKey; v.push_back(a); } return v; }
static bool same(const AccountPublicAddress &a, const AccountPublicAddress &b) { return a.spendPublicKey == b.spendPublicKey && a.viewPublicKey == b.viewPublicKey; }
static void c12(mc::Session &S) {
  S.enumerate("base58-bytes", 1 + 256 + 65536 + 40 * 64, [](uint64_t i) -> std::string { std::string d; if (i >= 1) { i -= 1; if (i < 256) d = std::string(1, (char)i); else { i -= 256; if (i < 65536) { d.push_back(i >> 8); d.push_back(i); } else { i -= 65536; size_t n = i / 64; uint64_t m = i % 64; for (size_t k = 0; k < n; ++k) d.push_back(m == 0 ? 0 : m == 1 ? 255 : (char)(cr::keccak(&m, 8).d[k % 32] * (k < m % 9 ? 0 : 1))); } } }
    std::string e = tools::base_58::encode(d), w = cr::b58(d), back = "junk"; if (e != w) return "encoded as " + e + " instead of " + w; if (!tools::base_58::decode(e, back) || back != d) return "does not decode to what was encoded"; return ""; }, [](uint64_t i) { return "  byte string " + std::to_string(i); }, 1024);
  S.enumerate("base58-text", 64 + 64 * 64 + 64 * 64 * 64, [](uint64_t i) -> std::string { static const char A[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl- "; std::string s; if (i < 64) s = {A[i]}; else { i -= 64; if (i < 4096) s = {A[i / 64], A[i % 64]}; else { i -= 4096; s = {A[i / 4096], A[i / 64 % 64], A[i % 64]}; } } std::string d; if (!tools::base_58::decode(s, d)) { for (char c : s) if (!strchr(cr::B58, c)) return ""; if (s.size() == 1) return ""; uint64_t v = 0; for (char c : s) v = v * 58 + (strchr(cr::B58, c) - cr::B58); bool fits = v < (s.size() == 2 ? 256u : 65536u); return fits ? "a valid text is refused" : ""; } return cr::b58(d) == s ? "" : "text " + s + " decodes to bytes that encode differently"; }, [](uint64_t i) { return "  text " + std::to_string(i); }, 4096);
  S.enumerate("base58-blocks", 11 * 130 + 2000, [](uint64_t i) -> std::string { std::string b = "1111111111122222222222"; if (i < 1430) { b[i % 11] = (char)(i / 11); std::string d; bool ok = tools::base_58::decode(b, d); if (ok && cr::b58(d) != b) return "text " + b + " decodes to bytes that encode differently"; return ""; } i -= 1430; static const char *top[] = {"jpXCZedGfVQ", "jpXCZedGfVR", "zzzzzzzzzzz", "jpXCZedGfV1", "jpXCZedGfVz"}; std::string t = top[i % 5]; size_t pre = i / 5 % 3; t = std::string(11 * pre, '1') + t; std::string d; bool ok = tools::base_58::decode(t, d); bool want = i % 5 == 0 || i % 5 == 3; if (ok != want) return ok ? "overflowing block accepted" : "largest block refused"; return ""; }, [](uint64_t i) { return "  block text " + std::to_string(i); }, 64);
  auto A = addrs(); std::vector<std::string> T; for (auto &a : A) T.push_back(CUR.accountAddressAsString(a)); std::string symb = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl +";
  uint64_t L = T[0].size(), per = L * symb.size() + L + L * symb.size() + L - 1 + L + 4;
  S.enumerate("address-edits", T.size() * per, [&](uint64_t i) -> std::string {
    size_t k = i / per; i %= per; std::string s = T[k], o = s; uint64_t ns = symb.size(); if (s.size() != L) return "address length varies";
    if (i < L * ns) s[i / ns] = symb[i % ns]; else { i -= L * ns; if (i < L) s.erase(i, 1); else { i -= L; if (i < L * ns) s.insert(i / ns, 1, symb[i % ns]); else { i -= L * ns; if (i < L - 1) std::swap(s[i], s[i + 1]); else { i -= L - 1; if (i < L) s = s.substr(0, i); else { i -= L; if (i == 0) s += s; else if (i == 1) s = " " + s; else if (i == 2) s += " "; } } } } }
    AccountPublicAddress r; bool ok = CUR.parseAccountAddressString(s, r); if (s == o) return ok && same(r, A[k]) ? "" : "an address is not read back"; if (!ok) return ""; return CUR.accountAddressAsString(r) == s ? "a mistyped address " + s + " is accepted" : "text " + s + " is accepted as the address " + CUR.accountAddressAsString(r); }, [&](uint64_t i) { return "  address " + std::to_string(i / per) + ", edit " + std::to_string(i % per); }, 512);
  S.enumerate("address-kinds", 4 * 6, [&](uint64_t i) -> std::string { auto a = A[i % 4]; AccountPublicAddress r; uint64_t pfx; 
    switch (i / 4) { case 0: { std::string s = getAccountAddressAsStr(TEST.publicAddressBase58Prefix(), a); bool diff = TEST.publicAddressBase58Prefix() != CUR.publicAddressBase58Prefix(); return diff && CUR.parseAccountAddressString(s, r) ? "an address of another network is accepted" : ""; } case 1: { std::string s = getAccountAddressAsStr(CUR.publicAddressBase58Prefix() + 1, a); return CUR.parseAccountAddressString(s, r) ? "an address with another prefix is accepted" : ""; }
      case 2: { auto b = a; memset(&b.spendPublicKey, 0xff, 32); return CUR.parseAccountAddressString(CUR.accountAddressAsString(b), r) ? "an address with an invalid spend key is accepted" : ""; } case 3: { auto b = a; memset(&b.viewPublicKey, 0xee, 32); ((uint8_t *)&b.viewPublicKey)[0] = 2; if (crypto::check_key(b.viewPublicKey)) return ""; return CUR.parseAccountAddressString(CUR.accountAddressAsString(b), r) ? "an address with an invalid view key is accepted" : ""; }
      case 4: { std::string d; cr::B x; cr::raw(x, &a, 64); x.push_back(0); d.assign(x.begin(), x.end()); return CUR.parseAccountAddressString(tools::base_58::encode_addr(CUR.publicAddressBase58Prefix(), d), r) ? "an address with trailing data is accepted" : ""; } default: { std::string s = getAccountAddressAsStr(7777777, a); return parseAccountAddressString(pfx, r, s) && pfx == 7777777 && same(r, a) ? "" : "prefix or keys lost"; } } }, [](uint64_t i) { return "  address case " + std::to_string(i); }, 1);
  // recovery phrases
  auto key = [](uint64_t i) { crypto::SecretKey k; cr::H h = cr::keccak(&i, 8); memcpy(&k, h.d, 32); if (i < 4) memset(&k, i == 0 ? 0x00 : i == 1 ? 0xff : i == 2 ? 0x80 : 0x01, 32); return k; };
  auto words = [](const std::string &s) { std::vector<std::string> w; std::istringstream is(s); std::string x; while (is >> x) w.push_back(x); return w; };
  auto join = [](const std::vector<std::string> &w) { std::string s; for (auto &x : w) s += (s.empty() ? "" : " ") + x; return s; };
  static const crypto::SecretKey none = crypto::SecretKey();
  S.enumerate("phrase-keys", 3000, [&](uint64_t i) -> std::string { crypto::SecretKey k = key(i), r = mnemonics::mnemonicToPrivateKey(mnemonics::privateKeyToMnemonic(k)); return r == k ? "" : "the recovery phrase gives another key"; }, [](uint64_t i) { return "  key " + std::to_string(i); }, 64);
  uint64_t NW = mnemonics::WordList::English.size();
  S.enumerate("phrase-edits", 2 * (25 * NW + 24 + 25 + 25 + 26 * 3), [&](uint64_t i) -> std::string {
    uint64_t per2 = 25 * NW + 24 + 25 + 25 + 26 * 3; crypto::SecretKey k = key(10 + i / per2); i %= per2; auto w = words(mnemonics::privateKeyToMnemonic(k)), o = w; bool caseOnly = false; if (w.size() != 25) return "not 25 words";
    auto up = [](std::string s, bool all) { for (size_t j = 0; j < (all ? s.size() : 1); ++j) s[j] = toupper(s[j]); return s; };
    if (i < 25 * NW) w[i / NW] = mnemonics::WordList::English[i % NW]; else { i -= 25 * NW; if (i < 24) std::swap(w[i], w[i + 1]); else { i -= 24; if (i < 25) w.erase(w.begin() + i); else { i -= 25; if (i < 25) w[i] += "x"; else { i -= 25; caseOnly = true; if (i < 75) { if (i % 3 == 0) w[i / 3] = up(w[i / 3], false); else if (i % 3 == 1) w[i / 3] = up(w[i / 3], true); else { w.insert(w.begin() + i / 3, w[0]); caseOnly = false; } } else { bool all = i != 75; for (auto &x : w) x = up(x, all); } } } } }
    crypto::SecretKey r = mnemonics::mnemonicToPrivateKey(join(w)); if (w == o) return r == k ? "" : "the recovery phrase gives another key"; if (r == none) return ""; if (caseOnly) return r == k ? "" : "the same phrase in capitals gives another key"; auto back = words(mnemonics::privateKeyToMnemonic(r)); return back == w ? "" : "the phrase '" + join(w) + "' gives the key of another phrase"; }, [](uint64_t i) { return "  edit " + std::to_string(i) + " of a recovery phrase"; }, 512);
  // amounts
  static const std::string AL = "019.- +e"; uint64_t na = AL.size(), tot = 0; std::vector<uint64_t> pw; for (int n = 0; n <= 7; ++n) { pw.push_back(tot); uint64_t c = 1; for (int k = 0; k < n; ++k) c *= na; tot += c; }
  auto atext = [&](uint64_t i) { int n = 7; while (pw[n] > i) --n; i -= pw[n]; std::string s; for (int k = 0; k < n; ++k) { s += AL[i % na]; i /= na; } return s; };
  S.enumerate("amount-text", tot, [&](uint64_t i) -> std::string { std::string s = atext(i); uint64_t w = 0, g = 0; bool a = cr::amount(s, 6, w), b = CUR.parseAmount(s, g); if (a != b) return "'" + s + "' is " + (b ? "accepted as " + std::to_string(g) : "refused"); return a && w != g ? "'" + s + "' is read as " + std::to_string(g) : ""; }, [&](uint64_t i) { return "  amount '" + atext(i) + "'"; }, 8192);
  S.enumerate("amount-values", 64 * 7 + 3000, [](uint64_t i) -> std::string { uint64_t v = i < 448 ? (1ull << (i / 7)) + (i % 7) - 3 : (i - 448) * 333; std::string s = CUR.formatAmount(v); uint64_t r; if (!CUR.parseAmount(s, r) || r != v) return s + " does not read back as " + std::to_string(v); std::string w = std::to_string(v / 1000000) + "." + [&] { std::string f = std::to_string(v % 1000000); return std::string(6 - f.size(), '0') + f; }(); if (s != w) return "printed as " + s + " instead of " + w; std::string n = CUR.formatAmount(-(int64_t)(v >> 1)); if (n != (v >> 1 ? "-" : "") + CUR.formatAmount(v >> 1)) return "negative amount printed as " + n;
    static const char *big[] = {"18446744073709.551615", "18446744073709.551616", "18446744073710", "184467440737095.51615", "99999999999999999999", "18446744073709.5516150", "0.0000001", "0.0000000", "1.0000000", "000000000000000000000001.5"}; if (i < 10) { uint64_t a = 0, b = 0; bool x = cr::amount(big[i], 6, a), y = CUR.parseAmount(big[i], b); if (x != y || (x && a != b)) return std::string(big[i]) + " read wrongly"; } return ""; }, [](uint64_t i) { return "  amount value " + std::to_string(i); }, 64);
  // hex ids
  S.enumerate("hex", 64 * 256 + 64 + 64 * 3, [](uint64_t i) -> std::string { crypto::Hash h = hsh(1), r; std::string s = common::podToHex(h), o = s; if (i < 64 * 256) s[i / 256] = (char)(i % 256); else { i -= 64 * 256; if (i < 64) s.resize(i); else { i -= 64; s.insert(i / 3, i % 3 == 0 ? "0" : i % 3 == 1 ? "00" : " "); } } bool ok = common::podFromHex(s, r); bool valid = s.size() == 64; for (char c : s) valid = valid && isxdigit((unsigned char)c); if (ok != valid) return ok ? "'" + s + "' accepted" : "a valid id is refused"; if (!ok) { return ""; } std::string low = s; for (auto &c : low) c = tolower(c); if (common::podToHex(r) != low) return "read as another id"; crypto::Hash p; if (!parsePaymentId(s, p) || p != r) return "payment id read as another"; return ""; }, [](uint64_t i) { return "  edit " + std::to_string(i) + " of an id"; }, 256);
  S.enumerate("base64", 1 + 256 + 65536 + 300, [](uint64_t i) -> std::string { std::string d; if (i >= 1) { --i; if (i < 256) d = std::string(1, (char)i); else { i -= 256; if (i < 65536) { d.push_back(i >> 8); d.push_back(i); } else for (uint64_t k = 0; k < i - 65536; ++k) d.push_back(k * 37 + i); } } static const char C[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string w; for (size_t k = 0; k < d.size(); k += 3) { uint32_t v = 0; size_t n = std::min<size_t>(3, d.size() - k); for (size_t q = 0; q < 3; ++q) v = v << 8 | (q < n ? (uint8_t)d[k + q] : 0); for (size_t q = 0; q < 4; ++q) w += q <= n ? C[v >> (18 - 6 * q) & 63] : '='; } if (tools::base_64::encode(d) != w) return "encoded differently"; return common::base64Decode(w) == d ? "" : "does not decode to what was encoded"; }, [](uint64_t i) { return "  byte string " + std::to_string(i); }, 1024);
}
int main(int argc, char **argv) {
  mc::Session S(argc, argv); S.assumptions = {"the finite domains are stated in the evidence; nothing is claimed for values outside them", "references in codec_ref.h are written independently of the code"};
  const std::string &p = S.property(); if (p == "C10") c10(S); else if (p == "C11") c11(S); else if (p == "C12") c12(S); else { fprintf(stderr, "unknown property\n"); return 2; } return S.finish();
}
