// C13/C14: what peers and clients send each other.
#include <functional>
#include <sys/mman.h>
#include <sys/resource.h>
#include <pthread.h>
#include "mc.h"
#include "fill.h"
#include "corpus.h"
#include "scripted_tcp.h"
#include <P2p/LevinProtocol.h>
#include <P2p/P2pProtocolDefinitions.h>
#include <CryptoNoteProtocol/CryptoNoteProtocolDefinitions.h>
#include <Rpc/CoreRpcServerCommandsDefinitions.h>
#include <Rpc/JsonRpc.h>
#include <Rpc/HttpServer.h>
#include <HTTP/HttpParser.h>
#include <Serialization/SerializationTools.h>
#include <System/TcpStream.h>
#include <System/Dispatcher.h>
#include <Logging/ConsoleLogger.h>
#include <Common/Base64.h>
#include <Common/StringTools.h>
#include <Mnemonics/Mnemonics.h>
#include <CryptoNoteCore/TransactionExtra.h>
#include <CryptoNoteCore/CryptoNoteTools.h>
#include <CryptoNoteCore/CryptoNoteFormatUtils.h>
#include <CryptoNoteCore/CryptoNoteBasicImpl.h>
#include <CryptoNoteCore/TransactionApi.h>
using namespace cn; using namespace cp; using cr::B;
// ---- memory watch: the largest single request
static size_t g_big = 0;
#ifndef __SANITIZE_ADDRESS__
void *operator new(size_t n) { if (n > g_big) g_big = n; if (n > (3ull << 30)) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
#else
void *operator new(size_t n) { if (n > g_big) g_big = n; if (n > (3ull << 30)) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
#endif
static const size_t BIG = 256u << 20;
static std::string memCheck(size_t sent) { return g_big > BIG ? "a message of " + std::to_string(sent) + " bytes makes the reader ask for " + std::to_string(g_big >> 20) + " MB" : ""; }
typedef platform_system::TcpConnection Conn;
static sock::Script *use(sock::Script &s) { sock::scripts.assign(1, &s); return &s; }

// ---- the message types: (how it is printed, written, read) without the type
struct Type {
  std::string name; size_t n;
  std::function<std::string(size_t)> want;                       // dump of value k
  std::function<std::string(size_t)> enc; std::function<bool(const std::string &, std::string &)> dec;    // KV bytes / JSON text
};
static std::string str(const B &b) { return std::string(b.begin(), b.end()); }
template <class T> Type levin(const std::string &n) { auto v = std::make_shared<fl::Values<T>>(); return Type{n, v->c.size(), [v](size_t k) { return fl::dump(v->get(k)); }, [v](size_t k) { return str(LevinProtocol::encode(v->get(k))); }, [](const std::string &s, std::string &o) { T t = T(); if (!LevinProtocol::decode(B(s.begin(), s.end()), t)) return false; o = fl::dump(t); return true; }}; }
template <class T> Type bin(const std::string &n) { auto v = std::make_shared<fl::Values<T>>(); return Type{n, v->c.size(), [v](size_t k) { return fl::dump(v->get(k)); }, [v](size_t k) { return storeToBinaryKeyValue(v->get(k)); }, [](const std::string &s, std::string &o) { T t = T(); if (!loadFromBinaryKeyValue(t, s)) return false; o = fl::dump(t); return true; }}; }
template <class T> Type json(const std::string &n) { auto v = std::make_shared<fl::Values<T>>(); return Type{n, v->c.size(), [v](size_t k) { return fl::dump(v->get(k)); }, [v](size_t k) { return storeToJson(v->get(k)); }, [](const std::string &s, std::string &o) { T t = T(); if (!loadFromJson(t, s)) return false; o = fl::dump(t); return true; }}; }
#define LV(T) levin<T>(#T)
#define BN(T) bin<T>(#T)
#define JS(T) json<T>(#T)
static std::vector<Type> levinTypes() { return {LV(NOTIFY_NEW_BLOCK_request), LV(NOTIFY_NEW_TRANSACTIONS_request), LV(NOTIFY_REQUEST_GET_OBJECTS_request), LV(NOTIFY_RESPONSE_GET_OBJECTS_request), LV(NOTIFY_REQUEST_CHAIN::request), LV(NOTIFY_RESPONSE_CHAIN_ENTRY_request), LV(NOTIFY_REQUEST_TX_POOL_request), LV(NOTIFY_NEW_LITE_BLOCK_request), LV(NOTIFY_MISSING_TXS_request), LV(COMMAND_HANDSHAKE::request), LV(COMMAND_HANDSHAKE::response), LV(COMMAND_TIMED_SYNC::request), LV(COMMAND_TIMED_SYNC::response), LV(COMMAND_PING::request), LV(COMMAND_PING::response)}; }
static std::vector<Type> rpcTypes() { return {BN(COMMAND_RPC_GET_BLOCKS_FAST::request), BN(COMMAND_RPC_GET_BLOCKS_FAST::response), BN(COMMAND_RPC_QUERY_BLOCKS::request), BN(COMMAND_RPC_QUERY_BLOCKS::response), BN(COMMAND_RPC_QUERY_BLOCKS_LITE::request), BN(COMMAND_RPC_QUERY_BLOCKS_LITE::response), BN(COMMAND_RPC_GET_TX_GLOBAL_OUTPUTS_INDEXES::request), BN(COMMAND_RPC_GET_TX_GLOBAL_OUTPUTS_INDEXES::response), BN(COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_request), BN(COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_response), BN(COMMAND_RPC_GET_POOL_CHANGES::request), BN(COMMAND_RPC_GET_POOL_CHANGES::response), BN(COMMAND_RPC_GET_POOL_CHANGES_LITE::request), BN(COMMAND_RPC_GET_POOL_CHANGES_LITE::response)}; }
static std::vector<Type> jsonTypes() { return {JS(COMMAND_RPC_GET_INFO::response), JS(COMMAND_RPC_GET_TRANSACTIONS::request), JS(COMMAND_RPC_GET_TRANSACTIONS::response), JS(COMMAND_RPC_SEND_RAW_TX::request), JS(COMMAND_RPC_SEND_RAW_TX::response), JS(COMMAND_RPC_GETBLOCKTEMPLATE::request), JS(COMMAND_RPC_GETBLOCKTEMPLATE::response), JS(BLOCK_HEADER_RESPONSE), JS(F_COMMAND_RPC_GET_BLOCKS_LIST::response), JS(F_COMMAND_RPC_GET_BLOCK_DETAILS::response), JS(F_COMMAND_RPC_GET_POOL::response), JS(COMMAND_RPC_GET_PEER_LIST::response), JS(COMMAND_RPC_GET_ALT_BLOCKS_LIST::response), JS(K_COMMAND_RPC_CHECK_TX_PROOF::request), JS(K_COMMAND_RPC_CHECK_TX_PROOF::response), JS(K_COMMAND_RPC_CHECK_RESERVE_PROOF::request), JS(K_COMMAND_RPC_CHECK_RESERVE_PROOF::response), JS(COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_response_json), JS(COMMAND_RPC_GET_TRANSACTIONS_WITH_OUTPUT_GLOBAL_INDEXES::request), JS(COMMAND_RPC_GET_RAW_TRANSACTIONS_POOL::response), JS(reserve_proof), JS(COMMAND_RPC_GET_BLOCK_TIMESTAMP_BY_HEIGHT::response), JS(COMMAND_RPC_START_MINING::request), JS(COMMAND_RPC_GET_BLOCK_DETAILS_BY_HEIGHT::response), JS(JsonRpc::JsonRpcError)}; }
static void roundTrips(mc::Session &S, const std::string &name, const std::vector<Type> &T) {
  std::vector<uint64_t> base; uint64_t tot = 0; for (auto &t : T) { base.push_back(tot); tot += t.n; }
  auto w = [=](uint64_t i) { size_t k = 0; while (k + 1 < base.size() && base[k + 1] <= i) ++k; return k; };
  S.enumerate(name, tot, [&](uint64_t i) -> std::string { const Type &t = T[w(i)]; size_t k = i - base[w(i)]; std::string want; try { want = t.want(k); } catch (std::exception &e) { return ""; }
    std::string e = t.enc(k), got; if (!t.dec(e, got)) return "its own encoding is refused"; if (got != want) { size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) ++d; d = d > 60 ? d - 60 : 0; return "read back as .." + got.substr(d, 120) + ".. instead of .." + want.substr(d, 120); } return ""; },
    [&](uint64_t i) { return "  " + T[w(i)].name + " value " + std::to_string(i - base[w(i)]); }, 128);
}

// ---- segmentations: every set of at most `c` cut positions among 1..n-1 (or among the given positions)
struct Cuts { std::vector<size_t> p; uint64_t n; explicit Cuts(size_t len, size_t maxPos = 0, const std::vector<size_t> &near = {}) { std::set<size_t> s; if (!maxPos || len <= maxPos) for (size_t i = 1; i < len; ++i) s.insert(i); else for (size_t x : near) for (long d = -2; d <= 2; ++d) if ((long)x + d > 0 && x + d < len) s.insert(x + d); p.assign(s.begin(), s.end()); uint64_t k = p.size(); n = 2 + k + k * (k - 1) / 2; }
  std::vector<size_t> get(uint64_t i, size_t len) const { std::vector<size_t> r; uint64_t k = p.size(); if (i == 0) return r; if (i == 1) { for (size_t j = 1; j < len; ++j) r.push_back(j); return r; } i -= 2; if (i < k) return {p[i]}; i -= k; for (uint64_t a = 0; a < k; ++a) { uint64_t m = k - a - 1; if (i < m) return {p[a], p[a + 1 + i]}; i -= m; } return r; } };
struct Msg { uint32_t cmd; int kind; size_t len; };              // kind 0 notify, 1 request, 2 reply
static const std::vector<std::vector<Msg>> &streams() { static std::vector<std::vector<Msg>> v = {{{1001, 1, 0}}, {{2001, 0, 1}}, {{2002, 2, 5}}, {{1003, 1, 33}, {1003, 2, 0}}, {{2001, 0, 7}, {2002, 0, 0}, {1002, 1, 3}}, {{0xffffffff, 2, 40}, {0, 0, 40}}, {{2008, 0, 20}, {2008, 0, 20}, {2008, 1, 1}, {2009, 2, 2}}, {{7, 1, 300}}}; return v; }
static B body(const Msg &m, size_t k) { B b; for (size_t i = 0; i < m.len; ++i) b.push_back((uint8_t)(i * 37 + k * 11 + m.cmd)); return b; }
static std::string sendAll(const std::vector<Msg> &ms, const std::vector<size_t> &takes) { sock::Script s; s.takes = takes; use(s); Conn c; LevinProtocol p(c); for (size_t k = 0; k < ms.size(); ++k) { B b = body(ms[k], k); if (ms[k].kind == 2) p.sendReply(ms[k].cmd, b, 1); else p.sendMessage(ms[k].cmd, b, ms[k].kind == 1); } return s.out; }
static std::string frame(const std::vector<Msg> &ms) { std::string o; for (size_t k = 0; k < ms.size(); ++k) { B b = body(ms[k], k); auto le = [&](uint64_t v, int n) { while (n--) { o += (char)v; v >>= 8; } }; le(0x0101010101012101ull, 8); le(b.size(), 8); le(ms[k].kind == 1, 1); le(ms[k].cmd, 4); le(ms[k].kind == 2 ? 1 : 0, 4); le(ms[k].kind == 2 ? 2 : 1, 4); le(1, 4); o += str(b); } return o; }
static std::string receive(const std::vector<Msg> &ms, const std::string &bytes, const std::vector<size_t> &cuts, size_t whole) {
  sock::Script s; s.in = bytes; s.cuts = cuts; use(s); Conn c; LevinProtocol p(c);
  for (size_t k = 0; k <= ms.size(); ++k) { LevinProtocol::Command cmd; bool ok; try { ok = p.readCommand(cmd); } catch (std::exception &e) { return std::string("message refused: ") + e.what(); }
    if (ok != (k < whole)) return ok ? "message " + std::to_string(k) + " was invented" : "message " + std::to_string(k) + " was lost"; if (!ok) return "";
    if (cmd.command != ms[k].cmd || cmd.buf != body(ms[k], k) || cmd.isNotify != (ms[k].kind != 1) || cmd.isResponse != (ms[k].kind == 2) || cmd.needReply() != (ms[k].kind == 1)) return "message " + std::to_string(k) + " arrives changed"; }
  return ""; }

// ---- HTTP
struct Req { std::string url; std::vector<std::pair<std::string, std::string>> h; std::string body; };
static std::vector<Req> reqs() { std::string all; for (int i = 0; i < 256; ++i) all += (char)i; return {{"/json_rpc", {}, "{}"}, {"/", {{"X-A", "b: c"}}, ""}, {"/getinfo?a=b:c", {{"Host", "10.0.0.1:8080"}, {"Authorization", "Basic dTpw"}, {"Referer", "http://a: b/"}}, all}, {"/x", {{"A", ""}, {"B", ":"}, {"C", " two  spaces "}}, "\r\n\r\nGET / HTTP/1.1\r\n"}, {"/b", {}, std::string(1, 0)}}; }
static std::string lower(std::string s) { for (char &c : s) c = tolower(c); return s; }
static std::string httpText(const Req &r) { HttpRequest q; q.setUrl(r.url); for (auto &h : r.h) q.addHeader(h.first, h.second); q.setBody(r.body); std::ostringstream o; o << q; return o.str(); }
static std::string readReqs(const std::vector<Req> &rs, const std::string &bytes, const std::vector<size_t> &cuts, size_t whole) {
  sock::Script s; s.in = bytes; s.cuts = cuts; use(s); Conn c; { platform_system::TcpStreambuf sb(c); std::iostream st(&sb); HttpParser p;
  for (size_t k = 0; k <= rs.size(); ++k) { HttpRequest q; bool ok = true; try { p.receiveRequest(st, q); } catch (std::exception &) { ok = false; } if (ok != (k < whole)) return ok ? "request " + std::to_string(k) + " was invented" : "request " + std::to_string(k) + " was lost"; if (!ok) return "";
    std::map<std::string, std::string> h; bool host = false; for (auto &x : rs[k].h) { h[lower(x.first)] = x.second; host |= x.first == "Host"; } if (!host) h["host"] = "127.0.0.1"; if (!rs[k].body.empty()) h["content-length"] = std::to_string(rs[k].body.size());
    if (q.getMethod() != "POST" || q.getUrl() != rs[k].url || q.getBody() != rs[k].body) return "request " + std::to_string(k) + " arrives changed"; if (q.getHeaders() != h) { std::string d; for (auto &x : q.getHeaders()) d += " [" + x.first + "=" + x.second + "]"; return "headers of request " + std::to_string(k) + " arrive as" + d; } } }
  return ""; }
struct Srv : HttpServer { std::vector<std::string> seen; Srv(platform_system::Dispatcher &d, logging::ILogger &l) : HttpServer(d, l) {} void processRequest(const HttpRequest &q, HttpResponse &r) override { seen.push_back(q.getUrl() + "|" + q.getBody()); r.setStatus(HttpResponse::STATUS_200); r.setBody("re:" + q.getUrl() + ":" + q.getBody()); } };
struct Quiet : logging::ILogger { void operator()(const std::string &, logging::Level, boost::posix_time::ptime, const std::string &) override {} };

// ---- JSON reference reader: value of the longest prefix that is a JSON text (0 = refused)
struct JRef { const std::string &s; size_t p = 0; bool bad = false; JRef(const std::string &x) : s(x) {}
  int c() { return p < s.size() ? (unsigned char)s[p] : -1; } void ws() { while (c() == ' ' || c() == '\n' || c() == '\t' || c() == '\r' || c() == '\v' || c() == '\f') ++p; }
  std::string strv() { std::string o; ++p; for (;;) { if (c() < 0) { bad = true; return o; } if (c() == '"') { ++p; return o; } if (c() == '\\') { ++p; int e = c(); ++p; switch (e) { case '"': case '\\': case '/': o += (char)e; break; case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; default: bad = true; return o; } } else o += s[p++]; } }
  static std::string q(const std::string &x) { return "\"" + fl::Dumper::hx(x.data(), x.size()) + "\""; }
  std::string val() { ws(); int k = c(); if (k == '"') return q(strv()); auto lit = [&](const char *l) { size_t n = strlen(l); if (s.compare(p, n, l) == 0) { p += n; return true; } bad = true; return false; };
    if (k == 't') return lit("true") ? "T" : ""; if (k == 'f') return lit("false") ? "F" : ""; if (k == 'n') return lit("null") ? "N" : "";
    if (k == '-' || (k >= '0' && k <= '9')) { size_t b = p; if (k == '-') ++p; size_t d = p; while (isdigit(c())) ++p; if (p == d) { bad = true; return ""; } if (s[d] == '0' && p - d > 1) { bad = true; return ""; } if (c() == '.') { ++p; size_t f = p; while (isdigit(c())) ++p; if (p == f || c() == '.') { bad = true; return ""; } std::ostringstream o; o << "R" << atof(s.substr(b, p - b).c_str()); return o.str(); } if (s[d] == '0' && k == '-') { bad = true; return ""; } errno = 0; long long v = strtoll(s.substr(b, p - b).c_str(), 0, 10); if (errno) { bad = true; return ""; } return "I" + std::to_string(v); }
    if (k == '[') { ++p; std::string o = "["; ws(); if (c() == ']') { ++p; return o + "]"; } for (;;) { o += val() + ","; if (bad) return o; ws(); int e = c(); ++p; if (e == ']') return o + "]"; if (e != ',') { bad = true; return o; } } }
    if (k == '{') { ++p; std::map<std::string, std::string> m; ws(); if (c() == '}') { ++p; return "{}"; } for (;;) { ws(); if (c() != '"') { bad = true; return ""; } std::string n = strv(); if (bad) return ""; ws(); if (c() != ':') { bad = true; return ""; } ++p; m[n] = val(); if (bad) return ""; ws(); int e = c(); ++p; if (e == '}') break; if (e != ',') { bad = true; return ""; } } std::string o = "{"; for (auto &x : m) o += q(x.first) + ":" + x.second + ","; return o + "}"; }
    bad = true; return ""; } };
static std::string jdump(const common::JsonValue &v) { using common::JsonValue; if (v.isString()) return JRef::q(v.getString()); if (v.isBool()) return v.getBool() ? "T" : "F"; if (v.isNil()) return "N"; if (v.isInteger()) return "I" + std::to_string(v.getInteger()); if (v.isReal()) { std::ostringstream o; o << "R" << v.getReal(); return o.str(); } if (v.isArray()) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) o += jdump(v[i]) + ","; return o + "]"; } std::string o = "{"; for (auto &x : v.getObject()) o += JRef::q(x.first) + ":" + jdump(x.second) + ","; return o == "{" ? "{}" : o + "}"; }
static std::string judgeJson(const std::string &t) { JRef r(t); std::string want = r.val(); std::string got; bool ok = true; try { got = jdump(common::JsonValue::fromString(t)); } catch (std::exception &) { ok = false; }
  if (!ok) return r.bad || want[0] == (char)82 ? "" : "refused";
  if (r.bad) { /* two leniencies: "1." and "-." forms of reals */ if (t.find('.') != std::string::npos) return ""; return "read as " + got + " although it is not JSON"; } return got == want ? "" : "read as " + got + " instead of " + want; }
static std::string jtext(uint64_t i, int *len = nullptr) { static const char A[] = "{}[]\":,-10. tn\\/u"; const int K = 17; int L = 0; uint64_t n = 1; while (i >= n) { i -= n; ++L; n *= K; } std::string s; while (L--) { s += A[i % K]; i /= K; } return s; }

static void c13(mc::Session &S) {
  auto L = levinTypes(), R = rpcTypes(), J = jsonTypes();
  roundTrips(S, "peer-messages", L); roundTrips(S, "rpc-binary", R); roundTrips(S, "rpc-json", J);
  S.enumerate("json-strings", 256 + 65536 + 4096, [](uint64_t i) -> std::string { std::string v; if (i < 256) v = std::string(1, (char)i); else if (i < 65792) { i -= 256; v = std::string(1, (char)(i >> 8)) + (char)i; } else { i -= 65792; static const char A[] = "\"\\nu0/\x01x"; for (int k = 0; k < 4; ++k) { v += A[i % 8]; i /= 8; } }
      common::JsonValue o(common::JsonValue::OBJECT); o.set("k", v); o.set(v + "k", std::string("w")); std::string t = o.toString(); JRef r(t); std::string w = jdump(o), rv; bool esc = t.find("\\u") != std::string::npos; if (!esc) { rv = r.val(); if (r.bad || rv != w) return "written as text that is not JSON for it: " + t; } try { if (jdump(common::JsonValue::fromString(t)) != w) return "read back differently from " + t; } catch (std::exception &) { return "its own text is refused: " + t; } return ""; }, [](uint64_t i) { return "  string case " + std::to_string(i); }, 1024);
  S.enumerate("json-codepoints", 0x110000 / 16, [](uint64_t i) -> std::string { for (uint32_t c = i * 16; c < i * 16 + 16; ++c) { char b[40]; bool sur = c >= 0xd800 && c < 0xe000; if (c < 0x10000) snprintf(b, 40, "\"\\u%04x\"", c); else snprintf(b, 40, "\"\\u%04X\\u%04x\"", 0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff)); std::string u; if (c < 0x80) u += (char)c; else if (c < 0x800) { u += (char)(0xc0 | c >> 6); u += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { u += (char)(0xe0 | c >> 12); u += (char)(0x80 | (c >> 6 & 63)); u += (char)(0x80 | (c & 63)); } else { u += (char)(0xf0 | c >> 18); u += (char)(0x80 | (c >> 12 & 63)); u += (char)(0x80 | (c >> 6 & 63)); u += (char)(0x80 | (c & 63)); }
      bool ok = true; std::string g; try { g = common::JsonValue::fromString(b).getString(); } catch (std::exception &) { ok = false; } if (ok == sur) return std::string(b) + (ok ? " accepted" : " refused"); if (ok && g != u) return std::string(b) + " read as something else"; } return ""; }, [](uint64_t i) { return "  code points from " + std::to_string(i * 16); }, 256);
  uint64_t nj = 1; { uint64_t p = 1; for (int k = 0; k < (S.thorough() ? 6 : 5); ++k) { p *= 17; nj += p; } }
  S.enumerate("json-texts", nj, [](uint64_t i) { return judgeJson(jtext(i)); }, [](uint64_t i) { return "  text " + jtext(i); }, 8192);
  static const char *NUM[] = {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "99999999999999999999999", "-", "--1", "1e5", "1.5e3", "1.5e+3", "1.5e-3", "1.5e", "0.1", "-0.5", "true", "tru", "[true,tru]", "nul", "fals", "[1,]", "{\"a\":1,}", "{\"a\":1,\"a\":2}"};
  S.enumerate("json-numbers", sizeof(NUM) / sizeof(*NUM), [](uint64_t i) -> std::string { std::string t = NUM[i]; if (t.find('e') != std::string::npos && isdigit(t[0])) { bool ok = true; double d = 0; try { d = common::JsonValue::fromString(t).getReal(); } catch (std::exception &) { ok = false; } return t == "1.5e" || t == "1e5" ? "" : ok && d == atof(t.c_str()) ? "" : "read as something else"; } return judgeJson(t); }, [](uint64_t i) { return std::string("  ") + NUM[i]; }, 1);
  // short and long keys in JSON must be refused, not partly filled
  S.enumerate("json-hashes", 68, [](uint64_t n) -> std::string { COMMAND_RPC_GET_BLOCKS_FAST::request q; (void)q; struct X { crypto::Hash h; void serialize(ISerializer &s) { s(h, "h"); } } x; memset(&x, 0xee, sizeof x); std::string t = "{\"h\":\"" + std::string(n, 'a') + "\"}"; bool ok = loadFromJson(x, t); return ok == (n == 64) ? "" : ok ? "accepted" : "refused"; }, [](uint64_t n) { return "  a hash of " + std::to_string(n) + " digits"; }, 4);
  // framing
  auto &ST = streams(); std::vector<Cuts> C; std::vector<uint64_t> base; uint64_t tot = 0; for (auto &m : ST) { size_t len = frame(m).size(); C.emplace_back(len); base.push_back(tot); tot += C.back().n; }
  auto w = [&](uint64_t i) { size_t k = 0; while (k + 1 < base.size() && base[k + 1] <= i) ++k; return k; };
  auto cutShow = [](const std::vector<size_t> &c) { std::string s; for (size_t i = 0; i < c.size() && i < 6; ++i) s += " " + std::to_string(c[i]); return s; };
  S.enumerate("frames-read", tot, [&](uint64_t i) -> std::string { size_t k = w(i); std::string f = frame(ST[k]); return receive(ST[k], f, C[k].get(i - base[k], f.size()), ST[k].size()); }, [&](uint64_t i) { size_t k = w(i); return "  message stream " + std::to_string(k) + " arriving in pieces cut at" + cutShow(C[k].get(i - base[k], frame(ST[k]).size())); }, 2048);
  S.enumerate("frames-cut-off", 0 + [&] { uint64_t t = 0; for (auto &m : ST) t += frame(m).size() * 2; return t; }(), [&](uint64_t i) -> std::string { size_t k = 0; bool one = i & 1; uint64_t j = i / 2; while (j >= frame(ST[k]).size()) j -= frame(ST[k++]).size(); std::string f = frame(ST[k]); size_t whole = 0, at = 0; for (size_t m = 0; m < ST[k].size(); ++m) { at += 33 + ST[k][m].len; if (at <= j) ++whole; } f.resize(j); return receive(ST[k], f, one ? Cuts(j).get(1, j) : std::vector<size_t>(), whole); }, [](uint64_t i) { return "  cut-off case " + std::to_string(i); }, 256);
  S.enumerate("frames-written", ST.size() * 7 * 7 * 7 * 7, [&](uint64_t i) -> std::string { static const size_t TK[] = {1, 2, 8, 32, 33, 34, 100000}; auto &m = ST[i % ST.size()]; i /= ST.size(); std::vector<size_t> t; for (int k = 0; k < 4; ++k) { t.push_back(TK[i % 7]); i /= 7; } return sendAll(m, t) == frame(m) ? "" : "the bytes on the wire are not the message"; }, [](uint64_t i) { return "  write pattern " + std::to_string(i); }, 512);
  S.enumerate("frame-heads", 33 * 256, [&](uint64_t i) -> std::string { std::vector<Msg> m = {{2001, 0, 3}}; std::string f = frame(m); size_t p = i / 256; uint8_t o = f[p]; f[p] = (char)(i % 256); if (p == 16 && i % 256 > 1) return ""; bool same = o == (uint8_t)f[p]; sock::Script s; s.in = f; use(s); Conn c; LevinProtocol lp(c); LevinProtocol::Command cmd; bool ok = true; try { ok = lp.readCommand(cmd); } catch (std::exception &) { ok = false; }
      if (p < 8) return ok == same ? "" : "wrong signature accepted"; uint64_t len = 0; for (int k = 0; k < 8; ++k) len |= (uint64_t)(uint8_t)f[8 + k] << (8 * k); if (p < 16) return ok == (len <= 3) ? "" : "wrong length accepted"; if (!ok) return "refused"; uint32_t cm = 0, fl = 0; for (int k = 0; k < 4; ++k) { cm |= (uint32_t)(uint8_t)f[17 + k] << (8 * k); fl |= (uint32_t)(uint8_t)f[25 + k] << (8 * k); } return cmd.command == cm && cmd.isNotify == (f[16] == 0) && cmd.isResponse == ((fl & 2) != 0) ? "" : "header read differently"; }, [](uint64_t i) { return "  header byte " + std::to_string(i / 256) + " = " + std::to_string(i % 256); }, 128);
  // the stream buffer between HTTP and the socket
  S.enumerate("stream-writes", 9ull * 9 * 9 * 2 * 2 * 2 * 6 * 6 * 6, [](uint64_t i) -> std::string { static const size_t Z[] = {0, 1, 2, 700, 1023, 1024, 1025, 2047, 3100}; static const size_t TK[] = {1, 100, 1023, 1024, 1 << 20, 511}; Dice d{i}; sock::Script s; std::string want; size_t sz[3]; bool fl[3]; for (auto &x : sz) x = Z[d.pick(9)]; for (auto &x : fl) x = d.pick(2); for (int k = 0; k < 3; ++k) s.takes.push_back(TK[d.pick(6)]); use(s); Conn c; { platform_system::TcpStreambuf sb(c); std::iostream st(&sb); uint32_t n = 0; for (int k = 0; k < 3; ++k) { std::string part; for (size_t j = 0; j < sz[k]; ++j) part += (char)(n++ * 31 >> 2); want += part; st << part; if (fl[k]) { st.flush(); if (s.out != want) return "flush left bytes behind"; } if (!st.good()) return "the stream went bad"; } } return s.out == want ? "" : "the bytes on the wire differ (" + std::to_string(s.out.size()) + " of " + std::to_string(want.size()) + ")"; }, [](uint64_t i) { return "  write case " + std::to_string(i); }, 1024);
  auto RQ = reqs(); std::vector<std::vector<Req>> RS; for (auto &r : RQ) RS.push_back({r}); for (auto &a : RQ) for (auto &b : RQ) RS.push_back({a, b});
  { Req big{"/big", {{"H", std::string(300, 'h')}}, std::string(9000, 'B')}; for (size_t i = 0; i < 9000; ++i) big.body[i] = (char)(i * 13 >> 3); RS.push_back({big, RQ[0]}); }
  std::vector<Cuts> HC; std::vector<uint64_t> hb; uint64_t ht = 0; std::vector<std::string> HT; for (auto &r : RS) { std::string t; std::vector<size_t> near; for (auto &x : r) { std::string u = httpText(x); near.push_back(t.size() + u.find("\r\n\r\n")); near.push_back(t.size() + u.find("\r\n\r\n") + 4); t += u; near.push_back(t.size()); near.push_back(4096); near.push_back(8192); near.push_back(t.size() / 2); } HT.push_back(t); HC.emplace_back(t.size(), S.thorough() ? 900 : 420, near); hb.push_back(ht); ht += HC.back().n; }
  auto hw = [&](uint64_t i) { size_t k = 0; while (k + 1 < hb.size() && hb[k + 1] <= i) ++k; return k; };
  S.enumerate("http-requests", ht, [&](uint64_t i) -> std::string { size_t k = hw(i); return readReqs(RS[k], HT[k], HC[k].get(i - hb[k], HT[k].size()), RS[k].size()); }, [&](uint64_t i) { size_t k = hw(i); return "  request stream " + std::to_string(k) + " in pieces cut at" + cutShow(HC[k].get(i - hb[k], HT[k].size())); }, 512);
  uint64_t co = 0; for (auto &t : HT) co += t.size();
  S.enumerate("http-cut-off", co, [&](uint64_t i) -> std::string { size_t k = 0; while (i >= HT[k].size()) i -= HT[k++].size(); size_t whole = 0, at = 0; for (auto &r : RS[k]) { at += httpText(r).size(); if (at <= i) ++whole; } return readReqs(RS[k], HT[k].substr(0, i), {}, whole); }, [](uint64_t i) { return "  cut-off case " + std::to_string(i); }, 256);
  // requests and responses without or with odd headers, written by somebody else
  struct Raw { const char *t; bool ok; const char *m, *u; std::map<std::string, std::string> h; const char *b; }; static const std::vector<Raw> RAW = {{"GET / HTTP/1.1\r\n\r\n", true, "GET", "/", {}, ""}, {"GET /a HTTP/1.0\r\n\r\nGET /b HTTP/1.0\r\n\r\n", true, "GET", "/a", {}, ""}, {"POST /x HTTP/1.1\r\nCONTENT-length:3\r\n\r\nabc", true, "POST", "/x", {{"content-length", "3"}}, "abc"}, {"POST /x HTTP/1.1\r\nA:b\r\nContent-Length: 3\r\nC: d:e\r\n\r\nabcdef", true, "POST", "/x", {{"a", "b"}, {"content-length", "3"}, {"c", "d:e"}}, "abc"}, {"POST /x HTTP/1.1\r\nContent-Length: x\r\n\r\n", false, "", "", {}, ""}, {"POST /x HTTP/1.1\r\n: v\r\n\r\n", false, "", "", {}, ""}, {"GET / HTTP/1.1\rX\r\n\r\n", false, "", "", {}, ""}, {"GET / HTTP/1.1\r\nA: b\rX\r\n\r\n", false, "", "", {}, ""}, {"POST / HTTP/1.1\r\nContent-Length: 4\r\n\r\nabc", false, "", "", {}, ""}, {"GET / HTTP/1.1\r\nA: b\r\nC: \r\n\r\n", true, "GET", "/", {{"a", "b"}, {"c", ""}}, ""}};
  S.enumerate("http-raw", RAW.size() * 2, [](uint64_t i) -> std::string { const Raw &r = RAW[i / 2]; sock::Script s; s.in = r.t; if (i & 1) s.cuts = Cuts(s.in.size()).get(1, s.in.size()); use(s); Conn c; platform_system::TcpStreambuf sb(c); std::iostream st(&sb); HttpParser p; HttpRequest q; bool ok = true; try { p.receiveRequest(st, q); } catch (std::exception &) { ok = false; } if (ok != r.ok) return ok ? "accepted" : "refused"; if (!ok) return ""; if (q.getMethod() != r.m || q.getUrl() != r.u || q.getBody() != r.b) return "read as " + q.getMethod() + " " + q.getUrl() + " body '" + q.getBody() + "'"; if (q.getHeaders() != r.h) return "headers differ"; return ""; }, [](uint64_t i) { return std::string("  ") + RAW[i / 2].t; }, 1);
  struct RS_ { int st; std::vector<std::pair<std::string, std::string>> h; std::string b; }; std::vector<RS_> RP; std::string all; for (int i = 0; i < 256; ++i) all += (char)i; for (int st = 0; st < 4; ++st) for (int h = 0; h < 3; ++h) for (int b = 0; b < 4; ++b) { RS_ r; r.st = st; if (h) r.h.push_back({"X-Y", h == 1 ? "v: w" : ""}); r.b = b == 0 ? "" : b == 1 ? "x" : b == 2 ? all : std::string(5000, 'r'); RP.push_back(r); }
  static const HttpResponse::HTTP_STATUS STS[] = {HttpResponse::STATUS_200, HttpResponse::STATUS_401, HttpResponse::STATUS_404, HttpResponse::STATUS_500};
  S.enumerate("http-responses", RP.size() * 600, [&](uint64_t i) -> std::string { const RS_ &r = RP[i % RP.size()]; uint64_t cut = i / RP.size(); HttpResponse a; a.setStatus(STS[r.st]); for (auto &h : r.h) a.addHeader(h.first, h.second); a.setBody(r.b); std::ostringstream o; o << a; std::string t = o.str(); sock::Script s; s.in = t + t; if (cut == 599) s.cuts = Cuts(s.in.size()).get(1, s.in.size()); else if (cut) s.cuts = {cut}; use(s); Conn c; platform_system::TcpStreambuf sb(c); std::iostream st(&sb); HttpParser p;
      for (int k = 0; k < 2; ++k) { HttpResponse q; try { p.receiveResponse(st, q); } catch (std::exception &e) { return std::string("refused: ") + e.what(); } if (q.getStatus() != STS[r.st] || q.getBody() != r.b) return "arrives changed"; auto h = q.getHeaders(); for (auto &x : r.h) if (h[lower(x.first)] != x.second) return "header " + x.first + " arrives as '" + h[lower(x.first)] + "'"; } return ""; }, [](uint64_t i) { return "  response case " + std::to_string(i); }, 512);
  // the whole server: pipelined requests, credentials, partial writes
  S.enumerate("http-server", 5 * 6 * 4 * 300, [&](uint64_t i) -> std::string { Dice d{i}; size_t cred = d.pick(5), hdr = d.pick(6), wr = d.pick(4), cut = d.pick(300); static const char *U[] = {"", "u", "user", "", "\xd0\xb8:"}, *P[] = {"", "p", "", "secret", "a:b"}; std::string want = std::string(U[cred]) + ":" + P[cred]; bool open = want == ":";
      auto b64 = [](const std::string &s) { static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; for (size_t k = 0; k < s.size(); k += 3) { uint32_t v = (uint8_t)s[k] << 16 | (k + 1 < s.size() ? (uint8_t)s[k + 1] << 8 : 0) | (k + 2 < s.size() ? (uint8_t)s[k + 2] : 0); o += A[v >> 18]; o += A[v >> 12 & 63]; o += k + 1 < s.size() ? A[v >> 6 & 63] : '='; o += k + 2 < s.size() ? A[v & 63] : '='; } return o; };
      std::string good = b64(want); std::string h; bool ok = false; switch (hdr) { case 0: break; case 1: h = "Basic " + good; ok = true; break; case 2: h = "Basic " + good.substr(0, good.size() - 1); break; case 3: h = "basic " + good; break; case 4: h = good; break; case 5: h = "Basic " + b64(want + "x"); break; } ok = ok || open;
      auto rq = [&](const std::string &u, const std::string &b) { Req r{u, {}, b}; if (!h.empty()) r.h.push_back({"Authorization", h}); return httpText(r); };
      sock::Script s; s.in = rq("/one", "body1") + rq("/two", "") + rq("/three", std::string(900, 'k')); if (cut == 299) s.cuts = Cuts(s.in.size()).get(1, s.in.size()); else if (cut) s.cuts = {cut, cut * 2 + 7}; if (wr == 1) s.takes = std::vector<size_t>(5000, 1); if (wr == 2) s.takes = {7, 1000, 3, 50}; if (wr == 3) s.failAfter = 500; use(s); sock::toAccept.assign(1, 0);
      static Quiet q; platform_system::Dispatcher disp; Srv srv(disp, q); srv.start("0.0.0.0", 1, U[cred], P[cred]); for (int k = 0; k < 20; ++k) disp.yield(); srv.stop();
      auto resp = [&](const std::string &u, const std::string &b) { HttpResponse r; r.addHeader("Access-Control-Allow-Origin", "*"); r.addHeader("Content-Type", "application/json"); if (ok) { r.setStatus(HttpResponse::STATUS_200); r.setBody("re:" + u + ":" + b); } else { r.setStatus(HttpResponse::STATUS_401); r.addHeader("WWW-Authenticate", "Basic realm=\"RPC\""); r.addHeader("Content-Type", "text/plain"); r.setBody("Authorization required"); } std::ostringstream o; o << r; return o.str(); };
      std::string w = resp("/one", "body1") + resp("/two", "") + resp("/three", std::string(900, 'k')); if (!ok && !srv.seen.empty()) return "a request without the right credentials was processed"; if (wr == 3) return w.compare(0, s.out.size(), s.out) ? "wrong bytes sent" : ""; if (ok && srv.seen.size() != 3) return std::to_string(srv.seen.size()) + " of 3 requests were processed"; if (ok && (srv.seen[0] != "/one|body1" || srv.seen[1] != "/two|" || srv.seen[2] != "/three|" + std::string(900, 'k'))) return "requests were changed or reordered"; return s.out == w ? "" : "the answer is not what was to be sent: " + s.out.substr(0, 200); }, [](uint64_t i) { return "  server case " + std::to_string(i); }, 128);
}

// ---------------------------------------------------------------- C14
static std::string fmt(uint64_t i) { return std::to_string(i); }
static void edits(mc::Session &S, const std::string &name, const std::vector<std::pair<std::string, std::string>> &corpus, size_t window, std::function<void(const std::string &)> f) {
  Family F; for (auto &c : corpus) F.add(c.first, B(c.second.begin(), c.second.end()), window);
  S.enumerate(name, F.total, [&](uint64_t i) -> std::string { std::string s = str(F.get(i)); g_big = 0; f(s); return memCheck(s.size()); }, [&](uint64_t i) { return F.show(i); }, 256, 20);
}
static void typeEdits(mc::Session &S, const std::string &name, const std::vector<Type> &T, size_t window) {
  std::vector<std::pair<std::string, std::string>> c; std::vector<size_t> ty; Family F; std::vector<size_t> own; for (size_t k = 0; k < T.size(); ++k) { std::string e = T[k].enc(0); F.add(T[k].name, B(e.begin(), e.end()), window); }
  S.enumerate(name, F.total, [&](uint64_t i) -> std::string { std::string s = str(F.get(i)), o; g_big = 0; size_t k = F.which(i); T[k].dec(s, o); return memCheck(s.size()); }, [&](uint64_t i) { return F.show(i); }, 256, 20);
  S.enumerate(name + "-crossed", T.size() * T.size(), [&](uint64_t i) -> std::string { std::string s = T[i / T.size()].enc(0), o; g_big = 0; T[i % T.size()].dec(s, o); return memCheck(s.size()); }, [&](uint64_t i) { return "  " + T[i / T.size()].name + " read as " + T[i % T.size()].name; }, 8);
}
struct Deep { std::function<void()> f; };
static void *deepRun(void *p) { ((Deep *)p)->f(); return nullptr; }
static void onSmallStack(std::function<void()> f) { pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 512 * 1024); pthread_t t; Deep d{f}; if (pthread_create(&t, &a, deepRun, &d)) abort(); pthread_join(t, nullptr); }
static std::string nest(size_t kind, size_t n) {
  std::string s; switch (kind) {
  case 0: return std::string(n, '['); case 1: return std::string(n, '[') + std::string(n, ']'); case 2: for (size_t i = 0; i < n; ++i) s += "{\"a\":"; return s + "1" + std::string(n, '}'); case 3: for (size_t i = 0; i < n; ++i) s += "[{\"a\":"; return s;
  default: { static const uint8_t H[] = {1, 0x11, 1, 1, 1, 1, 2, 1, 1}; s.assign((const char *)H, 9);
    if (kind == 4) { for (size_t i = 0; i < n; ++i) s += std::string("\x04\x01x\x0c", 4); s += std::string(1, 0); }              // section in section
    else if (kind == 5) { s += std::string("\x04\x01x\x8c", 4); for (size_t i = 0; i < n; ++i) s += std::string("\x04\x04\x01x\x8c", 5); }   // arrays of sections
    else if (kind == 6) { s += std::string("\x04\x01x\x8d", 4); s += std::string(n, '\x04'); }                                      // arrays of arrays
    else { s += std::string("\x04\x01x\x0d", 4); s += std::string(n, '\x04'); } return s; } } }
static void c14(mc::Session &S) {
  auto L = levinTypes(), R = rpcTypes(), J = jsonTypes(); size_t win = S.thorough() ? 2000 : 260;
  typeEdits(S, "peer-messages", L, win); typeEdits(S, "rpc-binary", R, win); typeEdits(S, "rpc-json", J, S.thorough() ? 600 : 120);
  edits(S, "frames", {{"request", frame({{1001, 1, 20}, {2001, 0, 4}})}, {"reply", frame({{1001, 2, 3}})}}, 200, [](const std::string &b) { sock::Script s; s.in = b; use(s); Conn c; LevinProtocol p(c); try { LevinProtocol::Command m; while (p.readCommand(m)) {} } catch (std::exception &) {} });
  std::vector<std::pair<std::string, std::string>> H; for (auto &r : reqs()) H.push_back({"request " + r.url, httpText(r)});
  edits(S, "http-requests", H, 200, [](const std::string &b) { sock::Script s; s.in = b; use(s); Conn c; platform_system::TcpStreambuf sb(c); std::iostream st(&sb); HttpParser p; try { for (;;) { HttpRequest q; p.receiveRequest(st, q); } } catch (std::exception &) {} });
  edits(S, "http-responses", {{"200", "HTTP/1.1 200 OK\r\nContent-Length: 5\r\nX: y\r\n\r\nhello"}, {"500", "HTTP/1.1 500 Internal Server Error\r\nContent-Length: 0\r\n\r\n"}}, 200, [](const std::string &b) { sock::Script s; s.in = b; use(s); Conn c; platform_system::TcpStreambuf sb(c); std::iostream st(&sb); HttpParser p; try { for (;;) { HttpResponse q; p.receiveResponse(st, q); } } catch (std::exception &) {} });
  edits(S, "json-rpc", {{"call", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"getblockhash\",\"params\":[5]}"}, {"params", "{\"method\":\"x\",\"params\":{\"height\":1,\"hash\":\"" + std::string(64, 'a') + "\",\"l\":[1,2.5,true,null,\"s\\u00e9\"]}}"}}, 300, [](const std::string &b) { try { JsonRpc::JsonRpcRequest q; q.parseRequest(b); F_COMMAND_RPC_GET_BLOCK_DETAILS::request r; q.loadParams(r); q.getBody(); std::vector<uint64_t> v; q.loadParams(v); } catch (std::exception &) {} try { JsonRpc::JsonRpcResponse q; q.parse(b); JsonRpc::JsonRpcError e; q.getError(e); BLOCK_HEADER_RESPONSE r; q.getResult(r); } catch (std::exception &) {} });
  // what travels inside: blocks, transactions, extra fields
  std::vector<std::pair<std::string, std::string>> O; for (int k = 0; k < SMALL; ++k) O.push_back({"transaction " + fmt(k), str(cr::tx(small(k)))}); for (int k = 0; k < BLK; ++k) O.push_back({"block " + fmt(k), str(cr::block(blk(k)))});
  edits(S, "objects", O, S.thorough() ? 400 : 160, [](const std::string &s) { B b(s.begin(), s.end()); Transaction t; crypto::Hash h, p; if (parseAndValidateTransactionFromBinaryArray(b, t, h, p)) { uint64_t f; get_inputs_money_amount(t, f); check_inputs_types_supported(t); std::string e; check_outs_valid(t, &e); check_money_overflow(t); check_inputs_overflow(t); } Block x; if (fromBinaryArray(x, b)) { get_block_hash(x); crypto::Hash r; get_block_longhash; get_aux_block_header_hash(x, r); get_tx_tree_hash(x); } try { auto q = createTransaction(b); for (size_t i = 0; i < q->getInputCount() && i < 50; ++i) q->getInputType(i); q->getInputTotalAmount(); q->getOutputTotalAmount(); for (size_t i = 0; i < q->getOutputCount() && i < 50; ++i) q->getOutputType(i); crypto::Hash id; q->getPaymentId(id); q->validateInputs(); q->validateOutputs(); q->validateSignatures(); } catch (std::exception &) {} });
  std::vector<std::pair<std::string, std::string>> X; { B e; addTransactionPublicKeyToExtra(e, pod<crypto::PublicKey>(1)); B n; crypto::Hash pid = hsh(4); setPaymentIdToTransactionExtraNonce(n, pid); addExtraNonceToTransactionExtra(e, n); tx_extra_message m; m.data = "hello there, message"; std::vector<TransactionExtraField> v; writeTransactionExtra(e, {}); X.push_back({"key and nonce", str(e)}); TransactionExtraMergeMiningTag mt; mt.depth = 3; mt.merkleRoot = hsh(2); B f; appendMergeMiningTagToExtra(f, mt); X.push_back({"merge mining tag", str(f)}); B g; append_message_to_extra(g, m); appendTTLToExtra(g, 77777); X.push_back({"message and ttl", str(g)}); X.push_back({"padding", std::string(40, 0)}); }
  edits(S, "extra", X, 400, [](const std::string &s) { B b(s.begin(), s.end()); std::vector<TransactionExtraField> f; if (parseTransactionExtra(b, f)) { B o; writeTransactionExtra(o, f); } crypto::Hash id; getPaymentIdFromTxExtra(b, id); getTransactionPublicKeyFromExtra(b); TransactionExtraMergeMiningTag t; getMergeMiningTagFromExtra(b, t); crypto::PublicKey pk = pod<crypto::PublicKey>(3); crypto::SecretKey sk = pod<crypto::SecretKey>(4); get_messages_from_extra(b, pk, &sk); });
  // texts a user or client may hand in
  static const std::vector<std::pair<std::string, std::string>> TX = {{"address", "ccx7Zbm7PjafXKvb3naqpGXzhhpXhLJxtEcKSGhSXg3xTGWpvf7NS7sLGKV5zMWuMWeo9BtVWZcBjNJmeQbGjYrc6ZGXrPpLXp"}, {"phrase", "abbey abducts ability ablaze abnormal abort abrasive absorb abyss academy aces aching acidic acoustic acquire across actress acumen adapt addicted adept adhesive adjust adopt adopt"}, {"amount", "123456.654321"}, {"hex", "00ff10"}, {"proof", "ReserveProofV11" + std::string(80, '1')}};
  edits(S, "texts", TX, 200, [](const std::string &s) { uint64_t p; AccountPublicAddress a; parseAccountAddressString(p, a, s); try { mnemonics::mnemonicToPrivateKey(s); } catch (std::exception &) {} std::vector<uint8_t> v; common::fromHex(s, v); crypto::Hash h; common::podFromHex(s, h); try { tools::base_64::encode(s); } catch (std::exception &) {} });
  // nesting
  static const size_t DN[] = {1, 10, 90, 99, 100, 101, 110, 500, 2000, 5000, 20000, 100000, 1000000};
#ifndef __SANITIZE_ADDRESS__
  S.enumerate("nesting", 8 * 13, [](uint64_t i) -> std::string { std::string t = nest(i / 13, DN[i % 13]); g_big = 0; std::string r; onSmallStack([&] { if (i / 13 < 4) { try { common::JsonValue v = common::JsonValue::fromString(t); std::string o = v.toString(); } catch (std::exception &) {} try { COMMAND_RPC_GET_INFO::response q; loadFromJson(q, t); } catch (std::exception &) {} } else { NOTIFY_NEW_TRANSACTIONS_request q; LevinProtocol::decode(B(t.begin(), t.end()), q); COMMAND_HANDSHAKE::request h; LevinProtocol::decode(B(t.begin(), t.end()), h); } }); return memCheck(t.size()); }, [](uint64_t i) { return "  nesting of kind " + std::to_string(i / 13) + ", " + std::to_string(DN[i % 13]) + " levels, on a network thread's stack"; }, 1);
#endif
}
int main(int argc, char **argv) {
  mc::Session S(argc, argv); S.assumptions = {"the socket layer is replaced by a scripted connection; everything above it is the real code"};
  struct rlimit rl; (void)rl;
  if (S.property() == "C13") c13(S); else c14(S);
  return S.finish();
}
