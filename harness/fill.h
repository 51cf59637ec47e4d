// Serializers that enumerate the values of any message type and print them.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <Serialization/ISerializer.h>
#include <Serialization/SerializationOverloads.h>
namespace fl {
using namespace cn;
// Fills a message: field k takes its base value except the (at most two) chosen fields, which take the chosen values.
struct Filler : ISerializer {
  size_t n = 0; std::vector<size_t> alts;     // number of fields met, alternatives of each
  size_t f1 = ~(size_t)0, v1 = 0, f2 = ~(size_t)0, v2 = 0; bool json = false;
  std::vector<int> mode;                      // inside arrays
  size_t pick(size_t c) { size_t k = n++; alts.push_back(c); return k == f1 ? v1 : k == f2 ? v2 : 0; }
  template <class T> bool num(T &v) { static const uint64_t V[] = {1, 0, 127, 128, 255, 256, 65535, 65536, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull}; std::vector<T> d; for (uint64_t x : V) { T t = (T)x; if ((uint64_t)t == x || (T)x == (T)-1) { bool seen = false; for (T y : d) seen |= y == t; if (!seen) d.push_back(t); } } v = d[pick(d.size())]; return true; }
  SerializerType type() const override { return INPUT; }
  bool beginObject(common::StringView) override { return true; }
  void endObject() override {}
  bool beginArray(size_t &s, common::StringView) override { static const size_t S[] = {1, 0, 2, 5}; s = S[pick(4)]; return true; }
  void endArray() override {}
  bool operator()(uint8_t &v, common::StringView) override { return num(v); }
  bool operator()(int16_t &v, common::StringView) override { return num(v); }
  bool operator()(uint16_t &v, common::StringView) override { return num(v); }
  bool operator()(int32_t &v, common::StringView) override { return num(v); }
  bool operator()(uint32_t &v, common::StringView) override { return num(v); }
  bool operator()(int64_t &v, common::StringView) override { return num(v); }
  bool operator()(uint64_t &v, common::StringView) override { return num(v); }
  bool operator()(double &v, common::StringView) override { static const double D[] = {0.5, 0, 1, -1, 1e6, -0.25, 123456789.125}; v = D[pick(7)]; return true; }
  bool operator()(bool &v, common::StringView) override { v = pick(2) == 0; return true; }
  std::string str(size_t k) { std::string s; switch (k) { case 0: return "a1"; case 1: return ""; case 2: return std::string(63, 'x'); case 3: return std::string(64, 'y'); case 4: return std::string(16383, 'z'); case 5: return std::string(16384, 'w'); case 6: for (int i = 0; i < 256; ++i) s += (char)i; return s; case 7: return "say \"hi\" \\ there\n\t{}[],:/"; case 8: return "\\"; case 9: return "\""; case 10: return std::string(1, 0); case 11: return "\xd0\xbf\xf0\x9f\x98\x80\\u0041"; default: return std::string(1 << 20, 'q'); } }
  bool operator()(std::string &v, common::StringView) override { v = str(pick(12)); return true; }
  bool binary(void *v, size_t size, common::StringView nm) override { if (size == 1 && std::string(nm) == "type") { *(uint8_t *)v = pick(2) ? 3 : 2; return true; } static const uint8_t B[] = {0x5a, 0, 0xff, 0x80}; memset(v, B[pick(4)], size); if (size) ((uint8_t *)v)[size - 1] ^= 1; return true; }
  size_t unit = 1;                            // serializeAsBinary blobs come in multiples of 4 and 24; try 0, 96 and 480 bytes
  bool binary(std::string &v, common::StringView) override { static const size_t S[] = {480, 0, 960, 1440}; size_t k = pick(4); v.clear(); for (size_t i = 0; i < S[k]; ++i) v += (char)(i * 7 + k); return true; }
};
struct Dumper : ISerializer {
  std::ostringstream o; void nm(common::StringView n) { o << std::string(n) << "="; }
  SerializerType type() const override { return OUTPUT; }
  bool beginObject(common::StringView n) override { nm(n); o << "{"; return true; }
  void endObject() override { o << "}"; }
  bool beginArray(size_t &s, common::StringView n) override { nm(n); o << "[" << s << ":"; return true; }
  void endArray() override { o << "]"; }
  template <class T> bool p(T v, common::StringView n) { nm(n); o << v << ";"; return true; }
  bool operator()(uint8_t &v, common::StringView n) override { return p((int)v, n); }
  bool operator()(int16_t &v, common::StringView n) override { return p(v, n); }
  bool operator()(uint16_t &v, common::StringView n) override { return p(v, n); }
  bool operator()(int32_t &v, common::StringView n) override { return p(v, n); }
  bool operator()(uint32_t &v, common::StringView n) override { return p(v, n); }
  bool operator()(int64_t &v, common::StringView n) override { return p(v, n); }
  bool operator()(uint64_t &v, common::StringView n) override { return p(v, n); }
  bool operator()(double &v, common::StringView n) override { return p(v, n); }
  bool operator()(bool &v, common::StringView n) override { return p((int)v, n); }
  static std::string hx(const void *p, size_t n) { static const char *H = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; ++i) { uint8_t c = ((const uint8_t *)p)[i]; s += H[c >> 4]; s += H[c & 15]; } return s; }
  bool operator()(std::string &v, common::StringView n) override { nm(n); o << v.size() << "'" << hx(v.data(), v.size()) << ";"; return true; }
  bool binary(void *v, size_t s, common::StringView n) override { nm(n); o << hx(v, s) << ";"; return true; }
  bool binary(std::string &v, common::StringView n) override { nm(n); o << v.size() << "#" << hx(v.data(), v.size()) << ";"; return true; }
};
template <class T> std::string dump(const T &v) { Dumper d; serialize(const_cast<T &>(v), d); return d.o.str(); }
template <class T> void fill(T &v, Filler &f) { serialize(v, f); }
// the values of a type: base, every single field, every pair of fields
template <class T> struct Values {
  std::vector<std::pair<std::pair<size_t, size_t>, std::pair<size_t, size_t>>> c;
  Values() { Filler f; T v = T(); fill(v, f); auto a = f.alts; size_t X = ~(size_t)0; c.push_back({{X, 0}, {X, 0}});
    for (size_t i = 0; i < a.size(); ++i) for (size_t x = 1; x < a[i]; ++x) { Filler g; g.f1 = i; g.v1 = x; T u = T(); try { fill(u, g); } catch (std::exception &) { continue; } c.push_back({{i, x}, {X, 0}}); auto b = g.alts; for (size_t j = i + 1; j < b.size(); ++j) for (size_t y = 1; y < b[j]; ++y) c.push_back({{i, x}, {j, y}}); } }
  T get(size_t k) const { Filler f; f.f1 = c[k].first.first; f.v1 = c[k].first.second; f.f2 = c[k].second.first; f.v2 = c[k].second.second; T v = T(); fill(v, f); return v; }
};
}
