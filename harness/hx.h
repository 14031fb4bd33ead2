// Shared helpers of the conformance harness: build an experience from canonical JSON through the
// public API of /repo, and project an experience back to canonical JSON.
//   * every number is an integer; floating point values are scaled by SC and rounded
//   * optionals are [] or [v]; 32-bit masks are [hi16, lo16]
#pragma once
#include <Types/include/Haptics.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <optional>
#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>
#include <sstream>
#include <string>
#include <vector>

namespace hx {
using V = rapidjson::Value;
using W = rapidjson::Writer<rapidjson::StringBuffer>;
namespace ht = haptics::types;
constexpr double SC = 10000.0;

struct Session {
  ht::Haptics h;
  ht::Haptics h2;
  std::string dir;
  std::map<std::string, std::string> mem;
};

using OpFn = std::function<void(const V &, Session &, W &)>;
auto registry() -> std::map<std::string, OpFn> &;
struct Reg {
  Reg(const char *n, OpFn f) { registry()[n] = std::move(f); }
};

inline auto sc(double v) -> int {
  if (std::isnan(v)) {
    return 2100000000;
  }
  double s = std::round(v * SC);
  if (s > 2000000000.0) {
    return 2000000000;
  }
  if (s < -2000000000.0) {
    return -2000000000;
  }
  return static_cast<int>(s);
}
inline auto usc(int v) -> float { return static_cast<float>(v / SC); }
inline auto S(const V &v, const char *k) -> std::string {
  return std::string(v[k].GetString(), v[k].GetStringLength());
}
inline auto I(const V &v, const char *k) -> int { return v[k].GetInt(); }
inline auto Iod(const V &v, const char *k, int d) -> int {
  return v.HasMember(k) ? v[k].GetInt() : d;
}
inline auto mask(const V &v) -> uint32_t {
  return (static_cast<uint32_t>(v[0].GetInt()) << 16U) | static_cast<uint32_t>(v[1].GetInt());
}
inline void wmask(W &w, uint32_t m) {
  w.StartArray();
  w.Int(static_cast<int>(m >> 16U));
  w.Int(static_cast<int>(m & 0xFFFFU));
  w.EndArray();
}
inline void kv(W &w, const char *k, int v) {
  w.Key(k);
  w.Int(v);
}
inline void kb(W &w, const char *k, bool v) {
  w.Key(k);
  w.Bool(v);
}
// strings are projected so that every byte survives JSON (non printable bytes become \xNN text)
inline auto safe(const std::string &s) -> std::string {
  std::string r;
  for (unsigned char c : s) {
    if (c >= 0x20 && c < 0x7f && c != '\\') {
      r.push_back(static_cast<char>(c));
    } else {
      char b[8];
      std::snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    }
  }
  return r;
}
inline void ks(W &w, const char *k, const std::string &v) {
  w.Key(k);
  auto s = safe(v);
  w.String(s.c_str(), static_cast<rapidjson::SizeType>(s.size()));
}
template <class T> void koi(W &w, const char *k, const std::optional<T> &v) {
  w.Key(k);
  w.StartArray();
  if (v.has_value()) {
    w.Int(static_cast<int>(v.value()));
  }
  w.EndArray();
}
template <class T> void kof(W &w, const char *k, const std::optional<T> &v) {
  w.Key(k);
  w.StartArray();
  if (v.has_value()) {
    w.Int(sc(v.value()));
  }
  w.EndArray();
}
template <class T> auto ooi(const V &v, const char *k) -> std::optional<T> {
  if (!v.HasMember(k) || v[k].Size() == 0) {
    return std::nullopt;
  }
  return static_cast<T>(v[k][0].GetInt());
}
inline auto oof(const V &v, const char *k) -> std::optional<float> {
  if (!v.HasMember(k) || v[k].Size() == 0) {
    return std::nullopt;
  }
  return usc(v[k][0].GetInt());
}

auto buildEffect(const V &v) -> ht::Effect;
auto buildBand(const V &v) -> ht::Band;
auto buildChannel(const V &v) -> ht::Channel;
auto buildPerception(const V &v) -> ht::Perception;
auto buildHaptics(const V &v) -> ht::Haptics;
void projEffect(W &w, ht::Effect &e);
void projBand(W &w, ht::Band &b);
void projChannel(W &w, ht::Channel &c);
void projPerception(W &w, ht::Perception &p);
void projHaptics(W &w, ht::Haptics &h);

inline void spit(const std::string &path, const std::string &bytes) {
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f.write(bytes.data(), static_cast<std::streamsize>(bytes.size()));
}
inline auto slurp(const std::string &path) -> std::string {
  std::ifstream f(path, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
inline auto hex(const std::string &s) -> std::string {
  static const char *d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) {
    r.push_back(d[c >> 4U]);
    r.push_back(d[c & 15U]);
  }
  return r;
}
inline auto unhex(const std::string &s) -> std::string {
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) {
    r.push_back(static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16)));
  }
  return r;
}
// bit vectors travel as strings of 0/1
inline auto bits(const std::string &s) -> std::vector<bool> {
  std::vector<bool> r;
  r.reserve(s.size());
  for (char c : s) {
    r.push_back(c == '1');
  }
  return r;
}
inline auto bstr(const std::vector<bool> &v) -> std::string {
  std::string r;
  r.reserve(v.size());
  for (bool b : v) {
    r.push_back(b ? '1' : '0');
  }
  return r;
}
inline void wbytes(W &w, const std::string &s) {
  w.StartArray();
  for (unsigned char c : s) {
    w.Int(c);
  }
  w.EndArray();
}
} // namespace hx
