#include "hx.h"
#include <IOHaptics/include/IOBinary.h>
#include <IOHaptics/include/IOBinaryBands.h>
#include <IOHaptics/include/IOBinaryPrimitives.h>
#include <IOHaptics/include/IOJson.h>
#include <bitset>
#include <limits>
#include <vector>
#define private public // the check of a CRC packet has no public entry
#include <IOHaptics/include/IOStream.h>
#undef private
#include <unistd.h>
namespace hx {
using namespace haptics::io;
// the library's own comparison of a check value, if it exists under this name
template <class S> static auto tryCheck(std::vector<std::vector<bool>> &u, typename S::CRC &c, int) -> decltype(S::checkCRC(u, c) ? 1 : 0) {
  return S::checkCRC(u, c) ? 1 : 0;
}
template <class S> static auto tryCheck(std::vector<std::vector<bool>> &, typename S::CRC &, long) -> int { return -1; }
static auto tmp(Session &s, const char *ext) -> std::string {
  return s.dir + "/t" + std::to_string(getpid()) + ext;
}
static Reg r0("build", [](const V &v, Session &s, W &w) {
  s.h = buildHaptics(v["exp"]);
  projHaptics(w, s.h);
});
static Reg r1("swap", [](const V &, Session &s, W &w) {
  std::swap(s.h, s.h2);
  projHaptics(w, s.h);
});
// ---------------------------------------------------------------- binary files (HMPG)
static Reg r2("bin_rt", [](const V &, Session &s, W &w) {
  auto f = tmp(s, ".hmpg");
  w.StartObject();
  kb(w, "w", IOBinary::writeFile(s.h, f));
  auto bytes = slurp(f);
  ht::Haptics r;
  kb(w, "r", IOBinary::loadFile(f, r));
  w.Key("h");
  projHaptics(w, r);
  // load from memory must agree with load from file
  std::string copy = bytes;
  IOMemoryBuffer mb(copy.data(), copy.size());
  ht::Haptics m;
  kb(w, "rm", IOBinary::loadMemory(mb, m));
  w.Key("hm");
  projHaptics(w, m);
  bool w2 = IOBinary::writeFile(r, f);
  auto bytes2 = slurp(f);
  kb(w, "w2", w2);
  kb(w, "same", bytes == bytes2);
  ht::Haptics r3;
  kb(w, "r2", IOBinary::loadFile(f, r3));
  w.Key("h2");
  projHaptics(w, r3);
  kv(w, "len", static_cast<int>(bytes.size()));
  w.EndObject();
  unlink(f.c_str());
  s.h2 = r;
});
static Reg r2b("bin_write", [](const V &, Session &s, W &w) {
  auto f = tmp(s, ".hmpg");
  w.StartObject();
  kb(w, "w", IOBinary::writeFile(s.h, f));
  w.Key("hex");
  auto hx = hex(slurp(f));
  w.String(hx.c_str());
  w.EndObject();
  unlink(f.c_str());
});
static Reg r2c("bin_read", [](const V &v, Session &s, W &w) {
  auto f = tmp(s, ".hmpg");
  spit(f, unhex(S(v, "hex")));
  ht::Haptics r;
  w.StartObject();
  kb(w, "r", IOBinary::loadFile(f, r));
  w.Key("h");
  projHaptics(w, r);
  w.EndObject();
  unlink(f.c_str());
});
// ---------------------------------------------------------------- JSON files (HJIF)
static Reg r3("json_rt", [](const V &, Session &s, W &w) {
  auto f = tmp(s, ".hjif");
  w.StartObject();
  IOJson::writeFile(s.h, f);
  auto bytes = slurp(f);
  ks(w, "text", bytes);
  ht::Haptics r;
  kb(w, "r", IOJson::loadFile(f, r));
  w.Key("h");
  projHaptics(w, r);
  IOJson::writeFile(r, f);
  kb(w, "same", bytes == slurp(f));
  kv(w, "len", static_cast<int>(bytes.size()));
  w.EndObject();
  unlink(f.c_str());
  s.h2 = r;
});
static Reg r3b("json_text", [](const V &, Session &s, W &w) {
  auto f = tmp(s, ".hjif");
  w.StartObject();
  IOJson::writeFile(s.h, f);
  ks(w, "text", slurp(f));
  w.EndObject();
  unlink(f.c_str());
});
static Reg r3c("json_load", [](const V &v, Session &s, W &w) {
  auto f = tmp(s, ".hjif");
  spit(f, v.HasMember("hex") ? unhex(S(v, "hex")) : S(v, "text"));
  ht::Haptics r;
  w.StartObject();
  bool ok = IOJson::loadFile(f, r);
  kb(w, "r", ok);
  w.Key("h");
  projHaptics(w, r);
  if (Iod(v, "again", 0) != 0 && ok) {
    IOJson::writeFile(r, f);
    auto bytes = slurp(f);
    ht::Haptics r2;
    kb(w, "r2", IOJson::loadFile(f, r2));
    IOJson::writeFile(r2, f);
    kb(w, "same", bytes == slurp(f));
  }
  w.EndObject();
  unlink(f.c_str());
  s.h2 = r;
});
// ---------------------------------------------------------------- streaming (MIHS)
static Reg r4("mihs_write", [](const V &v, Session &s, W &w) {
  std::vector<std::vector<bool>> units;
  w.StartObject();
  kb(w, "w", IOStream::writeUnits(s.h, units, I(v, "dur")));
  w.Key("units");
  w.StartArray();
  for (auto &u : units) {
    auto t = bstr(u);
    w.String(t.c_str(), static_cast<rapidjson::SizeType>(t.size()));
  }
  w.EndArray();
  w.EndObject();
});
static void wreader(W &w, IOStream::StreamReader &r, bool proj) {
  kv(w, "time", static_cast<int>(r.time));
  kb(w, "wait", r.waitSync);
  kv(w, "pdur", static_cast<int>(r.packetDuration));
  kv(w, "rts", static_cast<int>(r.timescale));
  kv(w, "layer", static_cast<int>(r.layer));
  kv(w, "dev", static_cast<int>(r.durationDeviation));
  kv(w, "nom", static_cast<int>(r.nominalDuration));
  if (proj) {
    w.Key("h");
    projHaptics(w, r.haptic);
  }
}
static Reg r5("mihs_read", [](const V &v, Session &s, W &w) {
  auto reader = IOStream::initializeStream();
  if (Iod(v, "wait", -1) >= 0) {
    reader.waitSync = Iod(v, "wait", 0) != 0;
  }
  IOStream::CRC crc;
  bool all = Iod(v, "all", 0) != 0;
  w.StartObject();
  w.Key("steps");
  w.StartArray();
  for (auto &u : v["units"].GetArray()) {
    auto b = bits(std::string(u.GetString(), u.GetStringLength()));
    bool ret = IOStream::readMIHSUnit(b, reader, crc);
    w.StartObject();
    kb(w, "ret", ret);
    wreader(w, reader, all);
    w.EndObject();
  }
  w.EndArray();
  w.Key("h");
  projHaptics(w, reader.haptic);
  w.EndObject();
  s.h2 = reader.haptic;
});
// units of the sender, delivered to a receiver in a given order (1-based indices; 0 = end)
static Reg r5b("mihs_deliver", [](const V &v, Session &s, W &w) {
  std::vector<std::vector<bool>> units;
  w.StartObject();
  kb(w, "w", IOStream::writeUnits(s.h, units, I(v, "dur")));
  w.Key("units");
  w.StartArray();
  for (auto &u : units) {
    auto t = bstr(u);
    w.String(t.c_str(), static_cast<rapidjson::SizeType>(t.size()));
  }
  w.EndArray();
  auto reader = IOStream::initializeStream();
  reader.waitSync = I(v, "wait") != 0;
  IOStream::CRC crc;
  w.Key("steps");
  w.StartArray();
  for (auto &i : v["order"].GetArray()) {
    if (i.GetInt() > static_cast<int>(units.size())) {
      break;
    }
    auto b = units[i.GetInt() - 1];
    bool ret = IOStream::readMIHSUnit(b, reader, crc);
    w.StartObject();
    kv(w, "i", i.GetInt());
    kb(w, "ret", ret);
    wreader(w, reader, false);
    w.EndObject();
  }
  w.EndArray();
  w.Key("h");
  projHaptics(w, reader.haptic);
  w.EndObject();
  s.h2 = reader.haptic;
});
// units of the sender, delivered in a given order, among them damaged copies: an entry [u, kind, a, b] delivers
// kind 0: packet a (permille of the packets) of unit u, cut to b permille of its payload
// kind 1: the same, its announced length adapted; kind 2: the whole unit cut to b permille of its bytes
// kind 3: packet a with a type that does not exist; kind 4: packet a cut inside its header
static auto show(ht::Haptics &h) -> std::string {
  rapidjson::StringBuffer b;
  W w(b);
  projHaptics(w, h);
  return b.GetString();
}
static Reg r5d("mihs_damage", [](const V &v, Session &s, W &w) {
  std::vector<std::vector<bool>> units;
  w.StartObject();
  kb(w, "w", IOStream::writeUnits(s.h, units, I(v, "dur")));
  auto reader = IOStream::initializeStream();
  reader.waitSync = I(v, "wait") != 0;
  IOStream::CRC crc;
  w.Key("steps");
  w.StartArray();
  for (auto &e : v["order"].GetArray()) {
    int u = e[0].GetInt();
    if (u > static_cast<int>(units.size())) {
      continue;
    }
    auto b = units[u - 1];
    int kind = e[1].GetInt();
    w.StartObject();
    if (kind < 0) {
      bool ret = IOStream::readMIHSUnit(b, reader, crc);
      kb(w, "ret", ret);
      kv(w, "kind", -1);
    } else {
      bool ret = false;
      auto before = show(reader.haptic);
      if (kind == 2) {
        b.resize(b.size() / 8 * static_cast<size_t>(e[3].GetInt()) / 1000 * 8);
        auto c = b;
        ret = IOStream::readMIHSUnit(c, reader, crc);
      } else {
        std::vector<std::vector<bool>> packets;
        size_t at = 72;
        while (at + 24 <= b.size()) {
          size_t len = 0;
          for (size_t i = at + 6; i < at + 23; i++) {
            len = 2 * len + (b[i] ? 1 : 0);
          }
          size_t end = std::min(b.size(), at + 24 + 8 * len);
          packets.emplace_back(b.begin() + at, b.begin() + end);
          at = end;
        }
        if (packets.empty()) {
          packets.emplace_back(std::vector<bool>(24, true));
        }
        b = packets[packets.size() * static_cast<size_t>(e[2].GetInt()) / 1000];
        size_t pay = b.size() / 8 - 3;
        if (kind == 3) {
          for (size_t i = 0; i < 6; i++) {
            b[i] = ((12 + e[3].GetInt() % 52) >> (5 - i)) % 2 != 0;
          }
        } else if (kind == 4) {
          b.resize(8 * static_cast<size_t>(e[3].GetInt() % 3));
        } else {
          size_t keep = pay * static_cast<size_t>(e[3].GetInt()) / 1000;
          b.resize(24 + 8 * keep);
          if (kind == 1) {
            for (size_t i = 0; i < 17; i++) {
              b[6 + i] = (keep >> (16 - i)) % 2 != 0;
            }
          }
        }
        ret = IOStream::readMIHSPacket(b, reader, crc);
      }
      kb(w, "ret", ret);
      kv(w, "kind", kind);
      kb(w, "same", show(reader.haptic) == before);
    }
    auto t = bstr(b);
    w.Key("b");
    w.String(t.c_str(), static_cast<rapidjson::SizeType>(t.size()));
    wreader(w, reader, false);
    w.EndObject();
  }
  w.EndArray();
  w.Key("h");
  projHaptics(w, reader.haptic);
  w.EndObject();
});
// a CRC packet over the first n units, travelling in a unit of its own after them; some bits of what
// travels may be flipped: "flip" [[unit, bit]...] in the protected units, "cflip" [bit...] in the CRC packet
static Reg r5c("mihs_crc", [](const V &v, Session &s, W &w) {
  std::vector<std::vector<bool>> units;
  w.StartObject();
  kb(w, "w", IOStream::writeUnits(s.h, units, I(v, "dur")));
  int n = std::min(I(v, "n"), static_cast<int>(units.size()));
  IOStream::StreamWriter sw;
  sw.haptic = s.h;
  std::vector<std::vector<bool>> packet(units.begin(), units.begin() + n);
  bool wc = IOStream::writeMIHSPacket(static_cast<MIHSPacketType>(I(v, "type")), sw, packet);
  kb(w, "wc", wc);
  kv(w, "n", n);
  int at = n;
  if (wc) {
    for (auto &b : v["cflip"].GetArray()) {
      size_t at = 24 + static_cast<size_t>(b.GetInt()) % (packet[0].size() - 24);
      packet[0][at] = !packet[0][at];
    }
    for (auto &f : v["flip"].GetArray()) {
      auto &u = units[static_cast<size_t>(f[0].GetInt()) % units.size()];
      size_t at = static_cast<size_t>(f[1].GetInt()) % u.size();
      u[at] = !u[at];
    }
    std::vector<bool> unit;
    IOStream::writeMIHSUnit(MIHSUnitType::Temporal, packet, unit, sw);
    at = std::min(n + Iod(v, "at", 0), static_cast<int>(units.size()));
    units.insert(units.begin() + at, unit);
  }
  w.Key("units");
  w.StartArray();
  for (auto &u : units) {
    auto t = bstr(u);
    w.String(t.c_str(), static_cast<rapidjson::SizeType>(t.size()));
  }
  w.EndArray();
  if (wc) {
    auto reader = IOStream::initializeStream();
    IOStream::CRC crc;
    kb(w, "rc", IOStream::readMIHSUnit(units[at], reader, crc));
    kv(w, "at", at);
    kv(w, "announced", static_cast<int>(crc.nbPackets));
    auto alone = std::vector<std::vector<bool>>(units.begin(), units.begin() + n);
    bool only = v.HasMember("alone") && v["alone"].GetBool(); // nothing but the protected units
    int chk = tryCheck<IOStream>(only ? alone : units, crc, 0);
    kb(w, "known", chk >= 0);
    kb(w, "check", chk == 1);
    kv(w, "left", chk < 0 ? 0 : static_cast<int>(crc.nbPackets));
    if (Iod(v, "file", 0) != 0) {
      auto f = tmp(s, ".hmpg");
      std::ofstream o(f, std::ios::binary);
      std::vector<bool> all;
      for (auto &u : units) {
        all.insert(all.end(), u.begin(), u.end());
      }
      IOBinaryPrimitives::writeBitset(all, o);
      o.close();
      ht::Haptics r;
      kb(w, "r", IOStream::readFile(f, r));
      w.Key("h");
      projHaptics(w, r);
      unlink(f.c_str());
    }
  }
  w.EndObject();
});
static Reg r6("mihs_file_rt", [](const V &v, Session &s, W &w) {
  auto f = tmp(s, ".hmpg");
  w.StartObject();
  kb(w, "w", IOStream::writeFile(s.h, f, I(v, "dur")));
  std::string bytes = slurp(f);
  w.Key("hex");
  auto hx = hex(bytes);
  w.String(hx.c_str());
  std::vector<std::vector<bool>> us;
  kb(w, "l", IOStream::loadFile(f, us));
  w.Key("units");
  w.StartArray();
  for (auto &u : us) {
    auto t = bstr(u);
    w.String(t.c_str(), static_cast<rapidjson::SizeType>(t.size()));
  }
  w.EndArray();
  ht::Haptics r;
  kb(w, "r", IOStream::readFile(f, r));
  w.Key("h");
  projHaptics(w, r);
  w.EndObject();
  unlink(f.c_str());
  s.h2 = r;
});
static Reg r6b("mihs_readfile", [](const V &v, Session &s, W &w) {
  auto f = tmp(s, ".hmpg");
  if (v.HasMember("hex")) {
    spit(f, unhex(S(v, "hex")));
  }
  w.StartObject();
  ht::Haptics r;
  std::vector<std::vector<bool>> us;
  kb(w, "l", IOStream::loadFile(f, us));
  kv(w, "n", static_cast<int>(us.size()));
  kb(w, "r", IOStream::readFile(f, r));
  w.Key("h");
  projHaptics(w, r);
  w.EndObject();
  unlink(f.c_str());
});
static void wvec3(W &w, int a, int b, int c) {
  w.StartArray();
  w.Int(a);
  w.Int(b);
  w.Int(c);
  w.EndArray();
}
// ---------------------------------------------------------------- bands and primitives
static Reg r7("band_rt", [](const V &v, Session &, W &w) {
  auto b = buildBand(v["band"]);
  auto ts = static_cast<unsigned int>(I(v, "ts"));
  std::vector<bool> out;
  w.StartObject();
  w.Key("in");
  projBand(w, b);
  kb(w, "wh", IOBinaryBands::writeBandHeader(b, out, ts));
  kv(w, "hbits", static_cast<int>(out.size()));
  kb(w, "wb", IOBinaryBands::writeBandBody(b, out));
  kv(w, "bits", static_cast<int>(out.size()));
  std::vector<bool> padded = out;
  while (padded.size() % 8 != 0) {
    padded.push_back(false);
  }
  std::string bytes;
  for (size_t i = 0; i < padded.size(); i += 8) {
    int c = 0;
    for (size_t j = 0; j < 8; j++) {
      c = c * 2 + (padded[i + j] ? 1 : 0);
    }
    bytes.push_back(static_cast<char>(c));
  }
  std::istringstream is(bytes);
  std::vector<bool> unused;
  ht::Band r;
  kb(w, "rh", IOBinaryBands::readBandHeader(r, is, unused, ts));
  kv(w, "nfx", static_cast<int>(r.getEffectsSize()));
  kb(w, "rb", IOBinaryBands::readBandBody(r, is, unused, ts));
  // what is left over: unread bytes and buffered bits
  std::string rest((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
  kv(w, "left", static_cast<int>(rest.size() * 8 + unused.size()));
  w.Key("out");
  projBand(w, r);
  w.EndObject();
});

// A sequence of fields written back to back, then read from a stream (with carried-over bits) and
// from the bit vector (with an index).
using BP = IOBinaryPrimitives;
template <size_t N> static void wu(uint32_t v, std::vector<bool> &o) { BP::writeNBits<uint32_t, N>(v, o); }
template <size_t N> static auto ru(std::istream &f, std::vector<bool> &u) -> uint32_t {
  return BP::readNBits<uint32_t, N>(f, u);
}
using WU = void (*)(uint32_t, std::vector<bool> &);
using RU = uint32_t (*)(std::istream &, std::vector<bool> &);
template <size_t... Ns> static auto wus(std::index_sequence<Ns...>) -> std::vector<WU> { return {wu<Ns + 1>...}; }
template <size_t... Ns> static auto rus(std::index_sequence<Ns...>) -> std::vector<RU> { return {ru<Ns + 1>...}; }
static Reg r8("prim_seq", [](const V &v, Session &, W &w) {
  auto WT = wus(std::make_index_sequence<32>{});
  auto RT = rus(std::make_index_sequence<32>{});
  std::vector<bool> out;
  std::vector<int> ends;
  for (auto &f : v["fields"].GetArray()) {
    std::string k = f["k"].GetString();
    if (k == "u") {
      WT[I(f, "n") - 1](mask(f["v"]), out);
    } else if (k == "i") {
      WT[I(f, "n") - 1](static_cast<uint32_t>(I(f, "v")), out);
    } else if (k == "f") {
      float x = usc(I(f, "x")), mn = usc(I(f, "min")), mx = usc(I(f, "max"));
      switch (I(f, "n")) {
      case 8: BP::writeFloatNBits<uint8_t, 8>(x, out, mn, mx); break;
      case 16: BP::writeFloatNBits<uint16_t, 16>(x, out, mn, mx); break;
      default: BP::writeFloatNBits<uint32_t, 32>(x, out, mn, mx); break;
      }
    } else if (k == "s") {
      std::string s;
      for (auto &c : f["s"].GetArray()) {
        s.push_back(static_cast<char>(c.GetInt()));
      }
      BP::writeString(s, out);
    } else {
      BP::writeVector(ht::Vector(static_cast<int8_t>(f["v"][0].GetInt()), static_cast<int8_t>(f["v"][1].GetInt()),
                                 static_cast<int8_t>(f["v"][2].GetInt())), out);
    }
    ends.push_back(static_cast<int>(out.size()));
  }
  std::vector<bool> filled = out;
  BP::fillBitset(filled);
  std::ostringstream os;
  BP::writeBitset(out, os);
  std::string bytes = os.str();
  std::ostringstream os2;
  BP::writeBitset(filled, os2);
  w.StartObject();
  w.Key("bits");
  w.StartArray();
  for (bool b : out) {
    w.Int(b ? 1 : 0);
  }
  w.EndArray();
  w.Key("bytes");
  wbytes(w, bytes);
  kb(w, "fill", bytes == os2.str() && filled.size() == bytes.size() * 8);
  std::istringstream is(bytes);
  std::vector<bool> unused;
  std::vector<bool> rb;
  std::istringstream is2(bytes);
  BP::readNBytes(is2, static_cast<int>(bytes.size()), rb);
  kb(w, "reread", rb == filled);
  int idx = 0;
  size_t j = 0;
  w.Key("fields");
  w.StartArray();
  for (auto &f : v["fields"].GetArray()) {
    std::string k = f["k"].GetString();
    w.StartObject();
    kv(w, "end", ends[j++]);
    if (k == "u") {
      w.Key("b");
      wmask(w, RT[I(f, "n") - 1](is, unused));
      w.Key("b2");
      wmask(w, static_cast<uint32_t>(BP::readUInt(rb, idx, I(f, "n"))));
    } else if (k == "i") {
      int n = I(f, "n");
      uint32_t raw = RT[n - 1](is, unused);
      kv(w, "b", static_cast<int>(static_cast<int32_t>(raw << (32 - n)) >> (32 - n)));
      kv(w, "b2", BP::readInt(rb, idx, n));
    } else if (k == "f") {
      float mn = usc(I(f, "min")), mx = usc(I(f, "max"));
      switch (I(f, "n")) {
      case 8:
        kv(w, "b", sc(BP::readFloatNBits<uint8_t, 8>(is, mn, mx, unused)));
        kv(w, "b2", sc(BP::readFloatNBits<8>(rb, idx, mn, mx)));
        break;
      case 16:
        kv(w, "b", sc(BP::readFloatNBits<uint16_t, 16>(is, mn, mx, unused)));
        kv(w, "b2", sc(BP::readFloatNBits<16>(rb, idx, mn, mx)));
        break;
      default:
        kv(w, "b", sc(BP::readFloatNBits<uint32_t, 32>(is, mn, mx, unused)));
        kv(w, "b2", sc(BP::readFloatNBits<32>(rb, idx, mn, mx)));
        break;
      }
    } else if (k == "s") {
      w.Key("b");
      wbytes(w, BP::readString(is, unused));
      int len = BP::readUInt(rb, idx, 8);
      w.Key("b2");
      wbytes(w, BP::readString(rb, idx, len));
    } else {
      auto x = BP::readVector(is, unused);
      w.Key("b");
      wvec3(w, x.X, x.Y, x.Z);
      int a = BP::readInt(rb, idx, 8), b = BP::readInt(rb, idx, 8), c = BP::readInt(rb, idx, 8);
      w.Key("b2");
      wvec3(w, a, b, c);
    }
    kv(w, "idx", idx);
    w.EndObject();
  }
  w.EndArray();
  std::string rest((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
  kv(w, "left", static_cast<int>(rest.size() * 8 + unused.size()));
  w.EndObject();
});
} // namespace hx
