#include "hx.h"
#include <Tools/include/OHMData.h>
#include <cstring>
namespace hx {
using haptics::tools::OHMData;
static auto str(const V &v) -> std::string {
  std::string s;
  for (auto &x : v.GetArray()) {
    s.push_back(static_cast<char>(x.GetInt()));
  }
  return s;
}
static void wstr(W &w, const char *k, const std::string &s) {
  w.Key(k);
  w.StartArray();
  for (unsigned char c : s) {
    w.Int(c);
  }
  w.EndArray();
}
static void wgain(W &w, const char *k, float f) {
  unsigned char b[4];
  std::memcpy(b, &f, 4);
  wstr(w, k, std::string(reinterpret_cast<char *>(b), 4));
}
static void wohm(W &w, OHMData &o) {
  w.StartObject();
  kv(w, "ver", o.getVersion());
  wstr(w, "hdr", o.getHeader());
  wstr(w, "desc", o.getDescription());
  w.Key("els");
  w.StartArray();
  for (int i = 0; i < static_cast<int>(o.getHapticElementMetadataSize()); i++) {
    auto &e = o.getHapticElementMetadataAt(i);
    w.StartObject();
    wstr(w, "file", e.elementFilename);
    wstr(w, "desc", e.elementDescription);
    kv(w, "n", e.numHapticChannels);
    w.Key("chans");
    w.StartArray();
    for (auto &c : e.channelsMetadata) {
      w.StartObject();
      wstr(w, "desc", c.channelDescription);
      wgain(w, "gain", c.gain);
      w.Key("mask");
      wmask(w, static_cast<uint32_t>(c.bodyPartMask));
      w.EndObject();
    }
    w.EndArray();
    w.EndObject();
  }
  w.EndArray();
  w.EndObject();
}
static void whap(W &w, ht::Haptics &h) {
  w.StartObject();
  ks(w, "ver", h.getVersion());
  wstr(w, "desc", h.getDescription());
  w.Key("percs");
  w.StartArray();
  for (int i = 0; i < static_cast<int>(h.getPerceptionsSize()); i++) {
    auto &p = h.getPerceptionAt(i);
    w.StartObject();
    kv(w, "id", p.getId());
    wstr(w, "desc", p.getDescription());
    kv(w, "mod", static_cast<int>(p.getPerceptionModality()));
    kv(w, "avatar", p.getAvatarId());
    kv(w, "more", static_cast<int>(p.getEffectLibrarySize() + p.getReferenceDevicesSize()));
    w.Key("chans");
    w.StartArray();
    for (int j = 0; j < static_cast<int>(p.getChannelsSize()); j++) {
      auto &c = p.getChannelAt(j);
      w.StartObject();
      kv(w, "id", c.getId());
      wstr(w, "desc", c.getDescription());
      wgain(w, "gain", c.getGain());
      kv(w, "mix", sc(c.getMixingWeight()));
      w.Key("mask");
      wmask(w, c.getBodyPartMask());
      kv(w, "more", static_cast<int>(c.getBandsSize() + c.getVerticesSize()));
      w.EndObject();
    }
    w.EndArray();
    w.EndObject();
  }
  w.EndArray();
  w.EndObject();
}
static auto make(const V &o) -> OHMData {
  std::string hdr = "OHM ";
  auto d = str(o["desc"]);
  OHMData r(hdr, static_cast<short>(I(o, "ver")), d);
  for (auto &e : o["els"].GetArray()) {
    OHMData::HapticElementMetadata m;
    m.elementFilename = str(e["file"]);
    m.elementDescription = str(e["desc"]);
    m.numHapticChannels = static_cast<short>(e["chans"].Size());
    for (auto &c : e["chans"].GetArray()) {
      OHMData::HapticChannelMetadata k;
      k.channelDescription = str(c["desc"]);
      auto g = str(c["gain"]);
      std::memcpy(&k.gain, g.data(), 4);
      k.bodyPartMask = static_cast<OHMData::Body>(mask(c["mask"]));
      m.channelsMetadata.push_back(k);
    }
    r.addHapticElementMetadata(m);
  }
  return r;
}
// {ohm, cuts, other}: write, load, load again into an object that holds `other`; cut files; experiences
static Reg a("ohm_rt", [](const V &op, Session &s, W &w) {
  auto o = make(op["ohm"]);
  auto p = s.dir + "/x.ohm";
  w.StartObject();
  kb(w, "w", o.writeFile(p));
  auto bytes = slurp(p);
  wstr(w, "bytes", bytes);
  OHMData b;
  kb(w, "r", b.loadFile(p));
  w.Key("back");
  wohm(w, b);
  auto again = make(op["other"]);
  kb(w, "r2", again.loadFile(p));
  w.Key("back2");
  wohm(w, again);
  w.Key("cuts");
  w.StartArray();
  for (auto &c : op["cuts"].GetArray()) {
    spit(p, bytes.substr(0, c.GetInt()));
    OHMData t;
    w.Bool(t.loadFile(p));
  }
  w.EndArray();
  ht::Haptics h;
  h.loadMetadataFromOHM(b);
  w.Key("h");
  whap(w, h);
  std::string name = S(op, "name");
  auto out = h.extractMetadataToOHM(name);
  w.Key("out");
  wohm(w, out);
  w.EndObject();
});
// any bytes
static Reg b("ohm_load", [](const V &op, Session &s, W &w) {
  auto p = s.dir + "/x.ohm";
  spit(p, str(op["bytes"]));
  OHMData o;
  w.StartObject();
  kb(w, "r", o.loadFile(p));
  w.Key("back");
  wohm(w, o);
  w.EndObject();
});
} // namespace hx
