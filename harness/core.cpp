#include "hx.h"
namespace hx {
static auto buildKeyframe(const V &v) -> ht::Keyframe {
  return ht::Keyframe(ooi<int>(v, "p"), oof(v, "a"), ooi<int>(v, "f"));
}
auto buildEffect(const V &v) -> ht::Effect {
  ht::Effect e(I(v, "pos"), static_cast<ht::EffectType>(Iod(v, "type", 0)));
  e.setId(Iod(v, "id", -1));
  if (auto p = oof(v, "phase")) {
    e.setPhase(*p);
  }
  if (auto b = ooi<int>(v, "base")) {
    e.setBaseSignal(static_cast<ht::BaseSignal>(*b));
  }
  if (v.HasMember("sem") && v["sem"].Size() > 0) {
    std::string s = v["sem"][0].GetString();
    e.setSemantic(s);
  }
  if (v.HasMember("kfs")) {
    for (auto &k : v["kfs"].GetArray()) {
      auto kf = buildKeyframe(k);
      e.addKeyframe(kf);
    }
  }
  if (v.HasMember("tl")) {
    for (auto &t : v["tl"].GetArray()) {
      auto te = buildEffect(t);
      e.addTimelineEffect(te);
    }
  }
  if (v.HasMember("ws") && v["ws"].Size() > 0) {
    std::vector<double> s;
    for (auto &x : v["ws"].GetArray()) {
      s.push_back(x.GetInt() / SC);
    }
    e.setWaveletSamples(s);
  }
  if (v.HasMember("wb") && v["wb"].Size() > 0) {
    std::vector<unsigned char> s;
    for (auto &x : v["wb"].GetArray()) {
      s.push_back(static_cast<unsigned char>(x.GetInt()));
    }
    e.setWaveletBitstream(s);
  }
  return e;
}
auto buildBand(const V &v) -> ht::Band {
  ht::Band b;
  b.setBandType(static_cast<ht::BandType>(I(v, "type")));
  b.setLowerFrequencyLimit(I(v, "lo"));
  b.setUpperFrequencyLimit(I(v, "up"));
  if (auto c = ooi<int>(v, "curve")) {
    b.setCurveType(static_cast<ht::CurveType>(*c));
  }
  if (auto c = ooi<int>(v, "blk")) {
    b.setBlockLength(*c);
  }
  if (auto c = ooi<int>(v, "prio")) {
    b.setPriority(*c);
  }
  for (auto &e : v["fx"].GetArray()) {
    auto fx = buildEffect(e);
    b.addEffect(fx);
  }
  return b;
}
static auto vec(const V &v) -> ht::Vector {
  return ht::Vector(static_cast<int8_t>(v[0].GetInt()), static_cast<int8_t>(v[1].GetInt()),
                    static_cast<int8_t>(v[2].GetInt()));
}
auto buildChannel(const V &v) -> ht::Channel {
  ht::Channel c(I(v, "id"), S(v, "desc"), usc(I(v, "gain")), usc(I(v, "mix")), mask(v["mask"]));
  if (auto p = ooi<int>(v, "prio")) {
    c.setPriority(*p);
  }
  if (auto p = ooi<int>(v, "ref")) {
    c.setReferenceDeviceId(*p);
  }
  if (auto p = ooi<int>(v, "fs")) {
    c.setFrequencySampling(static_cast<uint32_t>(*p));
  }
  if (auto p = ooi<int>(v, "sc")) {
    c.setSampleCount(static_cast<uint32_t>(*p));
  }
  if (v.HasMember("dir") && v["dir"].Size() > 0) {
    c.setDirection(vec(v["dir"][0]));
  }
  if (v.HasMember("res") && v["res"].Size() > 0) {
    c.setActuatorResolution(vec(v["res"][0]));
  }
  if (v.HasMember("bpt") && v["bpt"].Size() > 0) {
    std::vector<ht::BodyPartTarget> t;
    for (auto &x : v["bpt"][0].GetArray()) {
      t.push_back(static_cast<ht::BodyPartTarget>(x.GetInt()));
    }
    c.setBodyPartTarget(t);
  }
  if (v.HasMember("act") && v["act"].Size() > 0) {
    std::vector<ht::Vector> t;
    for (auto &x : v["act"][0].GetArray()) {
      t.push_back(vec(x));
    }
    c.setActuatorTarget(t);
  }
  if (v.HasMember("vert")) {
    for (auto &x : v["vert"].GetArray()) {
      int i = x.GetInt();
      c.addVertex(i);
    }
  }
  for (auto &b : v["bands"].GetArray()) {
    auto bb = buildBand(b);
    c.addBand(bb);
  }
  return c;
}
static auto buildDevice(const V &v) -> ht::ReferenceDevice {
  ht::ReferenceDevice d(I(v, "id"), S(v, "name"));
  if (v.HasMember("mask") && v["mask"].Size() > 0) {
    d.setBodyPartMask(mask(v["mask"][0]));
  }
#define F(key, setter)                                                                             \
  if (auto x = oof(v, key)) {                                                                      \
    d.setter(*x);                                                                                  \
  }
  F("maxF", setMaximumFrequency)
  F("minF", setMinimumFrequency)
  F("resF", setResonanceFrequency)
  F("maxA", setMaximumAmplitude)
  F("imp", setImpedance)
  F("maxV", setMaximumVoltage)
  F("maxC", setMaximumCurrent)
  F("maxD", setMaximumDisplacement)
  F("wei", setWeight)
  F("siz", setSize)
  F("cus", setCustom)
#undef F
  if (auto t = ooi<int>(v, "type")) {
    d.setType(static_cast<ht::ActuatorType>(*t));
  }
  return d;
}
auto buildPerception(const V &v) -> ht::Perception {
  ht::Perception p(I(v, "id"), I(v, "avatar"), S(v, "desc"),
                   static_cast<ht::PerceptionModality>(I(v, "mod")));
  if (auto x = ooi<int>(v, "prio")) {
    p.setPriority(*x);
  }
  if (v.HasMember("scheme") && v["scheme"].Size() > 0) {
    std::string s = v["scheme"][0].GetString();
    p.setEffectSemanticScheme(s);
  }
  p.setUnitExponent(ooi<int8_t>(v, "ue"));
  p.setPerceptionUnitExponent(ooi<int8_t>(v, "pue"));
  if (v.HasMember("dev")) {
    for (auto &d : v["dev"].GetArray()) {
      auto dd = buildDevice(d);
      p.addReferenceDevice(dd);
    }
  }
  if (v.HasMember("lib")) {
    for (auto &d : v["lib"].GetArray()) {
      auto dd = buildEffect(d);
      p.addBasisEffect(dd);
    }
  }
  for (auto &d : v["chans"].GetArray()) {
    auto dd = buildChannel(d);
    p.addChannel(dd);
  }
  return p;
}
auto buildHaptics(const V &v) -> ht::Haptics {
  ht::Haptics h(S(v, "version"), S(v, "date"), S(v, "desc"));
  if (v.HasMember("profile")) {
    auto s = S(v, "profile");
    h.setProfile(s);
  }
  if (v.HasMember("level")) {
    h.setLevel(static_cast<uint8_t>(I(v, "level")));
  }
  if (v.HasMember("ts")) {
    h.setTimescale(ooi<unsigned int>(v, "ts"));
  }
  if (v.HasMember("avatars")) {
    for (auto &a : v["avatars"].GetArray()) {
      ht::Avatar av(I(a, "id"), I(a, "lod"), static_cast<ht::AvatarType>(I(a, "type")));
      if (a.HasMember("mesh") && a["mesh"].Size() > 0) {
        av.setMesh(a["mesh"][0].GetString());
      }
      h.addAvatar(av);
    }
  }
  if (v.HasMember("syncs")) {
    for (auto &s : v["syncs"].GetArray()) {
      ht::Sync sy(I(s, "t"), ooi<unsigned int>(s, "ts"));
      h.addSync(sy);
    }
  }
  for (auto &p : v["percs"].GetArray()) {
    auto pp = buildPerception(p);
    h.addPerception(pp);
  }
  return h;
}

static void kos(W &w, const char *k, const std::optional<std::string> &s) {
  w.Key(k);
  w.StartArray();
  if (s.has_value()) {
    auto t = safe(s.value());
    w.String(t.c_str());
  }
  w.EndArray();
}
void projEffect(W &w, ht::Effect &e) {
  w.StartObject();
  kv(w, "id", e.getId());
  kv(w, "pos", e.getPosition());
  kof(w, "phase", e.getPhase());
  kos(w, "sem", e.getSemantic());
  koi(w, "base", e.getBaseSignal());
  kv(w, "type", static_cast<int>(e.getEffectType()));
  w.Key("kfs");
  w.StartArray();
  for (size_t i = 0; i < e.getKeyframesSize(); i++) {
    auto &k = e.getKeyframeAt(static_cast<int>(i));
    w.StartObject();
    koi(w, "p", k.getRelativePosition());
    kof(w, "a", k.getAmplitudeModulation());
    koi(w, "f", k.getFrequencyModulation());
    w.EndObject();
  }
  w.EndArray();
  w.Key("tl");
  w.StartArray();
  for (size_t i = 0; i < e.getTimelineSize(); i++) {
    projEffect(w, e.getTimelineEffectAt(static_cast<int>(i)));
  }
  w.EndArray();
  w.Key("ws");
  w.StartArray();
  for (double d : e.getWaveletSamples()) {
    w.Int(sc(d));
  }
  w.EndArray();
  w.Key("wb");
  w.StartArray();
  for (unsigned char d : e.getWaveletBitstream()) {
    w.Int(d);
  }
  w.EndArray();
  w.EndObject();
}
void projBand(W &w, ht::Band &b) {
  w.StartObject();
  kv(w, "type", static_cast<int>(b.getBandType()));
  koi(w, "curve", b.getCurveType());
  koi(w, "blk", b.getBlockLength());
  kv(w, "lo", b.getLowerFrequencyLimit());
  kv(w, "up", b.getUpperFrequencyLimit());
  koi(w, "prio", b.getPriority());
  w.Key("fx");
  w.StartArray();
  for (size_t i = 0; i < b.getEffectsSize(); i++) {
    projEffect(w, b.getEffectAt(static_cast<int>(i)));
  }
  w.EndArray();
  w.EndObject();
}
static void wvec(W &w, const ht::Vector &v) {
  w.StartArray();
  w.Int(v.X);
  w.Int(v.Y);
  w.Int(v.Z);
  w.EndArray();
}
void projChannel(W &w, ht::Channel &c) {
  w.StartObject();
  kv(w, "id", c.getId());
  ks(w, "desc", c.getDescription());
  koi(w, "prio", c.getPriority());
  kv(w, "gain", sc(c.getGain()));
  kv(w, "mix", sc(c.getMixingWeight()));
  w.Key("mask");
  wmask(w, c.getBodyPartMask());
  koi(w, "ref", c.getReferenceDeviceId());
  koi(w, "fs", c.getFrequencySampling());
  koi(w, "sc", c.getSampleCount());
  w.Key("dir");
  w.StartArray();
  if (c.getDirection().has_value()) {
    wvec(w, c.getDirection().value());
  }
  w.EndArray();
  w.Key("res");
  w.StartArray();
  if (c.getActuatorResolution().has_value()) {
    wvec(w, c.getActuatorResolution().value());
  }
  w.EndArray();
  w.Key("bpt");
  w.StartArray();
  if (c.getBodyPartTarget().has_value()) {
    w.StartArray();
    auto t = c.getBodyPartTarget().value();
    for (auto &x : t) {
      w.Int(static_cast<int>(x));
    }
    w.EndArray();
  }
  w.EndArray();
  w.Key("act");
  w.StartArray();
  if (c.getActuatorTarget().has_value()) {
    w.StartArray();
    auto t = c.getActuatorTarget().value();
    for (auto &x : t) {
      wvec(w, x);
    }
    w.EndArray();
  }
  w.EndArray();
  w.Key("vert");
  w.StartArray();
  for (size_t i = 0; i < c.getVerticesSize(); i++) {
    w.Int(c.getVertexAt(static_cast<int>(i)));
  }
  w.EndArray();
  w.Key("bands");
  w.StartArray();
  for (size_t i = 0; i < c.getBandsSize(); i++) {
    projBand(w, c.getBandAt(static_cast<int>(i)));
  }
  w.EndArray();
  w.EndObject();
}
static void projDevice(W &w, ht::ReferenceDevice &d) {
  w.StartObject();
  kv(w, "id", d.getId());
  ks(w, "name", d.getName());
  w.Key("mask");
  w.StartArray();
  if (d.getBodyPartMask().has_value()) {
    wmask(w, d.getBodyPartMask().value());
  }
  w.EndArray();
  kof(w, "maxF", d.getMaximumFrequency());
  kof(w, "minF", d.getMinimumFrequency());
  kof(w, "resF", d.getResonanceFrequency());
  kof(w, "maxA", d.getMaximumAmplitude());
  kof(w, "imp", d.getImpedance());
  kof(w, "maxV", d.getMaximumVoltage());
  kof(w, "maxC", d.getMaximumCurrent());
  kof(w, "maxD", d.getMaximumDisplacement());
  kof(w, "wei", d.getWeight());
  kof(w, "siz", d.getSize());
  kof(w, "cus", d.getCustom());
  koi(w, "type", d.getType());
  w.EndObject();
}
void projPerception(W &w, ht::Perception &p) {
  w.StartObject();
  kv(w, "id", p.getId());
  kv(w, "avatar", p.getAvatarId());
  ks(w, "desc", p.getDescription());
  koi(w, "prio", p.getPriority());
  kos(w, "scheme", p.getEffectSemanticScheme());
  kv(w, "mod", static_cast<int>(p.getPerceptionModality()));
  koi(w, "ue", p.getUnitExponent());
  koi(w, "pue", p.getPerceptionUnitExponent());
  w.Key("dev");
  w.StartArray();
  for (size_t i = 0; i < p.getReferenceDevicesSize(); i++) {
    projDevice(w, p.getReferenceDeviceAt(static_cast<int>(i)));
  }
  w.EndArray();
  w.Key("lib");
  w.StartArray();
  for (size_t i = 0; i < p.getEffectLibrarySize(); i++) {
    projEffect(w, p.getBasisEffectAt(static_cast<int>(i)));
  }
  w.EndArray();
  w.Key("chans");
  w.StartArray();
  for (size_t i = 0; i < p.getChannelsSize(); i++) {
    projChannel(w, p.getChannelAt(static_cast<int>(i)));
  }
  w.EndArray();
  w.EndObject();
}
void projHaptics(W &w, ht::Haptics &h) {
  w.StartObject();
  ks(w, "version", h.getVersion());
  ks(w, "profile", h.getProfile());
  kv(w, "level", h.getLevel());
  ks(w, "date", h.getDate());
  ks(w, "desc", h.getDescription());
  koi(w, "ts", h.getTimescale());
  w.Key("avatars");
  w.StartArray();
  for (size_t i = 0; i < h.getAvatarsSize(); i++) {
    auto &a = h.getAvatarAt(static_cast<int>(i));
    w.StartObject();
    kv(w, "id", a.getId());
    kv(w, "lod", a.getLod());
    kv(w, "type", static_cast<int>(a.getType()));
    kos(w, "mesh", a.getMesh());
    w.EndObject();
  }
  w.EndArray();
  w.Key("syncs");
  w.StartArray();
  for (size_t i = 0; i < h.getSyncsSize(); i++) {
    auto &s = h.getSyncsAt(static_cast<int>(i));
    w.StartObject();
    kv(w, "t", s.getTimestamp());
    koi(w, "ts", s.getTimescale());
    w.EndObject();
  }
  w.EndArray();
  w.Key("percs");
  w.StartArray();
  for (size_t i = 0; i < h.getPerceptionsSize(); i++) {
    projPerception(w, h.getPerceptionAt(static_cast<int>(i)));
  }
  w.EndArray();
  w.EndObject();
}
} // namespace hx
