// Editing operations of the data model, one public call per op; the whole experience is projected
// after every call.
#include "hx.h"
namespace hx {
static auto kf(const V &v) -> ht::Keyframe {
  return ht::Keyframe(ooi<int>(v, "p"), oof(v, "a"), ooi<int>(v, "f"));
}
static Reg e0("edit", [](const V &o, Session &s, W &w) {
  std::string k = o["k"].GetString();
  int i = Iod(o, "i", 0);
  bool ret = true;
  int found = -2;
  auto &h = s.h;
  auto at = [&](int n) { return o["at"][n].GetInt(); };
  auto P = [&]() -> ht::Perception & { return h.getPerceptionAt(at(0)); };
  auto C = [&]() -> ht::Channel & { return P().getChannelAt(at(1)); };
  auto B = [&]() -> ht::Band & { return C().getBandAt(at(2)); };
  auto E = [&]() -> ht::Effect & { return B().getEffectAt(at(3)); };
  auto range = [&](const std::function<void()> &f) {
    try {
      f();
    } catch (const std::out_of_range &) {
      ret = false;
    }
  };
  if (k == "addPerc") { auto v = buildPerception(o["v"]); h.addPerception(v); }
  else if (k == "replPerc") { auto v = buildPerception(o["v"]); ret = h.replacePerceptionAt(i, v); }
  else if (k == "metaPerc") { auto v = buildPerception(o["v"]); ret = h.replacePerceptionMetadataAt(i, v); }
  else if (k == "rmPerc") { ret = h.removePerceptionAt(i); }
  else if (k == "getPerc") { range([&] { (void)h.getPerceptionAt(i).getId(); }); }
  else if (k == "addChan") { auto v = buildChannel(o["v"]); P().addChannel(v); }
  else if (k == "replChan") { auto v = buildChannel(o["v"]); ret = P().replaceChannelAt(i, v); }
  else if (k == "metaChan") { auto v = buildChannel(o["v"]); ret = P().replaceChannelMetadataAt(i, v); }
  else if (k == "rmChan") { ret = P().removeChannelAt(i); }
  else if (k == "clearChan") { P().clearChannels(); }
  else if (k == "getChan") { range([&] { (void)P().getChannelAt(i).getId(); }); }
  else if (k == "addDevPerc" || k == "addDevsPerc") {
    auto v = buildPerception(o["v"]);
    std::vector<std::tuple<int, std::string, std::optional<uint32_t>, std::optional<float>, std::optional<float>, std::optional<float>,
                           std::optional<float>, std::optional<float>, std::optional<float>, std::optional<float>, std::optional<float>,
                           std::optional<float>, std::optional<float>, std::optional<float>, std::optional<ht::ActuatorType>>> all;
    for (int j = 0; j < static_cast<int>(v.getReferenceDevicesSize()); j++) {
      auto &d = v.getReferenceDeviceAt(j);
      all.emplace_back(d.getId(), d.getName(), d.getBodyPartMask(), d.getMaximumFrequency(), d.getMinimumFrequency(), d.getResonanceFrequency(),
                       d.getMaximumAmplitude(), d.getImpedance(), d.getMaximumVoltage(), d.getMaximumCurrent(), d.getMaximumDisplacement(),
                       d.getWeight(), d.getSize(), d.getCustom(), d.getType());
      if (k == "addDevPerc") {
        P().addReferenceDevice(d);
      }
    }
    if (k == "addDevsPerc") {
      P().addReferenceDevice(all);
    }
  }
  else if (k == "clearDev") { P().clearReferenceDevices(); }
  else if (k == "addLib") { auto v = buildEffect(o["v"]); P().addBasisEffect(v); }
  else if (k == "clearLib") { P().clearEffectLibrary(); }
  else if (k == "getById") { auto e = P().getEffectById(i); ret = e.has_value(); found = ret ? static_cast<int>(e->getKeyframesSize()) : -1; }
  else if (k == "addBand") { auto v = buildBand(o["v"]); C().addBand(v); }
  else if (k == "genBand") {
    auto t = static_cast<ht::BandType>(I(o, "type"));
    ht::Band *b = nullptr;
    switch (i) {
    case 0: b = C().generateBand(); break;
    case 1: b = C().generateBand(t, I(o, "lo"), I(o, "up")); break;
    case 2: b = C().generateBand(t, static_cast<ht::CurveType>(I(o, "x")), I(o, "lo"), I(o, "up")); break;
    default: b = C().generateBand(t, I(o, "x"), I(o, "lo"), I(o, "up")); break;
    }
    ret = b == &C().getBandAt(static_cast<int>(C().getBandsSize()) - 1);
  }
  else if (k == "replBand") { auto v = buildBand(o["v"]); ret = C().replaceBandAt(i, v); }
  else if (k == "metaBand") { auto v = buildBand(o["v"]); ret = C().replaceBandMetadataAt(i, v); }
  else if (k == "rmBand") { ret = C().removeBandAt(i); }
  else if (k == "clearBand") { C().clearBands(); }
  else if (k == "getBand") { range([&] { (void)C().getBandAt(i).getBandType(); }); }
  else if (k == "addVert") { C().addVertex(i); }
  else if (k == "clearVert") { C().clearVertices(); }
  else if (k == "findBand") {
    auto *b = C().findBandAvailable(I(o, "pos"), I(o, "dur"), static_cast<ht::BandType>(I(o, "type")));
    found = -1;
    for (size_t j = 0; j < C().getBandsSize(); j++) {
      if (b == &C().getBandAt(static_cast<int>(j))) {
        found = static_cast<int>(j);
      }
    }
    ret = b == nullptr || found >= 0;
  }
  else if (k == "overlap") { ret = B().isOverlapping(E(), I(o, "pos"), I(o, "pos") + I(o, "dur")); }
  else if (k == "addFx") { auto v = buildEffect(o["v"]); B().addEffect(v); }
  else if (k == "replFx") { auto v = buildEffect(o["v"]); ret = B().replaceEffectAt(i, v); }
  else if (k == "rmFx") { ret = B().removeEffectAt(i); }
  else if (k == "getFx") { range([&] { (void)B().getEffectAt(i).getId(); }); }
  else if (k == "addKf") { auto v = kf(o["v"]); E().addKeyframe(v); }
  else if (k == "addKf3") {
    auto v = kf(o["v"]);
    std::optional<double> a;
    if (v.getAmplitudeModulation().has_value()) { a = v.getAmplitudeModulation().value(); }
    E().addKeyframe(v.getRelativePosition(), a, v.getFrequencyModulation());
  }
  else if (k == "addAmp") { ret = E().addAmplitudeAt(oof(o, "a"), I(o, "pos")); }
  else if (k == "addAmp2") { ret = E().addAmplitudeAt(oof(o, "a"), I(o, "pos"), I(o, "over") != 0); }
  else if (k == "addFreq") { ret = E().addFrequencyAt(ooi<int>(o, "f"), I(o, "pos")); }
  else if (k == "replKf") { auto v = kf(o["v"]); ret = E().replaceKeyframeAt(i, v); }
  else if (k == "rmKf") { ret = E().removeKeyframeAt(i); }
  else if (k == "getKf") { range([&] { (void)E().getKeyframeAt(i).getRelativePosition(); }); }
  else if (k == "addTl") { auto v = buildEffect(o["v"]); E().addTimelineEffect(v); }
  else if (k == "addSync") { ht::Sync sy(i, ooi<unsigned int>(o, "ts")); h.addSync(sy); }
  else if (k == "linearize") { h.linearize(); }
  else if (k == "refactor") { h.refactor(); }
  else { std::abort(); }
  w.StartObject();
  kb(w, "ret", ret);
  kv(w, "found", found);
  if (o.HasMember("v")) {
    w.Key("v");
    char t = k.find("Perc") != std::string::npos ? 'p' : k.find("Chan") != std::string::npos ? 'c'
             : k.find("Band") != std::string::npos ? 'b' : k.find("Kf") != std::string::npos ? 'k' : 'e';
    if (t == 'p') { auto v = buildPerception(o["v"]); projPerception(w, v); }
    else if (t == 'c') { auto v = buildChannel(o["v"]); projChannel(w, v); }
    else if (t == 'b') { auto v = buildBand(o["v"]); projBand(w, v); }
    else if (t == 'e') { auto v = buildEffect(o["v"]); projEffect(w, v); }
    else { w.StartObject(); auto v = kf(o["v"]); koi(w, "p", v.getRelativePosition()); kof(w, "a", v.getAmplitudeModulation()); koi(w, "f", v.getFrequencyModulation()); w.EndObject(); }
  }
  w.Key("h");
  projHaptics(w, h);
  w.EndObject();
});
} // namespace hx
