#include "hx.h"
// rendering: {at: ticks, fs, pad (ms), n}: the first channel and its bands evaluated at those ticks, and n samples
namespace hx {
static Reg a("render", [](const V &op, Session &s, W &w) {
  auto ts = s.h.getTimescaleOrDefault();
  auto &c = s.h.getPerceptionAt(0).getChannelAt(0);
  w.StartObject();
  w.Key("chan");
  w.StartArray();
  for (auto &t : op["at"].GetArray()) {
    w.Int(sc(c.Evaluate(t.GetInt(), ts)));
  }
  w.EndArray();
  w.Key("bands");
  w.StartArray();
  for (int i = 0; i < static_cast<int>(c.getBandsSize()); i++) {
    auto &b = c.getBandAt(i);
    w.StartArray();
    for (auto &t : op["at"].GetArray()) {
      w.Int(sc(b.Evaluate(t.GetInt(), b.getLowerFrequencyLimit(), b.getUpperFrequencyLimit(), ts)));
    }
    w.EndArray();
  }
  w.EndArray();
  w.Key("sampled");
  w.StartArray();
  for (auto v : c.EvaluateChannel(static_cast<uint32_t>(I(op, "n")), I(op, "fs"), I(op, "pad"), ts)) {
    w.Int(sc(v));
  }
  w.EndArray();
  w.Key("sband");
  w.StartArray();
  for (int i = 0; i < static_cast<int>(c.getBandsSize()); i++) {
    w.StartArray();
    for (auto v : c.getBandAt(i).EvaluationBand(static_cast<uint32_t>(I(op, "n")), I(op, "fs"), I(op, "pad"), ts)) {
      w.Int(sc(v));
    }
    w.EndArray();
  }
  w.EndArray();
  w.Key("len");
  w.StartArray();
  for (int i = 0; i < static_cast<int>(c.getBandsSize()); i++) {
    w.Int(sc(c.getBandAt(i).getBandTimeLength(ts)));
  }
  w.EndArray();
  w.EndObject();
});
} // namespace hx
