// import: AHAP and IVS files.   {op: ahap|ivs, doc: text, ts, chans: channels already there, path: file|missing|dir}
#include "hx.h"
#include <FilterBank/include/Filterbank.h>
#include <Encoder/include/AhapEncoder.h>
#include <Encoder/include/IvsEncoder.h>
#include <Encoder/include/PcmEncoder.h>
#include <WaveletDecoder/include/WaveletDecoder.h>
#include <unistd.h>
namespace hx {
static void import(const V &op, Session &s, W &w, bool ahap) {
  auto path = s.dir + "/import" + std::to_string(getpid()) + (ahap ? ".ahap" : ".ivs");
  auto what = S(op, "path");
  if (what == "file") {
    spit(path, S(op, "doc"));
  } else if (what == "dir") {
    path = s.dir;
  }
  ht::Perception p(0, 0, "imported", ht::PerceptionModality::Vibrotactile);
  for (int i = 0; i < I(op, "chans"); i++) {
    ht::Channel c(i, "kept", 1, 1, 0);
    p.addChannel(c);
  }
  auto ts = static_cast<unsigned int>(I(op, "ts"));
  int ret = ahap ? haptics::encoder::AhapEncoder::encode(path, p, ts) : haptics::encoder::IvsEncoder::encode(path, p, ts);
  if (what == "file") {
    unlink(path.c_str());
  }
  w.StartObject();
  kv(w, "ret", ret);
  w.Key("chans");
  w.StartArray();
  for (int i = 0; i < static_cast<int>(p.getChannelsSize()); i++) {
    projChannel(w, p.getChannelAt(i));
  }
  w.EndArray();
  w.EndObject();
}
static Reg a("ahap", [](const V &op, Session &s, W &w) { import(op, s, w, true); });
static Reg b("ivs", [](const V &op, Session &s, W &w) { import(op, s, w, false); });
// {op: pcm, data: samples of each channel (16 bit), rate, cut: bytes left away, cf (1/100 Hz), bl, bu, w, v, ts, mod, chans, path}
static Reg c("pcm", [](const V &op, Session &s, W &w) {
  auto path = s.dir + "/import" + std::to_string(getpid()) + ".wav";
  auto what = S(op, "path");
  std::string b;
  auto u = [&](uint32_t v, int n) {
    for (int i = 0; i < n; i++) {
      b.push_back(static_cast<char>(v >> (8 * i)));
    }
  };
  auto &d = op["data"];
  uint32_t nc = d.Size();
  uint32_t n = d[0].Size();
  auto rate = static_cast<uint32_t>(I(op, "rate"));
  b += "RIFF";
  u(36 + 2 * n * nc, 4);
  b += "WAVEfmt ";
  u(16, 4);
  u(1, 2);
  u(nc, 2);
  u(rate, 4);
  u(rate * nc * 2, 4);
  u(nc * 2, 2);
  u(16, 2);
  b += "data";
  u(2 * n * nc, 4);
  for (uint32_t i = 0; i < n; i++) {
    for (uint32_t k = 0; k < nc; k++) {
      u(static_cast<uint32_t>(d[k][i].GetInt()), 2);
    }
  }
  if (what == "junk") {
    b = "no recording";
  }
  if (what == "dir") {
    path = s.dir;
  } else if (what != "missing") {
    spit(path, b);
  }
  ht::Perception p(0, 0, "imported", static_cast<ht::PerceptionModality>(I(op, "mod")));
  for (int i = 0; i < I(op, "chans"); i++) {
    ht::Channel ch(i, "kept", 1, 1, 0);
    p.addChannel(ch);
  }
  haptics::encoder::EncodingConfig cfg(I(op, "cf") / 100.0, I(op, "bl"), I(op, "bu"), I(op, "w") == 1, I(op, "v") == 1);
  auto ts = static_cast<unsigned int>(I(op, "ts"));
  int ret = haptics::encoder::PcmEncoder::encode(path, cfg, ts, p);
  if (what != "dir") {
    unlink(path.c_str());
  }
  w.StartObject();
  kv(w, "ret", ret);
  w.Key("chans");
  w.StartArray();
  for (int i = 0; i < static_cast<int>(p.getChannelsSize()); i++) {
    projChannel(w, p.getChannelAt(i));
  }
  w.EndArray();
  w.Key("play");
  w.StartArray();
  haptics::waveletdecoder::WaveletDecoder dec;
  for (int i = 0; i < static_cast<int>(p.getChannelsSize()); i++) {
    auto &ch = p.getChannelAt(i);
    for (int k = 0; k < static_cast<int>(ch.getBandsSize()); k++) {
      auto band = ch.getBandAt(k);
      dec.transformBand(band, ts);
      ch.replaceBandAt(k, band);
    }
    w.StartArray();
    for (auto v : ch.EvaluateChannel(n, static_cast<int>(rate), 0, ts)) {
      w.Int(sc(v));
    }
    w.EndArray();
  }
  w.EndArray();
  // the part below the cutoff
  w.Key("low");
  w.StartArray();
  for (uint32_t k = 0; k < nc && I(op, "cf") > 0; k++) {
    std::vector<double> x;
    for (uint32_t i = 0; i < n; i++) {
      x.push_back(d[k][i].GetInt() / 32768.0);
    }
    w.StartArray();
    for (auto v : haptics::filterbank::Filterbank(rate).LP(x, cfg.curveFrequencyLimit)) {
      w.Int(sc(v));
    }
    w.EndArray();
  }
  w.EndArray();
  w.EndObject();
});
} // namespace hx
