#include "hx.h"
#include <Encoder/include/WaveletEncoder.h>
#include <FilterBank/include/Wavelet.h>
#include <IOHaptics/include/IOBinary.h>
#include <Spiht/include/Spiht_Dec.h>
#include <Spiht/include/Spiht_Enc.h>
#include <WaveletDecoder/include/WaveletDecoder.h>
namespace hx {
using haptics::waveletdecoder::WaveletDecoder;
static void wd(W &w, const char *k, const std::vector<double> &v, double s) {
  w.Key(k);
  w.StartArray();
  for (auto x : v) {
    double y = std::round(x * s);
    w.Int(std::isfinite(y) && std::fabs(y) < 2e9 ? static_cast<int>(y) : 2000000001);
  }
  w.EndArray();
}
// {x (scaled by 10000), levels}: transform and back
static Reg a("dwt", [](const V &op, Session &, W &w) {
  std::vector<double> x;
  for (auto &v : op["x"].GetArray()) {
    x.push_back(v.GetInt() / SC);
  }
  haptics::filterbank::Wavelet wl;
  std::vector<double> c(x.size(), 0);
  std::vector<double> y(x.size(), 0);
  wl.DWT(x, I(op, "levels"), c);
  wl.inv_DWT(c, I(op, "levels"), y);
  std::vector<double> z(x.size(), 0);
  wl.inv_DWT(x, I(op, "levels"), z);
  w.StartObject();
  wd(w, "c", c, SC);
  wd(w, "y", y, SC);
  wd(w, "z", z, SC);
  w.EndObject();
});
// a band as its samples: positions, the samples of transformBand and the signal of decodeBand
static void samples(W &w, ht::Band b, unsigned ts, double s) {
  WaveletDecoder d;
  auto sig = d.decodeBand(b, static_cast<int>(ts));
  d.transformBand(b, ts);
  w.Key("fx");
  w.StartArray();
  for (int i = 0; i < static_cast<int>(b.getEffectsSize()); i++) {
    w.StartObject();
    kv(w, "pos", b.getEffectAt(i).getPosition());
    wd(w, "s", b.getEffectAt(i).getWaveletSamples(), s);
    w.EndObject();
  }
  w.EndArray();
  wd(w, "sig", sig, s);
}
// blocks {x (integer coefficients), lev, wav, pos} of a band -> samples scaled by s
static Reg b("wave_dec", [](const V &op, Session &, W &w) {
  ht::Band b(ht::BandType::WaveletWave, I(op, "blk"), 0, I(op, "up"));
  haptics::spiht::Spiht_Enc enc;
  for (auto &bl : op["blocks"].GetArray()) {
    std::vector<int> x;
    for (auto &v : bl["x"].GetArray()) {
      x.push_back(v.GetInt());
    }
    ht::Effect e;
    e.setPosition(I(bl, "pos"));
    std::vector<unsigned char> bytes;
    enc.encodeEffect(x, I(bl, "lev"), I(bl, "wav") / 128.0, bytes);
    e.setWaveletBitstream(bytes);
    b.addEffect(e);
  }
  w.StartObject();
  samples(w, b, static_cast<unsigned>(I(op, "ts")), I(op, "s"));
  w.EndObject();
});
// {sig (scaled by 10000), bl, fs, budget, ts}: the encoder's band, its blocks and samples, also out of a file
static Reg c("wave_rt", [](const V &op, Session &s, W &w) {
  std::vector<double> x;
  for (auto &v : op["sig"].GetArray()) {
    x.push_back(v.GetInt() / SC);
  }
  unsigned ts = static_cast<unsigned>(I(op, "ts"));
  haptics::encoder::WaveletEncoder enc(I(op, "bl"), I(op, "fs"));
  ht::Band b;
  bool ok = enc.encodeSignal(x, I(op, "budget"), I(op, "lo"), b, ts);
  w.StartObject();
  kb(w, "ok", ok);
  kv(w, "type", static_cast<int>(b.getBandType()));
  koi(w, "blk", b.getBlockLength());
  kv(w, "lo", b.getLowerFrequencyLimit());
  kv(w, "up", b.getUpperFrequencyLimit());
  w.Key("blocks");
  w.StartArray();
  haptics::spiht::Spiht_Dec dec;
  for (int i = 0; i < static_cast<int>(b.getEffectsSize()); i++) {
    auto bytes = b.getEffectAt(i).getWaveletBitstream();
    std::vector<int> co(I(op, "bl"), 0);
    double wav = 0;
    int lev = 0;
    dec.decodeEffect(bytes, co, I(op, "bl"), wav, lev);
    w.StartObject();
    kv(w, "pos", b.getEffectAt(i).getPosition());
    kv(w, "bytes", static_cast<int>(bytes.size()));
    kv(w, "lev", lev);
    kv(w, "wav", static_cast<int>(std::llround(wav * 128)));
    std::vector<double> co2(co.begin(), co.end());
    wd(w, "c", co2, lev == 0 && bytes.empty() ? 0 : SC * wav / (1 << lev));
    w.EndObject();
  }
  w.EndArray();
  samples(w, b, ts, SC);
  // through a binary file
  ht::Haptics h("2023", "2023-01-01", "x");
  std::string profile = "Main";
  h.setProfile(profile);
  h.setLevel(1);
  h.setTimescale(ts);
  ht::Perception p(0, 0, "p", ht::PerceptionModality::Vibrotactile);
  ht::Channel ch(0, "c", 1, 1, 0);
  ch.addBand(b);
  p.addChannel(ch);
  h.addPerception(p);
  auto f = s.dir + "/w.hmpg";
  ht::Haptics g;
  bool io = haptics::io::IOBinary::writeFile(h, f) && haptics::io::IOBinary::loadFile(f, g);
  kb(w, "io", io);
  w.Key("file");
  w.StartObject();
  if (io) {
    samples(w, g.getPerceptionAt(0).getChannelAt(0).getBandAt(0), g.getTimescaleOrDefault(), SC);
  }
  w.EndObject();
  w.EndObject();
});
} // namespace hx
