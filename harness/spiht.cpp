#include "hx.h"
#include <Spiht/include/ArithDec.h>
#include <Spiht/include/ArithEnc.h>
#include <Spiht/include/Spiht_Dec.h>
#include <Spiht/include/Spiht_Enc.h>
namespace hx {
using namespace haptics::spiht;
template <class T> void warr(W &w, const char *k, const std::vector<T> &v) {
  w.Key(k);
  w.StartArray();
  for (auto x : v) {
    w.Int(static_cast<int>(x));
  }
  w.EndArray();
}
template <class T> auto arr(const V &v) -> std::vector<T> {
  std::vector<T> r;
  for (auto &x : v.GetArray()) {
    r.push_back(static_cast<T>(x.GetInt()));
  }
  return r;
}
static void decoded(W &w, Spiht_Dec &dec, std::vector<unsigned char> &bytes, int n) {
  std::vector<int> out(n, 0);
  double wav = -1;
  int lev = -1;
  dec.decodeEffect(bytes, out, n, wav, lev);
  warr(w, "x", out);
  kv(w, "lev", lev);
  kv(w, "wav", static_cast<int>(std::llround(wav * 128)));
  kb(w, "exact", wav * 128 == std::round(wav * 128));
}
// streams coded one after the other by one encoder and one decoder
static Reg a("arith", [](const V &op, Session &, W &w) {
  ArithEnc enc;
  ArithDec dec;
  enc.resetCounter();
  dec.resetCounter();
  w.StartObject();
  w.Key("streams");
  w.StartArray();
  for (auto &st : op["streams"].GetArray()) {
    auto sym = arr<unsigned char>(st["sym"]);
    auto ctx = arr<int>(st["ctx"]);
    std::vector<unsigned char> bits;
    std::vector<unsigned char> bytes;
    enc.encode(sym, ctx, bits);
    ArithEnc::convert2bytes(bits, bytes);
    std::vector<unsigned char> rbits;
    ArithDec::convert2bits(bytes, rbits);
    dec.initDecoding(rbits);
    std::vector<int> back;
    for (auto c : ctx) {
      back.push_back(dec.decode(c));
    }
    if (st["reset"].GetBool()) {
      enc.resetCounter();
      dec.resetCounter();
    } else {
      dec.rescaleCounter();
    }
    w.StartObject();
    warr(w, "bits", bits);
    warr(w, "bytes", bytes);
    warr(w, "sym", back);
    w.EndObject();
  }
  w.EndArray();
  w.EndObject();
});
// blocks {x, lev, wav} coded one after the other by one encoder and one decoder
static Reg b("spiht_rt", [](const V &op, Session &, W &w) {
  Spiht_Enc enc;
  Spiht_Dec dec;
  w.StartObject();
  w.Key("blocks");
  w.StartArray();
  for (auto &bl : op["blocks"].GetArray()) {
    auto x = arr<int>(bl["x"]);
    std::vector<unsigned char> bytes;
    enc.encodeEffect(x, I(bl, "lev"), I(bl, "wav") / 128.0, bytes);
    w.StartObject();
    warr(w, "bytes", bytes);
    decoded(w, dec, bytes, static_cast<int>(x.size()));
    w.EndObject();
  }
  w.EndArray();
  w.EndObject();
});
// any bytes {bytes, n} decoded one after the other by one decoder
static Reg c("spiht_dec", [](const V &op, Session &, W &w) {
  Spiht_Dec dec;
  w.StartObject();
  w.Key("blocks");
  w.StartArray();
  for (auto &bl : op["blocks"].GetArray()) {
    auto bytes = arr<unsigned char>(bl["bytes"]);
    w.StartObject();
    decoded(w, dec, bytes, I(bl, "n"));
    w.EndObject();
  }
  w.EndArray();
  w.EndObject();
});
} // namespace hx
