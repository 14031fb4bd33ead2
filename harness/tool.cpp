// tool: the synthesizer and the encoder.
//   {op: synth, exp, via: lib|hjif|mihs, fs, pad, ohm, dur, exe}: the experience as the synthesizer gets it and the WAV it writes
//   {op: encode, exe, ext, ..input.., words: the command line, combos: [{r, l, b, dur, ts}]}: what the encoder writes, and what
//     reading the input, refactoring, linearising and writing gives for every combination
#include "hx.h"
#include <Encoder/include/AhapEncoder.h>
#include <Encoder/include/IvsEncoder.h>
#include <Encoder/include/PcmEncoder.h>
#include <IOHaptics/include/IOBinary.h>
#include <IOHaptics/include/IOJson.h>
#include <IOHaptics/include/IOStream.h>
#include <Synthesizer/include/Helper.h>
#include <Tools/include/OHMData.h>
#include <WaveletDecoder/include/WaveletDecoder.h>
#include <fcntl.h>
#include <filesystem>
#include <regex>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
namespace hx {
using namespace haptics::io;
using haptics::tools::OHMData;
namespace fs = std::filesystem;
static auto fnv(const std::string &s) -> int {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) {
    h = (h ^ c) * 1099511628211ULL;
  }
  return static_cast<int>((h >> 20U) & 0x3FFFFFFFU);
}
// runs a program in directory dir: its exit code, 1000 + signal, 2000 if it does not end in 5 seconds
static auto spawn(std::vector<std::string> args, const std::string &dir) -> int {
  pid_t pid = fork();
  if (pid == 0) {
    if (chdir(dir.c_str()) != 0) {
      _exit(99);
    }
    int n = open("/dev/null", O_RDWR);
    dup2(n, 0);
    dup2(n, 1);
    dup2(n, 2);
    std::vector<char *> v;
    for (auto &t : args) {
      v.push_back(t.data());
    }
    v.push_back(nullptr);
    execv(v[0], v.data());
    _exit(98);
  }
  for (int i = 0; i < 2500; i++) {
    int st = 0;
    if (waitpid(pid, &st, WNOHANG) == pid) {
      return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    }
    usleep(2000);
  }
  kill(pid, SIGKILL);
  waitpid(pid, nullptr, 0);
  return 2000;
}
static auto names(const std::string &dir) -> std::string {
  std::vector<std::string> v;
  for (auto &e : fs::recursive_directory_iterator(dir)) {
    v.push_back(fs::relative(e.path(), dir).string());
  }
  std::sort(v.begin(), v.end());
  std::string r;
  for (auto &x : v) {
    r += x + " ";
  }
  return r;
}
// a WAV file of 16 bit samples: rate, channels, samples of each channel
static void wav(W &w, const std::string &b) {
  auto u = [&](size_t p, int n) {
    uint32_t v = 0;
    for (int i = n - 1; i >= 0; i--) {
      v = v << 8U | (p + i < b.size() ? static_cast<unsigned char>(b[p + i]) : 0U);
    }
    return v;
  };
  bool ok = b.size() >= 44 && b.substr(0, 4) == "RIFF" && b.substr(8, 8) == "WAVEfmt " && b.substr(36, 4) == "data" && u(4, 4) + 8 == b.size() &&
            u(40, 4) + 44 == b.size() && u(20, 2) == 1 && u(34, 2) == 16;
  kv(w, "wav", ok ? 1 : 0);
  auto nc = ok ? u(22, 2) : 0;
  kv(w, "rate", static_cast<int>(u(24, 4)));
  kv(w, "nc", static_cast<int>(nc));
  kv(w, "n", nc == 0 ? 0 : static_cast<int>((b.size() - 44) / 2 / nc));
  w.Key("data");
  w.StartArray();
  for (uint32_t c = 0; c < nc; c++) {
    w.StartArray();
    for (size_t p = 44 + 2 * c; p + 1 < b.size(); p += 2 * nc) {
      w.Int(static_cast<int16_t>(u(p, 2)));
    }
    w.EndArray();
  }
  w.EndArray();
}
// the experience with the samples of its wavelet effects
static void heard(W &w, ht::Haptics h) {
  haptics::waveletdecoder::WaveletDecoder d;
  for (int i = 0; i < static_cast<int>(h.getPerceptionsSize()); i++) {
    for (int j = 0; j < static_cast<int>(h.getPerceptionAt(i).getChannelsSize()); j++) {
      auto &c = h.getPerceptionAt(i).getChannelAt(j);
      for (int k = 0; k < static_cast<int>(c.getBandsSize()); k++) {
        auto b = c.getBandAt(k);
        d.transformBand(b, h.getTimescaleOrDefault());
        c.replaceBandAt(k, b);
      }
    }
  }
  projHaptics(w, h);
}
struct Scratch {
  std::string dir;
  explicit Scratch(const Session &s) : dir(s.dir + "/t" + std::to_string(getpid())) { fs::create_directory(dir); }
  ~Scratch() {
    std::error_code e;
    fs::remove_all(dir, e);
  }
};
static Reg a("synth", [](const V &op, Session &s, W &w) {
  Scratch t(s);
  auto via = S(op, "via");
  auto h = buildHaptics(op["exp"]);
  auto in = t.dir + "/in." + via;
  auto out = t.dir + "/" + S(op, "name");
  bool wrote = via == "lib" || (via == "hjif" ? IOJson::writeFile(h, in) : IOStream::writeFile(h, in, I(op, "dur")));
  auto spoil = S(op, "spoil");
  if (spoil == "junk") {
    spit(in, "junk");
  } else if (spoil == "missing") {
    fs::remove(in);
  } else if (spoil == "nodir") {
    out = t.dir + "/none/" + S(op, "name");
  }
  ht::Haptics g;
  bool read = wrote;
  if (via == "lib") {
    g = h;
  } else {
    read = wrote && (via == "hjif" ? IOJson::loadFile(in, g) : IOStream::readFile(in, g));
  }
  w.StartObject();
  kv(w, "read", read ? 1 : 0);
  w.Key("exp");
  heard(w, g);
  int ret = -1;
  if (via == "lib") {
    g.linearize();
    ret = haptics::synthesizer::Helper::playFile(g, haptics::synthesizer::Helper::getTimeLength(g), I(op, "fs"), I(op, "pad"), out) ? 0 : 1;
  } else {
    std::vector<std::string> args = {S(op, "exe")};
    for (auto &x : op["words"].GetArray()) {
      std::string v = x.GetString();
      args.push_back(v == "@in" ? in : v == "@out" ? out : v);
    }
    ret = spawn(args, t.dir);
  }
  kv(w, "ret", ret);
  wav(w, slurp(out));
  int ohm = -1;
  int wants = -1;
  auto po = fs::path(out).replace_extension(".ohm").string();
  if (fs::exists(po)) {
    ohm = fnv(slurp(po));
    g.linearize();
    auto name = S(op, "name");
    auto o = g.extractMetadataToOHM(name);
    o.writeFile(t.dir + "/want");
    wants = fnv(slurp(t.dir + "/want"));
    fs::remove(t.dir + "/want");
  }
  kv(w, "ohm", ohm);
  kv(w, "wants", wants);
  ks(w, "names", names(t.dir));
  w.EndObject();
});

static auto importFile(const std::string &path, const std::string &ext, ht::Perception &p, unsigned int ts,
                       haptics::encoder::EncodingConfig &cfg) -> int {
  auto f = path;
  if (ext == "ahap" || ext == "json") {
    return haptics::encoder::AhapEncoder::encode(f, p, ts);
  }
  if (ext == "ivs" || ext == "xml") {
    return haptics::encoder::IvsEncoder::encode(f, p, ts);
  }
  return haptics::encoder::PcmEncoder::encode(f, cfg, ts, p);
}
static auto ext(const std::string &p) -> std::string { return fs::path(p).extension().string().substr(1); }
static auto blank(const std::string &s) -> int {
  static const std::regex d("[0-9]{4}-[0-9]{2}-[0-9]{2}[T ]?[0-9:]*|[A-Z][a-z]{2} [A-Z][a-z]{2} [ 0-9]{2} [0-9:]{8} [0-9]{4}");
  return fnv(std::regex_replace(s, d, "DATE"));
}
static auto digestOf(const std::string &path, bool binary) -> int {
  if (!fs::exists(path)) {
    return -1;
  }
  if (!binary) {
    return blank(slurp(path));
  }
  ht::Haptics h;
  if (!IOStream::readFile(path, h)) {
    return -2;
  }
  rapidjson::StringBuffer sb;
  W w(sb);
  projHaptics(w, h);
  // units are cut where the packets' duration says: the size of the file tells the duration
  return blank(std::string(sb.GetString()) + " " + std::to_string(slurp(path).size()));
}
static Reg b("encode", [](const V &op, Session &s, W &w) {
  Scratch t(s);
  auto in = t.dir + "/in." + S(op, "ext");
  for (auto &f : op["files"].GetArray()) {
    auto p = t.dir + "/" + S(f, "name");
    if (f.HasMember("hex")) {
      std::string v;
      auto x = S(f, "hex");
      for (size_t i = 0; i + 1 < x.size(); i += 2) {
        v.push_back(static_cast<char>(std::stoi(x.substr(i, 2), nullptr, 16)));
      }
      spit(p, v);
    } else if (f.HasMember("text")) {
      spit(p, S(f, "text"));
    } else if (f.HasMember("exp")) {
      auto h = buildHaptics(f["exp"]);
      IOJson::writeFile(h, p);
    } else if (f.HasMember("ohm")) {
      OHMData o;
      o.setHeader("OHM ");
      o.setVersion(1);
      o.setDescription("d");
      for (auto &e : f["ohm"].GetArray()) {
        OHMData::HapticElementMetadata m;
        m.elementFilename = S(e, "name");
        m.elementDescription = S(e, "desc");
        m.numHapticChannels = static_cast<short>(I(e, "n"));
        for (int i = 0; i < I(e, "n"); i++) {
          OHMData::HapticChannelMetadata c;
          c.channelDescription = "c";
          c.gain = 1;
          m.channelsMetadata.push_back(c);
        }
        o.addHapticElementMetadata(m);
      }
      o.writeFile(p);
    }
  }
  auto before = names(t.dir);
  w.StartObject();
  w.Key("runs");
  w.StartArray();
  for (auto &run : op["runs"].GetArray()) {
    auto out = t.dir + "/" + S(run, "name");
    std::vector<std::string> args = {S(op, "exe")};
    for (auto &x : run["words"].GetArray()) {
      std::string v = x.GetString();
      args.push_back(v == "@in" ? in : v == "@out" ? out : v == "@none" ? t.dir + "/nothing" : v);
    }
    w.StartObject();
    kv(w, "ret", spawn(args, t.dir));
    std::string res;
    for (auto &e : fs::directory_iterator(t.dir)) {
      auto n = e.path().filename().string();
      if ((" " + before).find(" " + n + " ") == std::string::npos) {
        res += (res.empty() ? "" : " ") + n;
      }
    }
    ks(w, "new", res);
    auto one = t.dir + "/" + res;
    kv(w, "text", res.empty() || res.find(' ') != std::string::npos ? -1 : digestOf(one, false));
    kv(w, "bin", res.empty() || res.find(' ') != std::string::npos ? -1 : digestOf(one, true));
    if (!res.empty() && res.find(' ') == std::string::npos) {
      fs::remove(one);
    }
    w.EndObject();
  }
  w.EndArray();
  // the same by calls of the library
  w.Key("lib");
  w.StartArray();
  for (auto &c : op["combos"].GetArray()) {
    int code = 0;
    ht::Haptics h;
    auto ts = static_cast<unsigned int>(I(c, "ts"));
    h.setTimescale(ts);
    auto e = S(op, "ext");
    auto cf = I(c, "cf") / 100.0;
    auto bl = I(c, "bl");
    auto cfg = I(c, "kb") > 0 ? haptics::encoder::EncodingConfig::generateConfigParam(I(c, "kb"), cf, I(c, "w") == 1, I(c, "v") == 1, bl)
                              : haptics::encoder::EncodingConfig::generateConfigBudget(I(c, "bu"), cf, I(c, "w") == 1, I(c, "v") == 1, bl);
    if (e == "hjif") {
      code = IOJson::loadFile(in, h) ? 0 : 1;
    } else if (e == "ohm") {
      OHMData o;
      code = o.loadFile(in) ? 0 : 1;
      if (code == 0) {
        h.loadMetadataFromOHM(o);
        for (int i = 0; i < static_cast<int>(o.getHapticElementMetadataSize()) && code == 0; i++) {
          auto f = t.dir + "/" + o.getHapticElementMetadataAt(i).elementFilename;
          auto p = h.getPerceptionAt(i);
          code = fs::is_regular_file(f) ? importFile(f, ext(f), p, h.getTimescaleOrDefault(), cfg) : 1;
          h.replacePerceptionAt(i, p);
        }
      }
    } else {
      ht::Perception p(0, 0, std::string(), ht::PerceptionModality::Other);
      code = importFile(in, e, p, ts, cfg);
      h.addPerception(p);
    }
    if (code == 0 && I(c, "r") == 1) {
      h.refactor();
    }
    if (code == 0 && I(c, "l") == 1) {
      h.linearize();
    }
    auto out = t.dir + "/lib.out";
    if (code == 0) {
      code = (I(c, "b") == 1 ? IOStream::writeFile(h, out, I(c, "dur")) : IOJson::writeFile(h, out)) ? 0 : 1;
    }
    w.StartObject();
    kv(w, "ret", code);
    kv(w, "d", digestOf(out, I(c, "b") == 1));
    w.EndObject();
    fs::remove(out);
  }
  w.EndArray();
  w.EndObject();
});
} // namespace hx
