// files: histories of saving, loading and converting files in a scratch directory.
//   {op: files, exps: [..], steps: [{k, f, x, p, ..}], exe: {decoder: path, ..}}
// Names: a b c (plain files), dir (a directory), nodir (in a directory that does not exist), full (/dev/full)
#include "hx.h"
#include <IOHaptics/include/IOBinary.h>
#include <IOHaptics/include/IOJson.h>
#include <IOHaptics/include/IOStream.h>
#include <Tools/include/OHMData.h>
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
namespace hx {
using namespace haptics::io;
using haptics::tools::OHMData;
static auto fnv(const std::string &s) -> int {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) {
    h = (h ^ c) * 1099511628211ULL;
  }
  return static_cast<int>((h >> 20U) & 0x3FFFFFFFU);
}
static auto digestOf(ht::Haptics &h) -> int {
  rapidjson::StringBuffer sb;
  W w(sb);
  projHaptics(w, h);
  return fnv(sb.GetString());
}
static auto metadata(int x) -> OHMData {
  OHMData o;
  o.setHeader("OHM ");
  o.setVersion(static_cast<short>(x + 1));
  o.setDescription("metadata " + std::to_string(x));
  for (int i = 0; i <= x; i++) {
    OHMData::HapticElementMetadata e;
    e.elementFilename = "f" + std::to_string(i);
    e.elementDescription = "Force";
    e.numHapticChannels = 0;
    o.addHapticElementMetadata(e);
  }
  return o;
}
static auto status(pid_t pid) -> int {
  for (int i = 0; i < 2500; i++) { // 5 seconds
    int st = 0;
    if (waitpid(pid, &st, WNOHANG) == pid) {
      return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    }
    usleep(2000);
  }
  kill(pid, SIGKILL);
  waitpid(pid, nullptr, 0);
  return 2000;
}
static Reg a("files", [](const V &op, Session &s, W &w) {
  auto base = s.dir + "/f" + std::to_string(getpid());
  mkdir(base.c_str(), 0777);
  mkdir((base + "/dir").c_str(), 0777);
  auto path = [&](const std::string &n) -> std::string {
    if (n == "full") {
      return "/dev/full";
    }
    if (n == "nodir") {
      return base + "/none/x";
    }
    return base + "/" + n;
  };
  w.StartArray();
  for (auto &st : op["steps"].GetArray()) {
    auto k = S(st, "k");
    auto f = st.HasMember("f") ? S(st, "f") : "";
    auto p = st.HasMember("p") ? path(S(st, "p")) : "";
    int x = Iod(st, "x", 0);
    int ret = -1;
    int got = 0;
    if (k == "save") {
      if (f == "ohm") {
        auto o = metadata(x);
        ret = static_cast<int>(o.writeFile(p));
      } else {
        auto h = buildHaptics(op["exps"][x]);
        ret = static_cast<int>(f == "hjif"   ? IOJson::writeFile(h, p)
                               : f == "hmpg" ? IOBinary::writeFile(h, p)
                                             : IOStream::writeFile(h, p, Iod(op, "dur", 50)));
      }
    } else if (k == "load" || k == "conv") {
      if (f == "ohm") {
        OHMData o;
        ret = static_cast<int>(o.loadFile(p));
        got = fnv(o.getDescription()) % 1000003 + static_cast<int>(o.getHapticElementMetadataSize());
      } else {
        ht::Haptics h;
        ret = static_cast<int>(f == "hjif"   ? IOJson::loadFile(p, h)
                               : f == "hmpg" ? IOBinary::loadFile(p, h)
                                             : IOStream::readFile(p, h));
        got = ret != 0 ? digestOf(h) : 0;
        if (k == "conv" && ret != 0) {
          ret = static_cast<int>(IOJson::writeFile(h, path(S(st, "q"))));
        }
      }
    } else if (k == "put") {
      spit(p, S(st, "s"));
    } else if (k == "del") {
      unlink(p.c_str());
    } else if (k == "cut") {
      auto b = slurp(p);
      spit(p, b.substr(0, b.size() * I(st, "n") / 1000));
    } else if (k == "run") {
      std::vector<std::string> args = {S(op["exe"], S(st, "exe").c_str())};
      for (auto &t : st["args"].GetArray()) {
        std::string v = t.GetString();
        args.push_back(!v.empty() && v[0] == '@' ? path(v.substr(1)) : v);
      }
      pid_t pid = fork();
      if (pid == 0) {
        if (chdir(base.c_str()) != 0) {
          _exit(99);
        }
        int n = open("/dev/null", O_RDWR);
        dup2(n, 0);
        dup2(n, 1);
        dup2(n, 2);
        std::vector<char *> v;
        for (auto &t : args) {
          v.push_back(t.data());
        }
        v.push_back(nullptr);
        execv(v[0], v.data());
        _exit(98);
      }
      ret = status(pid);
    }
    w.StartObject();
    kv(w, "ret", ret);
    kv(w, "got", got);
    w.Key("d");
    w.StartArray();
    for (const char *n : {"a", "b", "c"}) {
      struct stat sb {};
      auto q = path(n);
      w.Int(stat(q.c_str(), &sb) != 0 ? -1 : S_ISREG(sb.st_mode) ? fnv(slurp(q)) : -2);
    }
    w.EndArray();
    w.EndObject();
  }
  w.EndArray();
  for (const char *n : {"a", "b", "c"}) {
    unlink(path(n).c_str());
  }
  rmdir((base + "/dir").c_str());
  rmdir(base.c_str());
});
} // namespace hx
