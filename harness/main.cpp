// hx IN.ndjson OUT.ndjson SCRATCH_DIR TIMEOUT_S
// Each input line {"id":n,"ops":[{"op":..},..]} runs in a forked child so that a crash, a hang or an
// escaped exception of the code under test is an observation, not the end of the harness.
#include "hx.h"
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace hx {
auto registry() -> std::map<std::string, OpFn> & {
  static std::map<std::string, OpFn> r;
  return r;
}
static void runOps(const V &req, const std::string &dir, int fd) {
  Session s;
  s.dir = dir;
  auto emit = [&](const std::string &t) {
    size_t o = 0;
    while (o < t.size()) {
      auto n = write(fd, t.data() + o, t.size() - o);
      if (n <= 0) {
        _exit(9);
      }
      o += static_cast<size_t>(n);
    }
  };
  bool first = true;
  for (auto &op : req["ops"].GetArray()) {
    rapidjson::StringBuffer b;
    W w(b);
    auto it = registry().find(op["op"].GetString());
    if (it == registry().end()) {
      _exit(8);
    }
    try {
      it->second(op, s, w);
    } catch (const std::exception &e) {
      rapidjson::StringBuffer b2;
      W w2(b2);
      w2.StartObject();
      ks(w2, "exc", e.what());
      w2.EndObject();
      emit((first ? "" : ",") + std::string(b2.GetString()));
      _exit(7);
    }
    emit((first ? "" : ",") + std::string(b.GetString()));
    first = false;
  }
  _exit(0);
}
} // namespace hx

int main(int argc, char **argv) {
  if (argc < 5) {
    return 2;
  }
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string dir = argv[3];
  int to = std::atoi(argv[4]);
  std::string line;
  int hangs = 0;
  while (std::getline(in, line)) {
    if (line.empty()) {
      continue;
    }
    rapidjson::Document d;
    d.Parse(line.c_str());
    if (d.HasParseError()) {
      std::cerr << "bad request\n";
      return 2;
    }
    if (hangs >= 5) { // the verdict is clear: do not spend the time limit again and again
      out << "{\"id\":" << d["id"].GetInt() << ",\"end\":\"skipped\",\"out\":[]}\n";
      continue;
    }
    int p[2];
    if (pipe(p) != 0) {
      return 2;
    }
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]);
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      dup2(nul, 2);
      rlimit rl{};
      rl.rlim_cur = rl.rlim_max = static_cast<rlim_t>(to);
      setrlimit(RLIMIT_CPU, &rl);
      rlimit ra{};
      ra.rlim_cur = ra.rlim_max = static_cast<rlim_t>(2) << 30;
#ifndef __SANITIZE_ADDRESS__
      setrlimit(RLIMIT_AS, &ra);
#endif
      rlimit rc{};
      setrlimit(RLIMIT_CORE, &rc);
      rlimit rf{};
      rf.rlim_cur = rf.rlim_max = static_cast<rlim_t>(256) << 20;
      setrlimit(RLIMIT_FSIZE, &rf);
      hx::runOps(d, dir, p[1]);
    }
    close(p[1]);
    std::string got;
    char buf[65536];
    for (;;) {
      auto n = read(p[0], buf, sizeof buf);
      if (n <= 0) {
        break;
      }
      got.append(buf, static_cast<size_t>(n));
    }
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    std::string end = "ok";
    if (WIFSIGNALED(st)) {
      int sg = WTERMSIG(st);
      end = (sg == SIGXCPU || sg == SIGKILL) ? "hang" : "crash";
      hangs += end == "hang" ? 1 : 0;
    } else if (WEXITSTATUS(st) == 7) {
      end = "exception";
    } else if (WEXITSTATUS(st) != 0) {
      end = "crash";
    }
    out << "{\"id\":" << d["id"].GetInt() << ",\"end\":\"" << end << "\",\"out\":[" << got << "]}\n";
  }
  return 0;
}
