// Bounded exhaustive exploration of real code: sharding over worker processes,
// crash and hang capture, counters, replay, known findings, evidence.
#pragma once

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <filesystem>
#include <format>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

namespace mc {

inline std::string json_str(std::string_view s) {
  std::string out = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      out += '\\';
      out += c;
    } else if (c < 0x20) {
      out += std::format("\\u{:04x}", c);
    } else {
      out += c;
    }
  }
  return out + "\"";
}

struct Shared {
  std::atomic<uint64_t> beat{0};
  std::atomic<uint64_t> states{0}, transitions{0}, traces{0}, evaluations{0},
      distinct{0}, violations{0};
  std::atomic<uint64_t> done{0};
  char key[8192];
  uint32_t nviol_stored;
  uint32_t viol_len;
  char viol[1 << 18];
  uint32_t nsamples;
  uint32_t sample_len;
  char sample[1 << 14];
  char err[4096];
};

struct Config {
  const char* property;
  const char* level;  // exploration, model_checking, fault_enumeration
  std::string rule;
  std::vector<std::string> assumptions;
  int hang_seconds = 120;
  int stop_seconds = 400;  // Once there's a violation, stop after this long
  int workers = 0;  // 0: number of cores
};

class Run {
 public:
  std::string tier;
  bool thorough = false;
  bool replaying = false;
  std::string only;
  unsigned shard = 0, shards = 1;
  Shared* sh = nullptr;
  bool exhaustive = true;

  // True if this worker is to run the next case of the enumeration.
  // Cases are dealt out by a hash, since expensive ones can recur at regular
  // distances.
  bool take() {
    uint64_t h = m_index++;
    h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9u;
    h = (h ^ (h >> 27)) * 0x94d049bb133111ebu;
    return (h ^ (h >> 31)) % shards == shard;
  }
  uint64_t index() const { return m_index; }

  // Announces the case about to be run. False: not wanted (replaying another).
  bool begin(std::string_view key) {
    if (replaying && key != only) {
      return false;
    }
    set_key(key);
    return true;
  }

  // Like begin(), and counts an evaluation of a distinct non-trivial case.
  bool begin_case(std::string_view key) {
    if (!begin(key)) {
      return false;
    }
    sh->evaluations.fetch_add(1, std::memory_order_relaxed);
    return true;
  }

  void set_key(std::string_view key) {
    size_t n = std::min(key.size(), sizeof(sh->key) - 1);
    std::memcpy(sh->key, key.data(), n);
    sh->key[n] = 0;
    sh->beat.fetch_add(1, std::memory_order_relaxed);
  }

  void beat() { sh->beat.fetch_add(1, std::memory_order_relaxed); }
  void state(uint64_t n = 1) { sh->states.fetch_add(n, std::memory_order_relaxed); }
  void transition(uint64_t n = 1) { sh->transitions.fetch_add(n, std::memory_order_relaxed); }
  void trace(uint64_t n = 1) { sh->traces.fetch_add(n, std::memory_order_relaxed); }
  void eval(uint64_t n = 1) { sh->evaluations.fetch_add(n, std::memory_order_relaxed); }
  void distinct(uint64_t n = 1) { sh->distinct.fetch_add(n, std::memory_order_relaxed); }

  void sample(std::string_view text) {
    if (sh->nsamples < 3 && sh->sample_len + text.size() + 1 < sizeof(sh->sample)) {
      std::memcpy(sh->sample + sh->sample_len, text.data(), text.size());
      sh->sample_len += text.size();
      sh->sample[sh->sample_len++] = 0;
      ++sh->nsamples;
    }
  }

  void fail(std::string_view key, std::string_view what) {
    sh->violations.fetch_add(1);
    ++m_fails;
    if (sh->nviol_stored < 200) {
      std::string rec = std::string{key} + "\x1f" + std::string{what};
      if (rec.size() > 6000) {
        rec.resize(6000);
      }
      if (sh->viol_len + rec.size() + 1 < sizeof(sh->viol)) {
        std::memcpy(sh->viol + sh->viol_len, rec.data(), rec.size());
        sh->viol_len += rec.size();
        sh->viol[sh->viol_len++] = 0;
        ++sh->nviol_stored;
      }
    }
    // Nothing is learned from millions of reports
    if (m_fails >= 2000) {
      sh->done = 1;
      _exit(0);
    }
  }
  void fail(std::string_view what) { fail(std::string{sh->key}, what); }

  bool check(bool ok, std::string_view what) {
    if (!ok) {
      fail(what);
    }
    return ok;
  }

 private:
  uint64_t m_index = 0;
  uint64_t m_fails = 0;
};

inline std::string env(const char* name, const char* dflt) {
  const char* v = std::getenv(name);
  return v ? v : dflt;
}

inline int main(int argc, char** argv, const Config& cfg,
                const std::function<void(Run&)>& explore) {
  auto t0 = std::chrono::steady_clock::now();
  std::string verif = env("VERIF_DIR", "/verif");
  std::string tier = env("VERIF_TIER", "quick");
  std::string only;
  bool replaying = false, inproc = false, list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--only" && i + 1 < argc) {
      only = argv[++i];
      replaying = true;
    } else if (a == "--tier" && i + 1 < argc) {
      tier = argv[++i];
    } else if (a == "--inproc") {
      inproc = true;
    } else if (a == "--list") {
      list = true;
    }
  }
  const int getpid_main = getpid();
  unsigned workers = cfg.workers ? cfg.workers : std::max(1L, sysconf(_SC_NPROCESSORS_ONLN));
  if (replaying) {
    workers = 1;
  }

  // Known findings: "finding: property=<id> key=<key> :: text"
  std::map<std::string, std::string> known;
  {
    std::ifstream f{verif + "/known_findings.txt"};
    std::string line, prefix = std::format("finding: property={} key=", cfg.property);
    while (std::getline(f, line)) {
      if (line.starts_with(prefix)) {
        auto rest = line.substr(prefix.size());
        auto p = rest.find(" :: ");
        known[rest.substr(0, p)] = p == std::string::npos ? "" : rest.substr(p + 4);
      }
    }
  }

  auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * workers, PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (sh == MAP_FAILED) {
    std::perror("mmap");
    return 2;
  }
  std::string workdir = env("WORK_DIR", "/tmp");
  auto errfile = [&](unsigned w) { return std::format("{}/stderr.{}.{}", workdir, getpid_main, w); };
  // The line of a worker's error output that says what happened
  auto errline = [&](unsigned w) {
    std::ifstream f{errfile(w)};
    std::string line, found;
    for (const char* mark : {"SUMMARY:", "runtime error:", "ssertion", "terminate called", "what():"}) {
      f.clear();
      f.seekg(0);
      while (found.empty() && std::getline(f, line)) {
        if (line.find(mark) != std::string::npos) {
          found = line.substr(0, 500);
        }
      }
    }
    return found.empty() ? found : ": " + found;
  };
  auto body = [&](unsigned w) {
    Run run;
    run.tier = tier;
    run.thorough = tier == "thorough";
    run.replaying = replaying;
    run.only = only;
    run.shard = w;
    run.shards = workers;
    run.sh = sh + w;
    try {
      explore(run);
    } catch (const std::exception& e) {
      run.fail(std::format("exception: {}", e.what()));
    }
    sh[w].done = 1;
  };
  if (inproc) {
    workers = 1;
    body(0);
  }

  struct W {
    pid_t pid;
    uint64_t beat = 0;
    time_t since;
    bool alive = true;
    std::string crash;
  };
  std::vector<W> ws;
  std::fflush(stdout);
  for (unsigned w = 0; w < workers && !inproc; ++w) {
    pid_t pid = fork();
    if (pid < 0) {
      std::perror("fork");
      return 2;
    }
    if (pid == 0) {
      struct rlimit rl{0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      // What a worker prints is only of interest if it crashes
      if (!std::freopen("/dev/null", "w", stdout)) {
        _exit(3);
      }
      if (int fd = open(errfile(w).c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600); fd >= 0) {
        dup2(fd, 2);
      }
      body(w);
      std::fflush(stdout);
      _exit(0);
    }
    ws.push_back({pid, 0, std::time(nullptr)});
  }
  bool error = false;
  // A violation is a violation, however many more there are: a broken tree may
  // be much slower than a right one, so don't go on forever after the first
  auto new_violation = [&] {
    for (unsigned w = 0; w < workers; ++w) {
      const char* p = sh[w].viol;
      for (uint32_t i = 0, n = sh[w].nviol_stored; i < n; ++i) {
        std::string_view rec = p;
        p += rec.size() + 1;
        if (!known.contains(std::string{rec.substr(0, rec.find('\x1f'))})) {
          return true;
        }
      }
    }
    for (size_t w = 0; w < ws.size(); ++w) {
      if (!ws[w].crash.empty() && !known.contains(sh[w].key)) {
        return true;
      }
    }
    return false;
  };
  bool stopped = false;
  for (size_t left = ws.size(); left > 0;) {
    if (!stopped && std::chrono::steady_clock::now() - t0 > std::chrono::seconds{cfg.stop_seconds} &&
        new_violation()) {
      stopped = true;
      for (auto& w : ws) {
        if (w.alive) {
          kill(w.pid, SIGKILL);
        }
      }
    }
    int status;
    pid_t pid = waitpid(-1, &status, WNOHANG);
    if (pid > 0) {
      for (size_t w = 0; w < ws.size(); ++w) {
        if (ws[w].pid == pid && ws[w].alive) {
          ws[w].alive = false;
          --left;
          if (!sh[w].done && ws[w].crash.empty()) {
            if (stopped) {
            } else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
              std::fprintf(stderr, "worker %zu was killed\n", w);
              error = true;
            } else if (WIFSIGNALED(status)) {
              ws[w].crash = std::format("crash: signal {} ({})", WTERMSIG(status),
                                        strsignal(WTERMSIG(status)));
            } else {
              ws[w].crash = std::format("crash: the process exited with status {} "
                                        "(failed assertion, sanitizer report or exit)",
                                        WEXITSTATUS(status));
            }
          }
        }
      }
      continue;
    }
    for (size_t w = 0; w < ws.size(); ++w) {
      if (!ws[w].alive) {
        continue;
      }
      uint64_t b = sh[w].beat;
      if (b != ws[w].beat) {
        ws[w].beat = b;
        ws[w].since = std::time(nullptr);
      } else if (std::time(nullptr) - ws[w].since > cfg.hang_seconds) {
        ws[w].crash = std::format("hang: no progress for {} s", cfg.hang_seconds);
        kill(ws[w].pid, SIGKILL);
        ws[w].since = std::time(nullptr) + 1000000;
      }
    }
    usleep(20000);
  }

  struct V {
    std::string key, what;
  };
  std::vector<V> viol;
  uint64_t nviol = 0, states = 0, transitions = 0, traces = 0, evals = 0, distinct = 0;
  std::vector<std::string> samples;
  for (unsigned w = 0; w < workers; ++w) {
    nviol += sh[w].violations;
    states += sh[w].states;
    transitions += sh[w].transitions;
    traces += sh[w].traces;
    evals += sh[w].evaluations;
    distinct += sh[w].distinct;
    const char* p = sh[w].viol;
    for (uint32_t i = 0; i < sh[w].nviol_stored; ++i) {
      std::string rec = p;
      p += rec.size() + 1;
      auto q = rec.find('\x1f');
      viol.push_back({rec.substr(0, q), rec.substr(q + 1)});
    }
    if (w < ws.size() && !ws[w].crash.empty()) {
      viol.push_back({sh[w].key, ws[w].crash + errline(w)});
      ++nviol;
    }
    p = sh[w].sample;
    for (uint32_t i = 0; i < sh[w].nsamples; ++i) {
      if (samples.size() < 6) {
        samples.emplace_back(p);
      }
      p += std::strlen(p) + 1;
    }
  }
  for (unsigned w = 0; w < workers && !inproc; ++w) {
    unlink(errfile(w).c_str());
  }
  std::stable_sort(viol.begin(), viol.end(),
                   [](auto& a, auto& b) { return a.key.size() < b.key.size(); });

  // Report
  uint64_t nknown = 0, nnew = 0;
  std::set<std::string> known_hit, reported;
  for (auto& v : viol) {
    if (list) {
      std::printf("  %s\t%s\n", v.key.c_str(), v.what.c_str());
    }
    if (auto it = known.find(v.key); it != known.end()) {
      ++nknown;
      if (known_hit.insert(v.key).second) {
        std::printf("KNOWN-FINDING: property=%s %s: %s\n", cfg.property, v.key.c_str(),
                    it->second.c_str());
      }
      continue;
    }
    ++nnew;
    if (reported.size() >= 5 || !reported.insert(v.key).second) {
      continue;
    }
    std::string dir = verif + "/replays";
    std::error_code ec;
    std::filesystem::create_directories(dir, ec);
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : v.key) {
      h = (h ^ c) * 1099511628211ull;
    }
    std::string path = std::format("{}/{}-{:016x}.txt", dir, cfg.property, h);
    std::ofstream f{path};
    f << "property: " << cfg.property << "\ntier: " << tier << "\ncase: " << v.key
      << "\nobserved: " << v.what << "\nreplay: cd " << verif << " && python3 lib/run.py "
      << cfg.property << " " << tier << " --only '" << v.key << "'\n";
    std::printf("VIOLATION property=%s replay=%s\n  case: %s\n  %s\n", cfg.property, path.c_str(),
                v.key.c_str(), v.what.c_str());
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  bool failed = nviol > nknown;

  if (!replaying) {
    std::ostringstream j;
    j << "{\"property\": " << json_str(cfg.property) << ", \"tier\": " << json_str(tier)
      << ", \"seed\": " << std::atoi(env("VERIF_SEED", "1").c_str())
      << ", \"level\": " << json_str(cfg.level) << ",\n \"coverage\": {";
    if (std::string_view{cfg.level} == "model_checking") {
      j << "\"states\": " << states << ", \"transitions\": " << transitions
        << ", \"traces_validated_against_impl\": " << traces;
      if (evals) {
        j << ", \"evaluations\": " << evals;
      }
    } else {
      j << "\"evaluations\": " << evals << ", \"distinct_nontrivial\": " << distinct;
      if (states) {
        j << ", \"states\": " << states;
      }
      if (transitions) {
        j << ", \"transitions\": " << transitions;
      }
    }
    j << ", \"exhaustive\": " << (stopped ? "false" : "true") << ", \"rule\": " << json_str(cfg.rule) << ", \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) {
      j << (i ? ", " : "") << json_str(samples[i]);
    }
    j << "]},\n \"assumptions\": [";
    for (size_t i = 0; i < cfg.assumptions.size(); ++i) {
      j << (i ? ", " : "") << json_str(cfg.assumptions[i]);
    }
    j << "],\n \"wall_s\": " << wall << ", \"violations\": " << (nviol - std::min(nviol, nknown))
      << "}\n";
    std::error_code ec;
    std::filesystem::create_directories(verif + "/evidence", ec);
    std::ofstream{std::format("{}/evidence/{}.json", verif, cfg.property)} << j.str();
  }
  std::printf("%s %s: evaluations=%llu distinct=%llu states=%llu transitions=%llu traces=%llu "
              "violations=%llu known=%llu wall=%.1fs\n",
              cfg.property, tier.c_str(), (unsigned long long)evals, (unsigned long long)distinct,
              (unsigned long long)states, (unsigned long long)transitions,
              (unsigned long long)traces, (unsigned long long)(nviol - nknown),
              (unsigned long long)nknown, wall);
  if (failed) {
    return 1;
  }
  if (error) {
    return 2;
  }
  // A run that explored nothing decides nothing
  if (!replaying && evals + transitions == 0) {
    std::printf("nothing was explored\n");
    return 2;
  }
  return 0;
}

}  // namespace mc
