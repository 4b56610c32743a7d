// P30: independent problems on different threads do not affect each other.
//@technique stateless exploration of the real code under a controlled scheduler: all interleavings of the operations and solver iterations of per-thread histories, every single preemption at function-entry granularity, all orders in which results can be handed between threads and threads can end; happens-before race detection on each combination of histories
//@level exploration
//@note 10 histories, all ordered pairs. One preemption at every function entry in library code; all interleavings of at most
//@note 6 (thorough: 9) operations per thread, of three threads of at most 3 (thorough: 4); all sequences of 3 (thorough: 4) commands over
//@note objects shared by three threads that end and start.
//@src **/*.cpp
//@flags -O1 -pthread -finstrument-functions -finstrument-functions-exclude-file-list=/usr/include,/usr/lib,gch/,lib/mc.hpp,eigen_compat
//@variant TSAN -O0 -pthread -fsanitize=thread -DPART_FREE
//@variant ASAN -O0 -pthread -fsanitize=address -DSLEIPNIR_VERIFY -DPART_HANDOFF
#include <bit>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>

#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>

#include <Eigen/Core>
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/optimization/multistart.hpp>
#include <sleipnir/optimization/ocp.hpp>
#include <sleipnir/optimization/problem.hpp>

#include "mc.hpp"

#define QUIET __attribute__((no_instrument_function))

namespace {

using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;
using P = slp::Problem<double>;

// What a history observes, and where it can be preempted
struct Log {
  std::vector<uint64_t> seen;
  std::function<void()> at_step;
  void see(double v) { seen.push_back(std::bit_cast<uint64_t>(v)); }
  void see(const Eigen::MatrixXd& m) {
    for (auto e : m.reshaped()) see(e);
  }
  template <typename S>
  void see(const Eigen::SparseMatrixBase<S>& m) {
    see(Eigen::MatrixXd{m});
  }
  void see(slp::ExitStatus s) { seen.push_back(static_cast<uint64_t>(static_cast<int>(s) + 100)); }
  void step() {
    if (at_step) at_step();
  }
};

struct History {
  const char* name;
  bool solves;
  void (*run)(Log&);
};

slp::Options options() {
  slp::Options o;
  o.max_iterations = 60;
  return o;
}
void watch(P& p, Log& l) {
  p.add_callback([&l](const slp::IterationInfo<double>& i) {
    l.see(Eigen::MatrixXd{i.x});
    l.step();
  });
}

const std::vector<History>& histories() {
  static const std::vector<History> h{
      {"scalar", false,
       [](Log& l) {
         V x, y;
         x.set_value(0.7);
         y.set_value(-1.2);
         l.step();
         V f = sin(x) * y + x * x / (y + 3.0);
         l.see(f.value());
         l.step();
         VM w(2);
         w[0] = x;
         w[1] = y;
         slp::Gradient<double> g{f, w};
         l.see(g.value());
         l.step();
         x.set_value(1.5);
         l.see(g.value());
         l.see(f.value());
       }},
      {"second order", false,
       [](Log& l) {
         VM w(3);
         for (int i = 0; i < 3; ++i) w[i].set_value(0.3 * i + 0.4);
         V f = exp(w[0]) * w[1] + pow(w[2], 3) * w[0];
         l.step();
         slp::Hessian<double, Eigen::Lower | Eigen::Upper> h{f, w};
         l.see(h.value());
         l.step();
         w[1].set_value(-2.0);
         w[2].set_value(0.1);
         l.see(h.value());
         l.step();
         l.see(h.get().value());
       }},
      {"matrices", false,
       [](Log& l) {
         VM a(2, 2);
         for (int i = 0; i < 4; ++i) a[i / 2, i % 2].set_value(1.0 + i * i);
         l.step();
         VM b = a.T() * a;
         l.see(b.value());
         l.step();
         VM w(4);
         for (int i = 0; i < 4; ++i) w[i] = a[i / 2, i % 2];
         VM out(2);
         out[0] = b[0, 1];
         out[1] = slp::atan2(a[0, 0], a[1, 1]);
         slp::Jacobian<double> j{out, w};
         l.see(j.value());
         l.step();
         a[0, 1].set_value(9.0);
         l.see(j.value());
         a *= a;
         l.see(a.value());
       }},
      {"churn", false,
       [](Log& l) {
         std::vector<V> keep;
         for (int round = 0; round < 3; ++round) {
           l.step();
           V s{0.0};
           for (int i = 0; i < 40; ++i) {
             V x;
             x.set_value(i + round);
             s += cos(x) * x;
             if (i % 7 == 0) keep.push_back(x * 2.0);
           }
           l.see(s.value());
         }
         for (auto& k : keep) l.see(k.value());
       }},
      {"newton", true,
       [](Log& l) {
         P p;
         auto x = p.decision_variable();
         auto y = p.decision_variable();
         x.set_value(2);
         y.set_value(-1);
         l.step();
         p.minimize(pow(x - 1.0, 4) + pow(y + x, 2));
         watch(p, l);
         l.see(p.solve(options()));
         l.see(x.value());
         l.see(y.value());
       }},
      {"sqp", true,
       [](Log& l) {
         P p;
         auto x = p.decision_variable(2);
         x[0].set_value(0.5);
         x[1].set_value(0.5);
         p.minimize(x[0] * x[0] + x[0] * x[1] + 2.0 * x[1] * x[1]);
         l.step();
         p.subject_to(x[0] * x[1] == 1.0);
         watch(p, l);
         l.see(p.solve(options()));
         l.see(x.value());
       }},
      {"interior point", true,
       [](Log& l) {
         P p;
         auto x = p.decision_variable(2);
         p.minimize(pow(x[0] - 2.0, 2) + exp(x[1]));
         p.subject_to(x[0] + x[1] <= 1.5);
         l.step();
         p.subject_to(x[1] >= -0.5);
         p.subject_to(x[0] == 2.0 * x[1] + 1.0);
         watch(p, l);
         l.see(p.solve(options()));
         l.see(x.value());
       }},
      {"restoration", true,
       [](Log& l) {
         P p;
         auto x = p.decision_variable();
         auto y = p.decision_variable();
         p.minimize(pow(1.0 - x, 2) + 100.0 * pow(y - x * x, 2));
         p.subject_to(x * x + y * y == 1.0);
         p.subject_to(2.0 * x + 2.0 * y == 2.0);
         l.step();
         watch(p, l);
         l.see(p.solve(options()));
         l.see(x.value());
       }},
      {"control", true,
       [](Log& l) {
         auto f = [](const VM& x, const VM& u) {
           VM r(2);
           r[0] = x[1] + 0.0;
           r[1] = u[0] - sin(x[0]);
           return r;
         };
         slp::OCP<double> p{2, 1, std::chrono::duration<double>{0.1}, 2, slp::function_ref<VM(const VM&, const VM&)>{f}};
         l.step();
         p.constrain_initial_state(Eigen::Vector2d{0.3, 0.0});
         p.set_upper_input_bound(0.6);
         V cost{0.0};
         for (int k = 0; k < 3; ++k) cost += pow(p.X()[0, k] - 1.0, 2) + 0.01 * pow(p.U()[0, k], 2);
         p.minimize(cost);
         l.step();
         watch(p, l);
         l.see(p.solve(options()));
         l.see(p.X().value());
       }},
      {"infeasible", true, [](Log& l) {
         P p;
         auto x = p.decision_variable(2);
         p.minimize(x[0]);
         p.subject_to(x[0] >= 1.0 + x[1] * x[1]);
         p.subject_to(x[0] <= 0.5);
         l.step();
         watch(p, l);
         l.see(p.solve(options()));
         l.see(x.value());
       }}};
  return h;
}

std::vector<uint64_t> alone(const History& h) {
  Log l;
  std::thread{[&] { h.run(l); }}.join();
  return l.seen;
}

}  // namespace

#if defined(PART_FREE)
// Free-running histories, checked for races by the sanitizer this is built with.
//   free H...: the histories with these indices, each on a thread of its own, twice
//   multistart: solves within multistart
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  if (!strcmp(argv[1], "self")) return 0;
  if (!strcmp(argv[1], "multistart")) {
    auto solve = [](const int& i) -> slp::MultistartResult<double, int> {
      auto& h = histories();
      Log l;
      h[i % h.size()].run(l);
      return {slp::ExitStatus::SUCCESS, static_cast<double>(l.seen.size()), i};
    };
    std::vector<int> guesses(histories().size());
    for (size_t i = 0; i < guesses.size(); ++i) guesses[i] = i;
    slp::multistart<double, int>(slp::function_ref<slp::MultistartResult<double, int>(const int&)>{solve}, guesses);
    return 0;
  }
  std::vector<int> hs;
  for (int i = 1; i < argc; ++i) hs.push_back(atoi(argv[i]));
  for (int round = 0; round < 2; ++round) {
    std::vector<Log> logs(hs.size());
    std::vector<std::thread> threads;
    std::atomic<int> ready{0};
    for (size_t i = 0; i < hs.size(); ++i)
      threads.emplace_back([&, i] {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < static_cast<int>(hs.size())) {
        }
        histories()[hs[i]].run(logs[i]);
      });
    for (auto& t : threads) t.join();
    for (size_t i = 0; i < hs.size(); ++i)
      if (logs[i].seen != alone(histories()[hs[i]])) {
        printf("%s got other results than alone\n", histories()[hs[i]].name);
        return 3;
      }
  }
  return 0;
}

#elif defined(PART_HANDOFF)
// Objects handed between threads that end and start.
namespace {

// A thread that does as it is told
class Actor {
 public:
  Actor() : m_thread{[this] { loop(); }} {}
  ~Actor() {
    tell(nullptr);
    m_thread.join();
  }
  void tell(std::function<void()> f) {
    std::unique_lock lock{m_mutex};
    m_job = std::move(f);
    m_has = true;
    m_cv.notify_all();
    m_cv.wait(lock, [&] { return !m_has; });
  }

 private:
  std::mutex m_mutex;
  std::condition_variable m_cv;
  std::function<void()> m_job;
  bool m_has = false;
  std::thread m_thread;
  void loop() {
    for (;;) {
      std::function<void()> f;
      {
        std::unique_lock lock{m_mutex};
        m_cv.wait(lock, [&] { return m_has; });
        f = std::move(m_job);
      }
      if (f) f();
      bool end = !f;
      f = nullptr;
      std::unique_lock lock{m_mutex};
      m_has = false;
      m_cv.notify_all();
      if (end) return;
    }
  }
};

constexpr int Kinds = 7;
const char* kind_names[Kinds] = {"make", "evaluate", "extend", "differentiate", "drop", "solve", "end"};

// Commands: 3 threads x kinds (the main thread cannot end)
struct World {
  std::unique_ptr<Actor> actors[2];
  // x^2 + sin(x) + 2x + 2x..., and the leaf of it
  std::shared_ptr<V> x, f;
  std::shared_ptr<slp::Gradient<double>> g;
  std::shared_ptr<P> problem;
  std::shared_ptr<V> px;
  double value = 0, slope = 0;
  double at = 0;
  std::string error;
  int counter = 0;

  void on(int who, const std::function<void()>& f) {
    if (who == 2) {
      f();
      return;
    }
    if (!actors[who]) actors[who] = std::make_unique<Actor>();
    actors[who]->tell(f);
  }
  void expect(double a, double b, const char* what) {
    if (!(std::abs(a - b) <= 1e-9 * (1 + std::abs(b)))) error = std::string{what} + " is " + std::to_string(a) + ", not " + std::to_string(b);
  }
  void apply(int who, int kind) {
    switch (kind) {
      case 0:
        on(who, [&] {
          x = std::make_shared<V>();
          at = 0.5 + 0.25 * counter++;
          x->set_value(at);
          f = std::make_shared<V>(*x * *x + sin(*x));
          value = at * at + std::sin(at);
          slope = 2 * at + std::cos(at);
          g = nullptr;
        });
        break;
      case 1:
        if (f) on(who, [&] { expect(f->value(), value, "the value"); });
        break;
      case 2:
        if (f) on(who, [&] {
            *f = *f + 2.0 * *x;
            value += 2 * at;
            slope += 2;
          });
        break;
      case 3:
        if (f) on(who, [&] {
            g = std::make_shared<slp::Gradient<double>>(*f, *x);
            expect(Eigen::MatrixXd{g->value()}(0, 0), slope, "the derivative");
          });
        break;
      case 4:
        on(who, [&] {
          // What is left may be the other's last reference
          if (g)
            g = nullptr;
          else if (f) {
            f = nullptr;
            x = nullptr;
          } else {
            problem = nullptr;
            px = nullptr;
          }
        });
        break;
      case 5:
        on(who, [&] {
          if (!problem) {
            problem = std::make_shared<P>();
            px = std::make_shared<V>(problem->decision_variable());
            px->set_value(3.0);
            problem->minimize(pow(*px - 1.0, 2) + 0.25 * *px);
            problem->subject_to(*px >= 0.5);
          }
          if (problem->solve() != slp::ExitStatus::SUCCESS) error = "the solve failed";
          if (std::abs(px->value() - 0.875) > 1e-5) error = "the solution is wrong";
        });
        break;
      case 6:
        if (who < 2) actors[who] = nullptr;
        break;
    }
  }
};

std::string text(int c) { return std::format("{}:{}", c / Kinds == 2 ? "main" : c / Kinds ? "B" : "A", kind_names[c % Kinds]); }

std::string current;
long sequences = 0, commands = 0;
void died() { printf("FAIL %s\n", current.c_str()); fflush(stdout); }

bool play(const std::vector<int>& seq) {
  current.clear();
  for (int c : seq) current += text(c) + " ";
  World w;
  ++sequences;
  for (int c : seq) {
    ++commands;
    w.apply(c / Kinds, c % Kinds);
    if (!w.error.empty()) {
      printf("FAIL %s: %s\n", current.c_str(), w.error.c_str());
      return false;
    }
  }
  return true;
}

}  // namespace
extern "C" void __asan_set_death_callback(void (*)());

// DEPTH FIRST: all sequences of DEPTH commands after `FIRST`
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  __asan_set_death_callback(died);
  int depth = atoi(argv[1]);
  std::vector<int> seq{0 * Kinds + 0, atoi(argv[2])};
  std::function<bool()> go = [&]() -> bool {
    if (static_cast<int>(seq.size()) == depth + 1) return play(seq);
    for (int c = 0; c < 3 * Kinds; ++c) {
      if (c == 2 * Kinds + 6) continue;
      seq.push_back(c);
      bool ok = go();
      seq.pop_back();
      if (!ok) return false;
    }
    return true;
  };
  bool ok = go();
  printf("COUNT %ld %ld\n", sequences, commands);
  return ok ? 0 : 3;
}

#else

namespace {

// A thread under control: runs until it reaches its n-th scheduling point from now, or ends
class Controlled {
 public:
  QUIET Controlled(const History& h, bool functions) : m_functions{functions} {
    m_log.at_step = [this]() QUIET {
      if (!m_functions) point();
    };
    m_thread = std::thread{[this, &h]() QUIET {
      {
        std::unique_lock lock{m_mutex};
        m_cv.wait(lock, [&] { return m_running; });
      }
      self = m_functions ? this : nullptr;
      h.run(m_log);
      self = nullptr;
      std::unique_lock lock{m_mutex};
      m_ended = true;
      m_running = false;
      m_cv.notify_all();
    }};
  }
  QUIET ~Controlled() {
    if (m_thread.joinable()) m_thread.join();
  }
  // Runs `points` scheduling points (-1: to its end). False: it doesn't get there, since it waits for another thread
  QUIET bool go(long points) {
    std::unique_lock lock{m_mutex};
    if (m_ended) return true;
    m_left = points;
    m_running = true;
    m_cv.notify_all();
    if (!m_cv.wait_until(lock, std::chrono::steady_clock::now() + std::chrono::seconds{points < 0 ? 20 : 20}, [&] { return !m_running; })) return false;
    if (m_ended && m_thread.joinable()) {
      lock.unlock();
      // The end of the thread belongs to its last step
      m_thread.join();
    }
    return true;
  }
  QUIET void point() {
    if (m_left < 0 || --m_left > 0) {
      ++m_passed;
      return;
    }
    ++m_passed;
    std::unique_lock lock{m_mutex};
    m_running = false;
    m_cv.notify_all();
    m_cv.wait(lock, [&] { return m_running; });
  }
  bool ended() const { return m_ended; }
  long passed() const { return m_passed; }
  const std::vector<uint64_t>& seen() const { return m_log.seen; }

  static thread_local Controlled* self;

 private:
  Log m_log;
  bool m_functions;
  std::mutex m_mutex;
  std::condition_variable m_cv;
  bool m_running = false, m_ended = false;
  long m_left = -1, m_passed = 0;
  std::thread m_thread;
};
thread_local Controlled* Controlled::self = nullptr;

}  // namespace

extern "C" {
QUIET void __cyg_profile_func_enter(void*, void*) {
  if (auto s = Controlled::self) {
    Controlled::self = nullptr;  // Not in what a scheduling point calls
    s->point();
    Controlled::self = s;
  }
}
QUIET void __cyg_profile_func_exit(void*, void*) {}
}

namespace {

std::string helper(const char* var, const std::vector<std::string>& args, int& status) {
  std::string out;
  const char* exe = getenv(var);
  int fd[2];
  if (!exe || pipe(fd)) {
    status = -1;
    return "no helper";
  }
  pid_t pid = fork();
  if (pid == 0) {
    // The sanitizers want their usual address ranges
    personality(ADDR_NO_RANDOMIZE);
    dup2(fd[1], 1);
    dup2(fd[1], 2);
    close(fd[0]);
    setenv("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=0", 1);
    setenv("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1", 1);
    std::vector<char*> a{const_cast<char*>(exe)};
    for (auto& s : args) a.push_back(const_cast<char*>(s.c_str()));
    a.push_back(nullptr);
    execv(exe, a.data());
    _exit(127);
  }
  close(fd[1]);
  char buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0)
    if (out.size() < 100000) out.append(buf, n);
  close(fd[0]);
  waitpid(pid, &status, 0);
  return out;
}

std::string brief(const std::string& s) {
  for (const char* mark : {"FAIL", "WARNING: ThreadSanitizer", "ERROR: AddressSanitizer", "got other"})
    if (auto at = s.find(mark); at != s.npos) {
      // Where it is, if that is known
      std::string r = s.substr(at, s.find('\n', at) - at);
      for (auto p = s.find("    #", at); p != s.npos; p = s.find("    #", p + 1)) {
        auto line = s.substr(p, s.find('\n', p) - p);
        if (line.find("slp::") != line.npos) {
          r += line.substr(0, 160);
          break;
        }
      }
      return r;
    }
  return s.substr(0, 300);
}

struct Baseline {
  std::vector<uint64_t> seen;
  long steps, points;
};
const Baseline& baseline(int h) {
  static std::map<int, Baseline> all;
  auto it = all.find(h);
  if (it == all.end()) {
    Baseline b;
    Controlled steps{histories()[h], false};
    steps.go(-1);
    Controlled points{histories()[h], true};
    points.go(-1);
    b = {alone(histories()[h]), steps.passed(), points.passed()};
    it = all.emplace(h, b).first;
  }
  return it->second;
}

// Runs histories under a schedule: (thread, points to run) in turn, then all to their ends in order
void schedule(mc::Run& run, const std::string& key, const std::vector<int>& hs, bool functions, const std::vector<std::pair<int, long>>& turns) {
  run.trace();
  std::vector<std::unique_ptr<Controlled>> t;
  for (int h : hs) t.push_back(std::make_unique<Controlled>(histories()[h], functions));
  bool forced = true;
  for (auto [who, n] : turns) {
    run.transition();
    if (forced && !t[who]->go(n)) forced = false;
  }
  if (!forced)
    // A thread waits for one that is held: let all run
    for (int again = 0; again < 2; ++again)
      for (auto& c : t) c->go(-1);
  for (auto& c : t) c->go(-1);
  t.size();
  for (size_t i = 0; i < hs.size(); ++i)
    if (t[i]->seen() != baseline(hs[i]).seen) run.fail(key, std::format("thread {} ({}) got other results than alone", i, histories()[hs[i]].name));
}

// All interleavings of the operations of histories, as far as `limit` per thread; the rest runs in order
void interleavings(mc::Run& run, const std::vector<int>& hs, int limit) {
  std::string name;
  for (int h : hs) name += std::format("{}{}", name.empty() ? "" : " | ", histories()[h].name);
  std::vector<int> left;
  for (int h : hs) left.push_back(std::min<long>(baseline(h).steps, limit) + 1);
  std::vector<std::pair<int, long>> turns;
  std::function<void()> go = [&] {
    bool any = false;
    for (size_t i = 0; i < hs.size(); ++i)
      if (left[i]) {
        any = true;
        --left[i];
        // The last turn goes to the thread's end
        turns.push_back({static_cast<int>(i), left[i] ? 1 : -1});
        go();
        turns.pop_back();
        ++left[i];
      }
    if (any) return;
    std::string key = name + " ops ";
    for (auto& t : turns) key += static_cast<char>('0' + t.first);
    if (!run.begin_case(key)) return;
    run.state();
    run.distinct();
    schedule(run, key, hs, false, turns);
  };
  go();
}

void explore(mc::Run& run) {
  const int H = histories().size();
  // Histories alone, again: they are deterministic
  for (int h = 0; h < H; ++h) {
    if (!run.take()) continue;
    std::string key = std::string{histories()[h].name} + " alone";
    if (!run.begin_case(key)) continue;
    run.state();
    run.distinct();
    if (alone(histories()[h]) != baseline(h).seen) run.fail(key, "another result on another thread");
    run.sample(std::format("{}: {} operations, {} function entries", histories()[h].name, baseline(h).steps, baseline(h).points));
  }
  // Races
  int status = 0;
  std::string selftest;
  if (run.take()) {
    std::string key = "sanitizer works";
    if (run.begin(key)) {
      selftest = helper("VERIF_TSAN", {"self"}, status);
      if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
        printf("race detector does not start here: %s\n", brief(selftest).c_str());
        run.exhaustive = false;
      }
    }
  }
  auto races = [&](const std::vector<int>& hs) {
    if (!run.take()) return;
    std::string key = "races";
    std::vector<std::string> args;
    for (int h : hs) {
      key += std::format(" | {}", histories()[h].name);
      args.push_back(std::to_string(h));
    }
    if (!run.begin_case(key)) return;
    run.beat();
    run.state();
    run.distinct();
    run.trace(2);
    auto out = helper("VERIF_TSAN", args, status);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return;
    if (out.find("FATAL: ThreadSanitizer") != out.npos) return;
    run.fail(key, brief(out));
  };
  for (int a = 0; a < H; ++a)
    for (int b = a; b < H; ++b) {
      races({a, b});
      if (run.thorough)
        for (int c = b; c < H; ++c) races({a, b, c});
    }
  races({0, 1, 2, 3, 4, 5, 6, 7});
  races({2, 3, 4, 5, 6, 7, 8, 9});
  if (run.take() && run.begin_case("races in multistart")) {
    auto out = helper("VERIF_TSAN", {"multistart"}, status);
    if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0) && out.find("FATAL: ThreadSanitizer") == out.npos) run.fail("races in multistart", brief(out));
  }
  // Handing over
  for (int first = 0; first < 3 * 7; ++first) {
    if (first == 2 * 7 + 6 || !run.take()) continue;
    std::string key = std::format("handing over, first {}", first);
    if (!run.begin_case(key)) continue;
    run.beat();
    auto out = helper("VERIF_ASAN", {run.thorough ? "4" : "3", std::to_string(first)}, status);
    long n = 0, m = 0;
    if (auto at = out.find("COUNT "); at != out.npos) sscanf(out.c_str() + at, "COUNT %ld %ld", &n, &m);
    run.state(n);
    run.distinct(n);
    run.trace(n);
    run.transition(m);
    if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) run.fail(key, brief(out));
  }
  // Operations
  for (int a = 0; a < H; ++a)
    for (int b = 0; b < H; ++b) {
      if (!run.take()) continue;
      run.beat();
      interleavings(run, {a, b}, run.thorough ? 6 : 4);
    }
  for (int a = 0; a < H; ++a)
    for (int b = a; b < H; ++b)
      for (int c = b; c < H; ++c) {
        if (!run.thorough && (a + b + c) % 5) continue;
        if (!run.take()) continue;
        run.beat();
        interleavings(run, {a, b, c}, run.thorough ? 2 : 1);
      }
  // One preemption anywhere
  for (int a = 0; a < H; ++a)
    for (int b = 0; b < H; ++b) {
      long n = baseline(a).points;
      // Quick: histories that don't solve, against these
      if (!run.thorough && (histories()[a].solves || (b != 0 && b != 2 && b != 3 && b != 6))) continue;
      constexpr long Part = 256;
      for (long from = 1; from <= n; from += Part) {
        if (!run.take()) continue;
        run.beat();
        for (long p = from; p < from + Part && p <= n; ++p) {
          std::string key = std::format("{} interrupted at {} by {}", histories()[a].name, p, histories()[b].name);
          if (!run.begin_case(key)) continue;
          run.state();
          run.distinct();
          schedule(run, key, {a, b}, true, {{0, p}, {1, -1}});
        }
      }
    }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv,
                  {.property = "P30",
                   .level = "exploration",
                   .rule = "a combination of per-thread histories and a schedule of them; every value and status a thread observes is compared bit by bit with the history run alone",
                   .assumptions = {"schedules are sequentially consistent interleavings; weaker memory orders are left to the race detector"}},
                  explore);
}
#endif
