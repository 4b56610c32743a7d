// P28: multistart returns the best outcome of all its starts, whatever the schedule.
//@technique exhaustive exploration of schedules of the real multistart: every completion order of the concurrent solves is forced through gates, for every combination of statuses and costs (ties, infinities and NaN included); every interleaving of the steps of concurrent real solves
//@level exploration
//@note Up to 3 starts: 15 outcomes per start, all completion orders; 4 starts: 5 outcomes, all 24 orders (thorough: 10 outcomes);
//@note 5 starts: 3 outcomes, 120 orders (thorough). Real solves: all interleavings of 2x4 and 3x2 steps.
//@src **/*.cpp
//@flags -O1 -pthread
#include <condition_variable>
#include <limits>
#include <mutex>
#include <numeric>
#include <thread>

#include <sleipnir/optimization/multistart.hpp>

#include "problang.hpp"

#include "mc.hpp"

using namespace problang;

namespace {

using slp::ExitStatus;
constexpr double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();

// Lets threads pass one after another, in a given order of (thread, step)
class Gate {
 public:
  explicit Gate(std::vector<int> order, int threads) : m_order{std::move(order)}, m_threads{threads} {}

  // The calling thread `id` is about to make a step
  void enter(int id) {
    std::unique_lock lock{m_mutex};
    if (m_started.size() <= static_cast<size_t>(id)) m_started.resize(id + 1);
    if (!m_started[id]) {
      m_started[id] = true;
      ++m_count;
      m_cv.notify_all();
    }
    // An implementation that doesn't run all solves at once can't be scheduled; let it run
    auto until = std::chrono::steady_clock::now() + std::chrono::seconds{2};
    bool ok = m_cv.wait_until(lock, until, [&] { return m_free || (m_count == m_threads && m_at < m_order.size() && m_order[m_at] == id); });
    if (!ok) m_free = true;
    if (m_free) m_cv.notify_all();
  }
  // It has made it
  void leave() {
    std::unique_lock lock{m_mutex};
    ++m_at;
    m_cv.notify_all();
  }
  bool forced() const { return !m_free; }

 private:
  std::mutex m_mutex;
  std::condition_variable m_cv;
  std::vector<int> m_order;
  std::vector<bool> m_started;
  size_t m_at = 0;
  int m_threads, m_count = 0;
  bool m_free = false;
};

// Something whose copies can be told from moved-from ones
struct Guess {
  int id = -1;
  std::vector<double> payload;
  bool operator==(const Guess&) const = default;
};
Guess guess(int id) { return {id, std::vector<double>(20, id + 0.5)}; }
Guess found(int id) { return {100 + id, std::vector<double>(20, id + 100.5)}; }

struct Outcome {
  ExitStatus status;
  double cost;
};
using Result = slp::MultistartResult<double, Guess>;

std::string text(const std::vector<Outcome>& outs) {
  std::string s;
  for (auto& o : outs) s += std::format("[{} {}]", o.status, o.cost);
  return s;
}

// What a result must satisfy
std::string judge(const std::vector<Outcome>& outs, const Result& r) {
  int id = r.variables.id - 100;
  if (id < 0 || id >= static_cast<int>(outs.size()) || !(r.variables == found(id))) return "variables that no solve returned";
  auto same = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); };
  if (r.status != outs[id].status || !same(r.cost, outs[id].cost)) return std::format("status and cost don't belong to the variables of start {}", id);
  bool any = false, any_number = false;
  double best = inf;
  for (auto& o : outs)
    if (o.status == ExitStatus::SUCCESS) {
      any = true;
      if (!std::isnan(o.cost)) {
        any_number = true;
        best = std::min(best, o.cost);
      }
    }
  if (any && r.status != ExitStatus::SUCCESS) return std::format("start {} ({}) although another succeeded", id, r.status);
  if (any_number && r.cost != best) return std::format("cost {} although a solve succeeded with {}", r.cost, best);
  return "";
}

int one(mc::Run& run, const std::string& key, const std::vector<Outcome>& outs, const std::vector<int>& order) {
  const int n = outs.size();
  Gate gate{order, n};
  std::vector<std::atomic<int>> calls(n);
  std::atomic<int> strange{0};
  auto solve = [&](const Guess& g) -> Result {
    if (g.id < 0 || g.id >= n || !(g == guess(g.id))) {
      ++strange;
      return {ExitStatus::SUCCESS, -1e9, g};
    }
    ++calls[g.id];
    gate.enter(g.id);
    Result r{outs[g.id].status, outs[g.id].cost, found(g.id)};
    gate.leave();
    return r;
  };
  std::vector<Guess> guesses;
  for (int i = 0; i < n; ++i) guesses.push_back(guess(i));
  auto r = slp::multistart<double, Guess>(solve, guesses);
  if (strange) run.fail(key, "called with something other than an initial guess");
  for (int i = 0; i < n; ++i)
    if (calls[i] != 1) run.fail(key, std::format("start {} was solved {} times", i, calls[i].load()));
  for (int i = 0; i < n; ++i)
    if (!(guesses[i] == guess(i))) run.fail(key, "an initial guess was changed");
  auto e = judge(outs, r);
  if (!e.empty()) run.fail(key, e);
  return r.variables.id;
}

void outcomes(mc::Run& run) {
  std::vector<Outcome> full;
  for (auto s : {ExitStatus::SUCCESS, ExitStatus::LOCALLY_INFEASIBLE, ExitStatus::CALLBACK_REQUESTED_STOP})
    for (double c : {-inf, 1.0, 2.0, inf, nan}) full.push_back({s, c});
  const std::vector<Outcome> ten{full[0], full[1], full[2], full[3], full[4], full[5], full[6], full[7], full[9], full[11]};
  const std::vector<Outcome> five{full[1], full[2], full[4], full[6], full[7]};
  const std::vector<Outcome> three{full[1], full[2], full[6]};
  for (int n = 1; n <= (run.thorough ? 5 : 4); ++n) {
    auto& menu = n <= 3 ? full : n == 4 ? (run.thorough ? ten : five) : three;
    long total = 1;
    for (int i = 0; i < n; ++i) total *= menu.size();
    for (long code = 0; code < total; ++code) {
      if (!run.take()) continue;
      std::vector<Outcome> outs;
      long c = code;
      for (int i = 0; i < n; ++i, c /= menu.size()) outs.push_back(menu[c % menu.size()]);
      std::string key = text(outs);
      if (!run.begin_case(key)) continue;
      run.distinct();
      std::vector<int> order(n);
      std::iota(order.begin(), order.end(), 0);
      std::set<int> results;
      do {
        run.state();
        run.trace();
        run.transition(n);
        run.beat();
        results.insert(one(run, key, outs, order));
      } while (std::ranges::next_permutation(order).found);
      if (results.size() > 1) run.fail(key, "the result depends on the order in which the solves finish");
    }
  }
}

// Real solves, a step at a time: create variables, build, solve, read
struct Steps {
  static constexpr int count = 4;
  Spec spec;
  std::optional<Built> b;
  ExitStatus status{};
  Result result{};
  void step(int k) {
    switch (k) {
      case 0: b.emplace(spec); break;
      case 1: b->problem.subject_to(slp::pow(b->x, 2) + b->y <= 30.0); break;
      case 2: status = b->problem.solve(); break;
      case 3: {
        auto p = b->point();
        result = {status, costs()[spec.cost].ad(b->x, b->y).value(), Guess{0, {p[0], p[1]}}};
        b.reset();
        break;
      }
    }
  }
};

void interleavings(mc::Run& run) {
  const std::vector<std::vector<Spec>> sets{
      {make("rosenbrock", {}, {"x^2+y^2<=4"}, {0, 0}), make("rosenbrock", {}, {"x^2+y^2<=4"}, {-3, 2})},
      {make("sin(x)+y^2", {}, {"y>=0"}, {1, 1}), make("sin(x)+y^2", {"x+y=1"}, {}, {-3, 2})},
      {make("x^4-x^2+y^2", {}, {}, {1, 1}), make("x^4-x^2+y^2", {}, {}, {-3, 2}), make("x^4-x^2+y^2", {"x+y=1"}, {}, {0.5, -0.5})},
  };
  for (size_t which = 0; which < sets.size(); ++which) {
    auto& specs = sets[which];
    const int n = specs.size(), per = n == 2 ? 4 : 2;
    // Alone
    std::vector<Result> want;
    for (auto& s : specs) {
      Steps st{s, {}, {}, {}};
      for (int k = 0; k < Steps::count; ++k) st.step(k);
      want.push_back(st.result);
    }
    std::vector<int> order;
    for (int i = 0; i < n; ++i) order.insert(order.end(), per, i);
    do {
      if (!run.take()) continue;
      std::string key = std::format("real solves {} in order", which);
      for (int i : order) key += std::format(" {}", i);
      if (!run.begin_case(key)) continue;
      run.state();
      run.distinct();
      run.trace();
      run.transition(order.size());
      Gate gate{order, n};
      std::vector<Result> got(n);
      std::vector<std::atomic<int>> calls(n);
      auto solve = [&](const Guess& g) -> Result {
        ++calls[g.id];
        Steps st{specs[g.id], {}, {}, {}};
        for (int k = 0; k < per; ++k) {
          gate.enter(g.id);
          for (int j = 0; j < Steps::count / per; ++j) st.step(k * (Steps::count / per) + j);
          gate.leave();
        }
        got[g.id] = st.result;
        return st.result;
      };
      std::vector<Guess> guesses;
      for (int i = 0; i < n; ++i) guesses.push_back(guess(i));
      auto r = slp::multistart<double, Guess>(solve, guesses);
      double best = inf;
      for (int i = 0; i < n; ++i) {
        if (calls[i] != 1) run.fail(key, std::format("start {} was solved {} times", i, calls[i].load()));
        if (got[i].status != want[i].status || got[i].cost != want[i].cost || got[i].variables != want[i].variables)
          run.fail(key, std::format("start {} gave {} with cost {} instead of {} with cost {}", i, got[i].status, got[i].cost, want[i].status, want[i].cost));
        if (want[i].status == ExitStatus::SUCCESS) best = std::min(best, want[i].cost);
      }
      if (best < inf && (r.status != ExitStatus::SUCCESS || r.cost != best)) run.fail(key, std::format("{} with cost {} although a solve succeeded with {}", r.status, r.cost, best));
    } while (std::ranges::next_permutation(order).found);
  }
}

void explore(mc::Run& run) {
  interleavings(run);
  outcomes(run);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv,
                  {"P28",
                   "exploration",
                   "every combination of outcomes for up to n starts, in every completion order; every interleaving of the steps of real solves",
                   {"all solves are assumed to be started before any has to finish, as documented (each on its own thread)",
                    "which unsuccessful outcome is returned when none succeeded is left open"},
                   60},
                  explore);
}
