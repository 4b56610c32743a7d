// P23: iteration callbacks, iteration limits and timeouts are honoured exactly.
//@technique exhaustive fault and history enumeration on the real solvers: a stop at every callback of every iteration, every iteration limit, every schedule of clock jumps (virtual clock interposed for steady_clock) and every registration history up to a depth, each compared with the undisturbed run of the same problem
//@level fault_enumeration
//@note Baseline runs of every problem with at most one row (15 costs, 30 rows, 5 starts) and of 36 longer ones, including
//@note those that enter feasibility restoration; thorough: two rows, pairs of clock jumps, deeper histories.
//@src **/*.cpp
//@flags -O2 -DNDEBUG
#include <time.h>

#include "problang.hpp"

#include "mc.hpp"

using namespace problang;

namespace {

// The clock: real time, unless a solve is being watched
bool virtual_clock = false;
double virtual_now = 0.0;

}  // namespace

// Takes precedence over the standard library's definition
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept {
  if (virtual_clock)
    return time_point{std::chrono::duration_cast<duration>(std::chrono::duration<double>(virtual_now))};
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return time_point{std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec}};
}

namespace {

using slp::ExitStatus;
using Info = slp::IterationInfo<double>;

struct Slot {
  int iteration;
  std::vector<double> x;
  bool operator==(const Slot&) const = default;
};

struct Outcome {
  std::vector<Slot> slots;
  ExitStatus status{};
  Vec2 p{0, 0};
};

std::string text(const Slot& s) {
  std::string t = std::format("iteration {} at (", s.iteration);
  for (double v : s.x) t += std::format("{} ", v);
  return t + ")";
}

struct Plan {
  int stop = -1;                               // slot
  int limit = 80;
  double timeout = std::numeric_limits<double>::infinity();
  std::vector<std::pair<int, double>> jumps;   // (slot, seconds)
  bool feasible = false;
  int before = 0, after = 0;                   // callbacks around the one that acts
  bool persistent = false;
  // What the ones around it saw
  std::vector<std::pair<int, int>>* others = nullptr;
};

constexpr double epoch = 1000.0;

Outcome run_once(const Spec& spec, const Plan& plan) {
  Built b{spec};
  Outcome out;
  int slot = -1;
  auto other = [&](int id) {
    return [&, id](const Info& info) {
      if (plan.others) plan.others->emplace_back(id, info.iteration);
      return false;
    };
  };
  auto acting = [&](const Info& info) {
    ++slot;
    Slot s{info.iteration, {}};
    for (int i = 0; i < info.x.size(); ++i) s.x.push_back(info.x[i]);
    out.slots.push_back(std::move(s));
    for (auto& [at, seconds] : plan.jumps)
      if (at == slot) virtual_now += seconds;
    return slot == plan.stop;
  };
  for (int i = 0; i < plan.before; ++i) b.problem.add_callback(other(i));
  if (plan.persistent) {
    b.problem.add_persistent_callback(acting);
    for (int i = 0; i < plan.after; ++i) b.problem.add_persistent_callback(other(100 + i));
  } else {
    b.problem.add_callback(acting);
    for (int i = 0; i < plan.after; ++i) b.problem.add_callback(other(100 + i));
  }
  slp::Options o;
  o.max_iterations = plan.limit;
  o.timeout = std::chrono::duration<double>{plan.timeout};
  o.feasible_ipm = plan.feasible;
  virtual_now = epoch;
  virtual_clock = true;
  out.status = b.problem.solve(o);
  virtual_clock = false;
  out.p = b.point();
  return out;
}

bool same(const Vec2& p, const std::vector<double>& x) { return x.size() >= 2 && p[0] == x[0] && p[1] == x[1]; }
bool same(const Vec2& p, const Vec2& q) { return p[0] == q[0] && p[1] == q[1]; }

// Checks that `out` consists of the first `n` slots of the baseline
std::string prefix_error(const Outcome& out, const Outcome& base, size_t n) {
  for (size_t i = 0; i < std::min(out.slots.size(), n); ++i)
    if (out.slots[i] != base.slots[i])
      return std::format("callback {} saw {}, undisturbed {}", i, text(out.slots[i]), text(base.slots[i]));
  if (out.slots.size() != n) return std::format("{} callbacks instead of {}", out.slots.size(), n);
  return "";
}

void count(mc::Run& run, const Outcome& o) {
  run.state();
  run.distinct();
  run.trace();
  run.transition(o.slots.size());
}

void check_problem(mc::Run& run, const Spec& spec, bool feasible) {
  std::string name = spec.text() + (feasible ? " [feasible_ipm]" : "");
  Plan plain;
  plain.feasible = feasible;
  const Outcome base = run_once(spec, plain);
  const int K = base.slots.size();
  const size_t dims = 2 + spec.extra;
  auto restoring = [&](int k) { return base.slots[k].x.size() > dims; };
  auto begin = [&](const std::string& key) { return run.begin_case(key); };

  if (K == 0) {
    // Nothing is iterated, so nothing is limited
    std::string key = name + " | limits";
    if (begin(key)) {
      Plan plan = plain;
      plan.limit = 1;
      plan.timeout = -1;
      auto out = run_once(spec, plan);
      count(run, out);
      if (out.status != base.status || !out.slots.empty() || !same(out.p, base.p))
        run.fail(key, std::format("{} instead of {}", out.status, base.status));
    }
    return;
  }
  // The undisturbed run counts its iterations from zero without gaps
  std::string base_key = name + " | undisturbed";
  if (begin(base_key)) {
    count(run, base);
    if (base.slots[0].iteration != 0) run.fail(base_key, "the first iteration isn't number 0");
    for (int k = 1; k < K; ++k) {
      int d = base.slots[k].iteration - base.slots[k - 1].iteration;
      // Restoration starts within the iteration that calls for it
      bool entering = restoring(k) && !restoring(k - 1);
      if (d != 1 && !(d == 0 && entering))
        run.fail(base_key, std::format("iteration {} after {}", base.slots[k].iteration, base.slots[k - 1].iteration));
    }
    if (base.slots[K - 1].iteration >= 80) run.fail(base_key, "more iterations than the limit of 80");
    if (base.status == ExitStatus::TIMEOUT || base.status == ExitStatus::CALLBACK_REQUESTED_STOP)
      run.fail(base_key, std::format("{} without a reason", base.status));
    // Callbacks that do nothing, and infinite or far limits, change nothing
    Plan plan = plain;
    std::vector<std::pair<int, int>> others;
    plan.before = 1;
    plan.after = 2;
    plan.others = &others;
    plan.timeout = 1e6;
    auto out = run_once(spec, plan);
    auto e = prefix_error(out, base, K);
    if (!e.empty()) run.fail(base_key, e);
    if (out.status != base.status || !same(out.p, base.p)) run.fail(base_key, std::format("{} with idle callbacks, {} without", out.status, base.status));
    std::vector<std::pair<int, int>> expect;
    for (int k = 0; k < K; ++k)
      for (int id : {0, 100, 101}) expect.emplace_back(id, base.slots[k].iteration);
    if (others != expect) run.fail(base_key, std::format("callbacks called {} times or in another order, {} expected", others.size(), expect.size()));
  }

  // A stop at every callback
  for (int k = 0; k < K; ++k)
    for (int kind = 0; kind < 4; ++kind) {
      static const char* kinds[]{"only callback", "first of three", "last of three", "persistent, second of three"};
      std::string key = std::format("{} | stop at callback {} ({})", name, k, kinds[kind]);
      if (!begin(key)) continue;
      Plan plan = plain;
      plan.stop = k;
      plan.before = kind == 2 ? 2 : kind == 3 ? 1 : 0;
      plan.after = kind == 1 ? 2 : kind == 3 ? 1 : 0;
      plan.persistent = kind == 3;
      std::vector<std::pair<int, int>> others;
      plan.others = &others;
      auto out = run_once(spec, plan);
      count(run, out);
      auto e = prefix_error(out, base, k + 1);
      if (!e.empty()) run.fail(key, e);
      if (out.status != ExitStatus::CALLBACK_REQUESTED_STOP) run.fail(key, std::format("{}", out.status));
      if (!same(out.p, base.slots[k].x)) run.fail(key, std::format("({}, {}) returned, the callback saw {}", out.p[0], out.p[1], text(base.slots[k])));
      int before = 0;
      for (auto& [id, it] : others) before += id < 100;
      if (before != (k + 1) * plan.before) run.fail(key, std::format("earlier callbacks called {} times instead of {}", before, (k + 1) * plan.before));
    }

  // Every iteration limit
  const int last = base.slots[K - 1].iteration;
  for (int limit = -1; limit <= std::min(last + 3, 80); ++limit) {
    std::string key = std::format("{} | at most {} iterations", name, limit);
    if (!begin(key)) continue;
    Plan plan = plain;
    plan.limit = limit;
    auto out = run_once(spec, plan);
    count(run, out);
    int n = std::max(limit, 1);
    size_t expect = 0;
    while (expect < base.slots.size() && base.slots[expect].iteration < n) ++expect;
    auto e = prefix_error(out, base, expect);
    if (!e.empty()) run.fail(key, e);
    if (n <= last) {
      if (out.status != ExitStatus::MAX_ITERATIONS_EXCEEDED) run.fail(key, std::format("{}", out.status));
      else if (!restoring(expect) && !same(out.p, base.slots[expect].x))
        run.fail(key, std::format("({}, {}) returned instead of the iterate reached, {}", out.p[0], out.p[1], text(base.slots[expect])));
    } else {
      bool ok = out.status == base.status || (n == last + 1 && out.status == ExitStatus::MAX_ITERATIONS_EXCEEDED);
      if (!ok) run.fail(key, std::format("{} instead of {}", out.status, base.status));
      if (out.status == base.status && !same(out.p, base.p)) run.fail(key, "another solution");
    }
  }

  // Clock jumps
  auto clock = [&](const std::vector<std::pair<int, double>>& jumps, double timeout) {
    std::string key = name + std::format(" | timeout {}", timeout);
    for (auto& [k, s] : jumps) key += std::format(", {} s pass in callback {}", s, k);
    if (!begin(key)) return;
    Plan plan = plain;
    plan.jumps = jumps;
    plan.timeout = timeout;
    auto out = run_once(spec, plan);
    count(run, out);
    // The slot whose iteration the timeout elapses in
    int at = timeout < 0 ? 0 : K;
    double t = 0;
    for (auto& [k, s] : jumps) {
      t += s;
      if (t > timeout && at == K) at = k;
    }
    if (at == K) {
      auto e = prefix_error(out, base, K);
      if (!e.empty()) run.fail(key, e);
      if (out.status != base.status || !same(out.p, base.p)) run.fail(key, std::format("{} instead of {}", out.status, base.status));
      return;
    }
    // It may first try one iteration of the restoration it enters
    size_t n = at + 1;
    if (at + 1 < K && restoring(at + 1) && !restoring(at) && out.slots.size() == n + 1) ++n;
    auto e = prefix_error(out, base, n);
    if (!e.empty()) run.fail(key, e);
    bool ended = static_cast<int>(n) == K && out.status == base.status;
    if (out.status != ExitStatus::TIMEOUT && !ended) run.fail(key, std::format("{}", out.status));
    if (out.status == ExitStatus::TIMEOUT && static_cast<int>(n) < K && !restoring(n) && !same(out.p, base.slots[n].x))
      run.fail(key, std::format("({}, {}) returned instead of the iterate reached, {}", out.p[0], out.p[1], text(base.slots[n])));
  };
  clock({}, -1.0);
  for (int k = 0; k < K; ++k) {
    clock({{k, 10.0}}, 5.0);
    clock({{k, 10.0}}, 20.0);
  }
  int pairs = run.thorough ? 24 : 8;
  for (int i = 0; i < std::min(K, pairs); ++i)
    for (int j = i + 1; j < std::min(K, pairs); ++j) clock({{i, 10.0}, {j, 10.0}}, 15.0);
  // Where restoration runs, also every pair across its start
  for (int i = 0; i < K; ++i)
    for (int j = i + 1; j < K; ++j)
      if ((restoring(i) || restoring(j)) && j - i <= (run.thorough ? 80 : 4)) clock({{i, 10.0}, {j, 10.0}}, 15.0);
}

// Histories of registering, clearing and solving
void histories(mc::Run& run) {
  const std::vector<Spec> specs{make("(x-1)^2+(y+2)^2", {}, {}, {0, 0}), make("(x-1)^2+(y+2)^2", {"x^2+y^2=1"}, {}, {0.5, -0.5}),
                                make("(x-1)^2+(y+2)^2", {}, {"x+y>=3"}, {-3, 2}),
                                make("rosenbrock", {"x^2+y^2=1", "2x+2y=2"}, {}, {0, 0})};
  constexpr std::string_view letters = "abpcst";
  const int depth = run.thorough ? 7 : 5;
  for (size_t which = 0; which < specs.size(); ++which) {
    Plan plain;
    auto base = run_once(specs[which], plain);
    std::string word;
    std::function<void()> rec = [&] {
      if ((word.ends_with('s') || word.ends_with('t')) && run.take()) {
        std::string key = specs[which].text() + " | " + word;
        if (run.begin_case(key)) {
          run.state();
          run.distinct();
          run.trace();
          Built b{specs[which]};
          std::vector<std::pair<int, int>> seen;
          std::vector<std::pair<int, bool>> normal, persistent;  // id, whether it can stop
          int next = 0, stop_id = -1, stop_call = -1, calls = 0;
          for (char c : word) {
            run.transition();
            int id = next++;
            auto saw = [&, id](const Info& info) {
              seen.emplace_back(id, info.iteration);
              return id == stop_id && calls++ == stop_call;
            };
            if (c == 'a') {
              b.problem.add_callback([saw](const Info& info) { saw(info); });
              normal.emplace_back(id, false);
            } else if (c == 'b') {
              b.problem.add_callback(saw);
              normal.emplace_back(id, true);
            } else if (c == 'p') {
              b.problem.add_persistent_callback(saw);
              persistent.emplace_back(id, true);
            } else if (c == 'c') {
              b.problem.clear_callbacks();
              normal.clear();
            } else {
              auto order = normal;
              order.insert(order.end(), persistent.begin(), persistent.end());
              stop_id = -1;
              calls = 0;
              if (c == 't')
                for (auto& [i, can] : order)
                  if (can) stop_id = i;
              stop_call = 1;
              seen.clear();
              b.start(specs[which].start);
              slp::Options o;
              o.max_iterations = plain.limit;
              auto status = b.problem.solve(o);
              std::vector<std::pair<int, int>> expect;
              bool stopped = false;
              for (size_t k = 0; k < base.slots.size() && !stopped; ++k)
                for (auto& [i, can] : order) {
                  expect.emplace_back(i, base.slots[k].iteration);
                  if (i == stop_id && k == 1) {
                    stopped = true;
                    break;
                  }
                }
              bool ok = seen == expect;
              // Whether those after the one that stops are still called doesn't matter
              if (!ok && stopped && seen.size() > expect.size() && seen.size() < expect.size() + order.size())
                ok = std::equal(expect.begin(), expect.end(), seen.begin());
              if (!ok) {
                std::string t;
                for (auto& [i, it] : seen) t += std::format("{}@{} ", word[i], it);
                run.fail(key, "called: " + t);
              }
              auto want = stopped ? ExitStatus::CALLBACK_REQUESTED_STOP : base.status;
              if (status != want) run.fail(key, std::format("{} instead of {}", status, want));
            }
          }
        }
      }
      if (static_cast<int>(word.size()) == depth) return;
      for (char c : letters) {
        word += c;
        rec();
        word.pop_back();
      }
    };
    rec();
  }

  // Timeouts count from the start of each solve
  for (size_t which = 0; which < specs.size(); ++which)
    for (int first = 0; first < 4; ++first)
      for (int second = 0; second < 4; ++second)
        for (int third = 0; third < 4; ++third) {
          if (!run.take()) continue;
          std::string key = std::format("{} | jumps {} {} {}", specs[which].text(), first, second, third);
          if (!run.begin_case(key)) continue;
          run.state();
          run.distinct();
          run.trace();
          Built b{specs[which]};
          int calls = 0, jump = 0;
          b.problem.add_callback([&](const Info&) {
            // 0: no jump; 1: a short one; 2: two short ones; 3: a long one
            ++calls;
            if (calls == 1 && jump) virtual_now += jump == 3 ? 20.0 : 6.0;
            if (calls == 2 && jump == 2) virtual_now += 6.0;
          });
          auto base = run_once(specs[which], {});
          virtual_now = epoch;
          for (int j : {first, second, third}) {
            jump = j;
            calls = 0;
            b.start(specs[which].start);
            slp::Options o;
            o.timeout = std::chrono::duration<double>{10.0};
            virtual_clock = true;
            auto status = b.problem.solve(o);
            virtual_clock = false;
            run.transition();
            int slots = base.slots.size();
            int end = j == 3 ? 1 : j == 2 ? 2 : slots;
            bool late = end < slots;
            if (end < slots && base.slots[end].x.size() > 2 && base.slots[end - 1].x.size() == 2 && calls == end + 1) ++end;
            if (calls != std::min(end, slots)) run.fail(key, std::format("{} callbacks", calls));
            if (late ? status != ExitStatus::TIMEOUT : status != base.status && !(j >= 2 && status == ExitStatus::TIMEOUT))
              run.fail(key, std::format("{}", status));
            virtual_now += 100.0;
          }
        }
}

void explore(mc::Run& run) {
  histories(run);
  for (auto& [spec, convex] : menu())
    for (bool feasible : {false, true})
      if ((!feasible || !spec.ineq.empty()) && run.take()) check_problem(run, spec, feasible);
  for (int cost = -1; cost < (int)costs().size(); ++cost)
    for (auto& start : starts())
      row_sets(run.thorough ? 2 : 1, [&](auto& eq, auto& ineq) {
        // Two rows: from every other start
        if (eq.size() + ineq.size() == 2 && (&start - starts().data()) % 2) return;
        if (run.take()) check_problem(run, Spec{cost, eq, ineq, start}, false);
      });
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv,
                  {"P23",
                   "fault_enumeration",
                   "every callback of every iteration asks to stop; every iteration limit; every clock jump (and pairs); every registration history",
                   {"the clock advances inside callbacks only", "a limit or timeout reached in the iteration that would have ended the solve may report either",
                    "baseline runs are limited to 80 iterations"},
                   120},
                  explore);
}
