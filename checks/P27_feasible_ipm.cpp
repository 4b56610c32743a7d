// P27: the feasible interior-point option keeps iterates feasible.
//@technique exhaustive enumeration of inequality-constrained problems with up to N rows, costs and a grid of starting points, solved by the real library with the option on; a monitor at every iterate evaluates every inequality independently
//@level exploration
//@note Every problem with at most 2 (thorough: 3) of 30 rows (at least one inequality), 15 costs and 21 (thorough: 45) starts.
//@src **/*.cpp
//@flags -O2 -DNDEBUG
#include "problang.hpp"

#include "mc.hpp"

using namespace problang;

namespace {

using slp::ExitStatus;
using Info = slp::IterationInfo<double>;

std::vector<double> inequalities_at(const Spec& spec, double x, double y) {
  std::vector<double> v;
  for (int i : spec.ineq) v.push_back(inequalities()[i].at(Vec2{x, y}).v);
  return v;
}

void run_case(mc::Run& run, const Spec& spec) {
  std::string key = spec.text();
  if (!run.begin_case(key)) return;
  run.state();
  run.distinct();
  run.trace();
  Built b{spec};
  bool all_feasible = false, restoring = false, failed = false;
  int since = -1, calls = 0;
  auto judge = [&](double x, double y, std::string where, bool ends) {
    if (failed) return;
    auto c = inequalities_at(spec, x, y);
    bool all = true;
    for (size_t i = 0; i < c.size(); ++i) {
      // An independent evaluation may round differently
      double rounding = 1e-13 * (1 + x * x + y * y) * 1e3;
      if (all_feasible && !(c[i] >= -rounding)) {
        failed = true;
        run.fail(key, std::format("{} at ({}, {}): {} is {} although all inequalities held in iteration {}", where, x, y,
                                  inequalities()[spec.ineq[i]].name, c[i], since));
        return;
      }
      all = all && c[i] > rounding;
    }
    if (all && !all_feasible && !ends) {
      all_feasible = true;
      since = calls - 1;
    }
  };
  b.problem.add_callback([&](const Info& info) {
    ++calls;
    run.transition();
    if (info.x.size() > 2) {
      // Feasibility restoration relaxes all constraints
      all_feasible = false;
      restoring = true;
      return;
    }
    restoring = false;
    judge(info.x[0], info.x[1], std::format("iteration {}", info.iteration), false);
  });
  slp::Options o;
  o.max_iterations = 60;
  o.feasible_ipm = true;
  auto status = b.problem.solve(o);
  if (status == ExitStatus::CALLBACK_REQUESTED_STOP) run.fail(key, "stopped without a reason");
  auto p = b.point();
  if (p.allFinite() && !restoring) judge(p[0], p[1], std::format("result ({})", status), true);
}

void explore(mc::Run& run) {
  std::vector<Vec2> grid = starts();
  const std::vector<double> xs = run.thorough ? std::vector<double>{-3, -1.5, 0.25, 0.75, 1.9, 3.5} : std::vector<double>{-1.5, 0.25, 1.9, 3.5};
  for (double x : xs)
    for (double y : xs) grid.push_back({x, y});
  for (auto& [spec, convex] : menu())
    if (!spec.ineq.empty())
      for (auto& g : grid) {
        Spec s = spec;
        s.start = g;
        if (run.take()) run_case(run, s);
      }
  for (int cost = -1; cost < (int)costs().size(); ++cost)
    for (size_t k = 0; k < grid.size(); ++k)
      row_sets(run.thorough ? 3 : 2, [&](auto& eq, auto& ineq) {
        if (ineq.empty()) return;
        if (eq.size() + ineq.size() == 3 && k >= starts().size()) return;
        if (run.take()) run_case(run, Spec{cost, eq, ineq, grid[k]});
      });
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv,
                  {"P27",
                   "exploration",
                   "every iterate of every solve with feasible_ipm of every problem of the menu with at most N rows and every start",
                   {"an inequality is taken to hold strictly where it exceeds the rounding of an independent evaluation"},
                   120},
                  explore);
}
