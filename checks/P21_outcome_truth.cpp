// P21: the outcome a solve reports is true of the point it leaves behind.
//@technique exhaustive enumeration of every problem with up to N rows over a menu of cost functions, equality and inequality rows, starting points and options; each is solved by the real library, and the reported status is certified against an independent evaluation of the formulas (own second-order dual numbers, smallest KKT residual over all multiplier supports, exact feasibility of the linear sets)
//@level exploration
//@note All problems with at most 2 (thorough: 3) constraint rows out of 26 row shapes (constant, linear, quadratic and
//@note nonlinear, satisfiable and not), 15 costs, 4 starts; default options, feasible_ipm and a loose tolerance.
//@src **/*.cpp
//@flags -O2 -DNDEBUG
#include "outcome.hpp"
#include "problang.hpp"

#include "mc.hpp"

using namespace problang;

namespace {

struct Variant {
  const char* name;
  bool feasible;
  double tolerance;
};
constexpr Variant variants[]{{"", false, 1e-8}, {" [feasible_ipm]", true, 1e-8}, {" [tolerance 1e-5]", false, 1e-5}};

void run_case(mc::Run& run, const Spec& spec, const Variant& var) {
  std::string key = spec.text() + var.name;
  if (!run.begin_case(key)) return;
  run.state();
  run.distinct();
  Built b{spec};
  slp::Options o;
  o.feasible_ipm = var.feasible;
  o.tolerance = var.tolerance;
  o.max_iterations = run.thorough && !var.name[0] ? 5000 : 500;
  int callbacks = 0;
  double max_s = 0;
  b.problem.add_callback([&](const slp::IterationInfo<double>& info) {
    ++callbacks;
    max_s = info.s.size() ? info.s.lpNorm<Eigen::Infinity>() : 0.0;
  });
  auto status = b.problem.solve(o);
  run.transition(callbacks);
  run.trace();
  Vec2 p = b.point();
  certify(spec, Outcome{status, p, callbacks, max_s, o.max_iterations, o.tolerance, spec.start},
          [&](std::string what) { run.fail(key, std::format("{} at ({}, {}): {}", status, p[0], p[1], what)); });
}

void explore(mc::Run& run) {
  for (auto& var : variants)
    for (int cost = -1; cost < (int)costs().size(); ++cost)
      for (auto& start : starts())
        row_sets(run.thorough ? 3 : 2, [&](auto& eq, auto& ineq) {
          if (var.feasible && ineq.empty()) return;
          if (run.take()) run_case(run, Spec{cost, eq, ineq, start}, var);
          if (eq.size() + ineq.size() <= 1 && run.take()) {
            Spec s{cost, eq, ineq, start};
            s.extra = 1;
            run_case(run, s, var);
          }
        });
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv,
                  {"P21",
                   "exploration",
                   "every problem of the menu with at most N rows, every start, every option set",
                   {"stationarity is judged where the gradients of the equality and near-active inequality rows are "
                    "independent; elsewhere multipliers are unbounded and the documented scaling makes the "
                    "optimality error insensitive",
                    "statuses that admit failure without a claim (factorization, line search, restoration failed) are "
                    "only judged on strictly convex quadratic programs whose constraints have an interior"},
                   120},
                  explore);
}
