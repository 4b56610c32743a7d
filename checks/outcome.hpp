// What a solve's outcome claims, certified from the independent evaluation of the formulas.
#pragma once

#include <format>
#include <functional>
#include <string>

#include <sleipnir/optimization/solver/exit_status.hpp>

#include "problang.hpp"

namespace problang {

inline bool constant_problem(const Spec& s) {
  auto constant = [](auto& fns, auto& idx) {
    for (int i : idx)
      if (fns[i].degree > 0) return false;
    return true;
  };
  return (s.cost < 0 || costs()[s.cost].degree == 0) && constant(equalities(), s.eq) &&
         constant(inequalities(), s.ineq);
}

struct Outcome {
  slp::ExitStatus status;
  Vec2 point;
  int callbacks = 0;
  double max_s = 0;  // largest slack of the last iterate
  int max_iterations = 500;
  double tolerance = 1e-8;
  /// Where the solver starts iterating
  Vec2 first;
};

inline void certify(const Spec& spec, const Outcome& o, const std::function<void(std::string)>& fail) {
  const auto status = o.status;
  const auto& p = o.point;
  const double tol = o.tolerance;
  Facts f = facts(spec, p), f0 = facts(spec, o.first);
  const bool constant = constant_problem(spec);
  const bool conflict = bounds_conflict(spec);
  const bool few = (int)spec.eq.size() > 2 + spec.extra;
  const bool linear_ok = linear_point(spec).has_value();
  const bool linear_interior = linear_point(spec, 1e-3).has_value();

  // Answered before iterating
  if (constant) {
    bool ok = f.violation <= tol;
    if (status != (ok ? slp::ExitStatus::SUCCESS : slp::ExitStatus::GLOBALLY_INFEASIBLE))
      fail(ok ? "nothing to solve" : "violated constant constraints");
    if (p != spec.start) fail("a problem with nothing to solve moved its variables");
    return;
  }
  if ((status == slp::ExitStatus::GLOBALLY_INFEASIBLE) != conflict)
    fail(conflict ? "the bounds conflict" : "the bounds do not conflict");
  if (conflict) return;
  if ((status == slp::ExitStatus::TOO_FEW_DOFS) != few)
    fail(std::format("{} equality constraints, {} variables", spec.eq.size(), 2 + spec.extra));
  if (few) return;
  if (!f0.finite && status != slp::ExitStatus::NONFINITE_INITIAL_GUESS)
    fail("cost, constraints or gradients are not finite at the initial guess");
  if (f0.finite && f0.second_finite && status == slp::ExitStatus::NONFINITE_INITIAL_GUESS)
    fail("everything is finite at the initial guess");
  if (status == slp::ExitStatus::NONFINITE_INITIAL_GUESS) return;

  switch (status) {
    case slp::ExitStatus::SUCCESS: {
      if (!f.finite) {
        fail("not finite");
        break;
      }
      if (f.violation > 1.01 * tol) fail(std::format("violation {}", f.violation));
      if (spec.eq.empty() && spec.ineq.empty()) {
        if (f.stationarity > 1.5 * tol) fail(std::format("gradient norm {}", f.stationarity));
      } else if (f.regular) {
        // The documented scaling divides by max(1, mean multiplier / 100)
        double bound = 10 * tol * std::max(1.0, f.dual_sum / 100);
        if (f.stationarity > bound)
          fail(std::format("smallest KKT residual {} (multipliers {})", f.stationarity, f.dual_sum));
      }
      break;
    }
    case slp::ExitStatus::LOCALLY_INFEASIBLE:
      if (f.violation <= 0.9 * tol) fail("all constraints hold");
      if (linear_ok) fail("linear constraints that have a solution are not locally infeasible anywhere");
      break;
    case slp::ExitStatus::DIVERGING_ITERATES:
      if (p.allFinite() && p.lpNorm<Eigen::Infinity>() < 1e9 && f.largest_inequality < 1e9 && o.max_s < 1e7)
        fail("no iterate diverges");
      break;
    case slp::ExitStatus::MAX_ITERATIONS_EXCEEDED:
      if (o.callbacks < o.max_iterations / 2) fail(std::format("after {} iterations", o.callbacks));
      break;
    case slp::ExitStatus::FACTORIZATION_FAILED:
    case slp::ExitStatus::LINE_SEARCH_FAILED:
    case slp::ExitStatus::FEASIBILITY_RESTORATION_FAILED:
      break;
    default:
      fail("no reason for this status");
  }
  // Strictly convex quadratic programs with an interior are solved
  if ((spec.cost == 0 || spec.cost == 8) && linear_interior && status != slp::ExitStatus::SUCCESS)
    fail("a strictly convex quadratic program with linear constraints was not solved");
}

}  // namespace problang
