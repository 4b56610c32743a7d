// P26: iteration info handed to callbacks is the truth about the current iterate.
//@technique exhaustive enumeration of every problem with up to N rows over a menu of costs, rows, starts and options; a monitor at every iteration of every real solve (restoration included) compares gradient, Lagrangian Hessian and Jacobians with an independent evaluation of the formulas under the documented scaling
//@level exploration
//@note Every iteration of all problems with at most 2 (thorough: 3) of 30 rows, 15 costs, 5 starts, limited to 40 iterations each.
//@src **/*.cpp
//@flags -O2 -DNDEBUG
#include "problang.hpp"

#include "mc.hpp"

using namespace problang;

namespace {

using slp::ExitStatus;
using Info = slp::IterationInfo<double>;
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;

double scale(double gx, double gy) { return std::min(1.0, 100.0 / std::max(std::abs(gx), std::abs(gy))); }

void run_case(mc::Run& run, const Spec& spec, bool feasible) {
  std::string key = spec.text() + (feasible ? " [feasible_ipm]" : "");
  if (!run.begin_case(key)) return;
  run.state();
  run.distinct();
  run.trace();
  const int nv = 2 + spec.extra, ne = spec.eq.size(), ni = spec.ineq.size();
  auto at = [&](double x, double y) {
    struct {
      D2 f;
      std::vector<D2> e, i;
    } r;
    Vec2 p{x, y};
    r.f = spec.cost < 0 ? D2{0.0} : costs()[spec.cost].at(p);
    for (int k : spec.eq) r.e.push_back(equalities()[k].at(p));
    for (int k : spec.ineq) r.i.push_back(inequalities()[k].at(p));
    return r;
  };
  auto start = at(spec.start[0], spec.start[1]);
  // The documented scaling, from the gradients at the starting point
  const double df = scale(start.f.g[0], start.f.g[1]);
  std::vector<double> de, di;
  for (auto& c : start.e) de.push_back(scale(c.g[0], c.g[1]));
  for (auto& c : start.i) di.push_back(scale(c.g[0], c.g[1]));

  Built b{spec};
  int calls = 0, last = -1;
  bool was_restoring = false, failed = false;
  Vec main_x, x_r;
  double zeta = 0;
  auto fail = [&](const Info& info, std::string what) {
    failed = true;
    run.fail(key, std::format("iteration {} at ({}, {}){}: {}", info.iteration, info.x[0], info.x[1],
                              info.x.size() > nv ? " while restoring feasibility" : "", what));
  };
  // Entry of a sparse matrix against the truth; `size` is the magnitude of the terms
  auto same = [](double got, double want, double size) {
    return got == want || !std::isfinite(want) || std::abs(got - want) <= 1e-9 * (1e-3 + std::abs(want) + size);
  };
  b.problem.add_callback([&](const Info& info) {
    run.transition();
    if (failed) return;
    const bool restoring = info.x.size() > nv;
    const int n = restoring ? nv + 2 * ne + 2 * ni : nv;
    // Without inequalities the restoration problem has no relaxations of them
    const int ri = restoring ? 2 * ne + 3 * ni : ni;
    if (calls++ == 0) {
      if (info.iteration != 0) return fail(info, "the first iteration isn't number 0");
      if (info.x[0] != spec.start[0] || info.x[1] != spec.start[1]) return fail(info, "the first iterate isn't the start");
    } else {
      bool entering = restoring && !was_restoring;
      if (info.iteration != last + 1 && !(entering && info.iteration == last)) return fail(info, std::format("follows iteration {}", last));
    }
    last = info.iteration;
    if (restoring && !was_restoring) {
      x_r = main_x;
      zeta = -1;
      if (info.x[0] != x_r[0] || info.x[1] != x_r[1]) return fail(info, "restoration doesn't start at the iterate");
    }
    was_restoring = restoring;
    if (!restoring) main_x = info.x;

    if (info.x.size() != n || info.g.size() != n || info.H.rows() != n || info.H.cols() != n || info.y.size() != ne ||
        info.s.size() != ri || info.z.size() != ri)
      return fail(info, std::format("sizes: x {}, g {}, H {}x{}, y {}, s {}, z {}", info.x.size(), info.g.size(), info.H.rows(),
                                    info.H.cols(), info.y.size(), info.s.size(), info.z.size()));
    if (ne && (info.A_e.rows() != ne || info.A_e.cols() != n)) return fail(info, "size of A_e");
    if (ri && (info.A_i.rows() != ri || info.A_i.cols() != n)) return fail(info, "size of A_i");
    if (!info.x.allFinite()) return;
    for (int k = 0; k < ri; ++k)
      if (!(info.s[k] > 0) || !(info.z[k] > 0)) {
        // Slacks that are reset to the constraint value in feasible mode stay positive too
        return fail(info, std::format("slack {} and dual {} of inequality {}", info.s[k], info.z[k], k));
      }

    auto t = at(info.x[0], info.x[1]);
    Mat H = info.H;
    Mat A_e = info.A_e, A_i = info.A_i;
    Vec g = info.g;
    auto lower = [&](int r, int c, double want, double size, const char* what) {
      if (!same(H(r, c), want, size)) {
        fail(info, std::format("{} ({}, {}) is {} instead of {}", what, r, c, H(r, c), want));
        return false;
      }
      if (r != c && H(c, r) != 0 && !same(H(c, r), want, size)) {
        fail(info, std::format("{} ({}, {}) is {} instead of {}", what, c, r, H(c, r), want));
        return false;
      }
      return true;
    };
    // Jacobians
    Mat We = Mat::Zero(ne, n), Wi = Mat::Zero(ri, n);
    for (int j = 0; j < ne; ++j)
      for (int k = 0; k < 2; ++k) We(j, k) = de[j] * t.e[j].g[k];
    for (int j = 0; j < ni; ++j)
      for (int k = 0; k < 2; ++k) Wi(j, k) = di[j] * t.i[j].g[k];
    if (restoring) {
      for (int j = 0; j < ne; ++j) {
        We(j, nv + j) = -1;
        We(j, nv + ne + j) = 1;
      }
      for (int j = 0; j < ni; ++j) {
        Wi(j, nv + 2 * ne + j) = -1;
        Wi(j, nv + 2 * ne + ni + j) = 1;
      }
      for (int j = 0; j < 2 * ne + 2 * ni; ++j) Wi(ni + j, nv + j) = 1;
    }
    for (int j = 0; j < ne; ++j)
      for (int k = 0; k < n; ++k)
        if (!same(A_e(j, k), We(j, k), 0)) return fail(info, std::format("A_e ({}, {}) is {} instead of {}", j, k, A_e(j, k), We(j, k)));
    for (int j = 0; j < ri; ++j)
      for (int k = 0; k < n; ++k)
        if (!same(A_i(j, k), Wi(j, k), 0)) return fail(info, std::format("A_i ({}, {}) is {} instead of {}", j, k, A_i(j, k), Wi(j, k)));
    // Lagrangian Hessian
    double h[3]{}, size[3]{};
    for (int k = 0; k < 3; ++k) {
      if (!restoring) h[k] = df * t.f.h[k];
      size[k] = std::abs(h[k]);
      for (int j = 0; j < ne; ++j) {
        h[k] -= de[j] * info.y[j] * t.e[j].h[k];
        size[k] += std::abs(de[j] * info.y[j] * t.e[j].h[k]);
      }
      for (int j = 0; j < ni; ++j) {
        h[k] -= di[j] * info.z[j] * t.i[j].h[k];
        size[k] += std::abs(di[j] * info.z[j] * t.i[j].h[k]);
      }
    }
    if (restoring) {
      // The cost is rho sum(p + n) + zeta/2 (x - x_r)' D_r (x - x_r)
      double dr[2];
      for (int k = 0; k < 2; ++k) dr[k] = std::min(1.0, 1.0 / (x_r[k] * x_r[k]));
      int big = dr[0] >= dr[1] ? 0 : 1;
      if (zeta < 0) {
        double z = (H(big, big) - h[big ? 2 : 0]) / dr[big];
        // Known from the first Hessian, unless cancellation hides it
        if (!(z > 0) || size[big ? 2 : 0] > 1e3 * z) return;
        zeta = z;
      }
      h[0] += zeta * dr[0];
      h[2] += zeta * dr[1];
      size[0] += 1e3 * zeta;
      size[2] += 1e3 * zeta;
      for (int k = 0; k < n; ++k) {
        double want = k < 2 ? zeta * dr[k] * (info.x[k] - x_r[k]) : k < nv ? g[k] : 1000.0;
        if (k < 2 ? !(std::abs(g[k] - want) <= 1e-6 * (1e-3 + std::abs(want))) : g[k] != want)
          return fail(info, std::format("gradient element {} is {} instead of {}", k, g[k], want));
      }
    } else {
      for (int k = 0; k < n; ++k) {
        double want = k < 2 ? df * t.f.g[k] : 0.0;
        if (!same(g[k], want, 0)) return fail(info, std::format("gradient element {} is {} instead of {}", k, g[k], want));
      }
    }
    if (!lower(0, 0, h[0], size[0], "Hessian") || !lower(1, 0, h[1], size[1], "Hessian") || !lower(1, 1, h[2], size[2], "Hessian")) return;
    for (int r = 2; r < n; ++r)
      for (int c = 0; c <= r; ++c)
        if (!(restoring && r == c && r < nv) && !lower(r, c, 0, 0, "Hessian")) return;
  });
  slp::Options o;
  o.max_iterations = 40;
  o.feasible_ipm = feasible;
  b.problem.solve(o);
}

void explore(mc::Run& run) {
  for (auto& [spec, convex] : menu())
    for (bool feasible : {false, true})
      if ((!feasible || !spec.ineq.empty()) && run.take()) run_case(run, spec, feasible);
  for (bool feasible : {false, true})
    for (int cost = -1; cost < (int)costs().size(); ++cost)
      for (auto& start : starts())
        row_sets(run.thorough ? 3 : 2, [&](auto& eq, auto& ineq) {
          if (feasible && (ineq.empty() || eq.size() + ineq.size() > 2)) return;
          if (run.take()) run_case(run, Spec{cost, eq, ineq, start}, feasible);
          if (eq.size() + ineq.size() <= 1 && run.take()) {
            Spec s{cost, eq, ineq, start};
            s.extra = 1;
            run_case(run, s, feasible);
          }
        });
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv,
                  {"P26",
                   "exploration",
                   "every iteration of every solve of every problem of the menu with at most N rows, every start, with and without feasible_ipm",
                   {"Hessians are given as their lower triangle", "the weight of the proximity term while restoring is taken from the first Hessian of the phase"},
                   120},
                  explore);
}
