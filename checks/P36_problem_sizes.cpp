// P36: convex problems with a known minimizer are solved to it, whatever their size and sparsity.
//@technique exhaustive enumeration of structured convex problems (coefficients over grids for few variables, periodic coefficients for many) solved by the real library, against exact minimizers (clamping, pool-adjacent-violators, sorting, dense KKT solves)
//@level exploration
//@note Boxes, isotonic regressions, simplices, equality chains, smoothing quadratics, exponentials and linear programs of
//@note 1 to 60 (thorough 240) variables, several starting points; dense and sparse factorizations are both reached.
//@src **/*.cpp
//@flags -O2 -DNDEBUG
#include <cmath>
#include <numeric>

#include <Eigen/LU>

#include <sleipnir/optimization/problem.hpp>

#include "mc.hpp"

using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;
using Vec = Eigen::VectorXd;
using M = Eigen::MatrixXd;

namespace {

int g_starts = 2;
std::vector<int> g_long;

struct Case {
  slp::Problem<double> problem;
  VM x;
  explicit Case(int n, int start) : x{problem.decision_variable(n)} {
    for (int i = 0; i < n; ++i) x[i].set_value(start == 0 ? 0.0 : start == 1 ? (i % 2 ? -3.0 : 5.0) : 0.01 * i);
  }
  Case(const Case&) = delete;
};

/// Sum of w_i (x_i - a_i)^2
V distance(VM& x, const Vec& a, const Vec& w) {
  V f = 0.0;
  for (int i = 0; i < a.size(); ++i) f += w[i] * ((x[i] - a[i]) * (x[i] - a[i]));
  return f;
}

/// Solves and compares with the minimizer.
void judge(mc::Run& run, const std::string& key, Case& c, const Vec& want, double tol = 2e-4) {
  int iterations = 0;
  c.problem.add_callback([&](const slp::IterationInfo<double>&) { ++iterations; });
  auto status = c.problem.solve();
  run.state(), run.distinct(), run.trace();
  run.transition(iterations);
  if (status != slp::ExitStatus::SUCCESS) {
    run.fail(key, std::format("{} instead of success", status));
    return;
  }
  for (int i = 0; i < want.size(); ++i) {
    double v = c.x[i].value();
    if (!(std::abs(v - want[i]) <= tol)) {
      run.fail(key, std::format("variable {} of {} is {}, must be {}", i, want.size(), v, want[i]));
      return;
    }
  }
}

std::string text(const Vec& a) {
  std::string s;
  for (int i = 0; i < a.size() && i < 8; ++i) s += std::format("{}{}", i ? " " : "", a[i]);
  return s + (a.size() > 8 ? std::format(" ... ({})", a.size()) : "");
}

/// All vectors over the grid with up to `all` elements, then the periodic ones.
template <typename F>
void vectors(int all, int period, const std::vector<double>& grid, F f) {
  for (int n = 1; n <= all; ++n) {
    long total = 1;
    for (int i = 0; i < n; ++i) total *= grid.size();
    for (long code = 0; code < total; ++code) {
      Vec a(n);
      long k = code;
      for (int i = 0; i < n; ++i, k /= grid.size()) a[i] = grid[k % grid.size()];
      f(a);
    }
  }
  for (int n : g_long) {
    long total = 1;
    for (int i = 0; i < period; ++i) total *= grid.size();
    for (long code = 0; code < total; ++code) {
      Vec a(n);
      std::vector<double> p;
      for (long k = code, i = 0; i < period; ++i, k /= grid.size()) p.push_back(grid[k % grid.size()]);
      // The drift keeps the elements different
      for (int i = 0; i < n; ++i) a[i] = p[i % period] + 0.003 * i;
      f(a);
    }
  }
}

void boxes(mc::Run& run) {
  // Element: target, bounds: none, lower, upper, both, written in several ways
  const std::vector<double> targets{-2, 0.5, 3};
  std::vector<double> codes(targets.size() * 4);
  std::iota(codes.begin(), codes.end(), 0);
  vectors(run.thorough ? 5 : 4, 2, codes, [&](const Vec& code) {
    for (int start = 0; start < g_starts; ++start) {
      if (!run.take()) continue;
      std::string key = std::format("box {} start {}", text(code), start);
      if (!run.begin_case(key)) continue;
      int n = code.size();
      Case c{n, start};
      Vec a(n), want(n);
      bool bounded = false;
      for (int i = 0; i < n; ++i) {
        int k = code[i];
        double drift = code[i] - k;
        int kind = k % 4;
        a[i] = targets[k / 4] + drift;
        double lo = kind & 1 ? -0.25 + drift : -1e9, hi = kind & 2 ? 1.0 + drift : 1e9;
        want[i] = std::clamp(a[i], lo, hi);
        bounded |= kind;
        if (kind == 3 && i % 2) {
          c.problem.subject_to(slp::bounds(lo, c.x[i], hi));
        } else {
          if (kind & 1) i % 3 ? c.problem.subject_to(c.x[i] >= lo) : c.problem.subject_to(lo <= c.x[i]);
          if (kind & 2) i % 3 ? c.problem.subject_to(c.x[i] <= hi) : c.problem.subject_to(2.0 * hi >= 2.0 * c.x[i]);
        }
      }
      c.problem.minimize(distance(c.x, a, Vec::Ones(n)));
      judge(run, key, c, want, bounded ? 2e-4 : 1e-6);
    }
  });
}

/// Closest nondecreasing sequence: pool adjacent violators
Vec isotonic(const Vec& a) {
  std::vector<std::pair<double, int>> pools;  // mean, size
  for (int i = 0; i < a.size(); ++i) {
    pools.emplace_back(a[i], 1);
    while (pools.size() > 1 && pools[pools.size() - 2].first > pools.back().first) {
      auto [m2, n2] = pools.back();
      pools.pop_back();
      auto& [m1, n1] = pools.back();
      m1 = (m1 * n1 + m2 * n2) / (n1 + n2);
      n1 += n2;
    }
  }
  Vec r(a.size());
  int i = 0;
  for (auto [m, n] : pools)
    for (int k = 0; k < n; ++k) r[i++] = m;
  return r;
}

void monotone(mc::Run& run) {
  vectors(run.thorough ? 9 : 7, 3, {0.5, -1, 2}, [&](const Vec& a) {
    for (int start = 0; start < g_starts; ++start) {
      if (!run.take()) continue;
      std::string key = std::format("nondecreasing {} start {}", text(a), start);
      if (!run.begin_case(key)) continue;
      int n = a.size();
      Case c{n, start};
      c.problem.minimize(distance(c.x, a, Vec::Ones(n)));
      for (int i = 1; i < n; ++i) {
        if (i % 2) c.problem.subject_to(c.x[i - 1] <= c.x[i]);
        else c.problem.subject_to(c.x[i] - c.x[i - 1] >= 0.0);
      }
      // Ties leave multipliers near zero undetermined to the square root of the barrier parameter
      judge(run, key, c, isotonic(a), 1e-3);
    }
  });
}

/// Closest point of the simplex
Vec simplex(const Vec& a) {
  std::vector<double> s(a.begin(), a.end());
  std::sort(s.rbegin(), s.rend());
  double sum = 0, theta = 0;
  for (size_t k = 0; k < s.size(); ++k) {
    sum += s[k];
    double t = (sum - 1) / (k + 1);
    if (s[k] > t) theta = t;
  }
  return (a.array() - theta).cwiseMax(0.0);
}

void simplices(mc::Run& run) {
  vectors(run.thorough ? 8 : 6, 2, {0.3, -1, 0, 2}, [&](const Vec& a) {
    for (int start = 0; start < g_starts; ++start) {
      if (!run.take()) continue;
      std::string key = std::format("simplex {} start {}", text(a), start);
      if (!run.begin_case(key)) continue;
      int n = a.size();
      if (n == 1) continue;  // no interior
      Case c{n, start};
      c.problem.minimize(distance(c.x, a, Vec::Ones(n)));
      V sum = 0.0;
      for (int i = 0; i < n; ++i) sum += c.x[i];
      c.problem.subject_to(sum == 1.0);
      if (start) c.problem.subject_to(c.x >= 0.0);
      else
        for (int i = 0; i < n; ++i) c.problem.subject_to(c.x[i] >= 0.0);
      judge(run, key, c, simplex(a), 1e-3);
    }
  });
}

/// min sum w (x - a)^2 subject to A x = b
Vec equality_qp(const Vec& a, const Vec& w, const M& A, const Vec& b) {
  int n = a.size(), m = b.size();
  M k = M::Zero(n + m, n + m);
  k.topLeftCorner(n, n) = (2 * w).asDiagonal();
  k.bottomLeftCorner(m, n) = A;
  k.topRightCorner(n, m) = A.transpose();
  Vec r(n + m);
  r << 2 * w.cwiseProduct(a), b;
  return k.fullPivLu().solve(r).head(n);
}

void chains(mc::Run& run) {
  // Code per element: 0: free, 1: x_i + x_{i+1} = 1, 2: x_i - 2 x_{i+1} = d, 3: x_i + x_{n/2} = 0.5
  vectors(run.thorough ? 8 : 6, 3, {0, 1, 2, 3}, [&](const Vec& code) {
    for (int start = 0; start < g_starts; ++start) {
      if (!run.take()) continue;
      std::string key = std::format("equations {} start {}", text(code), start);
      if (!run.begin_case(key)) continue;
      int n = code.size();
      Case c{n, start};
      Vec a(n), w(n), b(n);
      M A = M::Zero(n, n);
      int rows = 0;
      for (int i = 0; i < n; ++i) {
        a[i] = (i * 7 % 5) - 1.5;
        w[i] = 1 + i % 3;
        int k = code[i];
        if (i + 1 == n && k) k = 0;
        if (k == 3 && i == n / 2) k = 0;
        switch (k) {
          case 1: A(rows, i) = A(rows, i + 1) = 1, b[rows++] = 1; break;
          case 2: A(rows, i) = 1, A(rows, i + 1) = -2, b[rows++] = 0.1 * i; break;
          case 3: A(rows, i) = A(rows, n / 2) = 1, b[rows++] = 0.5; break;
        }
      }
      A.conservativeResize(rows, n);
      b.conservativeResize(rows);
      if (rows && A.fullPivLu().rank() < rows) continue;
      // Ill-conditioned constraint sets say nothing about the minimizer's accuracy
      if (rows && A.transpose().fullPivHouseholderQr().matrixQR().diagonal().cwiseAbs().minCoeff() < 1e-2) continue;
      c.problem.minimize(distance(c.x, a, w));
      for (int r = 0; r < rows; ++r) {
        V e = 0.0;
        for (int i = 0; i < n; ++i)
          if (A(r, i) != 0) e += A(r, i) * c.x[i];
        c.problem.subject_to(e == b[r]);
      }
      judge(run, key, c, equality_qp(a, w, A, b), 1e-5);
    }
  });
}

void smoothing(mc::Run& run) {
  // Quadratics with tridiagonal, arrow and dense Hessians
  vectors(run.thorough ? 8 : 6, 3, {0.5, -1, 2}, [&](const Vec& a) {
    for (int shape = 0; shape < 3; ++shape)
      for (int start = 0; start < g_starts; ++start) {
        if (!run.take()) continue;
        std::string key = std::format("smoothing {} {} start {}", shape, text(a), start);
        if (!run.begin_case(key)) continue;
        int n = a.size();
        Case c{n, start};
        V f = distance(c.x, a, Vec::Ones(n));
        M H = M::Identity(n, n);
        for (int i = 0; i < n; ++i)
          for (int j = 0; j < i; ++j) {
            if (shape == 0 && j + 1 != i) continue;
            if (shape == 1 && j != 0) continue;
            if (shape == 2 && n > 30) continue;
            double k = 0.5 + 0.25 * (i % 3);
            f += k * ((c.x[i] - c.x[j]) * (c.x[i] - c.x[j]));
            H(i, i) += k, H(j, j) += k, H(i, j) -= k, H(j, i) -= k;
          }
        c.problem.minimize(f);
        judge(run, key, c, H.fullPivLu().solve(a), 1e-6);
      }
  });
}

void exponentials(mc::Run& run) {
  // min sum exp(x) - a x, optionally bounded below
  vectors(run.thorough ? 5 : 4, 2, {0.5, 1, 4, 9}, [&](const Vec& a) {
    for (int kind = 0; kind < 3; ++kind)
      for (int start = 0; start < g_starts; start += 2) {
        if (!run.take()) continue;
        std::string key = std::format("exp {} {} start {}", kind, text(a), start);
        if (!run.begin_case(key)) continue;
        int n = a.size();
        Case c{n, start};
        V f = 0.0;
        Vec want(n);
        for (int i = 0; i < n; ++i) {
          f += exp(c.x[i]) - a[i] * c.x[i];
          want[i] = std::log(a[i]);
          if (kind == 1) c.problem.subject_to(c.x[i] >= 0.25), want[i] = std::max(want[i], 0.25);
          if (kind == 2 && i % 2) c.problem.subject_to(c.x[i] == 1.0), want[i] = 1;
        }
        c.problem.minimize(f);
        judge(run, key, c, want, kind == 1 ? 5e-4 : 1e-6);
      }
  });
}

void linear(mc::Run& run) {
  // min c'x, 0 <= x <= 1 (and sum x = floor(n / 2)): the cheapest are taken
  vectors(run.thorough ? 9 : 7, 2, {1, -2, 0.5}, [&](const Vec& code) {
    for (int kind = 0; kind < 2; ++kind)
      for (int start = 0; start < g_starts; ++start) {
        if (!run.take()) continue;
        std::string key = std::format("linear {} {} start {}", kind, text(code), start);
        if (!run.begin_case(key)) continue;
        int n = code.size();
        if (kind && n < 2) continue;
        Case c{n, start};
        Vec cost(n), want(n);
        // Costs that differ
        for (int i = 0; i < n; ++i) cost[i] = code[i] + (n <= 8 ? 0.11 * i : 0.02 * i);
        std::vector<int> order(n);
        std::iota(order.begin(), order.end(), 0);
        std::sort(order.begin(), order.end(), [&](int a, int b) { return cost[a] < cost[b]; });
        V f = 0.0, sum = 0.0;
        bool sharp = true;
        for (int i = 0; i < n; ++i) {
          f += cost[i] * c.x[i];
          sum += c.x[i];
          c.problem.subject_to(slp::bounds(0.0, c.x[i], 1.0));
          want[i] = cost[i] < 0;
          if (!kind && std::abs(cost[i]) < 1e-3) sharp = false;
        }
        if (kind) {
          c.problem.subject_to(sum == double(n / 2));
          for (int i = 0; i < n; ++i) want[order[i]] = i < n / 2;
          if (cost[order[n / 2]] - cost[order[n / 2 - 1]] < 1e-3) sharp = false;
        }
        if (!sharp) continue;
        c.problem.minimize(f);
        judge(run, key, c, want, 1e-3);
      }
  });
}

void spheres(mc::Run& run) {
  // min c'x subject to x'x = n, x'x <= n, or the square of its elements <= 1 each
  vectors(run.thorough ? 5 : 4, 2, {1, -2, 0.5}, [&](const Vec& a) {
    for (int kind = 0; kind < 3; ++kind)
      for (int start = 0; start < g_starts; ++start) {
        if (!run.take()) continue;
        std::string key = std::format("sphere {} {} start {}", kind, text(a), start);
        if (!run.begin_case(key)) continue;
        int n = a.size();
        if (kind == 0 && n == 1) continue;  // both points are isolated
        Case c{n, start};
        // Constraint gradients vanish at zero, and the maximizer is approached from its own ray
        if (kind == 0)
          for (int i = 0; i < n; ++i) c.x[i].set_value(c.x[i].value() + 0.5 + 0.1 * (i % 3));
        V f = 0.0, r = 0.0;
        Vec want(n);
        for (int i = 0; i < n; ++i) {
          f += a[i] * c.x[i];
          r += c.x[i] * c.x[i];
          want[i] = kind == 2 ? (a[i] > 0 ? -1 : 1) : -std::sqrt(n) * a[i] / a.norm();
          if (kind == 2) c.problem.subject_to(c.x[i] * c.x[i] <= 1.0);
        }
        if (kind == 0) c.problem.subject_to(r == double(n));
        if (kind == 1) c.problem.subject_to(r <= double(n));
        c.problem.minimize(f);
        judge(run, key, c, want, kind ? 1e-3 : 1e-5);
      }
  });
}

void logarithms(mc::Run& run) {
  // min -sum a log x, sum x = n: x is proportional to a
  vectors(run.thorough ? 5 : 4, 2, {1, 2, 0.5, 7}, [&](const Vec& a) {
    for (int kind = 0; kind < 2; ++kind) {
      if (!run.take()) continue;
      std::string key = std::format("log {} {}", kind, text(a));
      if (!run.begin_case(key)) continue;
      int n = a.size();
      Case c{n, 0};
      V f = 0.0, sum = 0.0;
      for (int i = 0; i < n; ++i) {
        c.x[i].set_value(1 + i % 2);
        f -= a[i] * log(c.x[i]);
        sum += c.x[i];
      }
      c.problem.minimize(f);
      if (kind) c.problem.subject_to(sum <= double(n));
      else c.problem.subject_to(sum == double(n));
      judge(run, key, c, a * (n / a.sum()), kind ? 1e-3 : 1e-5);
    }
  });
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config cfg;
  cfg.property = "P36";
  cfg.level = "exploration";
  cfg.rule = "a case is one structured convex problem with its coefficients and starting point; transitions are solver iterations";
  cfg.assumptions = {"convex problems with strictly feasible points", "minimizers are compared to 1e-6 without inequalities, and to 1e-3 or 2e-4 with them, because weakly active constraints leave an interior-point solution at a distance of the square root of the tolerance"};
  return mc::main(argc, argv, cfg, [](mc::Run& run) {
    g_starts = 3;
    g_long = run.thorough ? std::vector<int>{8, 9, 12, 16, 23, 33, 47, 60, 100, 150, 240} : std::vector<int>{8, 9, 13, 21, 34, 60, 90};
    boxes(run);
    monotone(run);
    simplices(run);
    chains(run);
    smoothing(run);
    exponentials(run);
    linear(run);
    spheres(run);
    logarithms(run);
  });
}
