// P15: bound detection and projection.
//@technique exhaustive enumeration of all sets of inequality rows up to a size from a menu of every syntactic form, at several starting points, compared with interval intersection; the projection is compared with its formula on a grid
//@level exploration
//@note All sequences of up to 3 rows from a menu of 30 and of 4 from 15 of them (thorough all 30) (bounds in every syntactic form, two-variable,
//@note cancelling, quadratic, nonlinear and constant rows) at 3 starting points; solves of all sequences of up to 3
//@note rows with bound projection enabled; all projections over a grid of intervals, points and constants.
//@flags -O1 -DSLEIPNIR_ENABLE_BOUND_PROJECTION
//@src **/*.cpp
#include <cmath>
#include <limits>
#include <string>
#include <vector>

#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/optimization/problem.hpp>
#include <sleipnir/optimization/solver/util/bounds.hpp>

#include "mc.hpp"

using Var = slp::Variable<double>;
using Vars = std::vector<Var>;
using RowSp = Eigen::SparseMatrix<double, Eigen::RowMajor>;

namespace {

constexpr double INF = std::numeric_limits<double>::infinity();

struct Row {
  const char* name;
  std::function<Var(Var, Var)> build;
  int var;  // -1: not a bound
  double a, b;  // a v + b >= 0
  std::function<double(double, double)> value;
};

#define R(text, var, a, b) \
  Row{#text, [](Var x, Var y) -> Var { return Var{text}; }, var, a, b, [](double x, double y) -> double { return double(text); }}

std::vector<Row> menu() {
  using std::sin;
  return {
      R(x - 1, 0, 1, -1),
      R(2.0 * x - 4.0, 0, 2, -4),
      R(1 - x, 0, -1, 1),
      R(x, 0, 1, 0),
      R(-x, 0, -1, 0),
      R(x + 3, 0, 1, 3),
      R(-2 * x - 4, 0, -2, -4),
      R(3 - (x - 1), 0, -1, 4),
      R(y - 0.5, 1, 1, -0.5),
      R(-(y - 2), 1, -1, 2),
      R(y / 2 + 8, 1, 0.5, 8),
      R(-0.25 - y, 1, -1, -0.25),
      R(x / -4 + 0.5, 0, -0.25, 0.5),
      R(x + x - 2, 0, 2, -2),
      R(x + y - y - 2, 0, 1, -2),
      R(2 * x - x + 0.5, 0, 1, 0.5),
      R(x - x + 1, -1, 0, 0),
      R(y - y - 1, -1, 0, 0),
      R(x + y, -1, 0, 0),
      R(x - 2 * y + 1, -1, 0, 0),
      R(x * x - 4, -1, 0, 0),
      R(x * y, -1, 0, 0),
      R(sin(x) + 2, -1, 0, 0),
      R(1e-3 * x - 1.0 / 1024, 0, 1e-3, -1.0 / 1024),
      R(0 * x + 1, -1, 0, 0),
      R(4e8 * y + 4e8, 1, 4e8, 4e8),
      R(-y, 1, -1, 0),
      R(0.5 * (x + y) + 0.5 * (x - y), 0, 1, 0),
      R(2 - x * 0.5, 0, -0.5, 2),
      R(1 * y, 1, 1, 0),
  };
}

struct Interval {
  double lo = -INF, hi = INF;
};

bool near(double a, double b) { return a == b || std::abs(a - b) <= 1e-12 * std::max({1.0, std::abs(a), std::abs(b)}); }

std::string name(const std::vector<Row>& m, const std::vector<int>& rows) {
  std::string s;
  for (int r : rows) s += std::format("[{}>=0]", m[r].name);
  return s;
}

std::vector<Interval> intersect(const std::vector<Row>& m, const std::vector<int>& rows) {
  std::vector<Interval> v(2);
  for (int r : rows)
    if (m[r].var >= 0) {
      double b = -m[r].b / m[r].a;
      auto& i = v[m[r].var];
      if (m[r].a > 0) i.lo = std::max(i.lo, b);
      if (m[r].a < 0) i.hi = std::min(i.hi, b);
    }
  return v;
}

const double STARTS[3][2] = {{0, 0}, {-7.5, 3}, {2, -0.0}};

void detection(mc::Run& run, const std::vector<Row>& m, const std::vector<int>& rows) {
  if (!run.take()) return;
  for (int st = 0; st < 3; ++st) {
    if (!run.begin_case(std::format("detect start{} {}", st, name(m, rows)))) continue;
    Var x, y;
    x.set_value(STARTS[st][0]);
    y.set_value(STARTS[st][1]);
    Vars vars{x, y}, cons;
    for (int r : rows) cons.push_back(m[r].build(x, y));
    RowSp A(rows.size(), 2);
    if (!rows.empty()) {
      slp::VariableMatrix<double> c{slp::detail::empty, (int)rows.size(), 1}, w{slp::detail::empty, 2, 1};
      for (size_t i = 0; i < rows.size(); ++i) c[i] = cons[i];
      w[0] = x;
      w[1] = y;
      slp::Jacobian<double> J{c, w};
      A = J.value();
    }
    auto got = slp::get_bounds<double>(vars, cons, A);
    run.check(x.value() == STARTS[st][0] && y.value() == STARTS[st][1], "the variables were altered");
    bool ok = got.bound_constraint_mask.size() == (Eigen::Index)rows.size();
    for (size_t i = 0; ok && i < rows.size(); ++i) ok = got.bound_constraint_mask[i] == (m[rows[i]].var >= 0);
    run.check(ok, "the wrong constraints were recognised as bounds");
    auto want = intersect(m, rows);
    bool empty = want[0].lo > want[0].hi || want[1].lo > want[1].hi;
    if (run.check(got.bounds.size() == 2, "wrong number of intervals")) {
      for (int v = 0; v < 2; ++v) {
        if (!near(got.bounds[v].first, want[v].lo) || !near(got.bounds[v].second, want[v].hi)) {
          run.fail(std::format("variable {} has the interval [{}, {}] instead of [{}, {}]", v, got.bounds[v].first, got.bounds[v].second, want[v].lo, want[v].hi));
        }
      }
    }
    run.check(empty == !got.conflicting_bound_indices.empty(), empty ? "a conflict wasn't reported" : "a conflict was reported though there is none");
    for (auto [p, q] : got.conflicting_bound_indices) {
      bool valid = p >= 0 && q >= 0 && p < (long)rows.size() && q < (long)rows.size();
      if (valid) {
        auto& c = m[rows[p]];
        auto& d = m[rows[q]];
        auto iv = intersect(m, {rows[p], rows[q]});
        valid = c.var >= 0 && c.var == d.var && iv[c.var].lo > iv[c.var].hi;
      }
      run.check(valid, "the reported pair of constraints doesn't conflict");
    }
    run.state();
  }
}

// What a projected coordinate must be
double projected(double x, Interval i, double k1, double k2) {
  double w = k2 * (i.hi - i.lo);
  double pl = std::min(k1 * std::max(1.0, std::abs(i.lo)), w), pu = std::min(k1 * std::max(1.0, std::abs(i.hi)), w);
  if (std::isfinite(i.lo)) x = std::max(x, i.lo + pl);
  if (std::isfinite(i.hi)) x = std::min(x, i.hi - pu);
  return x;
}

void projections(mc::Run& run) {
  std::vector<double> B{-INF, -1e10, -300, -1, -0.5, 0, 0.25, 1, 1.0 + 1.0 / 1024, 200, 1e10, INF};
  std::vector<double> X{-1e300, -1e10, -301, -1, -0.99, -0.5, -1e-12, 0, 0.25, 0.999, 1, 1.005, 10, 199, 205, 1e10, 1e300};
  std::vector<std::pair<double, double>> K{{1e-2, 1e-2}, {0.5, 0.49}, {1e-6, 0.25}, {2, 1e-3}};
  std::vector<Interval> iv;
  for (double lo : B)
    for (double hi : B)
      if (lo <= hi && lo < INF && hi > -INF) iv.push_back({lo, hi});
  for (size_t k = 0; k < K.size() + 1; ++k)
    for (size_t a = 0; a < iv.size(); ++a)
      for (double x : X) {
        if (!run.take()) continue;
        if (!run.begin_case(std::format("project {} onto [{}, {}] k{}", x, iv[a].lo, iv[a].hi, k))) continue;
        double k1 = k < K.size() ? K[k].first : 1e-2, k2 = k < K.size() ? K[k].second : 1e-2;
        // Alone, and among other coordinates
        for (size_t b : {a, (a + 5) % iv.size()}) {
          Eigen::VectorXd v(3);
          v << x, 0.75, -x;
          std::vector<std::pair<double, double>> bounds{{iv[a].lo, iv[a].hi}, {-INF, INF}, {iv[b].lo, iv[b].hi}};
          if (k < K.size()) {
            slp::project_onto_bounds(v, std::span<const std::pair<double, double>>{bounds}, k1, k2);
          } else {
            slp::project_onto_bounds(v, std::span<const std::pair<double, double>>{bounds});
          }
          for (int c : {0, 2}) {
            Interval i = c == 0 ? iv[a] : iv[b];
            double x0 = c == 0 ? x : -x, w = projected(x0, i, k1, k2);
            if (!near(v(c), w)) run.fail(std::format("{} became {} instead of {} in [{}, {}]", x0, v(c), w, i.lo, i.hi));
            // Stated independently of the formula
            bool interior = !std::isfinite(i.lo) || !std::isfinite(i.hi) || i.hi - i.lo > 1e-10 * std::max({1.0, std::abs(i.lo), std::abs(i.hi)});
            if (interior) {
              run.check((i.lo == -INF || v(c) > i.lo) && (i.hi == INF || v(c) < i.hi), "the projection isn't inside the interval");
            } else {
              run.check(near(v(c), i.lo), "the projection isn't on the bound");
            }
          }
          run.check(v(1) == 0.75, "a free variable was altered");
          run.state();
        }
      }
}

// Whole solves with bound projection enabled
void solves(mc::Run& run, const std::vector<Row>& m, const std::vector<int>& rows) {
  if (!run.take()) return;
  for (int st = 0; st < 2; ++st)
    for (int eq = 0; eq < 2; ++eq) {
      if (!run.begin_case(std::format("solve start{} eq{} {}", st, eq, name(m, rows)))) continue;
      auto iv = intersect(m, rows);
      bool empty = iv[0].lo > iv[0].hi || iv[1].lo > iv[1].hi;
      slp::Problem<double> p;
      auto x = p.decision_variable();
      auto y = p.decision_variable();
      x.set_value(STARTS[st][0]);
      y.set_value(STARTS[st][1]);
      p.minimize(x * x + y * y + x);
      if (eq) p.subject_to(x + 2 * y == 0.25);
      for (int r : rows) p.subject_to(m[r].build(x, y) >= 0);
      Eigen::VectorXd first, firsts;
      bool called = false;
      p.add_callback([&](const slp::IterationInfo<double>& info) {
        if (!called) {
          called = true;
          first = info.x;
        }
        return false;
      });
      auto status = p.solve({.max_iterations = 60});
      bool glob = status == slp::ExitStatus::GLOBALLY_INFEASIBLE;
      run.check(glob == empty, empty ? "conflicting bounds weren't reported as global infeasibility" : "global infeasibility was reported without conflicting bounds");
      if (glob) {
        run.check(!called && x.value() == STARTS[st][0] && y.value() == STARTS[st][1], "iterations were made on a globally infeasible problem");
      } else if (called) {
        for (int v = 0; v < 2; ++v) {
          double w = projected(STARTS[st][v], iv[v], 1e-2, 1e-2);
          run.check(near(first(v), w), "the first iterate isn't the projection of the starting point");
        }
      }
      if (status == slp::ExitStatus::SUCCESS) {
        for (int r : rows) run.check(m[r].value(x.value(), y.value()) >= -1e-4 * std::max(1.0, std::abs(m[r].a)), "success was reported at a point that violates a constraint");
        run.check(std::isfinite(x.value()) && std::isfinite(y.value()), "success was reported at a non-finite point");
      }
      // Minimising a strictly convex separable function over a box
      bool box = !eq && !empty;
      for (int r : rows) box &= m[r].var >= 0;
      if (box) {
        double wx = std::clamp(-0.5, iv[0].lo, iv[0].hi), wy = std::clamp(0.0, iv[1].lo, iv[1].hi);
        if (status != slp::ExitStatus::SUCCESS || std::abs(x.value() - wx) > 1e-3 || std::abs(y.value() - wy) > 1e-3) {
          run.fail(std::format("{} at ({}, {}) instead of success at ({}, {})", status, x.value(), y.value(), wx, wy));
        }
      }
      run.state();
    }
}

void sequences(int n, int depth, const std::function<void(const std::vector<int>&)>& f) {
  for (int len = 0; len <= depth; ++len) {
    std::vector<int> idx(len);
    while (true) {
      f(idx);
      int p = 0;
      for (; p < len; ++p) {
        if (++idx[p] < n) break;
        idx[p] = 0;
      }
      if (p == len) break;
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv,
                  {"P15", "exploration", "mask, intervals and conflicts equal those of interval intersection; projections equal the documented formula", {"bounds are exactly representable", "intervals narrower than 1e-10 relative are not required to have an interior"}, 60},
                  [](mc::Run& run) {
                    auto m = menu();
                    sequences(m.size(), 3, [&](const std::vector<int>& r) { detection(run, m, r); });
                    projections(run);
                    // Solves with bounds and one row of each other kind
                    std::vector<Row> s;
                    for (int i : {0, 1, 2, 3, 4, 6, 8, 9, 11, 14, 17, 18, 20, 22, 23}) s.push_back(m[i]);
                    sequences(s.size(), 3, [&](const std::vector<int>& r) { solves(run, s, r); });
                    sequences(run.thorough ? m.size() : s.size(), 4, [&](const std::vector<int>& r) { detection(run, run.thorough ? m : s, r); });
                  });
}
