// Problems over two decision variables, from a menu of cost functions and
// constraint rows; each formula is instantiated twice: with the library's
// variables, and with the independent second-order dual numbers below.
#pragma once

#include <array>
#include <cmath>
#include <functional>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include <Eigen/Core>
#include <Eigen/QR>
#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/optimization/problem.hpp>

namespace problang {

/// Value, gradient and Hessian (xx, xy, yy) of a function of (x, y).
struct D2 {
  double v = 0;
  std::array<double, 2> g{};
  std::array<double, 3> h{};
  D2() = default;
  D2(double c) : v{c} {}  // NOLINT
  static D2 var(double value, int i) {
    D2 d{value};
    d.g[i] = 1;
    return d;
  }
};
inline D2 operator+(D2 a, const D2& b) {
  a.v += b.v;
  for (int i = 0; i < 2; ++i) a.g[i] += b.g[i];
  for (int i = 0; i < 3; ++i) a.h[i] += b.h[i];
  return a;
}
inline D2 operator-(D2 a) {
  a.v = -a.v;
  for (auto& e : a.g) e = -e;
  for (auto& e : a.h) e = -e;
  return a;
}
inline D2 operator-(const D2& a, const D2& b) { return a + -b; }
inline D2 operator*(const D2& a, const D2& b) {
  D2 r{a.v * b.v};
  for (int i = 0; i < 2; ++i) r.g[i] = a.g[i] * b.v + a.v * b.g[i];
  constexpr int I[3] = {0, 0, 1}, J[3] = {0, 1, 1};
  for (int k = 0; k < 3; ++k)
    r.h[k] = a.h[k] * b.v + a.v * b.h[k] + a.g[I[k]] * b.g[J[k]] + a.g[J[k]] * b.g[I[k]];
  return r;
}
inline D2 chain(const D2& a, double f, double f1, double f2) {
  D2 r{f};
  for (int i = 0; i < 2; ++i) r.g[i] = f1 * a.g[i];
  constexpr int I[3] = {0, 0, 1}, J[3] = {0, 1, 1};
  for (int k = 0; k < 3; ++k) r.h[k] = f1 * a.h[k] + f2 * a.g[I[k]] * a.g[J[k]];
  return r;
}
inline D2 sin(const D2& a) { return chain(a, std::sin(a.v), std::cos(a.v), -std::sin(a.v)); }
inline D2 exp(const D2& a) { return chain(a, std::exp(a.v), std::exp(a.v), std::exp(a.v)); }
inline D2 log(const D2& a) { return chain(a, std::log(a.v), 1 / a.v, -1 / (a.v * a.v)); }
inline D2 sqrt(const D2& a) {
  double s = std::sqrt(a.v);
  return chain(a, s, 0.5 / s, -0.25 / (s * a.v));
}

#ifndef PROBLANG_SCALAR
#define PROBLANG_SCALAR double
#endif

/// The scalar the library works in
using Scalar = PROBLANG_SCALAR;
using Var = slp::Variable<Scalar>;
using Vec2 = Eigen::Vector2d;

struct Fn {
  std::string name;
  int degree;  // 0, 1, 2, or 3: nonlinear
  std::function<Var(const Var&, const Var&)> ad;
  std::function<D2(const D2&, const D2&)> d2;
  D2 at(const Vec2& p) const { return d2(D2::var(p[0], 0), D2::var(p[1], 1)); }
};

#define PL_FN(NAME, DEG, EXPR)                                                        \
  ::problang::Fn {                                                                    \
    NAME, DEG,                                                                        \
        [](const auto& x, const auto& y) -> ::problang::Var {                         \
          (void)x, (void)y;                                                           \
          return EXPR;                                                                \
        },                                                                            \
        [](const auto& x, const auto& y) -> ::problang::D2 {                          \
          (void)x, (void)y;                                                           \
          return EXPR;                                                                \
        }                                                                             \
  }

inline const std::vector<Fn>& costs() {
  static const std::vector<Fn> fns{
      PL_FN("(x-1)^2+(y+2)^2", 2, (x - 1.0) * (x - 1.0) + (y + 2.0) * (y + 2.0)),
      PL_FN("x", 1, x),
      PL_FN("x*y", 2, x * y),
      PL_FN("-x^2", 2, -(x * x)),
      PL_FN("x^4-x^2+y^2", 3, x * x * x * x - x * x + y * y),
      PL_FN("exp(x)+y^2", 3, exp(x) + y * y),
      PL_FN("rosenbrock", 3,
            (1.0 - x) * (1.0 - x) + 100.0 * ((y - x * x) * (y - x * x))),
      PL_FN("sin(x)+y^2", 3, sin(x) + y * y),
      PL_FN("1e4(x-1)^2+y^2", 2, 1e4 * ((x - 1.0) * (x - 1.0)) + y * y),
      PL_FN("x^2-y^2", 2, x * x - y * y),
      PL_FN("x+y", 1, x + y),
      PL_FN("3", 0, 3.0),
      PL_FN("x-log(x)+y^2", 3, x - log(x) + y * y),
      PL_FN("sqrt(x)+y^2", 3, sqrt(x) + y * y),
  };
  return fns;
}

/// Rows c(x, y) = 0
inline const std::vector<Fn>& equalities() {
  static const std::vector<Fn> fns{
      PL_FN("x+y=1", 1, x + y - 1.0),
      PL_FN("x=y", 1, x - y),
      PL_FN("x^2+y^2=1", 2, x * x + y * y - 1.0),
      PL_FN("x*y=1", 2, x * y - 1.0),
      PL_FN("x=2", 1, x - 2.0),
      PL_FN("x^2=-1", 2, x * x + 1.0),
      PL_FN("x+y=3", 1, x + y - 3.0),
      PL_FN("2x+2y=2", 1, 2.0 * x + 2.0 * y - 2.0),
      PL_FN("0=0", 0, 0.0),
      PL_FN("0=1", 0, 1.0),
      PL_FN("1000x=1000", 1, 1000.0 * x - 1000.0),
      PL_FN("y=exp(x)", 3, y - exp(x)),
      PL_FN("1000x^2+1000y^2=1000", 2, 1000.0 * (x * x) + 1000.0 * (y * y) - 1000.0),
      PL_FN("log(x)=y", 3, log(x) - y),
  };
  return fns;
}

/// Rows c(x, y) >= 0
inline const std::vector<Fn>& inequalities() {
  static const std::vector<Fn> fns{
      PL_FN("x>=0", 1, x),
      PL_FN("y>=0", 1, y),
      PL_FN("x<=2", 1, 2.0 - x),
      PL_FN("x+y<=1", 1, 1.0 - x - y),
      PL_FN("x^2+y^2<=4", 2, 4.0 - x * x - y * y),
      PL_FN("x^2+y^2>=1", 2, x * x + y * y - 1.0),
      PL_FN("x>=3", 1, x - 3.0),
      PL_FN("x^2<=-1", 2, -1.0 - x * x),
      PL_FN("sin(x)>=2", 3, sin(x) - 2.0),
      PL_FN("1>=0", 0, 1.0),
      PL_FN("-1>=0", 0, -1.0),
      PL_FN("x+y>=3", 1, x + y - 3.0),
      PL_FN("sqrt(x)>=1", 3, sqrt(x) - 1.0),
      PL_FN("x>=2", 1, x - 2.0),
      PL_FN("1000x^2+1000y<=4000", 2, 4000.0 - 1000.0 * (x * x) - 1000.0 * y),
      PL_FN("0.001(x+y)>=0.003", 1, 0.001 * (x + y) - 0.003),
  };
  return fns;
}

inline const std::vector<Vec2>& starts() {
  static const std::vector<Vec2> s{{0, 0}, {1, 1}, {-3, 2}, {0.5, -0.5}, {2.9, 0}};
  return s;
}

struct Spec {
  int cost = -1;  // -1: none
  std::vector<int> eq, ineq;
  Vec2 start{0, 0};
  int extra = 0;  // decision variables that occur nowhere
  bool maximize_negation = false;

  std::string text() const {
    std::string s = cost < 0 ? "no cost" : "min " + costs()[cost].name;
    for (int e : eq) s += "; " + equalities()[e].name;
    for (int i : ineq) s += "; " + inequalities()[i].name;
    s += std::format("; from ({}, {})", start[0], start[1]);
    if (extra) s += std::format("; {} unused", extra);
    return s;
  }
};

/// A problem built from a specification.
struct Built {
  slp::Problem<Scalar> problem;
  Var x, y;
  std::vector<Var> unused;

  explicit Built(const Spec& spec) {
    x = problem.decision_variable();
    y = problem.decision_variable();
    for (int i = 0; i < spec.extra; ++i) unused.push_back(problem.decision_variable());
    start(spec.start);
    if (spec.cost >= 0) {
      auto f = costs()[spec.cost].ad(x, y);
      if (spec.maximize_negation) {
        problem.maximize(-f);
      } else {
        problem.minimize(f);
      }
    }
    for (int e : spec.eq) problem.subject_to(equalities()[e].ad(x, y) == Scalar(0.0));
    for (int i : spec.ineq) problem.subject_to(inequalities()[i].ad(x, y) >= Scalar(0.0));
  }
  void start(const Vec2& p) {
    x.set_value(Scalar(p[0]));
    y.set_value(Scalar(p[1]));
  }
  Vec2 point() { return {static_cast<double>(x.value()), static_cast<double>(y.value())}; }
};

/// What holds at a point, from the independent evaluation.
struct Facts {
  bool finite = true;    // cost, constraints and first derivatives
  double violation = 0;  // largest absolute violation of a row
  double ineq_violation = 0;
  double largest_inequality = 0;  // largest absolute value of an inequality row
  double stationarity = 0;  // smallest achievable KKT residual, 2-norm
  double dual_sum = 0;      // of the absolute multipliers that achieve it
  bool second_finite = true;  // second derivatives
  bool regular = true;  // gradients of equalities and near-active inequalities
                        // are well independent
};

inline Facts facts(const Spec& spec, const Vec2& p) {
  Facts r;
  auto finite = [](const D2& d) {
    return std::isfinite(d.v) && std::isfinite(d.g[0]) && std::isfinite(d.g[1]);
  };
  D2 f = spec.cost < 0 ? D2{0.0} : costs()[spec.cost].at(p);
  r.finite = p.allFinite() && finite(f);
  std::vector<D2> ce, ci;
  for (int e : spec.eq) {
    ce.push_back(equalities()[e].at(p));
    r.finite &= finite(ce.back());
    r.violation = std::max(r.violation, std::abs(ce.back().v));
  }
  for (int i : spec.ineq) {
    ci.push_back(inequalities()[i].at(p));
    r.finite &= finite(ci.back());
    r.ineq_violation = std::max(r.ineq_violation, -ci.back().v);
    r.largest_inequality = std::max(r.largest_inequality, std::abs(ci.back().v));
  }
  r.violation = std::max(r.violation, r.ineq_violation);
  auto second = [](const D2& d) {
    return std::isfinite(d.h[0]) && std::isfinite(d.h[1]) && std::isfinite(d.h[2]);
  };
  r.second_finite = second(f);
  for (auto& c : ce) r.second_finite &= second(c);
  for (auto& c : ci) r.second_finite &= second(c);
  if (!r.finite) return r;
  // Smallest ‖(∇f − Aₑᵀy − Aᵢᵀz, c⁺∘z)‖ over y and z ≥ 0: some support of z
  // attains it
  int m = ci.size(), me = ce.size();
  r.stationarity = INFINITY;
  for (int mask = 0; mask < (1 << m); ++mask) {
    int k = __builtin_popcount(mask);
    Eigen::MatrixXd A = Eigen::MatrixXd::Zero(2 + m, me + k);
    Eigen::VectorXd b = Eigen::VectorXd::Zero(2 + m);
    b.head<2>() << f.g[0], f.g[1];
    for (int j = 0; j < me; ++j) A.col(j).head<2>() << ce[j].g[0], ce[j].g[1];
    for (int i = 0, j = me; i < m; ++i) {
      if (mask >> i & 1) {
        A.col(j).head<2>() << ci[i].g[0], ci[i].g[1];
        A(2 + i, j) = std::max(ci[i].v, 0.0);
        ++j;
      }
    }
    Eigen::VectorXd d =
        me + k == 0 ? Eigen::VectorXd{0} : Eigen::VectorXd{A.completeOrthogonalDecomposition().solve(b)};
    if (k && d.tail(k).minCoeff() < 0) continue;
    double res = me + k == 0 ? b.norm() : (A * d - b).norm();
    if (res < r.stationarity) {
      r.stationarity = res;
      r.dual_sum = d.size() ? d.lpNorm<1>() : 0.0;
    }
  }
  std::vector<Vec2> active;
  for (auto& c : ce) active.emplace_back(c.g[0], c.g[1]);
  for (auto& c : ci)
    if (c.v < 0.05) active.emplace_back(c.g[0], c.g[1]);
  if (active.size() > 2) {
    r.regular = false;
  } else if (active.size() == 1) {
    r.regular = active[0].norm() > 1e-2;
  } else if (active.size() == 2) {
    double det = active[0][0] * active[1][1] - active[0][1] * active[1][0];
    double n = active[0].norm() * active[1].norm();
    r.regular = active[0].norm() > 1e-2 && active[1].norm() > 1e-2 && std::abs(det) > 1e-2 * n;
  }
  return r;
}

/// Whether linear rows (given as g·p + c, equality or >= 0) have a common
/// solution: exact for the small integers of the menu. Margin > 0 asks for all
/// inequalities to hold with that margin.
inline std::optional<Vec2> linear_point(const Spec& spec, double margin = 0) {
  struct R {
    Vec2 a;
    double c;
    bool eq;
  };
  std::vector<R> rows;
  for (int e : spec.eq) {
    auto& fn = equalities()[e];
    if (fn.degree > 1) return {};
    D2 d = fn.at({0, 0});
    rows.push_back({{d.g[0], d.g[1]}, d.v, true});
  }
  for (int i : spec.ineq) {
    auto& fn = inequalities()[i];
    if (fn.degree > 1) return {};
    D2 d = fn.at({0, 0});
    rows.push_back({{d.g[0], d.g[1]}, d.v - margin, false});
  }
  auto ok = [&](const Vec2& p) {
    for (auto& r : rows) {
      double v = r.a.dot(p) + r.c;
      if (r.eq ? std::abs(v) > 1e-9 : v < -1e-9) return false;
    }
    return true;
  };
  // A nonempty polyhedron has a point nearest the origin, which lies on the
  // intersection of at most two of its rows
  std::vector<Vec2> candidates{{0, 0}};
  for (size_t i = 0; i < rows.size(); ++i) {
    double n = rows[i].a.squaredNorm();
    if (n == 0) continue;
    candidates.push_back(-rows[i].c / n * rows[i].a);
    for (size_t j = i + 1; j < rows.size(); ++j) {
      double det = rows[i].a[0] * rows[j].a[1] - rows[i].a[1] * rows[j].a[0];
      if (std::abs(det) < 1e-9) continue;
      candidates.push_back(Vec2{(-rows[i].c * rows[j].a[1] + rows[j].c * rows[i].a[1]) / det,
                                (-rows[j].c * rows[i].a[0] + rows[i].c * rows[j].a[0]) / det});
    }
  }
  for (auto& p : candidates)
    if (ok(p)) return p;
  return {};
}

/// Whether the bounds on single variables among the rows conflict, so that the
/// problem is globally infeasible.
inline bool bounds_conflict(const Spec& spec) {
  for (int v = 0; v < 2; ++v) {
    double lo = -INFINITY, hi = INFINITY;
    for (int i : spec.ineq) {
      auto& fn = inequalities()[i];
      if (fn.degree != 1) continue;
      D2 d = fn.at({0, 0});
      if (d.g[v] == 0 || d.g[1 - v] != 0) continue;
      double b = -d.v / d.g[v];
      if (d.g[v] > 0) lo = std::max(lo, b);
      else hi = std::min(hi, b);
    }
    if (lo > hi) return true;
  }
  return false;
}

/// Calls visit for every multiset of at most `total` rows (non-decreasing
/// indices) split over equalities and inequalities.
inline void row_sets(int total, const std::function<void(const std::vector<int>&, const std::vector<int>&)>& visit) {
  std::vector<int> eq, ineq;
  std::function<void(int, bool)> rec = [&](int left, bool in_ineq) {
    visit(eq, ineq);
    if (left == 0) return;
    if (!in_ineq)
      for (int e = eq.empty() ? 0 : eq.back(); e < (int)equalities().size(); ++e) {
        eq.push_back(e);
        rec(left - 1, false);
        eq.pop_back();
      }
    for (int i = ineq.empty() ? 0 : ineq.back(); i < (int)inequalities().size(); ++i) {
      ineq.push_back(i);
      rec(left - 1, true);
      ineq.pop_back();
    }
  };
  rec(total, false);
}

inline int cost_index(std::string_view name) {
  for (size_t i = 0; i < costs().size(); ++i)
    if (costs()[i].name == name) return i;
  throw std::runtime_error{"no cost " + std::string{name}};
}
inline int row_index(const std::vector<Fn>& fns, std::string_view name) {
  for (size_t i = 0; i < fns.size(); ++i)
    if (fns[i].name == name) return i;
  throw std::runtime_error{"no row " + std::string{name}};
}
inline Spec make(std::string_view cost, std::vector<std::string_view> eq, std::vector<std::string_view> in, Vec2 start) {
  Spec s;
  s.cost = cost.empty() ? -1 : cost_index(cost);
  for (auto e : eq) s.eq.push_back(row_index(equalities(), e));
  for (auto i : in) s.ineq.push_back(row_index(inequalities(), i));
  s.start = start;
  return s;
}

/// Problems for following whole solves, and whether each is strictly convex with linear rows.
inline std::vector<std::pair<Spec, bool>> menu() {
  const auto Q = "(x-1)^2+(y+2)^2";
  return {
      {make(Q, {}, {}, {0, 0}), true},
      {make("1e4(x-1)^2+y^2", {}, {}, {-3, 2}), true},
      {make("rosenbrock", {}, {}, {-3, 2}), false},
      {make("x^4-x^2+y^2", {}, {}, {1, 1}), false},
      {make("exp(x)+y^2", {}, {}, {0, 0}), false},
      {make("sin(x)+y^2", {}, {}, {1, 1}), false},
      {make("x-log(x)+y^2", {}, {}, {1, 1}), false},
      {make("x*y", {}, {}, {1, 1}), false},
      {make(Q, {"x+y=1"}, {}, {0, 0}), true},
      {make(Q, {"x=y"}, {}, {-3, 2}), true},
      {make(Q, {"x^2+y^2=1"}, {}, {0.5, -0.5}), false},
      {make(Q, {"x^2+y^2=1"}, {}, {-3, 2}), false},
      {make("rosenbrock", {"x*y=1"}, {}, {-3, 2}), false},
      {make("x", {"x^2+y^2=1"}, {}, {1, 1}), false},
      {make("x", {"x^2+y^2=1"}, {}, {0, 0}), false},
      {make("rosenbrock", {"x^2+y^2=1", "2x+2y=2"}, {}, {0, 0}), false},
      {make("x+y", {"y=exp(x)"}, {}, {1, 1}), false},
      {make("", {"x*y=1", "x=2"}, {}, {0, 0}), false},
      {make("x*y", {"x^2=-1"}, {}, {1, 1}), false},
      {make("sin(x)+y^2", {"x*y=1", "x+y=1"}, {}, {0.5, -0.5}), false},
      {make("x-log(x)+y^2", {"log(x)=y"}, {}, {1, 1}), false},
      {make(Q, {}, {"x>=0"}, {0, 0}), true},
      {make(Q, {}, {"x+y>=3"}, {-3, 2}), true},
      {make(Q, {}, {"x>=0", "x+y<=1"}, {1, 1}), true},
      {make(Q, {"x=y"}, {"x>=3"}, {0, 0}), true},
      {make(Q, {}, {"x^2+y^2<=4"}, {-3, 2}), false},
      {make(Q, {}, {"x^2+y^2>=1"}, {0.5, -0.5}), false},
      {make("x", {}, {"x^2+y^2<=4"}, {-3, 2}), false},
      {make("rosenbrock", {}, {"x^2+y^2<=4", "x+y>=3"}, {0, 0}), false},
      {make("rosenbrock", {"x*y=1"}, {"x>=0"}, {-3, 2}), false},
      {make("x", {"x^2+y^2=1"}, {"y>=0"}, {0.5, -0.5}), false},
      {make("x*y", {}, {"x^2<=-1"}, {1, 1}), false},
      {make("sqrt(x)+y^2", {}, {"x>=0"}, {1, 1}), false},
      {make("x+y", {"y=exp(x)"}, {"x<=2"}, {1, 1}), false},
      {make("sin(x)+y^2", {"x*y=1"}, {"y>=0"}, {0.5, -0.5}), false},
      {make("x+y", {}, {"sin(x)>=2"}, {1, 1}), false},
  };
}

}  // namespace problang
