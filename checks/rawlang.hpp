// Matrix callbacks for the solvers, made from the independent formulas of the menu.
#pragma once

#include <functional>
#include <string>
#include <vector>

#include <sleipnir/optimization/solver/interior_point.hpp>
#include <sleipnir/optimization/solver/newton.hpp>
#include <sleipnir/optimization/solver/sqp.hpp>

#include "problang.hpp"

namespace rawlang {

using namespace problang;

using Dense = Eigen::VectorXd;
using Sparse = Eigen::SparseMatrix<double>;
using SparseV = Eigen::SparseVector<double>;
using Info = slp::IterationInfo<double>;

/// A problem in the form the solvers take it. Factors that aren't given are one and left out.
struct Raw {
  Spec spec;
  double df = 1;
  std::vector<double> de, di;
  /// Called with the sizes of the arguments of every evaluation
  std::function<void(const char*, long x, long y, long z)> seen;

  int ne() const { return spec.eq.size(); }
  int ni() const { return spec.ineq.size(); }
  double e(int k) const { return de.empty() ? 1 : de[k]; }
  double i(int k) const { return di.empty() ? 1 : di[k]; }

  void see(const char* what, long x, long y = -1, long z = -1) const {
    if (seen) seen(what, x, y, z);
  }
  D2 cost(const Dense& x) const { return spec.cost < 0 ? D2{} : D2{df} * costs()[spec.cost].at(Vec2{x[0], x[1]}); }
  std::vector<D2> rows(const Dense& x, bool equality) const {
    std::vector<D2> r;
    int n = 0;
    for (int k : equality ? spec.eq : spec.ineq) {
      r.push_back(D2{equality ? e(n) : i(n)} * (equality ? equalities() : inequalities())[k].at(Vec2{x[0], x[1]}));
      ++n;
    }
    return r;
  }
  SparseV gradient(const Dense& x) const {
    SparseV v{2};
    auto c = cost(x);
    for (int k = 0; k < 2; ++k) v.insert(k) = c.g[k];
    return v;
  }
  Sparse hessian(const Dense& x, const Dense& y, const Dense& z, bool with_cost) const {
    D2 sum = with_cost ? cost(x) : D2{};
    auto e = rows(x, true), i = rows(x, false);
    for (int k = 0; k < ne(); ++k) sum = sum - D2{y[k]} * e[k];
    for (int k = 0; k < ni(); ++k) sum = sum - D2{z[k]} * i[k];
    Sparse m{2, 2};
    m.insert(0, 0) = sum.h[0];
    m.insert(1, 0) = sum.h[1];
    m.insert(1, 1) = sum.h[2];
    m.makeCompressed();
    return m;
  }
  Dense values(const Dense& x, bool equality) const {
    auto r = rows(x, equality);
    Dense v(r.size());
    for (size_t k = 0; k < r.size(); ++k) v[k] = r[k].v;
    return v;
  }
  Sparse jacobian(const Dense& x, bool equality) const {
    auto r = rows(x, equality);
    Sparse m(r.size(), 2);
    for (size_t k = 0; k < r.size(); ++k)
      for (int i = 0; i < 2; ++i) m.insert(k, i) = r[k].g[i];
    m.makeCompressed();
    return m;
  }

  slp::NewtonMatrixCallbacks<double> newton() const {
    slp::NewtonMatrixCallbacks<double> m;
    m.num_decision_variables = 2;
    m.f = [this](const Dense& x) { return see("f", x.size()), cost(x).v; };
    m.g = [this](const Dense& x) { return see("g", x.size()), gradient(x); };
    m.H = [this](const Dense& x) { return see("H", x.size()), hessian(x, {}, {}, true); };
    return m;
  }
  slp::SQPMatrixCallbacks<double> sqp() const {
    slp::SQPMatrixCallbacks<double> m;
    m.num_decision_variables = 2;
    m.num_equality_constraints = ne();
    m.f = [this](const Dense& x) { return see("f", x.size()), cost(x).v; };
    m.g = [this](const Dense& x) { return see("g", x.size()), gradient(x); };
    m.H = [this](const Dense& x, const Dense& y) { return see("H", x.size(), y.size()), hessian(x, y, {}, true); };
    m.H_c = [this](const Dense& x, const Dense& y) { return see("H_c", x.size(), y.size()), hessian(x, y, {}, false); };
    m.c_e = [this](const Dense& x) { return see("c_e", x.size()), values(x, true); };
    m.A_e = [this](const Dense& x) { return see("A_e", x.size()), jacobian(x, true); };
    return m;
  }
  slp::InteriorPointMatrixCallbacks<double> ipm() const {
    slp::InteriorPointMatrixCallbacks<double> m;
    m.num_decision_variables = 2;
    m.num_equality_constraints = ne();
    m.num_inequality_constraints = ni();
    m.f = [this](const Dense& x) { return see("f", x.size()), cost(x).v; };
    m.g = [this](const Dense& x) { return see("g", x.size()), gradient(x); };
    m.H = [this](const Dense& x, const Dense& y, const Dense& z) { return see("H", x.size(), y.size(), z.size()), hessian(x, y, z, true); };
    m.H_c = [this](const Dense& x, const Dense& y, const Dense& z) { return see("H_c", x.size(), y.size(), z.size()), hessian(x, y, z, false); };
    m.c_e = [this](const Dense& x) { return see("c_e", x.size()), values(x, true); };
    m.A_e = [this](const Dense& x) { return see("A_e", x.size()), jacobian(x, true); };
    m.c_i = [this](const Dense& x) { return see("c_i", x.size()), values(x, false); };
    m.A_i = [this](const Dense& x) { return see("A_i", x.size()), jacobian(x, false); };
    return m;
  }
};

}  // namespace rawlang
