// P37: every iteration is a step of the documented algorithm.
//@technique exhaustive enumeration of every problem with up to N rows over a menu of costs, rows and starts; each trace of the real solvers is checked, iteration by iteration, for inclusion in the traces of an independent model of the documented methods, which is nondeterministic where rounding decides
//@level model_checking
//@note All problems with at most 2 (thorough: 3) of 30 rows, 15 costs, 5 starts, plain, scaled and (with inequalities) with feasible_ipm, 60 iterations each.
//@note Conformance: the model's state is replayed against every iterate the real solver hands to a callback; after feasibility restoration a trace is no longer judged (P26).
//@src **/*.cpp
//@flags -O1 -DNDEBUG
#include <set>

#include <Eigen/LU>

#include "rawlang.hpp"

#include "mc.hpp"

using namespace rawlang;

namespace {

using slp::ExitStatus;
using M = Eigen::MatrixXd;

constexpr double EPS = 2.220446049250313e-16;
constexpr double INF = std::numeric_limits<double>::infinity();

/// Resolves comparisons that rounding decides, both ways, one after the other.
struct Oracle {
  std::vector<std::pair<bool, bool>> bits;  // answer, whether it's the second one
  size_t at = 0;
  bool wild = false;  // rounding decides something that has no bounded effect
  bool pick(bool answer, bool unclear) {
    if (!unclear) return answer;
    if (at == bits.size()) bits.emplace_back(answer, false);
    return bits[at++].first;
  }
  bool next() {
    while (!bits.empty() && bits.back().second) bits.pop_back();
    at = 0;
    if (bits.empty()) return false;
    bits.back() = {!bits.back().first, true};
    return true;
  }
};

/// A value and how far rounding may move it
struct Fuzzy {
  double v = 0, e = 0;
};
Fuzzy operator+(Fuzzy a, Fuzzy b) { return {a.v + b.v, a.e + b.e}; }
Fuzzy operator*(double k, Fuzzy a) { return {k * a.v, std::abs(k) * a.e}; }
bool le(Oracle& o, Fuzzy a, Fuzzy b) {
  double gap = a.e + b.e + 1e-15 * std::max(std::abs(a.v), std::abs(b.v));
  return o.pick(a.v <= b.v, gap > 0 && std::abs(a.v - b.v) <= gap);
}

struct Entry {
  Fuzzy cost, violation;
};

/// The filter of section 2.3 of Waechter and Biegler
struct FilterModel {
  double least, most;
  std::vector<Entry> entries;
  bool filter_rejected = false;

  explicit FilterModel(double v = 0) : least{1e-4 * std::max(1.0, v)}, most{1e4 * std::max(1.0, v)} {}

  bool accept(Oracle& o, const Entry& cur, const Entry& trial, Fuzzy slope, double alpha) {
    if (!(trial.cost.e < INF)) o.wild = true;
    if (!std::isfinite(trial.cost.v) || !std::isfinite(trial.violation.v)) return false;
    if (!le(o, trial.violation, {most, 0})) return false;
    bool descent = o.pick(slope.v < 0, std::abs(slope.v) <= slope.e);
    bool switching = false;
    if (descent) {
      double lhs = alpha * std::pow(std::abs(slope.v), 2.3), rhs = std::pow(cur.violation.v, 1.1);
      double relative = slope.v != 0 ? std::abs(slope.e / slope.v) : 1;
      switching = o.pick(lhs > rhs, rhs != 0 && std::abs(lhs - rhs) <= (1e-9 + 3 * relative) * std::max(lhs, rhs));
    }
    auto armijo = [&] { return le(o, trial.cost, Fuzzy{cur.cost.v + 10 * EPS * std::abs(cur.cost.v), cur.cost.e} + (1e-8 * alpha) * slope); };
    double phi = std::pow(alpha, 1.5);
    Entry corner{{cur.cost.v - phi * 1e-8 * cur.violation.v, cur.cost.e}, (1 - phi * 1e-5) * cur.violation};
    bool armijo_holds = false, armijo_known = false;
    if (switching && le(o, cur.violation, {least, 0})) {
      armijo_holds = armijo(), armijo_known = true;
      if (!armijo_holds) return filter_rejected = false;
    } else if (!le(o, trial.cost, corner.cost) && !le(o, trial.violation, corner.violation)) {
      return filter_rejected = false;
    }
    for (auto& e : entries)
      if (le(o, e.cost, trial.cost) && le(o, e.violation, trial.violation)) {
        filter_rejected = true;
        return false;
      }
    if (!switching || !(armijo_known ? armijo_holds : armijo())) {
      std::erase_if(entries, [&](const Entry& e) { return corner.cost.v <= e.cost.v && corner.violation.v <= e.violation.v; });
      entries.push_back(corner);
    }
    return true;
  }
};

struct State {
  double mu = 0, tau = 0.99;
  FilterModel filter;
  int rejections = 0;
  std::string text() const {
    std::string s = std::format("{} {} {} {} {}", mu, tau, rejections, filter.most, filter.filter_rejected);
    for (auto& e : filter.entries) s += std::format("|{} {}", e.cost.v, e.violation.v);
    return s;
  }
};

struct Iterate {
  Dense x, s, y, z;
};

struct Frame {
  int iteration;
  Iterate at;
};

enum class Kind { Advance, Restore, Fail };

struct Prediction {
  Kind kind;
  Iterate to, error;  // error: what rounding may do to each group
  State state;
};

struct Stats {
  long judged = 0, soc = 0, halved = 0, kkt = 0, reset = 0, restore = 0, clamped = 0, mu = 0, cut = 0, regularized = 0, abandoned = 0, kept = 0, branched = 0;
} g_stats;

/// The documented methods (docs/algorithms.md and the papers it cites) for one problem
struct Model {
  const Raw& raw;
  const int ne, ni;
  bool feasible;
  slp::DenseRegularizedLDLT<double> factorization;

  Model(const Raw& r, bool feasible) : raw{r}, ne{r.ne()}, ni{r.ni()}, feasible{feasible}, factorization{2, r.ne(), 1e-10} {}

  double violation(const Dense& x, const Dense& s) const {
    double v = raw.values(x, true).lpNorm<1>();
    if (ni) v += (raw.values(x, false) - s).lpNorm<1>();
    return v;
  }

  /// Cost and violation, and how far the errors of the point move them
  Entry entry(const Dense& x, const Dense& s, double ex, const Dense& es, double mu) const {
    Entry r;
    double f = raw.cost(x).v, v = violation(x, s);
    r.cost.v = f, r.violation.v = v;
    for (int k = 0; k < 2; ++k)
      for (double sign : {-1.0, 1.0}) {
        Dense near = x;
        near[k] += sign * (ex + 4 * EPS * std::abs(x[k]));
        double nf = raw.cost(near).v, nv = violation(near, s);
        if (std::isfinite(nf)) r.cost.e = std::max(r.cost.e, 4 * std::abs(nf - f));
        if (std::isfinite(nv)) r.violation.e = std::max(r.violation.e, 4 * std::abs(nv - v));
      }
    r.cost.e += 4 * EPS * std::abs(f);
    r.violation.e += 4 * EPS * (v + (ni ? s.lpNorm<1>() : 0.0));
    for (int i = 0; i < ni; ++i)
      if (s[i] < -2 * es[i]) return {{INF, 0}, r.violation};  // surely outside
    for (int i = 0; i < ni; ++i) {
      r.cost.v -= mu * std::log(s[i]);
      r.cost.e += mu * (es[i] < 0.5 * s[i] ? 2 * es[i] / s[i] : INF) + mu * (8 * EPS * (1 + std::abs(std::log(s[i]))));
      r.violation.e += es[i];
    }
    return r;
  }

  Dense stationarity(const Dense& x, const Dense& y, const Dense& z) const {
    Dense r = raw.gradient(x);
    if (ne) r -= raw.jacobian(x, true).transpose() * y;
    if (ni) r -= raw.jacobian(x, false).transpose() * z;
    return r;
  }

  /// One-norm of the perturbed optimality conditions
  Fuzzy total_error(const Iterate& p, double mu, double ex = 0) const {
    auto at = [&](const Dense& x) {
      double e = stationarity(x, p.y, p.z).lpNorm<1>() + violation(x, p.s);
      for (int i = 0; i < ni; ++i) e += std::abs(p.s[i] * p.z[i] - mu);
      return e;
    };
    Fuzzy r{at(p.x), 0};
    double size = Dense{raw.gradient(p.x)}.lpNorm<1>() + p.y.lpNorm<1>() + p.z.lpNorm<1>();
    for (int k = 0; k < 2; ++k)
      for (double sign : {-1.0, 1.0}) {
        Dense near = p.x;
        near[k] += sign * (ex + 4 * EPS * std::abs(near[k]));
        r.e = std::max(r.e, 4 * std::abs(at(near) - r.v));
      }
    r.e += 1e-9 * r.v + 16 * EPS * size;
    return r;
  }

  /// Scaled maximum norm of the perturbed optimality conditions
  Fuzzy barrier_error(const Iterate& p, double mu) const {
    double duals = p.y.lpNorm<1>() + p.z.lpNorm<1>();
    double s_d = std::max(100.0, duals / (ne + ni)) / 100, s_c = std::max(100.0, p.z.lpNorm<1>() / ni) / 100;
    double e = stationarity(p.x, p.y, p.z).lpNorm<Eigen::Infinity>() / s_d;
    for (int i = 0; i < ni; ++i) e = std::max(e, std::abs(p.s[i] * p.z[i] - mu) / s_c);
    if (ne) e = std::max(e, raw.values(p.x, true).lpNorm<Eigen::Infinity>());
    e = std::max(e, (raw.values(p.x, false) - p.s).lpNorm<Eigen::Infinity>());
    return {e, 1e-10 * e + 64 * EPS * (1 + Dense{raw.gradient(p.x)}.lpNorm<1>() + duals + p.s.lpNorm<1>())};
  }

  /// Newton's step on the optimality conditions, and its error
  struct Direction {
    Dense x, s, y, z;
    double ex = 0, ey = 0;
    double ampx = 0, ampy = 0;  // what an error of the constraint values does to x and y
    Dense es, ez;
  };

  // The full system, not the reduced one the solvers use:
  //
  //   [H + dI    0    Ae'  Ai'] [ px]     [g - Ae'y - Ai'z]
  //   [  0    S^-1 Z   0   -I ] [ ps]     [   z - mu/s    ]
  //   [  Ae      0   -cI   0  ] [-py] = - [      ce       ]
  //   [  Ai     -I     0   0  ] [-pz]     [    ci - s     ]
  Direction direction(const Iterate& p, double mu, const Dense& ce, const Dense& cis) const {
    const int n = 2 + ni + ne + ni;
    const double d = factorization.hessian_regularization(), c = factorization.constraint_jacobian_regularization();
    M K = M::Zero(n, n);
    M H = M(raw.hessian(p.x, p.y, p.z, true)).selfadjointView<Eigen::Lower>();
    M Ae = raw.jacobian(p.x, true), Ai = raw.jacobian(p.x, false);
    K.topLeftCorner(2, 2) = H + d * M::Identity(2, 2);
    Dense r(n);
    r.head(2) = stationarity(p.x, p.y, p.z);
    for (int i = 0; i < ni; ++i) {
      K(2 + i, 2 + i) = p.z[i] / p.s[i];
      K(2 + i, 2 + ni + ne + i) = K(2 + ni + ne + i, 2 + i) = -1;
      r[2 + i] = p.z[i] - mu / p.s[i];
      r[2 + ni + ne + i] = cis[i];
    }
    for (int k = 0; k < ne; ++k) {
      K.block(2 + ni + k, 0, 1, 2) = Ae.row(k);
      K.block(0, 2 + ni + k, 2, 1) = Ae.row(k).transpose();
      K(2 + ni + k, 2 + ni + k) = -c;
      r[2 + ni + k] = ce[k];
    }
    for (int i = 0; i < ni; ++i) {
      K.block(2 + ni + ne + i, 0, 1, 2) = Ai.row(i);
      K.block(0, 2 + ni + ne + i, 2, 1) = Ai.row(i).transpose();
    }
    Eigen::FullPivLU<Eigen::MatrixX<long double>> lu;
    lu.setThreshold(0);
    lu.compute(K.cast<long double>());
    Dense v = lu.solve(-r.cast<long double>()).cast<double>();
    Direction q;
    q.x = v.head(2), q.s = v.segment(2, ni), q.y = -v.segment(2 + ni, ne), q.z = -v.tail(ni);
    M inverse = lu.inverse().cast<double>();
    q.ampx = inverse.block(0, 2 + ni, 2, ne + ni).lpNorm<Eigen::Infinity>() * (ne + ni);
    if (ne) q.ampy = inverse.block(2 + ni, 2 + ni, ne, ne + ni).lpNorm<Eigen::Infinity>() * (ne + ni);
    // How far another way of solving it goes
    Dense rhs(2 + ne);
    Dense w = (cis.array() * p.z.array() / p.s.array() - mu / p.s.array()).matrix();
    rhs.head(2) = -Dense{raw.gradient(p.x)};
    if (ne) rhs.head(2) += Ae.transpose() * p.y, rhs.tail(ne) = -ce;
    if (ni) rhs.head(2) -= Ai.transpose() * w;
    Dense u = factorization.solve(rhs);
    q.ex = 100 * (u.head(2) - q.x).lpNorm<Eigen::Infinity>() + 1e-11 * q.x.lpNorm<Eigen::Infinity>();
    q.ey = ne ? 100 * (u.tail(ne) + q.y).lpNorm<Eigen::Infinity>() + 1e-11 * q.y.lpNorm<Eigen::Infinity>() : 0;
    // What the rounding of the gradient of the Lagrangian does
    double ge = 16 * EPS * (Dense{raw.gradient(p.x)}.lpNorm<1>() + (Ae.transpose().cwiseAbs() * p.y.cwiseAbs()).lpNorm<1>() + (Ai.transpose().cwiseAbs() * (p.z + w.cwiseAbs()).cwiseAbs()).lpNorm<1>());
    q.ex += inverse.topLeftCorner(2, 2).lpNorm<Eigen::Infinity>() * ge;
    if (ne) q.ey += inverse.block(2 + ni, 0, ne, 2).lpNorm<Eigen::Infinity>() * ge;
    q.es = q.ez = Dense::Zero(ni);
    // Slacks and their multipliers from their own rows, which is exact even where the whole system is badly scaled
    for (int i = 0; i < ni; ++i) {
      double ps = cis[i] + Ai.row(i).dot(q.x), pz = mu / p.s[i] - p.z[i] - p.z[i] / p.s[i] * ps;
      q.es[i] = q.ex * Ai.row(i).lpNorm<1>() + 1e-11 * (std::abs(ps) + std::abs(cis[i])) + 8 * EPS * p.s[i];
      q.ez[i] = p.z[i] / p.s[i] * q.es[i] + 1e-11 * (std::abs(pz) + p.z[i] + mu / p.s[i]);
      q.s[i] = ps, q.z[i] = pz;
    }
    return q;
  }

  static double boundary(const Dense& v, const Dense& p, double tau) {
    double a = 1;
    for (int i = 0; i < v.size(); ++i)
      if (p[i] < 0) a = std::min(a, tau * v[i] / -p[i]);
    return a;
  }
  /// Relative error of the step size to the boundary
  static double boundary_error(const Dense& v, const Dense& p, const Dense& e, double tau) {
    double r = 0, a = boundary(v, p, tau);
    for (int i = 0; i < v.size(); ++i)
      if (p[i] < 0 && tau * v[i] / -p[i] <= a * 1.0001) r = std::max(r, e[i] / -p[i]);
    return a < 1 ? r + 4 * EPS : r;
  }

  /// Prepares for the steps from a point; false if the factorization fails.
  bool factorize(const Iterate& p) {
    M K = M::Zero(2 + ne, 2 + ne);
    K.topLeftCorner(2, 2) = M(raw.hessian(p.x, p.y, p.z, true)).selfadjointView<Eigen::Lower>();
    M Ae = raw.jacobian(p.x, true), Ai = raw.jacobian(p.x, false);
    if (ni) K.topLeftCorner(2, 2) += Ai.transpose() * p.z.cwiseQuotient(p.s).asDiagonal() * Ai;
    if (ne) K.bottomLeftCorner(ne, 2) = Ae;
    Sparse lower = M(K.triangularView<Eigen::Lower>()).sparseView();
    bool ok = factorization.compute(lower).info() == Eigen::Success;
    if (factorization.hessian_regularization() > 0) ++g_stats.regularized;
    return ok;
  }

  /// Where the method goes from a point
  Prediction step(Oracle& o, const Iterate& p, State st) {
    const double alpha_min = ne + ni ? 1e-7 : 1e-20;
    const Dense ce = raw.values(p.x, true), ci = raw.values(p.x, false);
    const Dense cis = ni ? Dense{ci - p.s} : ci;
    Direction d = direction(p, st.mu, ce, cis);
    double full = boundary(p.s, d.s, st.tau), full_e = boundary_error(p.s, d.s, d.es, st.tau);
    double dual = boundary(p.z, d.z, st.tau), dual_e = boundary_error(p.z, d.z, d.ez, st.tau);
    if (full < 1) ++g_stats.cut;
    bool restore = ni && !le(o, {alpha_min, 0}, {full, full * full_e});
    bool keep = feasible && ni && (ci.array() > 0).all();
    if (keep) ++g_stats.kept;
    Entry cur = entry(p.x, p.s, 0, Dense::Zero(ni), st.mu);
    cur.cost.e = cur.violation.e = 0;
    for (int i = 0; i < ni; ++i) cur.cost.e += 8 * EPS * st.mu * (1 + std::abs(std::log(p.s[i])));
    cur.cost.e += 4 * EPS * std::abs(cur.cost.v), cur.violation.e += 8 * EPS * cur.violation.v;
    Dense g = raw.gradient(p.x);
    Fuzzy slope{g.dot(d.x), g.lpNorm<1>() * d.ex + 8 * EPS * g.cwiseProduct(d.x).lpNorm<1>()};
    for (int i = 0; i < ni; ++i) {
      slope.v -= st.mu * d.s[i] / p.s[i];
      slope.e += st.mu * (d.es[i] + 8 * EPS * std::abs(d.s[i])) / p.s[i];
    }
    Prediction r{Kind::Advance, {}, {}, st};
    FilterModel& filter = r.state.filter;
    auto go = [&](const Direction& q, double a, double ae, double az, double aze) {
      double ay = ni ? az : a, aye = ni ? aze : ae;
      r.to.x = p.x + a * q.x, r.error.x = Dense::Constant(2, a * (q.ex + ae * q.x.lpNorm<Eigen::Infinity>()) + 4 * EPS * p.x.lpNorm<Eigen::Infinity>());
      r.to.y = p.y + ay * q.y, r.error.y = Dense::Constant(ne, ne ? ay * (q.ey + aye * q.y.lpNorm<Eigen::Infinity>()) + 4 * EPS * p.y.lpNorm<Eigen::Infinity>() : 0);
      r.to.z = p.z + az * q.z, r.error.z = az * (q.ez + aze * q.z.cwiseAbs()) + 4 * EPS * p.z;
      r.to.s = p.s + a * q.s, r.error.s = a * (q.es + ae * q.s.cwiseAbs()) + 4 * EPS * p.s;
      if (keep) {
        r.to.s = raw.values(r.to.x, false);
        M Ai = raw.jacobian(r.to.x, false);
        for (int i = 0; i < ni; ++i) r.error.s[i] = 2 * r.error.x[0] * Ai.row(i).lpNorm<1>() + 8 * EPS * (1 + std::abs(r.to.s[i]));
      }
    };
    auto measured = [&] { return entry(r.to.x, r.to.s, r.error.x[0], r.error.s, st.mu); };
    auto finite = [&] {
      auto at = [&](const Dense& x) { return std::isfinite(raw.cost(x).v) && raw.values(x, true).allFinite() && raw.values(x, false).allFinite(); };
      bool answer = at(r.to.x), unclear = false;
      for (int k = 0; k < 2; ++k)
        for (double sign : {-1.0, 1.0}) {
          Dense near = r.to.x;
          near[k] += sign * (r.error.x[k] + 4 * EPS * std::abs(near[k]));
          unclear |= at(near) != answer;
        }
      o.wild |= unclear;
      return answer;
    };
    double a = full;
    bool is_full = true, accepted_full = false;
    while (true) {
      go(d, a, full_e, dual, dual_e);
      if (!finite()) {
        a /= 2, is_full = false;
        if (!le(o, {alpha_min, 0}, {a, a * full_e})) {
          if (!(ne + ni)) return r.kind = Kind::Fail, r;
          restore = true;
          break;
        }
        continue;
      }
      Entry trial = measured();
      if (filter.accept(o, cur, trial, slope, a)) {
        accepted_full = is_full;
        break;
      }
      if (ne + ni && is_full && !le(o, {trial.violation.v, trial.violation.e}, {std::nextafter(cur.violation.v, -1), cur.violation.e})) {
        // Second-order corrections
        Dense ce_soc = ce, cis_soc = cis;
        Fuzzy last = trial.violation;
        double a_soc = a, a_soc_e = full_e;
        bool found = false;
        double soc_e = 0;
        for (int k = 0; k < 5; ++k) {
          // The errors of the corrected constraint values
          soc_e = a_soc * soc_e + a_soc_e * (ce_soc.lpNorm<1>() + cis_soc.lpNorm<1>()) + trial.violation.e + 8 * EPS * (ce_soc.lpNorm<1>() + cis_soc.lpNorm<1>() + r.to.s.lpNorm<1>());
          ce_soc = a_soc * ce_soc + raw.values(r.to.x, true);
          if (ni) cis_soc = a_soc * cis_soc + raw.values(r.to.x, false) - r.to.s;
          Direction q = direction(p, st.mu, ce_soc, cis_soc);
          q.ex += q.ampx * soc_e, q.ey += q.ampy * soc_e;
          for (int i = 0; i < ni; ++i) q.es[i] += soc_e + q.ampx * soc_e * M(raw.jacobian(p.x, false)).row(i).lpNorm<1>();
          for (int i = 0; i < ni; ++i) q.ez[i] += p.z[i] / p.s[i] * q.es[i];
          a_soc = boundary(p.s, q.s, st.tau), a_soc_e = boundary_error(p.s, q.s, q.es, st.tau);
          double az = boundary(p.z, q.z, st.tau), aze = boundary_error(p.z, q.z, q.ez, st.tau);
          go(q, a_soc, a_soc_e, az, aze);
          trial = measured();
          if (filter.accept(o, cur, trial, slope, a)) {
            found = true;
            break;
          }
          if (!le(o, trial.violation, 0.99 * last)) break;
          last = trial.violation;
        }
        if (found) {
          accepted_full = true;
          ++g_stats.soc;
          break;
        }
      }
      if (ne + ni) {
        if (is_full) ++r.state.rejections;
        if (r.state.rejections >= 4 && !le(o, {filter.most, 0}, 0.1 * cur.violation) && filter.filter_rejected) {
          filter.most *= 0.1;
          filter.entries.clear();
          filter.filter_rejected = false;
          ++g_stats.reset;
          continue;
        }
      }
      a /= 2, is_full = false;
      ++g_stats.halved;
      if (!le(o, {alpha_min, 0}, {a, a * full_e})) {
        Fuzzy now = total_error(p, st.mu);
        go(d, full, full_e, dual, dual_e);
        Fuzzy then = total_error(r.to, st.mu, r.error.x[0]);
        for (int i = 0; i < ni; ++i) then.e += r.error.s[i] * (1 + r.to.z[i]) + r.error.z[i] * (1 + r.to.s[i]);
        then.e += 10 * r.error.y.sum();
        bool inside = !keep || (r.to.s.array() > 0).all();
        if (inside && std::isfinite(then.v) && le(o, then, 0.999 * now)) {
          accepted_full = true;
          ++g_stats.kkt;
          break;
        }
        if (!(ne + ni)) return r.kind = Kind::Fail, r;
        restore = true;
        break;
      }
    }
    if (restore) {
      r.kind = Kind::Restore;
      return r;
    }
    if (accepted_full) r.state.rejections = 0;
    for (int i = 0; i < ni; ++i) {
      double low = 1e-10 * st.mu / r.to.s[i], high = 1e10 * st.mu / r.to.s[i];
      double z = std::clamp(r.to.z[i], low, high);
      if (z != r.to.z[i]) ++g_stats.clamped, r.error.z[i] += z * (r.error.s[i] / r.to.s[i] + 8 * EPS);
      r.to.z[i] = z;
    }
    return r;
  }

  /// What follows a step that doesn't end the solve, at the point the solver reached
  void settle(Oracle& o, const Iterate& p, State& st) const {
    if (!ni) return;
    const double mu_min = raw.df * 1e-8 / 10;
    while (st.mu > mu_min && le(o, barrier_error(p, st.mu), {10 * st.mu, 1e-12 * st.mu})) {
      st.mu = std::max(mu_min, std::min(0.2 * st.mu, std::pow(st.mu, 1.5)));
      st.tau = std::max(0.99, 1 - st.mu);
      st.filter.entries.clear();
      st.filter.filter_rejected = false;
      ++g_stats.mu;
    }
  }
};

std::string compare(const char* what, const Dense& got, const Dense& want, const Dense& error) {
  for (int i = 0; i < want.size(); ++i)
    if (!(std::abs(got[i] - want[i]) <= 1e-8 * (1e-3 + std::abs(want[i])) + 100 * error[i])) return std::format("{}{} is {:.12g} instead of {:.12g} (within {:.1g})", what, i, got[i], want[i], error[i]);
  return "";
}

std::string mismatch(const Iterate& got, const Prediction& p) {
  std::string e = compare("x", got.x, p.to.x, p.error.x);
  if (e.empty()) e = compare("s", got.s, p.to.s, p.error.s);
  if (e.empty()) e = compare("y", got.y, p.to.y, p.error.y);
  if (e.empty()) e = compare("z", got.z, p.to.z, p.error.z);
  return e;
}

void run_case(mc::Run& run, const Raw& raw, bool feasible, const std::string& key) {
  const int ne = raw.ne(), ni = raw.ni();
  std::vector<Frame> frames;
  std::vector<std::function<bool(const Info&)>> callbacks;
  callbacks.push_back([&](const Info& i) {
    frames.push_back({i.iteration, {i.x, i.s, i.y, i.z}});
    return false;
  });
  slp::Options options;
  options.max_iterations = 60;
  options.feasible_ipm = feasible;
  Iterate end{Dense{{raw.spec.start[0], raw.spec.start[1]}}, Dense::Ones(ni), Dense::Zero(ne), Dense::Ones(ni)};
  auto given = [](const std::vector<double>& d, int n) { return d.empty() ? Dense{Dense::Ones(n)} : Dense{Eigen::Map<const Dense>{d.data(), static_cast<Eigen::Index>(d.size())}}; };
  slp::ProblemScaling<double> scaling{raw.df, given(raw.de, ne), given(raw.di, ni)};
  const double mu0 = 0.1 * raw.df;
  double mu = mu0;
  ExitStatus status;
  bool duals = true;
  if (ni) {
    auto m = raw.ipm();
    m.scaling = scaling;
    int iterations = 0;
    status = slp::interior_point<double>(m, callbacks, options, false, end.x, end.s, end.y, end.z, mu, iterations);
  } else if (ne) {
    auto m = raw.sqp();
    m.scaling = scaling;
    status = slp::sqp<double>(m, callbacks, options, end.x, end.y);
  } else {
    auto m = raw.newton();
    m.scaling = slp::ProblemScaling<double>{raw.df, {}, {}};
    status = slp::newton<double>(m, callbacks, options, end.x);
    duals = false;
  }
  run.state(), run.distinct(), run.trace();
  if (frames.empty()) return;
  if (!duals)
    for (auto& f : frames) f.at.s = f.at.y = f.at.z = Dense(0);
  if (!ni)
    for (auto& f : frames) f.at.s = f.at.z = Dense(0);
  Model model{raw, feasible};
  State first;
  first.mu = ni ? mu0 : 0;
  first.filter = FilterModel{model.violation(frames[0].at.x, frames[0].at.s)};
  std::vector<State> states{first};
  for (size_t k = 0; k < frames.size(); ++k) {
    const Iterate& p = frames[k].at;
    const bool last = k + 1 == frames.size();
    const bool enlarged = !last && frames[k + 1].at.x.size() > 2;
    run.transition();
    // Where the iterates diverge, rounding decides everything
    if (p.x.lpNorm<Eigen::Infinity>() > 1e6 || p.y.lpNorm<1>() > 1e8 || p.z.lpNorm<1>() > 1e8 || (ni && p.s.minCoeff() < 1e-12)) {
      ++g_stats.abandoned;
      return;
    }
    bool ok = model.factorize(p);
    if (!ok) {
      if (!last || status != ExitStatus::FACTORIZATION_FAILED) run.fail(key, std::format("iteration {}: the system can't be factorized, but the solve went on", k));
      return;
    }
    // What the solver did
    Kind did = Kind::Advance;
    if (enlarged) {
      did = Kind::Restore;
    } else if (last) {
      switch (status) {
        case ExitStatus::SUCCESS:
        case ExitStatus::MAX_ITERATIONS_EXCEEDED:
        case ExitStatus::LOCALLY_INFEASIBLE:
        case ExitStatus::DIVERGING_ITERATES: break;
        case ExitStatus::LINE_SEARCH_FAILED: did = Kind::Fail; break;
        case ExitStatus::FEASIBILITY_RESTORATION_FAILED: did = Kind::Restore; break;
        default: return;  // others' business
      }
    }
    const Iterate& to = last ? end : frames[k + 1].at;
    std::vector<State> next;
    std::set<std::string> seen;
    std::string why;
    bool matched = false, restoration_possible = false;
    int paths = 0;
    for (auto& st : states) {
      Oracle o;
      do {
        if (++paths > 400 || o.bits.size() > 60) {
          ++g_stats.abandoned;
          return;
        }
        o.at = 0;
        Prediction r = model.step(o, p, st);
        if (o.wild) {
          ++g_stats.abandoned;
          return;
        }
        if (r.kind == Kind::Restore) restoration_possible = true;
        if (r.kind != did) {
          if (why.empty()) why = r.kind == Kind::Advance ? std::format("the step to ({}, {}) was not taken", r.to.x[0], r.to.x[1]) : r.kind == Kind::Restore ? "feasibility restoration was not entered" : "the line search did not fail";
          continue;
        }
        if (did == Kind::Advance) {
          auto e = mismatch(to, r);
          if (!e.empty()) {
            why = e;
            continue;
          }
        }
        matched = true;
        if (did != Kind::Advance || last) continue;
        model.settle(o, to, r.state);
        if (seen.insert(r.state.text()).second) next.push_back(r.state);
      } while (o.next());
    }
    if (paths > 1) ++g_stats.branched;
    ++g_stats.judged;
    // Restoration can end before its first callback
    if (!matched && last && did == Kind::Advance && restoration_possible) return;
    if (!matched && !last && did == Kind::Advance && restoration_possible) return;
    if (!matched && std::getenv("P37_DEBUG")) {
      auto pr = [](const char* n, const Dense& v) { fprintf(stderr, " %s", n); for (double d : v) fprintf(stderr, " %.10g", d); };
      fprintf(stderr, "%s k=%zu mu=%g most=%g rej=%d entries=%zu why=%s", key.c_str(), k, states[0].mu, states[0].filter.most, states[0].rejections, states[0].filter.entries.size(), why.c_str());
      pr("x", p.x), pr("s", p.s), pr("y", p.y), pr("z", p.z), pr("\n -> x", to.x), pr("s", to.s), pr("y", to.y), pr("z", to.z);
      auto d = model.direction(p, states[0].mu, raw.values(p.x, true), ni ? Dense{raw.values(p.x, false) - p.s} : Dense(0));
      pr("\n dir", d.x), pr("s", d.s), pr("y", d.y), pr("z", d.z);
      fprintf(stderr, " a %g az %g delta %g gamma %g\n", Model::boundary(p.s, d.s, states[0].tau), Model::boundary(p.z, d.z, states[0].tau), model.factorization.hessian_regularization(), model.factorization.constraint_jacobian_regularization());
    }
    if (!matched) {
      run.fail(key, std::format("iteration {}{}: {}", k, last ? " (last)" : "", why));
      return;
    }
    if (did == Kind::Restore) ++g_stats.restore;
    if (did != Kind::Advance || last) return;
    if (next.size() > 16) {
      ++g_stats.abandoned;
      return;
    }
    states = std::move(next);
  }
}

void one(mc::Run& run, const Spec& spec) {
  if (!run.take()) return;
  run.beat();
  for (int scaled = 0; scaled < 2; ++scaled)
    for (bool feasible : {false, true}) {
      if (feasible && spec.ineq.empty()) continue;
      std::string key = spec.text() + (scaled ? " scaled" : "") + (feasible ? " feasible" : "");
      if (!run.begin_case(key)) continue;
      run.eval();
      Raw raw{spec};
      if (scaled) {
        raw.df = 0.25;
        for (int k = 0; k < raw.ne(); ++k) raw.de.push_back(k % 2 ? 4.0 : 0.125);
        for (int k = 0; k < raw.ni(); ++k) raw.di.push_back(k % 2 ? 0.5 : 8.0);
      }
      run_case(run, raw, feasible, key);
    }
}

void explore(mc::Run& run) {
  for (auto& [spec, convex] : menu()) one(run, spec);
  for (int cost = -1; cost < (int)costs().size(); ++cost)
    for (auto& start : starts())
      row_sets(run.thorough || &start == &starts()[0] ? 3 : 2, [&](auto& eq, auto& ineq) {
        if (eq.size() + ineq.size() == 3 && eq.size() > 1) return;
        one(run, Spec{cost, eq, ineq, start});
      });
}

}  // namespace

int main(int argc, char** argv) {
  int rc = mc::main(argc, argv,
                  {.property = "P37",
                   .level = "model_checking",
                   .rule = "a problem, a start, a scaling and an option; transitions are iterations of the real solver compared with the model's",
                   .assumptions = {"where rounding decides a comparison both outcomes are allowed; a trace with more than 400 such combinations in one iteration is no longer judged", "which regularization an iteration needs is taken from the factorization (P19)"},
                   .hang_seconds = 120},
                  explore);
  if (std::getenv("P37_DEBUG"))
    fprintf(stderr, "judged %ld soc %ld halved %ld kkt %ld reset %ld restore %ld clamped %ld mu %ld cut %ld regularized %ld abandoned %ld kept %ld branched %ld\n", g_stats.judged, g_stats.soc, g_stats.halved, g_stats.kkt, g_stats.reset, g_stats.restore, g_stats.clamped, g_stats.mu, g_stats.cut, g_stats.regularized, g_stats.abandoned, g_stats.kept, g_stats.branched);
  return rc;
}
