// P18: local infeasibility is declared exactly when its definition holds; multiplier estimates.
//@technique exhaustive enumeration of all small Jacobians and residuals over a value alphabet, with every permutation and every insertion of a satisfied row, compared with the dense definition; least-squares optimality of every estimate
//@level exploration
//@note All Jacobians with up to 3 rows over 9 row shapes, all residuals over 7 values, all row orders; all estimates for
//@note up to 2 equality rows (rank-deficient ones included) and 2 inequality rows.
//@flags -O2
#include <algorithm>
#include <cmath>
#include <numeric>
#include <string>
#include <vector>

#include <Eigen/LU>
#include <Eigen/QR>

#include <sleipnir/optimization/solver/util/is_locally_infeasible.hpp>
#include <sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp>

#include "mc.hpp"

using Vec = Eigen::VectorXd;
using Dense = Eigen::MatrixXd;
using Sp = Eigen::SparseMatrix<double>;
constexpr double N = 1e99;  // not stored

namespace {

using Row = std::vector<double>;

Sp sparse(const std::vector<Row>& rows, int n) {
  std::vector<Eigen::Triplet<double>> t;
  for (size_t i = 0; i < rows.size(); ++i)
    for (int j = 0; j < n; ++j)
      if (rows[i][j] != N) t.emplace_back(i, j, rows[i][j]);
  Sp s(rows.size(), n);
  s.setFromTriplets(t.begin(), t.end());
  return s;
}

std::string text(const std::vector<Row>& rows, const std::vector<double>& c) {
  std::string s;
  for (size_t i = 0; i < rows.size(); ++i) {
    s += "[";
    for (double v : rows[i]) s += v == N ? "- " : std::format("{} ", v);
    s += std::format("|{}] ", c[i]);
  }
  return s;
}

// 1, 0, or -1 if too close to a threshold to call
int expected(const std::vector<Row>& rows, const std::vector<double>& c, int n, bool ineq) {
  if (rows.empty()) return 0;
  long double norm = 0, grad = 0;
  for (size_t i = 0; i < rows.size(); ++i) {
    double v = ineq ? std::min(c[i], 0.0) : c[i];
    norm += (long double)v * v;
  }
  for (int j = 0; j < n; ++j) {
    long double s = 0;
    for (size_t i = 0; i < rows.size(); ++i) s += (rows[i][j] == N ? 0 : (long double)rows[i][j]) * (ineq ? std::min(c[i], 0.0) : c[i]);
    grad += s * s;
  }
  norm = std::sqrt(norm);
  grad = std::sqrt(grad);
  long double thr = ineq ? 1e-6L : 1e-2L;
  if (norm == 0) return 0;
  // The gradient of the violation's norm
  grad /= norm;
  if (std::abs(norm - thr) < 1e-3L * thr || std::abs(grad - 1e-6L) < 1e-9L) return -1;
  return grad < 1e-6L && norm > thr;
}

void infeasible(mc::Run& run, int n, int m, const std::vector<Row>& menu, const std::vector<double>& vals) {
  std::vector<int> ir(m), iv(m);
  while (true) {
    if (run.take()) {
      std::vector<Row> rows;
      std::vector<double> c;
      for (int i = 0; i < m; ++i) rows.push_back(menu[ir[i]]), c.push_back(vals[iv[i]]);
      for (bool ineq : {false, true}) {
        std::string key = std::format("{} {}", ineq ? "ineq" : "eq", text(rows, c));
        if (!run.begin_case(key)) continue;
        int want = expected(rows, c, n, ineq);
        if (want < 0) continue;
        auto ask = [&](const std::vector<Row>& r, const std::vector<double>& v) {
          Sp A = sparse(r, n);
          Vec cc(v.size());
          for (size_t i = 0; i < v.size(); ++i) cc(i) = v[i];
          return ineq ? slp::is_inequality_locally_infeasible<double>(A, cc) : slp::is_equality_locally_infeasible<double>(A, cc);
        };
        run.check(ask(rows, c) == (want == 1), want ? "not declared infeasible" : "declared infeasible");
        // Any order of the constraints (the enumeration contains the others; this ties them together), and satisfied rows
        std::vector<int> p(m);
        std::iota(p.begin(), p.end(), 0);
        while (std::next_permutation(p.begin(), p.end())) {
          std::vector<Row> r2;
          std::vector<double> c2;
          for (int i : p) r2.push_back(rows[i]), c2.push_back(c[i]);
          run.check(ask(r2, c2) == (want == 1), "the answer depends on the order of the constraints");
          run.transition();
        }
        for (int at = 0; at <= m; ++at) {
          for (const Row& extra : menu) {
            auto r2 = rows;
            auto c2 = c;
            r2.insert(r2.begin() + at, extra);
            c2.insert(c2.begin() + at, ineq ? 5.0 : 0.0);
            run.check(m == 0 ? !ask(r2, c2) : ask(r2, c2) == (want == 1), "the answer depends on a satisfied constraint");
            run.transition();
          }
        }
        run.state();
      }
    }
    int k = 0;
    for (; k < 2 * m; ++k) {
      auto& v = k < m ? ir[k] : iv[k - m];
      if (++v < (int)(k < m ? menu.size() : vals.size())) break;
      v = 0;
    }
    if (k == 2 * m) break;
  }
}

void estimates(mc::Run& run, int n, int me, int mi, const std::vector<Row>& menu) {
  std::vector<std::vector<double>> gs = n == 2 ? std::vector<std::vector<double>>{{0, 0}, {1, 2}, {-3, 0.5}, {0, 100}} : std::vector<std::vector<double>>{{0, 0, 0}, {1, 2, -3}, {0, -50, 0.1}};
  std::vector<double> svals{1e-3, 1, 20};
  std::vector<int> idx(me + mi), si(mi);
  while (true) {
    if (run.take()) {
      std::vector<Row> re, ri;
      for (int i = 0; i < me; ++i) re.push_back(menu[idx[i]]);
      for (int i = 0; i < mi; ++i) ri.push_back(menu[idx[me + i]]);
      bool zero_row = false;
      for (auto& r : re) zero_row |= std::all_of(r.begin(), r.end(), [](double v) { return v == N || v == 0; });
      Sp Ae = sparse(re, n), Ai = sparse(ri, n);
      Dense de = Dense(Ae), di = Dense(Ai);
      Eigen::FullPivLU<Dense> lu(de);
      bool deficient = me > 0 && (int)lu.rank() < me;
      for (size_t gi = 0; gi < gs.size(); ++gi) {
        Eigen::SparseVector<double> g(n);
        Vec gd(n);
        for (int j = 0; j < n; ++j) {
          gd(j) = gs[gi][j];
          if (gd(j) != 0) g.insert(j) = gd(j);
        }
        if (mi == 0 && me > 0) {
          std::string key = std::format("estimate eq {} g{}", text(re, std::vector<double>(me)), gi);
          if (run.begin_case(key)) {
            Vec y = slp::lagrange_multiplier_estimate<double>(g, Ae);
            bool ok = y.size() == me && y.allFinite();
            Vec grad = de * (gd - de.transpose() * (ok ? y : Vec::Zero(me)));
            ok = ok && grad.norm() <= (deficient ? 1e-4 : 1e-8) * (1 + (de * gd).norm());
            run.check(ok, "the estimate doesn't minimise the stationarity residual");
            run.state();
          }
        }
        if (mi > 0) {
          for (double mu : {0.1, 1e-6}) {
            std::vector<int> sidx(mi);
            for (int q = 0; q < (mi == 1 ? 3 : 9); ++q) {
              Vec s(mi);
              for (int i = 0, r = q; i < mi; ++i, r /= 3) s(i) = svals[r % 3];
              std::string key = std::format("estimate {} / {} g{} mu={} s{}", text(re, std::vector<double>(me)), text(ri, std::vector<double>(mi)), gi, mu, q);
              if (!run.begin_case(key)) continue;
              auto [y, z] = slp::lagrange_multiplier_estimate<double>(g, Ae, Ai, s, mu);
              if (!run.check(y.size() == me && z.size() == mi && y.allFinite() && z.allFinite(), "the estimate has the wrong size or isn't finite")) continue;
              Dense Ah = Dense::Zero(me + mi, n + mi);
              if (me) Ah.topLeftCorner(me, n) = de;
              Ah.bottomLeftCorner(mi, n) = di;
              Ah.bottomRightCorner(mi, mi) = (-s).asDiagonal();
              Vec rhs(n + mi);
              rhs << gd, Vec::Constant(mi, -mu);
              Vec ref = Ah.transpose().completeOrthogonalDecomposition().solve(rhs);
              // z is unique (its columns are independent of the rest unless the equality rows are deficient too)
              Vec zc = ref.tail(mi);
              double tol = (deficient ? 1e-4 : 1e-6) * (1 + ref.norm());
              bool near = false, okz = true;
              for (int i = 0; i < mi; ++i) {
                double lo = mu / s(i) / 1e10, hi = mu / s(i) * 1e10;
                near |= std::abs(zc(i) - lo) < tol || zc(i) < lo;
                double want = std::clamp(zc(i), lo, hi);
                okz &= std::abs(z(i) - want) <= tol && z(i) >= lo * (1 - 1e-9) && z(i) <= hi * (1 + 1e-9);
              }
              run.check(okz, "z isn't the clamped least-squares multiplier");
              // y: least squares residual with the unclamped z
              Vec full(me + mi);
              full << y, zc;
              Vec grad = Ah * (rhs - Ah.transpose() * full);
              run.check(grad.norm() <= 100 * tol * (1 + Ah.norm() * Ah.norm()), "y isn't the least-squares multiplier");
              run.state();
            }
          }
        }
      }
    }
    int k = 0, tot = me + mi;
    for (; k < tot; ++k) {
      if (++idx[k] < (int)menu.size()) break;
      idx[k] = 0;
    }
    if (k == tot) break;
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv,
                  {"P18", "exploration", "infeasibility is declared iff the gradient of the violation is below 1e-6 and the violation above its threshold", {"cases within 0.1% of a threshold are not judged"}, 60},
                  [](mc::Run& run) {
                    std::vector<Row> M2{{N, N}, {0.0, N}, {1, N}, {-1, 1}, {1, 1}, {0.0, -1}, {1e-7, N}, {2, -0.5}, {1e3, 1}};
                    std::vector<double> C{0, 1, -1, -0.5, 0.005, -0.005, -5e-4, 1e-8, -1e-8};
                    std::vector<Row> M1{{N}, {0.0}, {1}, {-1}, {1e-8}, {1e-3}, {100}};
                    for (int m = 0; m <= 2; ++m) {
                      infeasible(run, 1, m, M1, C);
                      infeasible(run, 2, m, M2, C);
                    }
                    infeasible(run, 1, 3, {{N}, {1}, {-1}, {1e-8}}, run.thorough ? C : std::vector<double>{0, 1, -1, -0.005});
                    infeasible(run, 2, 3, run.thorough ? M2 : std::vector<Row>{{N, 0.0}, {1, N}, {-1, 1}, {1, 1}}, run.thorough ? std::vector<double>{0, 1, -1, -0.5, 0.005} : std::vector<double>{0, 1, -1, -0.005});
                    std::vector<Row> E2{{N, N}, {1, N}, {0.0, 1}, {1, 1}, {-2, 3}, {2, 2}, {0.1, 0.3}};
                    std::vector<Row> E3{{1, N, N}, {0.0, 1, 2}, {1, 1, 1}, {-2, 3, 0.5}, {2, 2, 2}};
                    for (int me = 0; me <= 2; ++me) {
                      for (int mi = 0; mi <= 2; ++mi) {
                        if (me + mi == 0) continue;
                        estimates(run, 2, me, mi, E2);
                        estimates(run, 3, me, mi, E3);
                      }
                    }
                    estimates(run, 3, 3, 0, E3);
                    if (run.thorough) estimates(run, 3, 3, 1, E3);
                  });
}
