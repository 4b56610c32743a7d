// P19: a successful regularized factorization has the right inertia and solves the regularized system.
//@technique exhaustive enumeration of all small KKT matrices over an integer alphabet and of all sequences of factorizations up to a depth on one object, each outcome certified by an independent eigenvalue decomposition and residual
//@level model_checking
//@note All KKT matrices with up to 2 variables (thorough 3) and 2 constraints over 5 Hessian and 3 to 4 Jacobian values,
//@note full and lower-triangle input, sparse patterns and dense; all sequences up to length 3 (thorough 4) over a menu of
//@note definite, indefinite, singular, zero and non-finite matrices, sparse and dense, for 3 minimum regularizations.
//@flags -O2
#include <cmath>
#include <limits>
#include <string>
#include <vector>

#include <Eigen/Eigenvalues>
#include <sleipnir/optimization/solver/util/inertia.hpp>
#include <sleipnir/optimization/solver/util/regularized_ldlt.hpp>

#include "mc.hpp"

using Sp = Eigen::SparseMatrix<double>;
using Dense = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using LDense = Eigen::Matrix<long double, -1, -1>;
using Solver = slp::RegularizedLDLT<double>;

namespace {

struct Kkt {
  int n, m;
  Dense lhs;  // full symmetric
  std::string name;
};

Sp sparse(const Dense& d, bool lower, bool all_stored) {
  std::vector<Eigen::Triplet<double>> t;
  for (int j = 0; j < d.cols(); ++j)
    for (int i = lower ? j : 0; i < d.rows(); ++i)
      if (all_stored || d(i, j) != 0) t.emplace_back(i, j, d(i, j));
  Sp s(d.rows(), d.cols());
  s.setFromTriplets(t.begin(), t.end());
  return s;
}

std::string text(const Dense& d) {
  std::string s = "[";
  for (int i = 0; i < d.rows(); ++i) {
    for (int j = 0; j <= i; ++j) s += std::format("{} ", d(i, j));
    s += "; ";
  }
  return s + "]";
}

// What must hold after compute()
void judge(mc::Run& run, const Kkt& k, Solver& s, double prev_delta, bool must_succeed, bool fresh) {
  int N = k.n + k.m;
  bool finite = k.lhs.allFinite();
  if (s.info() != Eigen::Success) {
    if (finite && must_succeed) run.fail("the factorization failed");
    return;
  }
  if (!finite) {
    run.fail("the factorization of a non-finite matrix succeeded");
    return;
  }
  double d = s.hessian_regularization(), g = s.constraint_jacobian_regularization();
  if (!(d >= 0 && g >= 0 && std::isfinite(d) && std::isfinite(g))) {
    run.fail(std::format("regularization {} and {}", d, g));
    return;
  }
  double norm = k.lhs.norm();
  double bound = std::max({2.0, 1000 * norm, prev_delta});
  if (fresh && d > bound) run.fail(std::format("Hessian regularization {} of a matrix of norm {}", d, norm));
  LDense M = k.lhs.cast<long double>();
  for (int i = 0; i < N; ++i) M(i, i) += i < k.n ? (long double)d : -(long double)g;
  Eigen::SelfAdjointEigenSolver<LDense> es{M, Eigen::EigenvaluesOnly};
  int pos = 0, neg = 0, unsure = 0;
  long double mnorm = M.norm();
  // The factorization may pivot on gamma, which is what its backward error is relative to
  long double thr = 4e-16L * N * mnorm + (g > 0 ? 4e-15L * mnorm * mnorm / g : 0);
  for (int i = 0; i < N; ++i) {
    long double l = es.eigenvalues()(i);
    if (std::abs(l) <= thr) {
      ++unsure;
    } else {
      ++(l > 0 ? pos : neg);
    }
  }
  if (pos > k.n || neg > k.m || (!unsure && (pos != k.n || neg != k.m))) {
    run.fail(std::format("the regularized matrix has {} positive and {} negative eigenvalues instead of {} and {} (delta={}, gamma={})", pos, neg, k.n, k.m, d, g));
    return;
  }
  if (unsure) {
    if (mnorm < 1e3L && d == 0 && g == 0) run.fail("a singular matrix was not regularized");
    return;
  }
  // A positive definite matrix needs no regularization
  if (k.m == 0 || (d == 0 && g == 0)) {
    LDense L = k.lhs.cast<long double>();
    Eigen::SelfAdjointEigenSolver<LDense> e0{L, Eigen::EigenvaluesOnly};
    if (k.m == 0 && k.n > 0 && e0.eigenvalues()(0) >= 2e-4L) run.check(d == 0 && g == 0, "a positive definite matrix was regularized");
  }
  // Without constraint regularization a pivot may cancel to rounding level (the factorization has no 2x2 pivots)
  if (k.m > 0 && (g == 0 || N > 4) && d > 0) return;
  // Solving
  for (int r = 0; r < 2; ++r) {
    Vec b(N);
    for (int i = 0; i < N; ++i) b(i) = r == 0 ? i + 1 : (i % 2 ? -0.5 : 3);
    for (bool sp : {false, true}) {
      Vec x;
      if (sp) {
        Eigen::SparseVector<double> bs = b.sparseView();
        x = s.solve(bs);
      } else {
        x = s.solve(b);
      }
      if (!run.check(x.size() == N && x.allFinite(), "the solution isn't finite")) return;
      Eigen::Vector<long double, -1> res = M * x.cast<long double>() - b.cast<long double>();
      long double err = res.norm() / (mnorm * x.cast<long double>().norm() + b.norm());
      if (err > 1e-5L) {
        run.fail(std::format("the solution doesn't solve the regularized system: relative residual {} (delta={}, gamma={})", (double)err, d, g));
        return;
      }
    }
  }
  run.state();
}

void single(mc::Run& run, const Kkt& k) {
  if (!run.take()) return;
  for (int gm = 0; gm < 3; ++gm) {
    for (int mode = 0; mode < 6; ++mode) {
      bool use_sparse = mode < 4, lower = mode & 1, stored = mode & 2;
      if (!run.begin_case(std::format("n={} m={} {} gmin{} {}{}{}", k.n, k.m, text(k.lhs), gm, use_sparse ? "sparse" : "dense", lower ? " lower" : "", stored ? " all-stored" : ""))) continue;
      Solver s = gm == 0 ? Solver{use_sparse, k.n, k.m} : Solver{use_sparse, k.n, k.m, gm == 1 ? 0.0 : 1e-8};
      s.compute(sparse(k.lhs, lower, stored));
      judge(run, k, s, 0, true, true);
    }
  }
}

void enumerate(mc::Run& run, int n, int m, const std::vector<double>& hv, const std::vector<double>& av, const std::function<void(const Kkt&)>& f) {
  int nh = n * (n + 1) / 2, na = n * m;
  std::vector<size_t> idx(nh + na);
  while (true) {
    Kkt k{n, m, Dense::Zero(n + m, n + m), ""};
    int q = 0;
    for (int i = 0; i < n; ++i)
      for (int j = 0; j <= i; ++j, ++q) k.lhs(i, j) = k.lhs(j, i) = hv[idx[q]];
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < n; ++j, ++q) k.lhs(n + i, j) = k.lhs(j, n + i) = av[idx[q]];
    f(k);
    size_t p = 0;
    for (; p < idx.size(); ++p) {
      if (++idx[p] < (p < size_t(nh) ? hv.size() : av.size())) break;
      idx[p] = 0;
    }
    if (p == idx.size()) return;
  }
}

Kkt make(int n, int m, std::vector<double> lower, const char* name) {
  Kkt k{n, m, Dense::Zero(n + m, n + m), name};
  int q = 0;
  for (int i = 0; i < n + m; ++i)
    for (int j = 0; j <= i; ++j, ++q) k.lhs(i, j) = k.lhs(j, i) = lower[q];
  return k;
}

void sequences(mc::Run& run, const std::vector<Kkt>& menu, int depth) {
  for (int len = 1; len <= depth; ++len) {
    std::vector<size_t> idx(len);
    while (true) {
      if (run.take()) {
        for (int mode = 0; mode < 2; ++mode)
          for (int gm = 0; gm < 3; ++gm) {
            std::string key = std::format("{} gmin{}:", mode ? "sparse" : "dense", gm);
            for (size_t i : idx) key += " " + menu[i].name;
            if (!run.begin_case(key)) continue;
            int n = menu[0].n, m = menu[0].m;
            Solver s = gm == 0 ? Solver{mode == 1, n, m} : Solver{mode == 1, n, m, gm == 1 ? 0.0 : 1e-8};
            double prev = 0;
            bool ok = true;
            for (size_t i : idx) {
              s.compute(sparse(menu[i].lhs, true, true));
              judge(run, menu[i], s, prev, ok, false);
              ok &= s.info() == Eigen::Success;  // what a failure leaves behind is only required to be truthful
              prev = s.hessian_regularization();
              run.transition();
            }
            run.trace();
          }
      }
      int p = 0;
      for (; p < len; ++p) {
        if (++idx[p] < menu.size()) break;
        idx[p] = 0;
      }
      if (p == len) break;
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv,
                  {"P19", "model_checking", "success implies the ideal inertia of lhs + diag(delta, -gamma) and a small residual", {"solutions are not judged where constraint regularization is off (or with 5 unknowns) and the Hessian was regularized: a pivot may then cancel to rounding level", "successive sparse matrices have the same pattern (documented requirement)", "eigenvalues within the factorization's rounding of zero are not judged"}, 60},
                  [](mc::Run& run) {
                    std::vector<double> H{-2, -1, 0, 1, 3}, H3{-2, 0, 1}, A{0, 1, -2}, A2{0, 1, -1};
                    auto one = [&](const Kkt& k) { single(run, k); };
                    std::vector<double> W{-1e6, -1e-3, -1e-5, 0, 1e-5, 1e-3, 0.5, 1e6};
                    enumerate(run, 1, 0, W, A, one);
                    enumerate(run, 1, 1, W, W, one);
                    enumerate(run, 2, 0, W, A, one);
                    enumerate(run, 2, 1, H, {0, 1, -2, 1e-3, 100}, one);
                    enumerate(run, 2, 2, H, A, one);
                    enumerate(run, 3, 0, H, A, one);
                    enumerate(run, 3, 1, run.thorough ? H : H3, run.thorough ? A : std::vector<double>{0, 1}, one);
                    if (run.thorough) enumerate(run, 3, 2, H3, A2, one);
                    double nan = std::nan(""), inf = std::numeric_limits<double>::infinity();
                    std::vector<Kkt> m21{make(2, 1, {2, 0, 3, 1, 1, 0}, "definite"),        make(2, 1, {-1, 0, 2, 1, 0, 0}, "indefinite"), make(2, 1, {-1, 2, -3, 1, 1, 0}, "negative"),
                                         make(2, 1, {0, 0, 0, 0, 0, 0}, "zero"),            make(2, 1, {0, 0, 0, 1, 0, 0}, "flat"),       make(2, 1, {1, 1, 1, 0, 0, 0}, "deficient"),
                                         make(2, 1, {-1e5, 0, 1, 1, 2, 0}, "very-negative"), make(2, 1, {nan, 0, 1, 1, 0, 0}, "nan"),      make(2, 1, {1, 0, 1, inf, 0, 0}, "inf"),
                                         make(2, 1, {1e-5, 0, 1, 0, 1, 0}, "tiny"),         make(2, 1, {0, 1, 0, 1, 1, 0}, "saddle")};
                    sequences(run, m21, run.thorough ? 5 : 4);
                    std::vector<Kkt> m20{make(2, 0, {2, 0, 3}, "definite"), make(2, 0, {-1, 0, 2}, "indefinite"), make(2, 0, {0, 0, 0}, "zero"), make(2, 0, {-300, 1, -2}, "negative"), make(2, 0, {0, 5, 0}, "saddle"), make(2, 0, {nan, 0, 1}, "nan"), make(2, 0, {1, 1, 1}, "singular")};
                    sequences(run, m20, run.thorough ? 5 : 4);
                    std::vector<Kkt> m22{make(2, 2, {1, 0, 1, 1, 0, 0, 1, 0, 0, 0}, "dependent"), make(2, 2, {-1, 0, -1, 1, 1, 0, 0, 1, 0, 0}, "determined"), make(2, 2, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, "zero"), make(2, 2, {-5, 1, 2, 1, 1, 0, 2, 2, 0, 0}, "both")};
                    sequences(run, m22, run.thorough ? 6 : 4);
                    // Inertia counts signs
                    std::vector<double> dv{-1e10, -1, -1e-10, -1e-17, 0.0, -0.0, 1e-17, 1e-10, 2, 1e30};
                    for (int n = 0; n <= 3; ++n) {
                      int tot = 1;
                      for (int i = 0; i < n; ++i) tot *= dv.size();
                      for (int c = 0; c < tot; ++c) {
                        if (!run.take() || !run.begin_case(std::format("inertia n={} c={}", n, c))) continue;
                        Vec D(n);
                        int p = 0, q = 0, z = 0;
                        for (int i = 0, r = c; i < n; ++i, r /= dv.size()) {
                          D(i) = dv[r % dv.size()];
                          ++(std::abs(D(i)) < 1e-16 ? z : D(i) > 0 ? p : q);
                        }
                        slp::Inertia in{D}, want{p, q, z};
                        Dense full = D.asDiagonal();
                        run.check(in.positive == p && in.negative == q && in.zero == z, "wrong inertia");
                        run.check(in == want && !(in == slp::Inertia{p + 1, q, z}) && !(in == slp::Inertia{p, q + 1, z}) && !(in == slp::Inertia{p, q, z + 1}), "wrong comparison");
                        run.check(std::format("{}", in) == std::format("({}, {}, {})", p, q, z), "wrong text");
                        run.state();
                      }
                    }
                  });
}
