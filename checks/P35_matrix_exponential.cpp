// P35: the matrix exponential of variables is the exponential of their values, at every assignment.
//@technique exhaustive enumeration of matrices x values at construction x values afterwards on the real code, against a scaled Taylor series in long double
//@level exploration
//@note 2x2: every pair of value matrices over a five-value grid (built at one, evaluated at the other), every set of
//@note constant entries; 3x3: every matrix over {-1, 0, 1}; 4x4: every zero/nonzero pattern; 5x5 to 7x7: patterns with up
//@note to two changed entries. First derivatives are compared with those of the exponential of block matrices,
//@note second derivatives along t -> exp(tA) with A^2 exp(tA).
//@flags -O1 -fsanitize=undefined -fno-sanitize-recover=undefined
//@src autodiff/*.cpp
//@src util/*.cpp
#include <numeric>

#include <Eigen/LU>

#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>

#include "mc.hpp"

using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;
using M = Eigen::MatrixXd;

namespace {

// exp(A): Taylor series of A/2^s, squared s times
M reference(const M& a) {
  using L = Eigen::Matrix<long double, -1, -1>;
  int n = a.rows();
  if (n == 0) return a;
  L A = a.cast<long double>();
  int s = 0;
  while (A.cwiseAbs().rowwise().sum().maxCoeff() > 0.03L) A /= 2, ++s;
  L r = L::Identity(n, n), t = r;
  for (int k = 1; k < 14; ++k) t = t * A / k, r += t;
  while (s--) r = (r * r).eval();
  return r.cast<double>();
}

std::string compare(const M& got, const M& want) {
  if (got.rows() != want.rows() || got.cols() != want.cols())
    return std::format("{}x{}, must be {}x{}", got.rows(), got.cols(), want.rows(), want.cols());
  double tol = got.size() ? 1e-9 * std::max(1.0, want.cwiseAbs().maxCoeff()) : 0;
  for (int i = 0; i < got.rows(); ++i)
    for (int j = 0; j < got.cols(); ++j)
      if (!(std::abs(got(i, j) - want(i, j)) <= tol))
        return std::format("element ({}, {}) is {:.17g}, must be {:.17g}", i, j, got(i, j), want(i, j));
  return "";
}

M value(VM& e) {
  M m(e.rows(), e.cols());
  for (int i = 0; i < e.rows(); ++i)
    for (int j = 0; j < e.cols(); ++j) m(i, j) = e.value(i, j);
  return m;
}

M from_code(int n, uint64_t code, const std::vector<double>& set) {
  M a(n, n);
  for (int e = 0; e < n * n; ++e, code /= set.size()) a(e / n, e % n) = set[code % set.size()];
  return a;
}

uint64_t power(uint64_t b, int e) {
  uint64_t r = 1;
  while (e--) r *= b;
  return r;
}

M generic(int n, int g) {
  M a(n, n);
  for (int e = 0; e < n * n; ++e) a(e / n, e % n) = ((e * (5 + 2 * g) + 3 * g + 1) % 11 - 5) * 0.16 * 3 / n;
  return a;
}

void small(mc::Run& run) {
  // 0x0
  if (run.take() && run.begin_case("0x0")) {
    run.state(), run.distinct(), run.transition();
    VM a(0, 0);
    VM e = a.exp();
    if (e.rows() != 0 || e.cols() != 0) run.fail("0x0", "the exponential of an empty matrix isn't empty");
  }
  // 1x1 and 2x2: built at one matrix, evaluated at all
  const std::vector<double> grid{0, -1.5, 1, -0.7, 1.5};
  for (int n = 1; n <= 2; ++n) {
    uint64_t total = power(grid.size(), n * n);
    std::vector<M> mats, refs;
    for (uint64_t j = 0; j < total; ++j) mats.push_back(from_code(n, j, grid)), refs.push_back(reference(mats.back()));
    for (uint64_t i = 0; i < total; ++i) {
      if (!run.take()) continue;
      std::string key = std::format("{0}x{0} built at #{1}", n, i);
      if (!run.begin_case(key)) continue;
      VM a(n, n);
      a.set_value(mats[i]);
      VM e = a.exp();
      for (uint64_t j = 0; j < total; ++j) {
        run.state(), run.transition();
        auto& target = mats[(i + j) % total];
        a.set_value(target);
        auto err = compare(value(e), refs[(i + j) % total]);
        if (!err.empty()) {
          run.fail(key, std::format("at #{}: {}", (i + j) % total, err));
          break;
        }
        for (int k = 0; k < n * n; ++k)
          if (a[k / n, k % n].value() != target(k / n, k % n)) run.fail(key, "the operand was changed");
      }
      run.distinct();
    }
    // Every set of constant entries
    for (uint64_t mask = 1; mask < power(2, n * n); ++mask)
      for (uint64_t i = 0; i < total; ++i) {
        if (!run.take()) continue;
        std::string key = std::format("{0}x{0} #{1} constants {2:x}", n, i, mask);
        if (!run.begin_case(key)) continue;
        run.state(), run.distinct();
        VM a(n, n);
        M v = mats[i];
        for (int k = 0; k < n * n; ++k) {
          if (mask >> k & 1) a[k / n, k % n] = v(k / n, k % n);
          else a[k / n, k % n].set_value(v(k / n, k % n));
        }
        VM e = a.exp();
        for (int round = 0; round < 2; ++round) {
          run.transition();
          auto err = compare(value(e), reference(v));
          if (!err.empty()) {
            run.fail(key, (round ? "after assigning: " : "") + err);
            break;
          }
          for (int k = 0; k < n * n; ++k)
            if (!(mask >> k & 1)) {
              v(k / n, k % n) = mats[(i * 7 + 13) % total](k / n, k % n);
              a[k / n, k % n].set_value(v(k / n, k % n));
            }
        }
      }
  }
}

void larger(mc::Run& run) {
  // 3x3 over {-1, 0, 1} and 4x4 over {0, x}; built at zero, at a generic matrix, and at a permutation
  struct Part {
    int n;
    std::vector<double> set;
    int block;
  };
  for (auto& p : {Part{3, {0, 1, -1}, 243}, Part{4, {0, 0.8}, 1024}, Part{4, {-0.5, 0.7}, 1024}}) {
    uint64_t total = power(p.set.size(), p.n * p.n);
    for (uint64_t from = 0; from < total; from += p.block)
      for (int start = 0; start < (run.thorough ? 6 : 3); ++start) {
        if (!run.take()) continue;
        std::string key = std::format("{0}x{0} set {1} from #{2} start {3}", p.n, p.set[1], from, start);
        if (!run.begin_case(key)) continue;
        int n = p.n;
        VM a(n, n);
        M s = M::Zero(n, n);
        if (start == 1) s = generic(n, 1);
        if (start == 2)
          for (int i = 0; i < n; ++i) s(i, (i + 1) % n) = 1.5;
        if (start == 3) s = -2 * M::Identity(n, n);
        if (start == 4) s = M::Ones(n, n);
        if (start == 5) s = from_code(n, from, p.set);
        a.set_value(s);
        VM e = a.exp();
        for (uint64_t j = from; j < from + p.block && j < total; ++j) {
          if (p.n == 4 && !run.thorough && j % 4 != static_cast<uint64_t>(start)) continue;
          run.state(), run.transition();
          M v = from_code(n, j, p.set);
          a.set_value(v);
          auto err = compare(value(e), reference(v));
          if (!err.empty()) {
            run.fail(key, std::format("at #{}: {}", j, err));
            break;
          }
        }
        run.distinct();
      }
  }
  // Built at each 3x3 matrix
  const std::vector<double> set{0, 1, -1};
  for (uint64_t i = 0; i < 19683; ++i) {
    if (!run.take() || (!run.thorough && i % 5)) continue;
    std::string key = std::format("3x3 built at #{}", i);
    if (!run.begin_case(key)) continue;
    run.state(), run.distinct();
    VM a(3, 3);
    M v = from_code(3, i, set);
    int constants = i % 4;
    for (int k = 0; k < 9; ++k) {
      if ((constants == 1 && v(k / 3, k % 3) == 0) || (constants == 2 && v(k / 3, k % 3) != 0) || constants == 3) a[k / 3, k % 3] = v(k / 3, k % 3);
      else a[k / 3, k % 3].set_value(v(k / 3, k % 3));
    }
    VM e = a.exp();
    for (int round = 0; round < (constants ? 1 : 3); ++round) {
      run.transition();
      if (round) a.set_value(v = round == 1 ? generic(3, i % 7) : M{M::Zero(3, 3)});
      auto err = compare(value(e), reference(v));
      if (!err.empty()) {
        run.fail(key, std::format("round {}: {}", round, err));
        break;
      }
    }
  }
  // 5x5 and larger: generic matrices with up to two entries changed
  for (int n = 5; n <= (run.thorough ? 7 : 6); ++n)
    for (int start = 0; start < 3; ++start)
      for (int g = 0; g < (run.thorough ? 4 : 2); ++g) {
        if (!run.take()) continue;
        std::string key = std::format("{0}x{0} generic {1} start {2}", n, g, start);
        if (!run.begin_case(key)) continue;
        VM a(n, n);
        a.set_value(start == 0 ? M{M::Zero(n, n)} : start == 1 ? M{0.3 * M::Identity(n, n)} : generic(n, 5));
        VM e = a.exp();
        for (int i = -1; i < n * n; ++i)
          for (int j = i; j < (i < 0 ? 0 : n * n); j += run.thorough ? 1 : 5) {
            run.state(), run.transition();
            M v = generic(n, g);
            if (i >= 0) v(i / n, i % n) = 0, v(j / n, j % n) = i == j ? 0.5 : -0.25;
            a.set_value(v);
            auto err = compare(value(e), reference(v));
            if (!err.empty()) {
              run.fail(key, std::format("changed {} {}: {}", i, j, err));
              return;
            }
          }
        run.distinct();
      }
  // Nilpotent matrices (exponentials are finite sums), companion chains of each size
  for (int n = 1; n <= 7; ++n) {
    if (!run.take()) continue;
    std::string key = std::format("pascal {}", n);
    if (!run.begin_case(key)) continue;
    run.state(), run.distinct(), run.transition();
    VM a = VM::zero(n, n);
    M v = M::Zero(n, n);
    for (int i = 1; i < n; ++i) a[i, i - 1] = V{double(i)}, v(i, i - 1) = i;
    VM e = a.exp();
    auto err = compare(value(e), reference(v));
    if (!err.empty()) run.fail(key, err);
  }
}

void views(mc::Run& run) {
  using namespace slp::slicing;
  for (int n = 1; n <= 3; ++n)
    for (int g = 0; g < 8; ++g)
      for (int k = 0; k < 7; ++k) {
        if (!run.take()) continue;
        std::string key = std::format("view {} of size {} generic {}", k, n, g);
        if (!run.begin_case(key)) continue;
        run.state(), run.distinct();
        VM big(2 * n, 2 * n);
        M v = generic(2 * n, g) * 2;
        big.set_value(v);
        M want;
        VM e;
        M part;
        const VM& cbig = big;
        switch (k) {
          case 0: e = big[_, _].exp(); break;
          case 1: e = big.block(1, 0, n, n).exp(); break;
          case 2: e = big[slp::Slice{_, _, 2}, slp::Slice{_, _, 2}].exp(); break;
          case 3: e = big[slp::Slice{_, _, -1}, _].exp(); break;
          case 4: e = VM{cbig.block(n, n, n, n)}.exp(); break;
          case 5: e = VM{big.T()}.exp(); break;
          case 6: e = big.block(0, 0, n, n).exp().exp(); break;
        }
        for (int round = 0; round < 2; ++round) {
          run.transition();
          if (round) big.set_value(v = generic(2 * n, g + 3));
          switch (k) {
            case 0: want = reference(v); break;
            case 1: want = reference(v.block(1, 0, n, n)); break;
            case 2:
              part = M(n, n);
              for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j) part(i, j) = v(2 * i, 2 * j);
              want = reference(part);
              break;
            case 3: want = reference(v.colwise().reverse()); break;
            case 4: want = reference(v.block(n, n, n, n)); break;
            case 5: want = reference(v.transpose()); break;
            case 6: {
              M inner = reference(v.block(0, 0, n, n));
              if (inner.cwiseAbs().rowwise().sum().maxCoeff() > 3.5) inner.resize(0, 0);
              want = inner.size() ? reference(inner) : inner;
            } break;
          }
          if (k == 6 && want.size() == 0) continue;
          auto err = compare(value(e), want);
          if (!err.empty()) {
            run.fail(key, std::format("round {}: {}", round, err));
            break;
          }
          for (int i = 0; i < 4 * n * n; ++i)
            if (big[i / (2 * n), i % (2 * n)].value() != v(i / (2 * n), i % (2 * n))) {
              run.fail(key, "the operand was changed");
              break;
            }
        }
      }
}

void derivatives(mc::Run& run) {
  const std::vector<double> grid{0, 1, -0.7};
  for (int n = 1; n <= 3; ++n) {
    uint64_t total = n < 3 ? power(3, n * n) : run.thorough ? 512 : 64;
    for (uint64_t i = 0; i < total; ++i)
      for (int start = 0; start < 2; ++start) {
        if (!run.take()) continue;
        std::string key = std::format("derivatives {0}x{0} #{1} start {2}", n, i, start);
        if (!run.begin_case(key)) continue;
        run.state(), run.distinct();
        M v = n < 3 ? from_code(n, i, grid) : from_code(3, i, {-0.4, 0.9});
        VM a(n, n);
        a.set_value(start ? v : M{M::Zero(n, n)});
        VM e = a.exp();
        VM flat(n * n), wrt(n * n);
        for (int k = 0; k < n * n; ++k) flat[k] = e[k / n, k % n], wrt[k] = a[k / n, k % n];
        slp::Jacobian<double> J{flat, wrt};
        a.set_value(v);
        M got = J.value();
        // d exp(A)/dA_k is the upper right block of exp([A, E_k; 0, A])
        for (int k = 0; k < n * n; ++k) {
          run.transition();
          M b = M::Zero(2 * n, 2 * n);
          b.topLeftCorner(n, n) = b.bottomRightCorner(n, n) = v;
          b(k / n, n + k % n) = 1;
          M want = reference(b).topRightCorner(n, n);
          M col(n, n);
          for (int r = 0; r < n * n; ++r) col(r / n, r % n) = got(r, k);
          auto err = compare(col, want);
          if (!err.empty()) {
            run.fail(key, std::format("derivative with respect to entry {}: {}", k, err));
            break;
          }
        }
      }
    // t -> exp(tA), with a variable or constant A
    for (uint64_t i = 0; i < total; ++i)
      for (int kind = 0; kind < 2; ++kind) {
        if (!run.take()) continue;
        if (!run.thorough && n == 3 && i % 8) continue;
        std::string key = std::format("exp(tA) {0}x{0} #{1} {2}", n, i, kind ? "constant" : "variable");
        if (!run.begin_case(key)) continue;
        run.state(), run.distinct();
        M v = n < 3 ? from_code(n, i, grid) : from_code(3, i, {-0.4, 0.9});
        V t;
        t.set_value(0.0);
        VM a(n, n);
        if (kind) a = v;
        else a.set_value(v);
        VM e = VM{a * t}.exp();
        for (double tv : {0.5, 0.0, -1.25}) {
          t.set_value(tv);
          M want = reference(tv * v), d2 = v * v * want;
          auto err = compare(value(e), want);
          if (!err.empty()) {
            run.fail(key, std::format("at t = {}: {}", tv, err));
            break;
          }
          for (int k = 0; k < n * n && (k == 0 || k == n * n - 1 || k == 1); ++k) {
            run.transition();
            VM w(1);
            w[0] = t;
            double h = slp::Hessian<double, Eigen::Lower>{e[k / n, k % n], w}.value().coeff(0, 0);
            if (!(std::abs(h - d2(k / n, k % n)) <= 1e-7 * std::max(1.0, d2.cwiseAbs().maxCoeff()))) {
              run.fail(key, std::format("second derivative of element {} at t = {} is {}, must be {}", k, tv, h, d2(k / n, k % n)));
              break;
            }
          }
        }
      }
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config cfg;
  cfg.property = "P35";
  cfg.level = "exploration";
  cfg.rule = "a case is a matrix of variables and constants with the values it has when its exponential is built; a transition is one comparison of the exponential (or of one column of its Jacobian, or one second derivative) with the reference at one assignment";
  cfg.assumptions = {"norms up to about 4, as the approximation doesn't scale its argument", "the reference is a Taylor series in long double with scaling and squaring", "for sizes of 5 and more, matrices whose exponential needs no pivoting", "Eigen 3.4.0 with a compatibility header stands in for the Eigen version the repository pins"};
  return mc::main(argc, argv, cfg, [](mc::Run& run) {
    small(run);
    larger(run);
    views(run);
    derivatives(run);
  });
}
