// P16: the fraction-to-the-boundary step is the largest admissible one.
//@technique exhaustive enumeration of all vectors, directions and fractions over value grids up to a dimension bound, run on the real code and compared with the exact definition
//@level exploration
//@note Every vector of up to 3 (thorough 4) components over grids of 8 to 14 positive values and 15 to 23 direction
//@note components (zeros of both signs, tiny and huge values) with 6 fractions, in double and float; the maximal step
//@note is computed in extended precision and compared within rounding.
//@flags -O2
#include <cmath>
#include <string>
#include <vector>

#include <sleipnir/optimization/solver/util/fraction_to_the_boundary_rule.hpp>

#include "mc.hpp"

namespace {

template <typename S>
using Vec = Eigen::Vector<S, Eigen::Dynamic>;

template <typename S>
void one(mc::Run& run, const char* name, const std::vector<double>& xs, const std::vector<double>& ps, double tau,
         const std::vector<int>& ix, const std::vector<int>& ip) {
  int n = ix.size();
  std::string key = std::format("{} tau={} x=[", name, tau);
  for (int i : ix) key += std::format("{} ", xs[i]);
  key += "] p=[";
  for (int i : ip) key += std::format("{} ", ps[i]);
  key += "]";
  if (!run.begin_case(key)) return;
  Vec<S> x(n), p(n);
  for (int i = 0; i < n; ++i) {
    x(i) = S(xs[ix[i]]);
    p(i) = S(ps[ip[i]]);
  }
  Vec<S> x0 = x, p0 = p;
  S t(tau);
  // The definition: the largest a in (0, 1] with a p_i >= -tau x_i for all i
  long double best = 1;
  for (int i = 0; i < n; ++i) {
    if (p(i) < 0) {
      best = std::min(best, (long double)t * x(i) / -(long double)p(i));
    }
  }
  if (best < (sizeof(S) == 8 ? 1e-290L : 1e-30L)) return;  // not representable with full precision
  S a = slp::fraction_to_the_boundary_rule<S>(x, p, t);
  run.check(x == x0 && p == p0, "the arguments were altered");
  long double eps = 8 * (long double)std::numeric_limits<S>::epsilon();
  if (!(a > S(0) && a <= S(1))) {
    run.fail(std::format("step {} is not in (0, 1]", (double)a));
  } else if (best == 1 ? a != S(1) && std::abs((long double)a - best) > eps : (long double)a > best * (1 + eps)) {
    run.fail(std::format("step {} leaves less than the required fraction: largest admissible {}", (double)a, (double)best));
  } else if ((long double)a < best * (1 - eps)) {
    run.fail(std::format("step {} is shorter than necessary: largest admissible {}", (double)a, (double)best));
  }
  run.state();
}

template <typename S>
void all(mc::Run& run, const char* name, const std::vector<double>& xs, const std::vector<double>& ps, int n) {
  for (double tau : {0.005, 0.25, 0.5, 0.99, 0.995, 1.0}) {
    std::vector<int> ix(n), ip(n);
    while (true) {
      if (run.take()) one<S>(run, name, xs, ps, tau, ix, ip);
      int k = 0;
      for (; k < 2 * n; ++k) {
        auto& v = k < n ? ix[k] : ip[k - n];
        if (++v < (int)(k < n ? xs : ps).size()) break;
        v = 0;
      }
      if (k == 2 * n) break;
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv, {"P16", "exploration", "the step equals min(1, min over p_i < 0 of -tau x_i / p_i)", {"components are positive and finite; steps too small to represent with full precision are not judged"}, 60},
                  [](mc::Run& run) {
                    std::vector<double> X{1e-12, 1e-3, 0.1, 0.5, 1, 2, 100, 1e10};
                    std::vector<double> P{0.0, -0.0, 1e-9, -1e-9, 0.3, -0.3, -0.5, 1, -1, -1.5, 3, -3, -1e5, 1e12, -1e12};
                    std::vector<double> XX = X, PP = P;
                    for (double v : {1e-300, 1e-100, 1e-20, 1e-6, 3.7, 1e100}) XX.push_back(v);
                    for (double v : {-1e-300, 1e-300, -1e-20, -0.999, -0.0049, -2.0, 1e100, -1e100}) PP.push_back(v);
                    all<double>(run, "double", X, P, 0);
                    all<double>(run, "double", XX, PP, 1);
                    all<double>(run, "double", XX, PP, 2);
                    std::vector<double> X3{1e-12, 0.1, 1, 2, 1e10}, P3{0.0, -1e-9, 0.3, -0.3, -1, -1.5, 3, -1e5, -1e12};
                    all<double>(run, "double", run.thorough ? X : X3, run.thorough ? P : P3, 3);
                    all<float>(run, "float", X, P, 2);
                    if (run.thorough) {
                      all<double>(run, "double", {1e-3, 0.1, 1, 2, 100}, {-0.0, -0.3, 0.3, -1, -1.5, -3, -1e5}, 4);
                      all<double>(run, "double", {1e-3, 1, 2}, {-0.3, 0.3, -1.5, -1e5}, 5);
                    } else {
                      all<double>(run, "double", {1e-3, 1, 2}, {-0.3, 0.3, -1.5, -1e5}, 4);
                    }
                  });
}
