// P17: the optimality error and problem scaling match their definitions.
//@technique exhaustive enumeration of all combinations of gradients, Jacobians, residuals, slacks and duals from menus at every dimension up to 2, for each problem class, norm and scaling, compared with the dense definition
//@level exploration
//@note Every problem class (unconstrained, equality, general), both norms, dimensions 0 to 2 of each kind of constraint,
//@note with and without problem scaling; scaling factors for every derivative menu including zero, empty and huge rows.
//@flags -O2
#include <cmath>
#include <string>
#include <vector>

#include <sleipnir/optimization/solver/util/kkt_error.hpp>
#include <sleipnir/optimization/solver/util/problem_scaling.hpp>

#include "mc.hpp"

using Vec = Eigen::VectorXd;
using Sp = Eigen::SparseMatrix<double>;
using slp::KKTErrorType;
using Scaling = slp::ProblemScaling<double>;
using ld = long double;

namespace {

struct Mat {  // 1e99: not stored
  int r, c;
  std::vector<double> v;
  double at(int i, int j) const { return v[i * c + j] == 1e99 ? 0 : v[i * c + j]; }
  Sp sparse() const {
    std::vector<Eigen::Triplet<double>> t;
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j)
        if (v[i * c + j] != 1e99) t.emplace_back(i, j, v[i * c + j]);
    Sp s(r, c);
    s.setFromTriplets(t.begin(), t.end());
    return s;
  }
};

constexpr double N = 1e99;

std::vector<std::vector<double>> vecs(int n, const std::vector<double>& a, const std::vector<std::vector<double>>& two) {
  std::vector<std::vector<double>> out;
  if (n == 0) return {{}};
  if (n == 1) {
    for (double v : a) out.push_back({v});
    return out;
  }
  return two;
}

std::vector<Mat> mats(int r, int c) {
  if (r == 0) return {{0, c, {}}};
  std::vector<std::vector<double>> rows = c == 1 ? std::vector<std::vector<double>>{{N}, {0.0}, {1}, {-2}, {300}}
                                                 : std::vector<std::vector<double>>{{N, N}, {1, 0.0}, {-2, 3}, {N, 0.5}, {250, -1000}};
  std::vector<Mat> out;
  if (r == 1) {
    for (auto& x : rows) out.push_back({1, c, x});
  } else {
    for (size_t i = 0; i < rows.size(); ++i) {
      for (size_t j : {(i + 1) % rows.size(), (i + 3) % rows.size()}) {
        auto v = rows[i];
        v.insert(v.end(), rows[j].begin(), rows[j].end());
        out.push_back({2, c, v});
      }
    }
  }
  return out;
}

Vec V(const std::vector<double>& v) {
  Vec r(v.size());
  for (size_t i = 0; i < v.size(); ++i) r(i) = v[i];
  return r;
}

struct Case {
  std::vector<double> g, ce, y, ci, s, z;
  Mat Ae, Ai;
  double mu;
  int cls;  // 0 unconstrained, 1 equality, 2 general
};

ld l1(const std::vector<double>& v) {
  ld s = 0;
  for (double x : v) s += std::abs((ld)x);
  return s;
}

// The definition: equation (5) of Wächter and Biegler, in dense extended precision
ld reference(const Case& c, bool inf) {
  std::vector<ld> st(c.g.size()), comp, ine;
  for (size_t j = 0; j < c.g.size(); ++j) {
    ld v = c.g[j];
    if (c.cls >= 1) {
      for (int i = 0; i < c.Ae.r; ++i) v -= (ld)c.Ae.at(i, j) * c.y[i];
    }
    if (c.cls >= 2) {
      for (int i = 0; i < c.Ai.r; ++i) v -= (ld)c.Ai.at(i, j) * c.z[i];
    }
    st[j] = v;
  }
  if (c.cls >= 2) {
    for (size_t i = 0; i < c.s.size(); ++i) {
      comp.push_back((ld)c.s[i] * c.z[i] - c.mu);
      ine.push_back((ld)c.ci[i] - c.s[i]);
    }
  }
  auto norm = [&](const std::vector<ld>& v) {
    ld r = 0;
    for (ld x : v) r = inf ? std::max(r, std::abs(x)) : r + std::abs(x);
    return r;
  };
  std::vector<ld> ce(c.ce.begin(), c.ce.end());
  if (c.cls == 0) return norm(st);
  ld sd = 1, sc = 1;
  size_t m = c.y.size() + (c.cls == 2 ? c.z.size() : 0);
  ld sum = l1(c.y) + (c.cls == 2 ? l1(c.z) : 0);
  if (m) sd = std::max((ld)100, sum / m) / 100;
  if (c.cls == 2 && !c.z.empty()) sc = std::max((ld)100, l1(c.z) / c.z.size()) / 100;
  if (inf) return std::max({norm(st) / sd, norm(comp) / sc, norm(ce), norm(ine)});
  return norm(st) + norm(comp) + norm(ce) + norm(ine);
}

template <KKTErrorType T>
double actual(const Case& c, const Scaling* sc) {
  Vec g = V(c.g), ce = V(c.ce), y = V(c.y), ci = V(c.ci), s = V(c.s), z = V(c.z);
  Sp Ae = c.Ae.sparse(), Ai = c.Ai.sparse();
  double mu = c.mu;
  if (sc) {
    // What a solver sees when the problem is scaled
    auto de = [&](int i) { return sc->c_e.size() ? sc->c_e(i) : 1.0; };
    auto di = [&](int i) { return sc->c_i.size() ? sc->c_i(i) : 1.0; };
    g *= sc->f;
    mu *= sc->f;
    for (int i = 0; i < ce.size(); ++i) ce(i) *= de(i), y(i) *= sc->f / de(i);
    for (int i = 0; i < ci.size(); ++i) ci(i) *= di(i), s(i) *= di(i), z(i) *= sc->f / di(i);
    for (int k = 0; k < Ae.outerSize(); ++k)
      for (Sp::InnerIterator it{Ae, k}; it; ++it) it.valueRef() *= de(it.row());
    for (int k = 0; k < Ai.outerSize(); ++k)
      for (Sp::InnerIterator it{Ai, k}; it; ++it) it.valueRef() *= di(it.row());
    if (c.cls == 0) return slp::unscaled_kkt_error<double, T>(*sc, g);
    if (c.cls == 1) return slp::unscaled_kkt_error<double, T>(*sc, g, Ae, ce, y);
    return slp::unscaled_kkt_error<double, T>(*sc, g, Ae, ce, Ai, ci, s, y, z, mu);
  }
  if (c.cls == 0) return slp::kkt_error<double, T>(g);
  if (c.cls == 1) return slp::kkt_error<double, T>(g, Ae, ce, y);
  return slp::kkt_error<double, T>(g, Ae, ce, Ai, ci, s, y, z, mu);
}

void judge(mc::Run& run, const std::string& key, const Case& c) {
  auto cmp = [&](const char* what, double got, ld want) {
    ld tol = 1e-11L * std::max((ld)1, std::abs(want));
    if (!(std::abs((ld)got - want) <= tol)) {
      run.fail(key, std::format("{}: {} instead of {}", what, got, (double)want));
    }
  };
  ld inf = reference(c, true), one = reference(c, false);
  cmp("scaled infinity norm", actual<KKTErrorType::INF_NORM_SCALED>(c, nullptr), inf);
  cmp("one norm", actual<KKTErrorType::ONE_NORM>(c, nullptr), one);
  // With problem scaling, the error of the original problem is reported
  std::vector<Scaling> scalings;
  scalings.push_back({1.0, Vec(), Vec()});
  if (c.cls == 0) {
    scalings.push_back({0.25, Vec(), Vec()});
    scalings.push_back({0.003, Vec(), Vec()});
  } else {
    for (double f : {1.0, 0.125, 0.3}) {
      Vec de(c.ce.size()), di(c.cls == 2 ? c.ci.size() : 0);
      for (int i = 0; i < de.size(); ++i) de(i) = i ? 1 : 0.25;
      for (int i = 0; i < di.size(); ++i) di(i) = i ? 0.07 : 0.5;
      scalings.push_back({f, de, di});
    }
  }
  for (auto& s : scalings) {
    cmp("unscaled infinity norm", actual<KKTErrorType::INF_NORM_SCALED>(c, &s), inf);
    cmp("unscaled one norm", actual<KKTErrorType::ONE_NORM>(c, &s), one);
  }
  run.eval(2 + 2 * scalings.size());
  run.state();
}

void scaling_factors(mc::Run& run) {
  constexpr double HUGE_ = 1e300;
  std::vector<double> vals{N, 0.0, 1e-300, 1, -99.999, 100, -100.5, 200, -1e4, HUGE_};
  auto want = [](double norm) { return norm <= 100 ? 1.0 : 100 / norm; };
  auto same = [](double a, double b) { return std::abs(a - b) <= 1e-13 * std::abs(b) && a > 0 && a <= 1; };
  int nv = vals.size();
  for (int n = 0; n <= 2; ++n) {
    int combos = n == 0 ? 1 : n == 1 ? nv : nv * nv;
    for (int a = 0; a < combos; ++a) {
      std::vector<double> row;
      for (int k = 0, q = a; k < n; ++k, q /= nv) row.push_back(vals[q % nv]);
      for (int b = 0; b < combos; ++b) {
        if (!run.take()) continue;
        std::vector<double> row2;
        for (int k = 0, q = b; k < n; ++k, q /= nv) row2.push_back(vals[q % nv]);
        std::string key = "scaling g/rows =";
        for (double v : row) key += std::format(" {}", v == N ? "-" : std::to_string(v));
        key += " |";
        for (double v : row2) key += std::format(" {}", v == N ? "-" : std::to_string(v));
        if (!run.begin_case(key)) continue;
        std::vector<double> gd = row;
        double ng = 0, n2 = 0;
        for (double& v : gd) {
          if (v == N) v = 0;
          ng = std::max(ng, std::abs(v));
        }
        for (double v : row2)
          if (v != N) n2 = std::max(n2, std::abs(v));
        Vec g = V(gd);
        // Rows: g's, the second one, an empty one
        std::vector<double> both = row;
        both.insert(both.end(), row2.begin(), row2.end());
        for (int k = 0; k < n; ++k) both.push_back(N);
        Sp A = Mat{3, n, both}.sparse(), none(0, n), two = Mat{2, n, std::vector<double>(both.begin(), both.begin() + 2 * n)}.sparse();
        Scaling s0{g}, s1{g, A}, s2{g, A, two}, s3{g, none, none};
        run.check(same(s0.f, want(ng)) && s0.c_e.size() == 0 && s0.c_i.size() == 0, "factors of an unconstrained problem");
        run.check(same(s1.f, want(ng)) && s1.c_e.size() == 3 && s1.c_i.size() == 0 && same(s1.c_e(0), want(ng)) && same(s1.c_e(1), want(n2)) && same(s1.c_e(2), 1),
                  "factors of an equality-constrained problem");
        run.check(same(s2.f, want(ng)) && s2.c_e.size() == 3 && s2.c_i.size() == 2 && same(s2.c_e(0), want(ng)) && same(s2.c_e(1), want(n2)) && same(s2.c_e(2), 1) &&
                      same(s2.c_i(0), want(ng)) && same(s2.c_i(1), want(n2)),
                  "factors of a general problem");
        run.check(same(s3.f, want(ng)) && s3.c_e.size() == 0 && s3.c_i.size() == 0, "factors with no rows");
        run.check(s0.is_identity() == (s0.f == 1) && !s2.is_identity() && Scaling{}.is_identity(), "identity");
        run.state();
      }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(
      argc, argv,
      {"P17", "exploration", "optimality error and scaling factors equal their dense definitions", {"finite arguments", "values compared within 1e-11 relative"}, 60},
      [](mc::Run& run) {
        scaling_factors(run);
        std::vector<double> G{0, -7, 1234.5, 1e-9};
        std::vector<std::vector<double>> G2{{0, 0}, {1, -3}, {-400, 0.5}, {0.0, 90}};
        std::vector<double> C{0, -0.25, 40, 1e-7};
        std::vector<std::vector<double>> C2{{0, 0}, {-0.5, 0.25}, {3, -600}, {0, 9}};
        std::vector<double> Y{0, -3, 250, -700};
        std::vector<std::vector<double>> Y2{{0, 0}, {1, -2}, {-700, 100}, {0, 199}, {-900, -900}};
        std::vector<double> S{1, 0.125, 600};
        std::vector<std::vector<double>> S2{{1, 1}, {0.25, 300}, {7, 0.5}};
        for (int cls = 0; cls <= 2; ++cls) {
          for (int n = 1; n <= 2; ++n) {
            for (int me = 0; me <= (cls ? 2 : 0); ++me) {
              for (int mi = 0; mi <= (cls == 2 ? 2 : 0); ++mi) {
                auto gs = vecs(n, G, G2), ces = vecs(me, C, C2), ys = vecs(me, Y, Y2), cis = vecs(mi, C, C2), ss = vecs(mi, S, S2), zs = vecs(mi, Y, Y2);
                auto aes = mats(me, n), ais = mats(mi, n);
                std::vector<double> mus = cls == 2 && mi ? std::vector<double>{0.0, 0.1} : std::vector<double>{0.0};
                bool big = me + mi >= 3;
                for (size_t a = 0; a < gs.size(); ++a)
                  for (size_t b = 0; b < aes.size(); b += (!run.thorough && big ? 3 : 1))
                    for (size_t c = 0; c < ces.size(); ++c)
                      for (size_t d = 0; d < ys.size(); ++d)
                        for (size_t e = 0; e < ais.size(); e += (!run.thorough && big ? 3 : 1))
                          for (size_t f = 0; f < cis.size(); ++f)
                            for (size_t h = 0; h < ss.size(); ++h)
                              for (size_t i = 0; i < zs.size(); ++i)
                                for (double mu : mus) {
                                  if (!run.take()) continue;
                                  std::string key = std::format("class={} n={} me={} mi={} g{} Ae{} ce{} y{} Ai{} ci{} s{} z{} mu={}", cls, n, me, mi, a, b, c, d, e, f, h, i, mu);
                                  if (!run.begin(key)) continue;
                                  judge(run, key, {gs[a], ces[c], ys[d], cis[f], ss[h], zs[i], aes[b], ais[e], mu, cls});
                                }
              }
            }
          }
        }
      });
}
