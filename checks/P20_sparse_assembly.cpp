// P20: sparse assembly helpers place every entry exactly where it belongs.
//@technique exhaustive enumeration of all sparsity patterns (stored zeros and non-finite values included) of all small shapes, every stacking of up to 3 matrices and every offset of a grid, compared with the dense construction
//@level exploration
//@note Every pattern of every shape up to 2x3 (thorough 3x3) over {absent, 0, 2, -3.5, inf, nan}, compressed or not, and
//@note every stack of 1 to 3 matrices from those with up to 2 columns, at 4 offsets, after existing triplets.
//@flags -O2
#include <cmath>
#include <limits>
#include <string>
#include <vector>

#include <sleipnir/optimization/solver/util/all_finite.hpp>
#include <sleipnir/optimization/solver/util/append_as_triplets.hpp>
#include <sleipnir/optimization/solver/util/sparse_inf_norms.hpp>

#include "mc.hpp"

using Sp = Eigen::SparseMatrix<double>;
using SpR = Eigen::SparseMatrix<double, Eigen::RowMajor>;
using Vec = Eigen::VectorXd;
using Trips = gch::small_vector<Eigen::Triplet<double>>;

namespace {

constexpr double INF = std::numeric_limits<double>::infinity();
constexpr double N = 1e99;

struct Mat {
  int r, c;
  std::vector<double> v;  // row-major, N: absent
};

std::string text(const Mat& m) {
  std::string s = std::format("{}x{}[", m.r, m.c);
  for (double v : m.v) s += v == N ? "- " : std::format("{} ", v);
  return s + "]";
}

// All matrices of a shape over the alphabet
void all(int r, int c, const std::vector<double>& alphabet, const std::function<void(const Mat&)>& f) {
  Mat m{r, c, std::vector<double>(r * c, alphabet[0])};
  std::vector<size_t> i(r * c);
  while (true) {
    f(m);
    size_t k = 0;
    for (; k < i.size(); ++k) {
      if (++i[k] < alphabet.size()) {
        m.v[k] = alphabet[i[k]];
        break;
      }
      i[k] = 0;
      m.v[k] = alphabet[0];
    }
    if (k == i.size()) return;
  }
}

template <typename S>
S build(const Mat& m, bool compressed) {
  S s(m.r, m.c);
  s.reserve(Eigen::VectorXi::Constant(s.outerSize(), std::max(1, (int)s.innerSize())));
  for (int i = 0; i < m.r; ++i)
    for (int j = 0; j < m.c; ++j)
      if (m.v[i * m.c + j] != N) s.insert(i, j) = m.v[i * m.c + j];
  if (compressed) s.makeCompressed();
  return s;
}

bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

void single(mc::Run& run, const Mat& m) {
  if (!run.take() || !run.begin_case("norms " + text(m))) return;
  bool finite = true, nan = false;
  std::vector<double> norm(m.r);
  for (int i = 0; i < m.r; ++i)
    for (int j = 0; j < m.c; ++j)
      if (double v = m.v[i * m.c + j]; v != N) {
        finite &= std::isfinite(v);
        nan |= std::isnan(v);
        if (!std::isnan(v)) norm[i] = std::max(norm[i], std::abs(v));
      }
  auto judge = [&](const auto& s, const char* how) {
    run.check(slp::all_finite(s) == finite, std::format("all_finite() is wrong ({})", how));
    auto n = slp::sparse_inf_norms(s);
    bool ok = n.size() == m.r;
    for (int i = 0; ok && i < m.r; ++i) {
      bool rownan = false;
      for (int j = 0; j < m.c; ++j) rownan |= std::isnan(m.v[i * m.c + j]);
      ok = rownan || n(i) == norm[i];
    }
    run.check(ok, std::format("sparse_inf_norms() is wrong ({})", how));
  };
  judge(build<Sp>(m, true), "compressed");
  judge(build<Sp>(m, false), "uncompressed");
  judge(build<SpR>(m, true), "row-major");
  if (m.c == 1) {
    Eigen::SparseVector<double> v(m.r);
    for (int i = 0; i < m.r; ++i)
      if (m.v[i] != N) v.insert(i) = m.v[i];
    run.check(slp::all_finite(v) == finite, "all_finite() is wrong (vector)");
  }
  run.state();
}

void stack(mc::Run& run, const std::vector<Mat>& ms, int ro, int co, int existing) {
  if (!run.take()) return;
  std::string key = std::format("stack at ({},{}) after {}:", ro, co, existing);
  for (auto& m : ms) key += " " + text(m);
  if (!run.begin_case(key)) return;
  for (bool compressed : {true, false}) {
    Trips t;
    for (int k = 0; k < existing; ++k) t.emplace_back(k, 7, 100 + k);
    std::vector<Sp> s;
    for (auto& m : ms) s.push_back(build<Sp>(m, compressed));
    if (s.size() == 1) slp::append_as_triplets<double>(t, ro, co, {s[0]});
    if (s.size() == 2) slp::append_as_triplets<double>(t, ro, co, {s[0], s[1]});
    if (s.size() == 3) slp::append_as_triplets<double>(t, ro, co, {s[0], s[1], s[2]});
    // Column by column, top to bottom
    std::vector<std::tuple<int, int, double>> want;
    for (int k = 0; k < existing; ++k) want.emplace_back(k, 7, 100 + k);
    for (int j = 0; j < ms[0].c; ++j) {
      int off = 0;
      for (auto& m : ms) {
        for (int i = 0; i < m.r; ++i)
          if (double v = m.v[i * m.c + j]; v != N) want.emplace_back(ro + off + i, co + j, v);
        off += m.r;
      }
    }
    bool ok = t.size() == want.size();
    for (size_t k = 0; ok && k < want.size(); ++k) {
      auto& [i, j, v] = want[k];
      ok = t[k].row() == i && t[k].col() == j && same(t[k].value(), v);
    }
    run.check(ok, "the triplets aren't those of the stacked matrices in column-major order");
    run.state();
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv, {"P20", "exploration", "triplets, norms and finiteness equal those of the dense construction", {"norms of rows holding a NaN are not judged"}, 60},
                  [](mc::Run& run) {
                    double nan = std::nan("");
                    std::vector<double> A{N, 0.0, 2, -3.5, INF, nan}, A4{N, 0.0, 2, nan}, A3{N, 0.0, -3};
                    for (int r = 0; r <= 3; ++r)
                      for (int c = 0; c <= 3; ++c) {
                        if (r * c <= 6 && (r * c < 6 || true)) all(r, c, r * c <= 4 ? A : A4, [&](const Mat& m) { single(run, m); });
                        if (r * c == 9) all(r, c, run.thorough ? A4 : A3, [&](const Mat& m) { single(run, m); });
                      }
                    std::vector<std::pair<int, int>> offs{{0, 0}, {3, 0}, {0, 2}, {5, 4}};
                    for (int c = 0; c <= 3; ++c)
                      for (int r = 0; r <= 2; ++r)
                        all(r, c, r * c <= 4 ? A4 : A3, [&](const Mat& m) {
                          for (auto [ro, co] : offs)
                            for (int e : {0, 2}) stack(run, {m}, ro, co, e);
                        });
                    for (int c = 0; c <= 2; ++c)
                      for (int r1 = 0; r1 <= 2; ++r1)
                        for (int r2 = 0; r2 <= 2; ++r2)
                          all(r1, c, A3, [&](const Mat& a) {
                            all(r2, c, A3, [&](const Mat& b) {
                              stack(run, {a, b}, 1, 2, 1);
                              for (int r3 = 0; r3 <= (run.thorough ? 2 : 1); ++r3)
                                if ((r1 + r2 + r3) * c <= (run.thorough ? 8 : 5)) all(r3, c, A3, [&](const Mat& d) { stack(run, {a, b, d}, 2, 0, 0); });
                            });
                          });
                    // Diagonals
                    for (int n = 0; n <= 4; ++n)
                      all(n, 1, {0.0, 2, nan, -1}, [&](const Mat& m) {
                        for (auto [ro, co] : offs) {
                          if (!run.take() || !run.begin_case(std::format("diagonal at ({},{}) {}", ro, co, text(m)))) continue;
                          Trips t;
                          t.emplace_back(9, 8, 7);
                          Vec d(n);
                          for (int i = 0; i < n; ++i) d(i) = m.v[i];
                          slp::append_diagonal_as_triplets<double>(t, ro, co, d);
                          bool ok = t.size() == size_t(n) + 1 && t[0].row() == 9 && t[0].col() == 8 && t[0].value() == 7;
                          for (int i = 0; ok && i < n; ++i) ok = t[i + 1].row() == ro + i && t[i + 1].col() == co + i && same(t[i + 1].value(), m.v[i]);
                          run.check(ok, "the triplets aren't those of the diagonal");
                          run.state();
                        }
                      });
                  });
}
