// P10: views of matrices and of views address exactly the selected elements.
//@technique exhaustive enumeration of bounded selections (views and views of views) with every access on the real code, against an index-matrix reference
//@level exploration
//@note Every matrix up to 4x4 (thorough 5x5), every effective view and view of a view (three levels on small
//@note matrices), every way to read and write; the whole underlying matrix is compared after each write.
//@flags -O1 -fsanitize=undefined -fno-sanitize-recover=undefined
//@src autodiff/*.cpp
//@src util/*.cpp
#include <optional>

#include <sleipnir/autodiff/variable_matrix.hpp>

#include "mc.hpp"

using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;
using VB = slp::VariableBlock<VM>;
using CVB = slp::VariableBlock<const VM>;
using slp::Slice;
using slp::slicing::_;

namespace {

struct Sl {  // a slice as written
  std::optional<int> start, stop, step;
};
std::string show(const Sl& s) {
  auto f = [](auto& o) { return o ? std::to_string(*o) : std::string{"_"}; };
  return f(s.start) + ":" + f(s.stop) + ":" + f(s.step);
}
Slice make(const Sl& s) {
  int a = s.start.value_or(0), b = s.stop.value_or(0), c = s.step.value_or(1);
  if (!s.start && !s.stop && !s.step) return _;
  if (s.start && s.stop) return {a, b, c};
  if (s.start) return {a, _, c};
  if (s.stop) return {_, b, c};
  return {_, _, c};
}
std::vector<int> pick(const Sl& s, int n) {  // Python's semantics
  int step = s.step.value_or(1);
  auto clip = [&](int v) {
    if (v < 0) v = std::max(v + n, step < 0 ? -1 : 0);
    return std::min(v, step < 0 ? n - 1 : n);
  };
  int a = s.start ? clip(*s.start) : step < 0 ? n - 1 : 0;
  int b = s.stop ? clip(*s.stop) : step < 0 ? -1 : n;
  std::vector<int> r;
  for (int i = a; step > 0 ? i < b : i > b; i += step) r.push_back(i);
  return r;
}

struct Sel {
  enum K { SLICE, BLOCK, ROW, COL, SEGMENT } k;
  Sl r{}, c{};
  int a = 0, b = 0, m = 0, n = 0;
};
std::string show(const Sel& s) {
  switch (s.k) {
    case Sel::SLICE: return std::format("[{}, {}]", show(s.r), show(s.c));
    case Sel::BLOCK: return std::format(".block({}, {}, {}, {})", s.a, s.b, s.m, s.n);
    case Sel::ROW: return std::format(".row({})", s.a);
    case Sel::COL: return std::format(".col({})", s.a);
    default: return std::format(".segment({}, {})", s.a, s.m);
  }
}

struct Idx {
  std::vector<int> r, c;
};
std::vector<int> range(int a, int n) {
  std::vector<int> v;
  for (int i = 0; i < n; ++i) v.push_back(a + i);
  return v;
}
Idx choose(const Sel& s, int rows, int cols) {
  switch (s.k) {
    case Sel::SLICE: return {pick(s.r, rows), pick(s.c, cols)};
    case Sel::BLOCK: return {range(s.a, s.m), range(s.b, s.n)};
    case Sel::ROW: return {{s.a}, range(0, cols)};
    case Sel::COL: return {range(0, rows), {s.a}};
    default: return {range(s.a, s.m), {0}};
  }
}
Idx compose(const Idx& outer, const Idx& inner) {
  Idx r;
  for (int i : inner.r) r.r.push_back(outer.r[i]);
  for (int i : inner.c) r.c.push_back(outer.c[i]);
  return r;
}

template <typename M>
auto apply(M& m, const Sel& s) {
  switch (s.k) {
    case Sel::SLICE: return m[make(s.r), make(s.c)];
    case Sel::BLOCK: return m.block(s.a, s.b, s.m, s.n);
    case Sel::ROW: return decltype(m.block(0, 0, 0, 0))(m.row(s.a));
    case Sel::COL: return decltype(m.block(0, 0, 0, 0))(m.col(s.a));
    default: return decltype(m.block(0, 0, 0, 0))(m.segment(s.a, s.m));
  }
}

// Slices with distinct effect on a sequence of length n, each in one written
// form (forms alternate between absent, positive and negative indices)
std::vector<Sl> slices(int n, bool all_forms) {
  std::vector<Sl> out;
  std::set<std::vector<int>> seen;
  std::vector<std::optional<int>> idx{std::nullopt}, st{std::nullopt};
  for (int i = 0; i <= n + 1; ++i) {
    idx.push_back(i % 2 ? i : i - n - 1);
    idx.push_back(i % 2 ? i - n - 1 : i);
  }
  for (int i = 1; i <= std::max(n, 2); ++i) {
    st.push_back(-i);
    st.push_back(i);
  }
  for (auto& c : st) {
    for (auto& a : idx) {
      for (auto& b : idx) {
        Sl s{a, b, c};
        auto p = pick(s, n);
        if (p.size() <= 1) p.push_back(-1000 - (c && *c < 0));  // direction still matters for nested views
        if (!seen.insert(p).second && !all_forms) continue;
        out.push_back(s);
      }
    }
  }
  return out;
}

std::vector<Sel> selections(int rows, int cols, bool rich) {
  std::vector<Sel> v;
  auto rs = slices(rows, false), cs = slices(cols, false);
  for (size_t i = 0; i < rs.size(); ++i) {
    for (size_t j = 0; j < cs.size(); ++j) {
      // Poor: each row slice with a few column slices and vice versa
      if (!rich && i % 5 && j % 5) continue;
      v.push_back({Sel::SLICE, rs[i], cs[j]});
    }
  }
  for (int a = 0; a <= rows; ++a) {
    for (int m = 0; a + m <= rows; ++m) {
      for (int b = 0; b <= cols; ++b) {
        for (int n = 0; b + n <= cols; ++n) {
          if (!rich && (m == 0 || n == 0)) continue;
          v.push_back({Sel::BLOCK, {}, {}, a, b, m, n});
        }
      }
    }
  }
  for (int a = 0; a < rows; ++a) v.push_back({Sel::ROW, {}, {}, a});
  for (int a = 0; a < cols; ++a) v.push_back({Sel::COL, {}, {}, a});
  if (cols == 1) {
    for (int a = 0; a < rows; ++a) {
      for (int m = 0; a + m <= rows; ++m) v.push_back({Sel::SEGMENT, {}, {}, a, 0, m});
    }
  }
  return v;
}

double id(int r, int c) { return 100 + 10 * r + c; }

struct Test {
  mc::Run& run;
  std::string key;
  int rows, cols;
  VM base;

  Test(mc::Run& run, int r, int c) : run{run}, rows{r}, cols{c}, base(r, c) { reset(); }

  // Fresh decision variables with the identifying values
  void reset() {
    for (int i = 0; i < rows; ++i) {
      for (int j = 0; j < cols; ++j) {
        base[i, j] = V{};
        base[i, j].set_value(id(i, j));
      }
    }
  }

  bool fail(const std::string& what) {
    run.fail(key, what);
    return false;
  }

  template <typename View>
  bool reads(View v, const Idx& ix) {
    int m = ix.r.size(), n = ix.c.size();
    run.transition();
    if (v.rows() != m || v.cols() != n) return fail(std::format("{}x{} instead of {}x{}", v.rows(), v.cols(), m, n));
    if (v.size() != static_cast<size_t>(m * n)) return fail("size()");
    const View& cv = v;
    constexpr bool writable = std::same_as<View, VB>;  // const views can't be evaluated directly
    VM copy{v};
    auto whole = copy.value();
    if constexpr (writable) whole = v.value();
    VM t = v.T();
    VM twice = v.cwise_transform([](const V& x) -> V { return 2.0 * x; });
    if (whole.rows() != m || whole.cols() != n || copy.rows() != m || copy.cols() != n || t.rows() != n || t.cols() != m ||
        twice.rows() != m || twice.cols() != n) {
      return fail("a copy has the wrong shape");
    }
    for (int i = 0; i < m; ++i) {
      for (int j = 0; j < n; ++j) {
        double w = id(ix.r[i], ix.c[j]);
        V e = cv[i, j], f = cv[i * n + j];
        if (e.value() != w) return fail(std::format("[{}, {}] is element {} not {}", i, j, e.value() - 100, w - 100));
        if (f.value() != w) return fail(std::format("[{}] is element {} not {}", i * n + j, f.value() - 100, w - 100));
        if constexpr (writable) {
          if (v.value(i, j) != w || v.value(i * n + j) != w) return fail(std::format("value({}, {})", i, j));
        }
        if (whole(i, j) != w) return fail(std::format("value({}, {})", i, j));
        if (copy.value(i, j) != w) return fail("converted to a matrix");
        if (t.value(j, i) != w) return fail("transposed");
        if (twice.value(i, j) != 2 * w) return fail("transformed element-wise");
      }
    }
    return true;
  }

  // The underlying matrix must be as it was except at the selected elements
  bool after(const Idx& ix, auto&& want, const char* what) {
    run.transition();
    std::vector<double> expect(rows * cols);
    for (int i = 0; i < rows; ++i) {
      for (int j = 0; j < cols; ++j) expect[i * cols + j] = id(i, j);
    }
    for (size_t i = 0; i < ix.r.size(); ++i) {
      for (size_t j = 0; j < ix.c.size(); ++j) expect[ix.r[i] * cols + ix.c[j]] = want(i, j);
    }
    for (int i = 0; i < rows; ++i) {
      for (int j = 0; j < cols; ++j) {
        if (base[i, j].value() != expect[i * cols + j]) {
          return fail(std::format("{}: element ({}, {}) is {} not {}", what, i, j, base[i, j].value(), expect[i * cols + j]));
        }
      }
    }
    reset();
    return true;
  }

  void writes(VB v, const Idx& ix) {
    int m = ix.r.size(), n = ix.c.size();
    Eigen::MatrixXd e(m, n);
    VM src(m, n);
    for (int i = 0; i < m; ++i) {
      for (int j = 0; j < n; ++j) {
        e(i, j) = 1000 + 10 * i + j;
        src[i, j].set_value(2000 + 10 * i + j);
      }
    }
    auto we = [](int i, int j) { return 1000.0 + 10 * i + j; };
    auto ws = [](int i, int j) { return 2000.0 + 10 * i + j; };
    v.set_value(e);
    if (!after(ix, we, "set_value(matrix)")) return;
    v = e;
    if (!after(ix, we, "= numeric matrix")) return;
    v = src;
    if (!after(ix, ws, "= matrix")) return;
    v = VM{src};
    if (!after(ix, ws, "= moved matrix")) return;
    {
      VB b{src};
      v = b;
      if (!after(ix, ws, "= view")) return;
      v = src[_, _];
      if (!after(ix, ws, "= temporary view")) return;
      VM keep(m, n);
      VB other{keep};
      other = v;  // reading through assignment leaves the source alone
      if (!after(ix, [&](int i, int j) { return id(ix.r[i], ix.c[j]); }, "assigned to another view")) return;
    }
    for (int i = 0; i < m; ++i) {
      for (int j = 0; j < n; ++j) {
        auto only = [&](int a, int b) { return a == i && b == j ? -7.0 : id(ix.r[a], ix.c[b]); };
        v[i, j] = V{-7.0};
        if (!after(ix, only, "[i, j] = ")) return;
        v[i * n + j].set_value(-7.0);
        if (!after(ix, only, "[k].set_value")) return;
      }
    }
    if (m == 1 && n == 1) {
      auto w = [](int, int) { return 5.0; };
      v = 5.0;
      if (!after(ix, w, "= scalar")) return;
      v = 5;
      if (!after(ix, w, "= integer")) return;
      v = V{5.0};
      if (!after(ix, w, "= variable")) return;
      v.set_value(5.0);
      if (!after(ix, w, "set_value(scalar)")) return;
      V s = v;
      if (s.value() != id(ix.r[0], ix.c[0])) fail("converted to a scalar");
      v += 1.0;
      if (!after(ix, [&](int, int) { return id(ix.r[0], ix.c[0]) + 1; }, "+= scalar")) return;
      v -= 1.0;
      if (!after(ix, [&](int, int) { return id(ix.r[0], ix.c[0]) - 1; }, "-= scalar")) return;
    }
    auto was = [&](int i, int j) { return id(ix.r[i], ix.c[j]); };
    v *= 2.0;
    if (!after(ix, [&](int i, int j) { return 2 * was(i, j); }, "*= scalar")) return;
    v /= 2.0;
    if (!after(ix, [&](int i, int j) { return was(i, j) / 2; }, "/= scalar")) return;
    v += src;
    if (!after(ix, [&](int i, int j) { return was(i, j) + ws(i, j); }, "+= matrix")) return;
    v -= e;
    if (!after(ix, [&](int i, int j) { return was(i, j) - we(i, j); }, "-= numeric matrix")) return;
    // A copy of a view is a view of the same elements
    VB w{v};
    w.set_value(e);
    if (!after(ix, we, "set_value through a copied view")) return;
    run.distinct(m * n > 0);
  }
};

}  // namespace

int main(int argc, char** argv) {
  mc::Config cfg{"P10", "exploration",
                 "Matrices of every shape up to 4x4 (thorough 5x5); every view: all pairs of slices with distinct effect, all "
                 "blocks, rows, columns, segments; every written slice form on vectors; every view of such a view (above 9, thorough 20, elements: each "
                 "row slice with a fifth of the column slices and vice versa); three levels up to 4 (6) elements; mutable and const.",
                 {}};
  return mc::main(argc, argv, cfg, [](mc::Run& run) {
    const int N = run.thorough ? 5 : 4;
    for (int r = 1; r <= N; ++r) {
      for (int c = 1; c <= N; ++c) {
        Test t{run, r, c};
        const VM& cbase = t.base;
        auto base_name = std::format("{}x{} ", r, c);
        for (auto& s1 : selections(r, c, true)) {
          if (!run.take()) continue;
          Idx i1 = choose(s1, r, c);
          t.key = base_name + show(s1);
          if (run.begin_case(t.key)) {
            auto v = apply(t.base, s1);
            if (t.reads(v, i1)) t.writes(v, i1);
            t.reads(apply(cbase, s1), i1);
          }
          int r1 = i1.r.size(), c1 = i1.c.size();
          // Whole-view slices of every kind of nested view
          for (auto& s2 : selections(r1, c1, r * c <= (run.thorough ? 20 : 9))) {
            t.key = base_name + show(s1) + show(s2);
            if (run.replaying && run.only != t.key && !run.only.starts_with(t.key + "[") && !run.only.starts_with(t.key + ".")) continue;
            auto v1 = apply(t.base, s1);
            Idx i2 = compose(i1, choose(s2, r1, c1));
            if (run.begin_case(t.key)) {
              auto v2 = apply(v1, s2);
              if (t.reads(v2, i2)) t.writes(v2, i2);
              const auto cv1 = apply(t.base, s1);
              t.reads(apply(cv1, s2), i2);
              const auto cc1 = apply(cbase, s1);
              t.reads(apply(cc1, s2), i2);
            }
            if (r * c <= (run.thorough ? 6 : 4)) {
              int r2 = i2.r.size(), c2 = i2.c.size();
              auto v2 = apply(v1, s2);
              for (auto& s3 : selections(r2, c2, false)) {
                t.key = base_name + show(s1) + show(s2) + show(s3);
                if (!run.begin_case(t.key)) continue;
                Idx i3 = compose(i2, choose(s3, r2, c2));
                auto v3 = apply(v2, s3);
                if (t.reads(v3, i3)) t.writes(v3, i3);
              }
            }
          }
        }
        // Every written form on vectors and on rows/columns of matrices
        if (c == 1 || r == 1 || (r == 3 && c == 3)) {
          for (auto& s : slices(r, true)) {
            if (!run.take()) continue;
            Sel sel{Sel::SLICE, s, {}};
            t.key = base_name + show(sel);
            if (run.begin_case(t.key)) t.reads(apply(t.base, sel), choose(sel, r, c));
          }
          for (auto& s : slices(c, true)) {
            if (!run.take()) continue;
            Sel sel{Sel::SLICE, {}, s};
            t.key = base_name + show(sel);
            if (run.begin_case(t.key)) t.reads(apply(t.base, sel), choose(sel, r, c));
          }
        }
        if (r == 3 && c == 4) run.sample(t.key);
      }
    }
  });
}
