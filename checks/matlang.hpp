// Matrix operands of every kind, with a numeric reference.
#pragma once

#include <cmath>
#include <functional>
#include <string>
#include <utility>
#include <vector>

#include <Eigen/Core>

#include <sleipnir/autodiff/variable_matrix.hpp>

namespace matlang {

using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;
using VB = slp::VariableBlock<VM>;
using CVB = slp::VariableBlock<const VM>;
using M = Eigen::MatrixXd;
using slp::Slice;
using slp::slicing::_;

inline constexpr double VALS[] = {2, -3, 0.5, 5, -7, 1.25, 11, -0.75, 4, 13, -6, 3, 9, -2.5, 8, 17, -1.5, 6, 0.25, -10, 7, 1.75, -4, 15, 12,
                           0.375, -9, 2.25, 14, -5, 10, 1.5, 19, -8, 16, 3.5};

// The variables of a case; assign(k) gives them their k-th set of values.
struct World {
  std::vector<V> vars;
  std::vector<double> now;
  V make() {
    vars.emplace_back();
    now.push_back(0);
    set(vars.size() - 1, 0);
    return vars.back();
  }
  void set(size_t i, int k) {
    double v = VALS[(i * (k ? 5 : 1) + 7 * k) % std::size(VALS)] + k;
    now[i] = v;
    vars[i].set_value(v);
  }
  void assign(int k) {
    for (size_t i = 0; i < vars.size(); ++i) set(i, k);
  }
};

// An element as both sides see it: a variable of the world, or a constant.
struct Elem {
  int var = -1;
  double c = 0;
  double at(const World& w) const { return var >= 0 ? w.now[var] : c; }
};

enum Pat { ALL_VAR, ALL_CONST, MIX1, MIX2, ZEROS, ONES, NPAT };
inline char pat_at(int p, int i) {
  switch (p) {
    case ALL_VAR: return 'v';
    case ALL_CONST: return 'c';
    case MIX1: return "v0c1"[i % 4];
    case MIX2: return "1vv0"[i % 4];
    case ZEROS: return '0';
    case ONES: return '1';
    default: return "v01c"[((p - NPAT) >> (2 * i)) & 3];  // every pattern of up to a few elements
  }
}

enum Kind { MATRIX, BLOCK, REVERSED, STRIDED, CONST_BLOCK, NUMERIC, NKIND };
inline const char* kind_name[] = {"matrix", "block", "reversed view", "strided view", "const block", "numeric matrix"};

struct Operand {
  Kind kind;
  int r, c;
  VM base;                       // what the operand is, or views
  std::vector<Elem> elems;       // of the base, row-major
  std::vector<std::pair<int, int>> at;  // where the operand's elements are in the base
  int br, bc;
  M num;

  Operand(World& w, Kind kind, int r, int c, int pat, int seed) : kind{kind}, r{r}, c{c} {
    br = kind == MATRIX || kind == NUMERIC || kind == REVERSED ? r : kind == STRIDED ? 2 * r + 1 : r + 2;
    bc = kind == MATRIX || kind == NUMERIC || kind == REVERSED ? c : kind == STRIDED ? 2 * c + 1 : c + 1;
    for (int i = 0; i < r; ++i) {
      for (int j = 0; j < c; ++j) {
        switch (kind) {
          case REVERSED: at.emplace_back(r - 1 - i, c - 1 - j); break;
          case STRIDED: at.emplace_back(2 * i + 1, 2 * (c - 1 - j) + 1); break;
          case BLOCK:
          case CONST_BLOCK: at.emplace_back(i + 1, j + 1); break;
          default: at.emplace_back(i, j);
        }
      }
    }
    elems.resize(br * bc);
    base = VM{slp::detail::empty, br, bc};
    num.resize(r, c);
    std::vector<bool> in(br * bc);
    auto give = [&](int i, int j, char k, double cval) {
      int e = i * bc + j;
      in[e] = true;
      switch (k) {
        case 'v': elems[e].var = w.vars.size(); base[i, j] = w.make(); break;
        case '0': elems[e].c = 0; base[i, j] = 0.0; break;
        case '1': elems[e].c = 1; base[i, j] = 1.0; break;
        default: elems[e].c = cval; base[i, j] = cval;
      }
    };
    for (int e = 0; e < r * c; ++e) {
      char k = pat_at(pat, e);
      double cval = VALS[(e * 3 + seed) % std::size(VALS)];
      if (kind == NUMERIC) {
        if (k == 'v') k = 'c';
        num(e / c, e % c) = k == '0' ? 0 : k == '1' ? 1 : cval;
      }
      give(at[e].first, at[e].second, k, cval);
    }
    for (int e = 0; e < br * bc; ++e) {
      if (!in[e]) give(e / bc, e % bc, "cv"[e % 2], 100 + e);
    }
  }
  M ref(const World& w) const {
    if (kind == NUMERIC) return num;
    M m(r, c);
    for (int e = 0; e < r * c; ++e) m(e / c, e % c) = elems[at[e].first * bc + at[e].second].at(w);
    return m;
  }
  M base_ref(const World& w) const {
    M m(br, bc);
    for (int e = 0; e < br * bc; ++e) m(e / bc, e % bc) = elems[e].at(w);
    return m;
  }
  void put(M& b, const M& v) const {  // writes the operand's elements into a reference of its base
    for (int e = 0; e < r * c; ++e) b(at[e].first, at[e].second) = v(e / c, e % c);
  }
  VB view() {
    if (kind == REVERSED) return base[Slice{_, _, -1}, Slice{_, _, -1}];
    if (kind == STRIDED) return base[Slice{1, _, 2}, Slice{2 * c - 1, _, -2}];
    return base.block(1, 1, r, c);
  }
  template <typename F>
  auto with(F&& f) {
    switch (kind) {
      case MATRIX: return f(base);
      case NUMERIC: return f(num);
      case CONST_BLOCK: {
        const VM& cb = base;
        const auto v = cb.block(1, 1, r, c);
        return f(v);
      }
      default: {
        auto v = view();
        return f(v);
      }
    }
  }
  // Like with(), but only kinds that are sleipnir types
  template <typename F>
  auto with_slp(F&& f) {
    switch (kind) {
      case MATRIX: return f(base);
      case CONST_BLOCK: {
        const VM& cb = base;
        const auto v = cb.block(1, 1, r, c);
        return f(v);
      }
      default: {
        auto v = view();
        return f(v);
      }
    }
  }
};

inline bool same(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::abs(a - b) <= 1e-9 * std::max({1.0, std::abs(a), std::abs(b)});
}

}  // namespace matlang
