// P12: iteration over matrices and views.
//@technique exhaustive enumeration of matrices, views and pairs of iterator positions on the real code, against element positions
//@level exploration
//@note Every matrix up to 4x4, every block and a set of strided and reversed views, every iterator kind and pair of positions.
//@flags -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined
//@src autodiff/*.cpp
//@src util/*.cpp
//@fallback -DNO_CONST_POSTFIX_DECREMENT
#include <algorithm>
#include <numeric>
#include <iterator>
#include <ranges>

#include <sleipnir/autodiff/variable_matrix.hpp>

#include "mc.hpp"

using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;
using VB = slp::VariableBlock<VM>;
using CVB = slp::VariableBlock<const VM>;
using slp::Slice;
using slp::slicing::_;

namespace {

double val(const V& v) {
  V c = v;
  return c.value();
}

// [first, last) must visit exactly the elements of `want`, in order, in every way of walking
template <typename It>
bool walk(mc::Run& run, It first, It last, const std::vector<double>& want, const char* what, bool postfix = true) {
  auto fail = [&](const char* how) {
    run.fail(std::format("{}: {}", what, how));
    return false;
  };
  int n = want.size();
  run.transition();
  if (std::distance(first, last) != n) return fail("distance");
  int i = 0;
  for (It it = first; it != last; ++it, ++i) {
    if (i >= n || val(*it) != want[i]) return fail("prefix increment");
  }
  if (i != n) return fail("prefix increment count");
  i = 0;
  for (It it = first; !(it == last); ++i) {
    It old = it++;
    if (i >= n || val(*old) != want[i]) return fail("postfix increment");
  }
  i = n;
  for (It it = last; it != first;) {
    --it;
    if (val(*it) != want[--i]) return fail("prefix decrement");
  }
  if (postfix) {
    i = n;
    for (It it = last; it != first;) {
      It old = it--;
      if (i < n && val(*old) != want[i]) return fail("postfix decrement");
      if (val(*it) != want[--i]) return fail("postfix decrement");
    }
  }
  for (int a = 0; a <= n; ++a) {
    It ia = std::next(first, a);
    for (int b = 0; b <= n; ++b) {
      run.transition();
      It ib = std::next(first, b);
      if ((ia == ib) != (a == b) || (ia != ib) != (a != b)) return fail("comparison");
      It moved = ia;
      std::advance(moved, b - a);
      if (!(moved == ib)) return fail("advance");
      if (b < n && val(*moved) != want[b]) return fail("dereference after advance");
      if (a <= b && std::distance(ia, ib) != b - a) return fail("distance between positions");
      if (a <= b && std::prev(ib, b - a) != ia) return fail("prev");
    }
  }
  // Multi-pass and algorithms
  std::vector<double> got;
  std::transform(first, last, std::back_inserter(got), [](const V& v) { return val(v); });
  if (got != want) return fail("std::transform");
  for (int k = 0; k < n; ++k) {
    auto f = std::find_if(first, last, [&](const V& v) { return val(v) == want[k]; });
    if (f != std::next(first, k)) return fail("std::find_if");
  }
  std::vector<V> copy(first, last);
  for (int k = 0; k < n; ++k) {
    if (copy.size() != static_cast<size_t>(n) || val(copy[k]) != want[k]) return fail("range construction");
  }
  return true;
}

template <typename It>
bool writes(mc::Run& run, It first, It last, const std::vector<double>& want, VM& base, const std::vector<double>& values,
            const char* what) {
  int n = want.size();
  for (int k = 0; k < n; ++k) {
    for (int form = 0; form < 2; ++form) {
      run.transition();
      auto it = std::next(first, k);
      V old = *it;
      if (form == 0) {
        (*it).set_value(-5);
      } else {
        *it = V{-5.0};
      }
      for (int e = 0; e < (int)values.size(); ++e) {
        double w = values[e] == want[k] ? -5 : values[e];
        if (base[e].value() != w) {
          run.fail(std::format("{}: writing position {} changed element {}", what, k, e));
          return false;
        }
      }
      if (form == 0) {
        (*it).set_value(want[k]);
      } else {
        *it = old;
      }
    }
  }
  // Mutating algorithms
  std::vector<V> saved(first, last);
  std::reverse(first, last);
  for (int k = 0; k < n; ++k) {
    if (val(*std::next(first, k)) != want[n - 1 - k]) {
      run.fail(std::format("{}: std::reverse", what));
      return false;
    }
  }
  std::copy(saved.begin(), saved.end(), first);
  for (int e = 0; e < (int)values.size(); ++e) {
    if (base[e].value() != values[e]) {
      run.fail(std::format("{}: std::copy", what));
      return false;
    }
  }
  return true;
}

template <typename R>
void range(mc::Run& run, R& r, std::vector<double> want, VM& base, const std::vector<double>& values) {
  run.eval();
  run.distinct(want.size() > 1);
  auto rev = want;
  std::reverse(rev.begin(), rev.end());
  const R& c = r;
#ifdef NO_CONST_POSTFIX_DECREMENT
  const bool cpost = false;
#define CWALK(a, b, w, name)
  run.fail("decrementing a const iterator with postfix -- does not compile");
#else
  const bool cpost = true;
#define CWALK(a, b, w, name) \
  if (!walk(run, a, b, w, name, cpost)) return;
#endif
  if (!walk(run, r.begin(), r.end(), want, "begin..end")) return;
  if (!walk(run, r.rbegin(), r.rend(), rev, "rbegin..rend")) return;
  CWALK(c.begin(), c.end(), want, "const begin..end")
  CWALK(r.cbegin(), r.cend(), want, "cbegin..cend")
  CWALK(c.cbegin(), c.cend(), want, "const cbegin..cend")
  CWALK(c.rbegin(), c.rend(), rev, "const rbegin..rend")
  CWALK(r.crbegin(), r.crend(), rev, "crbegin..crend")
  std::vector<double> seen;
  for (auto& v : r) seen.push_back(v.value());
  if (seen != want) return run.fail("range for");
  seen.clear();
  for (const auto& v : c) seen.push_back(val(v));
  if (seen != want) return run.fail("range for over const");
  seen.clear();
  for (auto& v : r | std::views::reverse) seen.push_back(v.value());
  if (seen != rev) return run.fail("views::reverse");
  if (r.size() != want.size()) return run.fail("size()");
  if (!writes(run, r.begin(), r.end(), want, base, values, "begin..end")) return;
  writes(run, r.rbegin(), r.rend(), rev, base, values, "rbegin..rend");
}

template <typename R>
void const_range(mc::Run& run, const R& c, std::vector<double> want) {
  run.eval();
  auto rev = want;
  std::reverse(rev.begin(), rev.end());
#ifndef NO_CONST_POSTFIX_DECREMENT
  const bool cpost = true;
  CWALK(c.begin(), c.end(), want, "const view begin..end")
  CWALK(c.cbegin(), c.cend(), want, "const view cbegin..cend")
  CWALK(c.rbegin(), c.rend(), rev, "const view rbegin..rend")
  CWALK(c.crbegin(), c.crend(), rev, "const view crbegin..crend")
#endif
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config cfg{"P12", "exploration",
                 "Matrices of every shape up to 4x4 (thorough 6x5), empty matrices, all their blocks, rows and columns, and all "
                 "products of 10 slice forms per dimension; forward, reverse, const and const reverse iterators; all pairs of positions; "
                 "writing each position; standard algorithms.",
                 {}};
  return mc::main(argc, argv, cfg, [](mc::Run& run) {
    const int R = run.thorough ? 6 : 4, C = run.thorough ? 5 : 4;
    for (int r = 0; r <= R; ++r) {
      for (int c = 0; c <= C; ++c) {
        VM m(r, c);
        std::vector<double> values;
        for (int i = 0; i < r * c; ++i) {
          m[i].set_value(10 + i);
          values.push_back(10 + i);
        }
        const VM& cm = m;
        if (run.take() && run.begin(std::format("{}x{}", r, c))) range(run, m, values, m, values);
        auto view = [&](auto make, std::vector<int> rows, std::vector<int> cols) {
          std::vector<double> want;
          for (int i : rows) {
            for (int j : cols) want.push_back(10 + i * c + j);
          }
          auto v = make(m);
          range(run, v, want, m, values);
          const auto cv = make(cm);
          const_range(run, cv, want);
        };
        auto upto = [](int a, int n) {
          std::vector<int> v(n);
          std::iota(v.begin(), v.end(), a);
          return v;
        };
        for (int a = 0; a <= r; ++a) {
          for (int b = 0; b <= c; ++b) {
            for (int p = 0; a + p <= r; ++p) {
              for (int q = 0; b + q <= c; ++q) {
                if (!run.take() || !run.begin(std::format("{}x{}.block({}, {}, {}, {})", r, c, a, b, p, q))) continue;
                view([&](auto& x) { return x.block(a, b, p, q); }, upto(a, p), upto(b, q));
              }
            }
          }
        }
        for (int a = 0; a < r; ++a) {
          if (run.take() && run.begin(std::format("{}x{}.row({})", r, c, a))) view([&](auto& x) { return x.row(a); }, {a}, upto(0, c));
        }
        for (int a = 0; a < c; ++a) {
          if (run.take() && run.begin(std::format("{}x{}.col({})", r, c, a))) view([&](auto& x) { return x.col(a); }, upto(0, r), {a});
        }
        struct F {
          const char* name;
          Slice s;
          std::vector<int> (*pick)(int);
        };
        auto step = [](int n, int from, int by) {
          std::vector<int> v;
          for (int i = from; i >= 0 && i < n; i += by) v.push_back(i);
          return v;
        };
        static auto st = step;
        const F forms[] = {{"_", _, [](int n) { return st(n, 0, 1); }},
                           {"::-1", {_, _, -1}, [](int n) { return st(n, n - 1, -1); }},
                           {"::2", {_, _, 2}, [](int n) { return st(n, 0, 2); }},
                           {"1::2", {1, _, 2}, [](int n) { return st(n, 1, 2); }},
                           {"::-2", {_, _, -2}, [](int n) { return st(n, n - 1, -2); }},
                           {"1:", {1, _}, [](int n) { return st(n, 1, 1); }},
                           {":-1", {_, -1}, [](int n) { return st(std::max(n - 1, 0), 0, 1); }},
                           {"-1", {-1}, [](int n) { return n ? std::vector{n - 1} : std::vector<int>{}; }},
                           {"0:0", {0, 0}, [](int) { return std::vector<int>{}; }},
                           {"::3", {_, _, 3}, [](int n) { return st(n, 0, 3); }}};
        for (auto& fr : forms) {
          for (auto& fc : forms) {
            if (!run.take() || !run.begin(std::format("{}x{}[{}, {}]", r, c, fr.name, fc.name))) continue;
            view([&](auto& x) { return x[fr.s, fc.s]; }, fr.pick(r), fc.pick(c));
          }
        }
      }
    }
    run.sample("4x3[::-1, ::2], rbegin..rend");
  });
}
