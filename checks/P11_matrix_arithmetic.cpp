// P11: matrix arithmetic on variables equals matrix arithmetic on their values.
//@technique exhaustive enumeration of operations x operand kinds x shapes x element patterns x aliasing on the real code, against plain numeric matrices
//@level exploration
//@note Every operation over every operand kind (matrix, block, strided and reversed view, const view, numeric matrix,
//@note scalars), all shapes up to 3x3 (thorough 4x4), all element patterns (variable, 0, 1, constant) on small shapes,
//@note aliased operands included; values compared at two assignments. exp() is P35's.
//@flags -O1 -fsanitize=undefined -fno-sanitize-recover=undefined
//@src autodiff/*.cpp
//@src util/*.cpp
#include <numeric>
#include <optional>

#include <Eigen/LU>
#include <Eigen/QR>

#include "matlang.hpp"
#include "mc.hpp"

using namespace matlang;

namespace {

// The result must have the reference's shape and values at both assignments.
void expect(mc::Run& run, World& w, VM& got, const std::function<M()>& want, const char* what) {
  for (int k = 0; k < 2; ++k) {
    w.assign(k);
    run.transition();
    M m = want();
    if (got.rows() != m.rows() || got.cols() != m.cols()) {
      run.fail(std::format("{}: {}x{}, must be {}x{}", what, got.rows(), got.cols(), m.rows(), m.cols()));
      return;
    }
    for (int i = 0; i < m.rows(); ++i) {
      for (int j = 0; j < m.cols(); ++j) {
        double g = got.value(i, j);
        if (std::isfinite(m(i, j)) && !same(g, m(i, j))) {
          run.fail(std::format("{}: element ({}, {}) is {}, must be {}", what, i, j, g, m(i, j)));
          return;
        }
      }
    }
    M all = got.value();
    for (int i = 0; i < m.rows(); ++i) {
      for (int j = 0; j < m.cols(); ++j) {
        if (!same(all(i, j), got.value(i, j)) || !same(got.value(i * m.cols() + j), got.value(i, j))) {
          run.fail(std::format("{}: value() disagrees with value(i, j)", what));
          return;
        }
      }
    }
  }
  w.assign(0);
}

std::string pname(int p) {
  if (p < NPAT) return std::format("p{}", p);
  return std::format("x{:x}", p - NPAT);
}

// Patterns to try for an operand of so many elements
std::vector<int> patterns(int n, int full) {
  std::vector<int> r;
  for (int p = 0; p < NPAT; ++p) r.push_back(p);
  if (n <= full) {
    for (int x = 0; x < 1 << (2 * n); ++x) r.push_back(NPAT + x);
  }
  return r;
}

void binary(mc::Run& run) {
  int N = run.thorough ? 4 : 3, full = run.thorough ? 3 : 2;
  for (int op = 0; op < 3; ++op) {
    for (int ka = 0; ka < NKIND; ++ka) {
      for (int kb = 0; kb < NKIND; ++kb) {
        if (ka == NUMERIC && kb == NUMERIC) continue;
        for (int r = 0; r <= N; ++r) {
          for (int m = 0; m <= N; ++m) {
            for (int c = 0; c <= N; ++c) {
              if (op < 2 && (c != 0)) continue;
              int br = op < 2 ? r : m, bc = op < 2 ? m : c;
              // empty views of empty selections are not creatable in every kind
              if ((r == 0 || m == 0 || bc == 0) && !(ka == MATRIX && kb == MATRIX)) continue;
              for (int pa : patterns(r * m, full)) {
                for (int pb : patterns(br * bc, full)) {
                  if (!run.take()) continue;
                  if (!run.begin_case(std::format("{} {}x{} {} {} {}x{} {}", kind_name[ka], r, m, pname(pa), "+-*"[op], br, bc, pname(pb)) +
                                      std::string{" "} + kind_name[kb]))
                    continue;
                  World w;
                  Operand a(w, Kind(ka), r, m, pa, 0), b(w, Kind(kb), br, bc, pb, 5);
                  run.state(), run.distinct();
                  auto go = [&](auto& x, auto& y) {
                    if constexpr (!(std::is_same_v<std::decay_t<decltype(x)>, M> && std::is_same_v<std::decay_t<decltype(y)>, M>)) {
                      VM got = op == 0 ? VM{x + y} : op == 1 ? VM{x - y} : VM{x * y};
                      expect(run, w, got, [&]() -> M {
                        M A = a.ref(w), B = b.ref(w);
                        return op == 0 ? M{A + B} : op == 1 ? M{A - B} : M{A * B};
                      }, "result");
                      // operands must be left alone
                      M now = a.ref(w);
                      for (int e = 0; e < r * m; ++e) {
                        double v = 0;
                        if constexpr (std::is_same_v<std::decay_t<decltype(x)>, M>) v = x(e / m, e % m);
                        else v = VM{x}.value(e / m, e % m);
                        if (!same(v, now(e / m, e % m))) run.fail("left operand changed");
                      }
                    }
                  };
                  a.with([&](auto& x) { b.with([&](auto& y) { go(x, y); }); });
                }
              }
            }
          }
        }
      }
    }
  }
}

enum Scal { S_INT, S_DOUBLE, S_VAR, S_ZERO, S_ONE, S_CONSTVAR, NSCAL };
template <typename F>
void with_scalar(int s, World& w, int var, F&& f) {
  switch (s) {
    case S_INT: { int v = 3; f(v, [] { return 3.0; }); break; }
    case S_DOUBLE: { double v = -2.5; f(v, [] { return -2.5; }); break; }
    case S_ZERO: { double v = 0; f(v, [] { return 0.0; }); break; }
    case S_ONE: { int v = 1; f(v, [] { return 1.0; }); break; }
    case S_CONSTVAR: { V v{4.0}; f(v, [] { return 4.0; }); break; }
    default: f(w.vars[var], [&w, var] { return w.now[var]; });
  }
}

void scalar(mc::Run& run) {
  int N = run.thorough ? 4 : 3, full = run.thorough ? 4 : 3;
  for (int ka = 0; ka < NUMERIC; ++ka) {
    for (int r = 1; r <= N; ++r) {
      for (int c = 1; c <= N; ++c) {
        for (int p : patterns(r * c, full)) {
          for (int s = 0; s < NSCAL; ++s) {
            for (int op = 0; op < 3; ++op) {
              if (!run.take()) continue;
              if (!run.begin_case(std::format("scalar {} {}x{} {} op{} s{}", kind_name[ka], r, c, pname(p), op, s))) continue;
              World w;
              w.make();
              Operand a(w, Kind(ka), r, c, p, 0);
              run.state(), run.distinct();
              with_scalar(s, w, 0, [&](auto& sc, auto ref) {
                a.with([&](auto& x) {
                  constexpr bool numx = std::is_same_v<std::decay_t<decltype(x)>, M>;
                  if constexpr (!numx) {
                    std::optional<VM> got;
                    if (op == 0) got.emplace(VM{x * sc});
                    if (op == 1) got.emplace(VM{sc * x});
                    if (op == 2 && ref() != 0) got.emplace(VM{x / sc});
                    if (got) {
                      expect(run, w, *got, [&]() -> M { return op == 2 ? M{a.ref(w) / ref()} : M{a.ref(w) * ref()}; },
                             op == 0 ? "matrix * scalar" : op == 1 ? "scalar * matrix" : "matrix / scalar");
                    }
                  }
                });
              });
            }
          }
        }
      }
    }
  }
}

void unary(mc::Run& run) {
  int N = run.thorough ? 5 : 4, full = run.thorough ? 4 : 3;
  for (int ka = 0; ka < NUMERIC; ++ka) {
    for (int r = 0; r <= N; ++r) {
      for (int c = 0; c <= N; ++c) {
        if ((r == 0 || c == 0) && ka != MATRIX) continue;
        for (int p : patterns(r * c, full)) {
          if (!run.take()) continue;
          if (!run.begin_case(std::format("unary {} {}x{} {}", kind_name[ka], r, c, pname(p)))) continue;
          World w;
          Operand a(w, Kind(ka), r, c, p, 0);
          run.state(), run.distinct();
          a.with_slp([&](auto& x) {
            VM neg = -x;
            expect(run, w, neg, [&]() -> M { return -a.ref(w); }, "negation");
            VM t = x.T();
            expect(run, w, t, [&]() -> M { return a.ref(w).transpose(); }, "transpose");
            VM tt = VM{x}.T();
            expect(run, w, tt, [&]() -> M { return a.ref(w).transpose(); }, "transpose of the copy");
            VM cp = x;
            expect(run, w, cp, [&] { return a.ref(w); }, "copy");
            if (x.rows() != r || x.cols() != c) run.fail("shape");
            std::vector<double> seen;
            VM tr = x.cwise_transform([&](const V& v) -> V {
              V q = v;
              seen.push_back(q.value());
              return v * v + 1.0;
            });
            M now = a.ref(w);
            expect(run, w, tr, [&]() -> M { return (a.ref(w).array().square() + 1).matrix(); }, "cwise_transform");
            std::vector<double> order;
            for (int e = 0; e < r * c; ++e) order.push_back(now(e / c, e % c));
            if (seen.size() != order.size()) run.fail("cwise_transform does not call the operator once per element");
            VM other = VM{x}.T().T();
            VM red = slp::cwise_reduce<double>(VM{x}, VM{-x}, [](const V& p, const V& q) -> V { return p * 2.0 - q * 3.0; });
            expect(run, w, red, [&]() -> M { return a.ref(w) * 5.0; }, "cwise_reduce");
            VM red2 = slp::cwise_reduce<double>(VM{x}, VM::constant(r, c, 7.0), [](const V& p, const V& q) -> V { return p - q; });
            expect(run, w, red2, [&]() -> M { return (a.ref(w).array() - 7).matrix(); }, "cwise_reduce");
            if constexpr (std::is_same_v<std::decay_t<decltype(x)>, VM>) {
              auto e = x.to_eigen();
              VM back{e};
              expect(run, w, back, [&] { return a.ref(w); }, "Eigen round trip");
            }
            if (r == 1 && c == 1) {
              V one = x;
              VM back{one};
              expect(run, w, back, [&] { return a.ref(w); }, "conversion to a scalar");
            }
          });
        }
      }
    }
  }
}

// target op= operand, for every target kind and every operand kind, aliased or not
void compound(mc::Run& run) {
  int N = run.thorough ? 4 : 3;
  for (int kt = 0; kt < CONST_BLOCK; ++kt) {
    for (int r = 1; r <= N; ++r) {
      for (int c = 1; c <= N; ++c) {
        for (int op = 0; op < 3; ++op) {
          for (int pa = 0; pa < NPAT; ++pa) {
            for (int kb = 0; kb < NKIND; ++kb) {
              for (int pb = 0; pb < NPAT; ++pb) {
                if (!run.take()) continue;
                if (!run.begin_case(std::format("compound {} {}x{} {} op{} {} {}", kind_name[kt], r, c, pname(pa), op, kind_name[kb], pname(pb)))) continue;
                World w;
                Operand a(w, Kind(kt), r, c, pa, 0), b(w, Kind(kb), op == 2 ? c : r, c, pb, 5);
                run.state(), run.distinct();
                auto go = [&](auto& x) {
                  b.with([&](auto& y) {
                    if (op == 0) x += y;
                    if (op == 1) x -= y;
                    if (op == 2) x *= y;
                  });
                };
                kt == MATRIX ? go(a.base) : [&] { auto v = a.view(); go(v); }();
                expect(run, w, a.base, [&]() -> M {
                  M m = a.base_ref(w), A = a.ref(w), B = b.ref(w);
                  a.put(m, op == 0 ? M{A + B} : op == 1 ? M{A - B} : M{A * B});
                  return m;
                }, "target");
                expect(run, w, b.base, [&]() -> M { return b.base_ref(w); }, "operand");
              }
            }
            // scalars, and an element of the target
            for (int s = 0; s < NSCAL + 2; ++s) {
              if (!run.take()) continue;
              if (!run.begin_case(std::format("compound {} {}x{} {} op{} scalar{}", kind_name[kt], r, c, pname(pa), op, s))) continue;
              World w;
              w.make();
              Operand a(w, Kind(kt), r, c, pa, 0);
              run.state(), run.distinct();
              M before_dummy;
              auto go = [&](auto& x, auto& sc, auto ref) {
                if (op == 0) {
                  x *= sc;
                } else if (op == 1) {
                  if (ref() == 0) return;
                  x /= sc;
                } else {
                  if (r != 1 || c != 1) return;
                  x += sc;
                  x -= 2.0;
                }
                expect(run, w, a.base, [&]() -> M {
                  M m = a.base_ref(w), A = a.ref(w);
                  double q = ref();
                  a.put(m, op == 0 ? M{A * q} : op == 1 ? M{A / q} : M{(A.array() + q - 2).matrix()});
                  return m;
                }, "target");
              };
              auto all = [&](auto& x) {
                if (s < NSCAL) {
                  with_scalar(s, w, 0, [&](auto& sc, auto ref) { go(x, sc, ref); });
                } else {
                  int e = s == NSCAL ? 0 : r * c - 1;
                  go(x, x[e / c, e % c], [&, e] { return a.ref(w)(e / c, e % c); });
                }
              };
              kt == MATRIX ? all(a.base) : [&] { auto v = a.view(); all(v); }();
            }
          }
        }
      }
    }
  }
}

// target op= view, where both views are of the same matrix: every pair of views from a menu
void aliased(mc::Run& run) {
  struct View {
    int r0, rs, r, c0, cs, c;
  };
  int N = run.thorough ? 4 : 3;
  for (int R = 1; R <= N; ++R) {
    for (int C = 1; C <= N; ++C) {
      std::vector<View> views;
      for (int rs : {1, -1, 2}) {
        for (int cs : {1, -1, 2}) {
          for (int r0 = 0; r0 < R; ++r0) {
            for (int c0 = 0; c0 < C; ++c0) {
              for (int r = 1; r <= R; ++r) {
                for (int c = 1; c <= C; ++c) {
                  int re = r0 + (r - 1) * rs, ce = c0 + (c - 1) * cs;
                  if (re < 0 || re >= R || ce < 0 || ce >= C) continue;
                  if ((r == 1 && rs != 1) || (c == 1 && cs != 1)) continue;
                  views.push_back({r0, rs, r, c0, cs, c});
                }
              }
            }
          }
        }
      }
      auto make = [&](VM& m, const View& v) -> VB {
        // an exclusive end past either side is written as absent
        auto sl = [](int a, int s, int n, int len) -> Slice {
          int e = a + n * s;
          if (e < 0 || e >= len) return Slice{a, _, s};
          return Slice{a, e, s};
        };
        return m[sl(v.r0, v.rs, v.r, R), sl(v.c0, v.cs, v.c, C)];
      };
      auto get = [&](const M& m, const View& v) {
        M x(v.r, v.c);
        for (int i = 0; i < v.r; ++i)
          for (int j = 0; j < v.c; ++j) x(i, j) = m(v.r0 + i * v.rs, v.c0 + j * v.cs);
        return x;
      };
      auto put = [&](M& m, const View& v, const M& x) {
        for (int i = 0; i < v.r; ++i)
          for (int j = 0; j < v.c; ++j) m(v.r0 + i * v.rs, v.c0 + j * v.cs) = x(i, j);
      };
      const View whole{0, 1, R, 0, 1, C};
      for (size_t ti = 0; ti <= views.size(); ++ti) {
        for (size_t si = 0; si <= views.size(); ++si) {
          bool tm = ti == views.size(), sm = si == views.size();  // the matrix itself
          const View& t = tm ? whole : views[ti];
          const View& s = sm ? whole : views[si];
          for (int op = 0; op < 5; ++op) {
            if (op == 2 ? !(t.c == s.r && t.c == s.c) : !(t.r == s.r && t.c == s.c)) continue;
            if (op >= 3 && tm) continue;
            if (!run.take()) continue;
            if (!run.begin_case(std::format("aliased {}x{} op{} target [{}:{}:{}, {}:{}:{}]{} source [{}:{}:{}, {}:{}:{}]{}", R, C, op, t.r0, t.rs, t.r,
                                            t.c0, t.cs, t.c, tm ? " itself" : "", s.r0, s.rs, s.r, s.c0, s.cs, s.c, sm ? " itself" : "")))
              continue;
            World w;
            Operand a(w, MATRIX, R, C, (ti + si) % 2 ? ALL_VAR : MIX1, 0);
            run.state(), run.distinct();
            auto apply = [&](auto& x, auto& y) {
              if (op == 0) x += y;
              if (op == 1) x -= y;
              if (op == 2) x *= y;
              if constexpr (std::is_same_v<std::decay_t<decltype(x)>, VB>) {
                if (op == 3) x = y;
                if (op == 4) x = std::move(y);
              }
            };
            auto outer = [&](auto& x) {
              if (sm && op == 4) {
                VM copy = a.base;
                apply(x, copy);
              } else if (sm) {
                apply(x, a.base);
              } else {
                auto y = make(a.base, s);
                apply(x, y);
              }
            };
            if (tm) {
              outer(a.base);
            } else {
              auto x = make(a.base, t);
              // assigning to a default view binds it; this one is bound
              outer(x);
            }
            expect(run, w, a.base, [&]() -> M {
              M m = a.ref(w), T = get(m, t), S = get(m, s);
              M x = op == 0 ? M{T + S} : op == 1 ? M{T - S} : op == 2 ? M{T * S} : S;
              put(m, t, x);
              return m;
            }, "matrix");
          }
        }
      }
    }
  }
}

VM block_il(const std::vector<std::vector<VM>>& l) {
  auto n = [&](size_t i) { return l[i].size(); };
  if (l.size() == 1) {
    if (n(0) == 1) return slp::block<double>({{l[0][0]}});
    if (n(0) == 2) return slp::block<double>({{l[0][0], l[0][1]}});
    return slp::block<double>({{l[0][0], l[0][1], l[0][2]}});
  }
  if (n(0) == 1 && n(1) == 1) return slp::block<double>({{l[0][0]}, {l[1][0]}});
  if (n(0) == 2 && n(1) == 1) return slp::block<double>({{l[0][0], l[0][1]}, {l[1][0]}});
  if (n(0) == 1 && n(1) == 2) return slp::block<double>({{l[0][0]}, {l[1][0], l[1][1]}});
  if (n(0) == 2 && n(1) == 2) return slp::block<double>({{l[0][0], l[0][1]}, {l[1][0], l[1][1]}});
  if (n(0) == 3 && n(1) == 2) return slp::block<double>({{l[0][0], l[0][1], l[0][2]}, {l[1][0], l[1][1]}});
  if (n(0) == 2 && n(1) == 3) return slp::block<double>({{l[0][0], l[0][1]}, {l[1][0], l[1][1], l[1][2]}});
  if (n(0) == 3 && n(1) == 3) return slp::block<double>({{l[0][0], l[0][1], l[0][2]}, {l[1][0], l[1][1], l[1][2]}});
  if (n(0) == 1 && n(1) == 3) return slp::block<double>({{l[0][0]}, {l[1][0], l[1][1], l[1][2]}});
  return slp::block<double>({{l[0][0], l[0][1], l[0][2]}, {l[1][0]}});
}

// Every partition of an R x C matrix into up to 2 block rows of up to 3 blocks
void blocks(mc::Run& run) {
  int N = run.thorough ? 5 : 4;
  for (int R = 1; R <= N; ++R) {
    for (int C = 1; C <= N; ++C) {
      std::vector<std::vector<int>> heights{{R}}, widths{{C}};
      for (int a = 1; a < R; ++a) heights.push_back({a, R - a});
      for (int a = 1; a < C; ++a) {
        widths.push_back({a, C - a});
        for (int b = 1; a + b < C; ++b) widths.push_back({a, b, C - a - b});
      }
      for (auto& hs : heights) {
        for (size_t w0 = 0; w0 < widths.size(); ++w0) {
          for (size_t w1 = 0; w1 < (hs.size() == 2 ? widths.size() : 1); ++w1) {
            for (int pat : {ALL_VAR, MIX1}) {
              if (!run.take()) continue;
              if (!run.begin_case(std::format("block {}x{} h{} w{}/{} p{}", R, C, hs[0], w0, w1, pat))) continue;
              World w;
              Operand a(w, MATRIX, R, C, pat, 0);
              run.state(), run.distinct();
              std::vector<std::vector<VM>> l;
              int ro = 0;
              for (size_t i = 0; i < hs.size(); ++i) {
                auto& ws = widths[i ? w1 : w0];
                std::vector<VM> row;
                int co = 0;
                for (int x : ws) {
                  row.push_back(VM{a.base.block(ro, co, hs[i], x)});
                  co += x;
                }
                ro += hs[i];
                l.push_back(row);
              }
              VM g1 = slp::block<double>(l);
              expect(run, w, g1, [&] { return a.ref(w); }, "block(vector)");
              VM g2 = block_il(l);
              expect(run, w, g2, [&] { return a.ref(w); }, "block(list)");
            }
          }
        }
      }
    }
  }
}

void construct(mc::Run& run) {
  int N = run.thorough ? 7 : 5;
  for (int r = 0; r <= N; ++r) {
    for (int c = 0; c <= N; ++c) {
      if (!run.take()) continue;
      if (!run.begin_case(std::format("construct {}x{}", r, c))) continue;
      run.state(), run.distinct();
      World w;
      auto ex = [&](VM m, M want, const char* what) { expect(run, w, m, [&] { return want; }, what); };
      M src(r, c);
      for (int e = 0; e < r * c; ++e) src(e / c, e % c) = VALS[e % std::size(VALS)];
      ex(VM::zero(r, c), M::Zero(r, c), "zero");
      ex(VM::one(r, c), M::Ones(r, c), "one");
      ex(VM::constant(r, c, -2.5), M::Constant(r, c, -2.5), "constant");
      ex(VM::identity(r), M::Identity(r, r), "identity");
      ex(VM(r, c), M::Zero(r, c), "sized");
      ex(VM(r), M::Zero(r, 1), "column");
      ex(VM{src}, src, "from Eigen");
      if (r > 0 && c > 0) {
        std::vector<std::vector<double>> l(r, std::vector<double>(c));
        std::vector<std::vector<V>> lv(r, std::vector<V>(c));
        std::vector<V> flat;
        for (int e = 0; e < r * c; ++e) {
          l[e / c][e % c] = src(e / c, e % c);
          lv[e / c][e % c] = V{src(e / c, e % c)};
          flat.push_back(V{src(e / c, e % c)});
        }
        ex(VM{l}, src, "from nested numbers");
        ex(VM{lv}, src, "from nested variables");
        ex(VM{std::span<const V>{flat}, r, c}, src, "from a span");
        M col(r * c, 1);
        for (int e = 0; e < r * c; ++e) col(e, 0) = src(e / c, e % c);
        ex(VM{std::span<const V>{flat}}, col, "from a span as a column");
        Eigen::VectorXd d = col;
        ex(VM{d.asDiagonal()}, M{d.asDiagonal()}, "from a diagonal");
        // assignment and set_value
        VM t(r, c);
        t.set_value(src);
        ex(t, src, "set_value");
        VM u(r, c);
        u = src;
        ex(u, src, "assignment of a numeric matrix");
        // the matrix's elements are distinct variables
        VM q(r, c);
        for (int e = 0; e < r * c; ++e) q[e].set_value(e + 1);
        for (int e = 0; e < r * c; ++e) {
          if (q.value(e) != e + 1) run.fail("elements of a fresh matrix are not distinct variables");
        }
      }
      if (r == 1 && c == 1) {
        VM t(1, 1);
        t = 3.5;
        ex(t, M::Constant(1, 1, 3.5), "assignment of a scalar");
        ex(VM{V{2.0}}, M::Constant(1, 1, 2.0), "from a variable");
      }
    }
  }
}

// A X = B: A's entries by position are given, some as constants
void solve_one(mc::Run& run, const M& A, const M& B, const M* A2, const std::string& key, int consts) {
  if (!run.begin_case(key)) return;
  run.state(), run.distinct();
  int n = A.rows(), p = B.cols();
  VM a(n, A.cols()), b(n, p);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < A.cols(); ++j) {
      if (consts == 1 || (consts == 2 && (A(i, j) == 0 || A(i, j) == 1))) a[i, j] = A(i, j);
      else a[i, j].set_value(A(i, j));
    }
    for (int j = 0; j < p; ++j) b[i, j].set_value(B(i, j));
  }
  VM x = slp::solve(a, b);
  for (int k = 0; k < (A2 ? 2 : 1); ++k) {
    const M& Ak = k ? *A2 : A;
    if (k) a.set_value(*A2);
    M want = Ak.colPivHouseholderQr().solve(B);
    if (x.rows() != want.rows() || x.cols() != want.cols()) {
      run.fail(std::format("solve gives {}x{}, must be {}x{}", x.rows(), x.cols(), want.rows(), want.cols()));
      return;
    }
    for (int i = 0; i < want.rows(); ++i) {
      for (int j = 0; j < p; ++j) {
        run.transition();
        double g = x.value(i, j);
        if (!(std::abs(g - want(i, j)) <= 1e-7 * std::max(1.0, want.cwiseAbs().maxCoeff()))) {
          run.fail(std::format("solution ({}, {}) is {}, must be {}{}", i, j, g, want(i, j), k ? " (after changing A)" : ""));
          return;
        }
      }
    }
  }
}

void solves(mc::Run& run) {
  auto rhs = [](int n, int p) {
    M b(n, p);
    for (int e = 0; e < n * p; ++e) b(e / p, e % p) = VALS[(3 * e + 1) % std::size(VALS)];
    return b;
  };
  for (int n = 1; n <= 3; ++n) {
    std::vector<double> set = n == 1 ? std::vector<double>{-2, -1, 1, 0.5, 3} : n == 2 ? std::vector<double>{-2, 0, 1, 3} : std::vector<double>{-1, 0, 2};
    uint64_t total = 1;
    for (int e = 0; e < n * n; ++e) total *= set.size();
    for (uint64_t x = 0; x < total; ++x) {
      if (!run.take()) continue;
      M A(n, n);
      uint64_t y = x;
      for (int e = 0; e < n * n; ++e, y /= set.size()) A(e / n, e % n) = set[y % set.size()];
      if (std::abs(A.determinant()) < 1e-6) continue;
      for (int p = 1; p <= (n < 3 ? 3 : 2); ++p) {
        for (int k = 0; k < (n < 3 ? 3 : 1 + 2 * (x % 16 == 0)); ++k) solve_one(run, A, rhs(n, p), nullptr, std::format("solve {} #{} p{} c{}", n, x, p, k), k);
      }
    }
  }
  // 4x4 and larger: generic matrices with every set of up to two zeroed entries, and every permutation
  for (int n = 4; n <= (run.thorough ? 7 : 6); ++n) {
    for (int g = 0; g < (run.thorough ? 6 : 2); ++g) {
      M G(n, n), G2(n, n);
      for (int e = 0; e < n * n; ++e) {
        G(e / n, e % n) = VALS[(e * (2 * g + 5) + g) % std::size(VALS)] + 0.1 * e + (e / n == e % n ? 6 : 0);
        G2(e / n, e % n) = VALS[(e * 7 + 3 * g) % std::size(VALS)] - 0.2 * e + (e / n == e % n ? -5 : 0);
      }
      for (int e = -1; e < n * n; ++e) {
        for (int f = e; f < (e < 0 ? 0 : n * n); ++f) {
          if (!run.take()) continue;
          M A = G;
          if (e >= 0) A(e / n, e % n) = 0, A(f / n, f % n) = 0;
          if (std::abs(A.determinant()) < 1e-3) continue;
          for (int k : {0, 2}) solve_one(run, A, rhs(n, 1 + (e + f + 2) % 2), k == 0 ? &G2 : nullptr, std::format("solve {} g{} zero {} {} c{}", n, g, e, f, k), k);
        }
      }
    }
    std::vector<int> perm(n);
    std::iota(perm.begin(), perm.end(), 0);
    if (n <= 5) {
      do {
        for (int k : {0, 1, 2}) {
          if (!run.take()) continue;
          M A = M::Zero(n, n);
          for (int i = 0; i < n; ++i) A(i, perm[i]) = VALS[i];
          std::string s;
          for (int i : perm) s += std::to_string(i);
          solve_one(run, A, rhs(n, 2), nullptr, std::format("solve {} perm {} c{}", n, s, k), k);
        }
      } while (std::next_permutation(perm.begin(), perm.end()));
    }
  }
  // The expression must stay the solution whatever the values it was built at
  for (int n = 1; n <= 6; ++n) {
    for (int k = 0; k < 2; ++k) {
      if (!run.take()) continue;
      M start = k == 0 ? M{M::Zero(n, n)} : M{M::Identity(n, n)}, A(n, n);
      for (int e = 0; e < n * n; ++e) A(e / n, e % n) = VALS[(e * 5 + 2) % std::size(VALS)] + (e / n == e % n ? 9 : 0);
      std::string key = std::format("solve {0}x{0} built at {1}", n, k ? "identity" : "zero");
      if (!run.begin_case(key)) continue;
      run.state(), run.distinct();
      VM a(n, n), b(n, 1);
      a.set_value(start);
      M B = rhs(n, 1);
      VM x = slp::solve(a, b);
      a.set_value(A);
      b.set_value(B);
      M want = A.colPivHouseholderQr().solve(B);
      for (int i = 0; i < n; ++i) {
        run.transition();
        if (!(std::abs(x.value(i, 0) - want(i, 0)) <= 1e-7 * std::max(1.0, want.cwiseAbs().maxCoeff()))) {
          run.fail(std::format("solution {} is {} after assigning A and B, must be {}", i, x.value(i, 0), want(i, 0)));
          break;
        }
      }
    }
  }
  // Least squares of consistent overdetermined systems
  for (int m = 3; m <= 5; ++m) {
    for (int n = 1; n < m; ++n) {
      if (!run.take()) continue;
      M A(m, n), X(n, 2);
      for (int e = 0; e < m * n; ++e) A(e / n, e % n) = VALS[(e * 5 + 2) % std::size(VALS)];
      for (int e = 0; e < 2 * n; ++e) X(e / 2, e % 2) = VALS[e];
      solve_one(run, A, A * X, nullptr, std::format("solve {}x{}", m, n), 0);
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config cfg;
  cfg.property = "P11";
  cfg.level = "exploration";
  cfg.rule = "a case is one operation on operands of given kinds, shapes, element patterns and aliasing; a transition is one comparison of the whole result with the numeric reference at one assignment";
  cfg.assumptions = {"element patterns on shapes above the exhaustive bound are taken from six fixed ones", "Eigen 3.4.0 with a compatibility header stands in for the Eigen version the repository pins"};
  return mc::main(argc, argv, cfg, [](mc::Run& run) {
    binary(run);
    scalar(run);
    unary(run);
    compound(run);
    aliased(run);
    blocks(run);
    construct(run);
    solves(run);
  });
}
