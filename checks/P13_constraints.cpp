// P13: constraints mean what was written.
//@technique exhaustive enumeration of operand kinds x relations x shapes on the real code, each evaluated at every per-element ordering (less, equal, greater), against the written relation
//@level exploration
//@note Every pair and, for bounds, triple of operand kinds (numbers, variables, matrices, views, numeric matrices), all five
//@note relations, shapes up to 3x3, all 3^n element orderings up to 4 elements (all single and pairwise ones above),
//@note concatenations of up to three constraints.
//@flags -O1 -fsanitize=undefined -fno-sanitize-recover=undefined
//@src autodiff/*.cpp
//@src util/*.cpp
#include "matlang.hpp"
#include "mc.hpp"

using namespace matlang;

namespace {

enum { INT = NKIND, DOUBLE, VAR, NALL };
const char* name(int k) { return k < NKIND ? kind_name[k] : k == INT ? "int" : k == DOUBLE ? "double" : "variable"; }
bool is_scalar(int k) { return k >= NKIND; }
bool is_slp(int k) { return k != NUMERIC && k != INT && k != DOUBLE; }

// One side of a relation
struct Side {
  World& w;
  int kind;
  std::optional<Operand> op;
  int i = 2;
  double d = -1.5;
  int var = -1;
  Side(World& w, int kind, int r, int c, int pat, int seed) : w{w}, kind{kind} {
    if (kind == VAR) {
      w.make();
      var = w.vars.size() - 1;
    } else if (!is_scalar(kind)) {
      op.emplace(w, Kind(kind), r, c, pat, seed);
    }
  }
  double at(int e) const {
    if (kind == INT) return i;
    if (kind == DOUBLE) return d;
    if (kind == VAR) return w.now[var];
    M m = op->ref(w);
    return m(e / m.cols(), e % m.cols());
  }
  // Gives element e the value v, if it is a variable
  bool put(int e, double v) {
    int x = -1;
    if (kind == VAR) x = var;
    else if (op && kind != NUMERIC) x = op->elems[op->at[e].first * op->bc + op->at[e].second].var;
    if (x < 0) return false;
    w.now[x] = v;
    w.vars[x].set_value(v);
    return true;
  }
  template <typename F>
  auto with(F&& f) {
    switch (kind) {
      case INT: return f(i);
      case DOUBLE: return f(d);
      case VAR: { V v = w.vars[var]; return f(v); }
      default: return op->with(f);
    }
  }
};

enum Rel { EQ, LT, LE, GT, GE, NREL };
const char* rel_name[] = {"==", "<", "<=", ">", ">="};

double row_value(int rel, double l, double r) { return rel == LT || rel == LE ? r - l : l - r; }
bool holds(int rel, double l, double r) { return rel == EQ ? l == r : rel == LT || rel == LE ? l <= r : l >= r; }

template <typename C>
bool check(mc::Run& run, C& c, const std::vector<double>& rows, bool truth, const char* what) {
  run.transition();
  if (c.constraints.size() != rows.size()) {
    run.fail(std::format("{}: {} rows, must be {}", what, c.constraints.size(), rows.size()));
    return false;
  }
  for (size_t i = 0; i < rows.size(); ++i) {
    double v = c.constraints[i].value();
    if (v != rows[i]) {
      run.fail(std::format("{}: row {} is {}, must be {}", what, i, v, rows[i]));
      return false;
    }
  }
  if (static_cast<bool>(c) != truth) {
    run.fail(std::format("{}: converts to {}", what, !truth));
    return false;
  }
  return true;
}

// Calls f after each ordering of n element pairs
template <typename F>
void orderings(int n, F&& f) {
  std::vector<int> o(n, 0);
  if (n <= 4) {
    int total = 1;
    for (int i = 0; i < n; ++i) total *= 3;
    for (int x = 0; x < total; ++x) {
      for (int i = 0, y = x; i < n; ++i, y /= 3) o[i] = y % 3 - 1;
      if (!f(o)) return;
    }
    return;
  }
  for (int base = -1; base <= 1; ++base) {
    for (int i = 0; i < n; ++i) {
      for (int j = i; j < n; ++j) {
        for (int a = -1; a <= 1; ++a) {
          for (int b = -1; b <= 1; ++b) {
            std::fill(o.begin(), o.end(), base);
            o[i] = a;
            o[j] = b;
            if (!f(o)) return;
          }
        }
      }
    }
  }
}

template <typename X, typename Y, typename F>
void relate(int rel, X& x, Y& y, F&& f) {
  switch (rel) {
    case EQ: return f(x == y);
    case LT: return f(x < y);
    case LE: return f(x <= y);
    case GT: return f(x > y);
    default: return f(x >= y);
  }
}

template <typename X>
constexpr bool slp_type = slp::SleipnirType<X>;

void relations(mc::Run& run) {
  int N = run.thorough ? 4 : 3;
  for (int ka = 0; ka < NALL; ++ka) {
    for (int kb = 0; kb < NALL; ++kb) {
      if (!is_slp(ka) && !is_slp(kb)) continue;
      for (int r = 1; r <= N; ++r) {
        for (int c = 1; c <= N; ++c) {
          if (is_scalar(ka) && is_scalar(kb) && r * c > 1) continue;
          for (int rel = 0; rel < NREL; ++rel) {
            for (int pa : {ALL_VAR, MIX1, ALL_CONST}) {
              for (int pb : {ALL_VAR, MIX2, ALL_CONST}) {
                if ((is_scalar(ka) && pa) || (is_scalar(kb) && pb)) continue;
                if (!run.take()) continue;
                if (!run.begin_case(std::format("{} {} {} {}x{} p{} p{}", name(ka), rel_name[rel], name(kb), r, c, pa, pb))) continue;
                run.state(), run.distinct();
                World w;
                Side a(w, ka, r, c, pa, 0), b(w, kb, r, c, pb, 5);
                int n = is_scalar(ka) && is_scalar(kb) ? 1 : r * c;
                a.with([&](auto& x) {
                  b.with([&](auto& y) {
                    if constexpr (slp_type<decltype(x)> || slp_type<decltype(y)>) {
                      relate(rel, x, y, [&](auto con) {
                        if (std::is_same_v<decltype(con), slp::EqualityConstraints<double>> != (rel == EQ)) run.fail("kind of constraint");
                        orderings(n, [&](const std::vector<int>& o) {
                          // a first, then b relative to it
                          for (int e = 0; e < n; ++e) {
                            if (!is_scalar(kb) || e == 0) {
                              double base = a.at(e);
                              if (!b.put(e, base - o[e] * 0.5)) a.put(e, b.at(e) + o[e] * 0.5);
                            } else {
                              a.put(e, b.at(e) + o[e] * 0.5);
                            }
                          }
                          std::vector<double> rows;
                          bool truth = true;
                          for (int e = 0; e < n; ++e) {
                            rows.push_back(row_value(rel, a.at(e), b.at(e)));
                            truth &= holds(rel, a.at(e), b.at(e));
                          }
                          return check(run, con, rows, truth, "constraint");
                        });
                      });
                    }
                  });
                });
              }
            }
          }
        }
      }
    }
  }
}

void bound(mc::Run& run) {
  int N = run.thorough ? 3 : 2;
  for (int kl = 0; kl < NALL; ++kl) {
    for (int kx = 0; kx < NALL; ++kx) {
      if (!is_slp(kx)) continue;
      for (int ku = 0; ku < NALL; ++ku) {
        for (int r = 1; r <= N; ++r) {
          for (int c = 1; c <= N; ++c) {
            if (is_scalar(kx) && (r * c > 1)) continue;
            if (!run.take()) continue;
            if (!run.begin_case(std::format("bounds({}, {}, {}) {}x{}", name(kl), name(kx), name(ku), r, c))) continue;
            run.state(), run.distinct();
            World w;
            Side l(w, kl, r, c, ALL_VAR, 0), x(w, kx, r, c, ALL_VAR, 3), u(w, ku, r, c, ALL_VAR, 5);
            int n = r * c;
            int nl = is_scalar(kl) && is_scalar(kx) ? 1 : n, nu = is_scalar(ku) && is_scalar(kx) ? 1 : n;
            l.with([&](auto& L) {
              x.with([&](auto& X) {
                u.with([&](auto& U) {
                  if constexpr (slp_type<decltype(X)>) {
                    auto con = slp::bounds(L, X, U);
                    if (!std::is_same_v<decltype(con), slp::InequalityConstraints<double>>) run.fail("kind of constraint");
                    orderings(nl, [&](const std::vector<int>& o) {
                      for (int e = 0; e < nl; ++e) x.put(e, l.at(e) + o[e] * 0.5);
                      for (int side = -1; side <= 1; ++side) {
                        for (int e = 0; e < nu; ++e) u.put(e, x.at(e) + ((e % 2) ? 1 : side) * 0.25);
                        std::vector<double> rows;
                        bool truth = true;
                        for (int e = 0; e < nl; ++e) rows.push_back(x.at(e) - l.at(e)), truth &= rows.back() >= 0;
                        for (int e = 0; e < nu; ++e) rows.push_back(u.at(e) - x.at(e)), truth &= rows.back() >= 0;
                        if (!check(run, con, rows, truth, "bounds")) return false;
                      }
                      return true;
                    });
                  }
                });
              });
            });
          }
        }
      }
    }
  }
}

// Concatenations of constraints with every combination of sizes and truth values
template <typename C>
void concat(mc::Run& run, bool eq) {
  for (int n = 0; n <= 3; ++n) {
    int total = 1;
    for (int i = 0; i < n; ++i) total *= 4;
    for (int sizes = 0; sizes < total; ++sizes) {
      for (int how = 0; how < 3; ++how) {
        if (!run.take()) continue;
        if (!run.begin_case(std::format("concatenate {} {} sizes{} how{}", eq ? "equalities" : "inequalities", n, sizes, how))) continue;
        run.state(), run.distinct();
        std::vector<V> vars;
        std::vector<double> now;
        std::vector<C> parts;
        for (int i = 0, y = sizes; i < n; ++i, y /= 4) {
          int m = y % 4;
          VM v(slp::detail::empty, m, 1);
          for (int k = 0; k < m; ++k) {
            vars.emplace_back();
            v[k] = vars.back();
          }
          if (eq) {
            if constexpr (std::is_same_v<C, slp::EqualityConstraints<double>>) parts.push_back(C{v == 1.0});
          } else {
            if constexpr (std::is_same_v<C, slp::InequalityConstraints<double>>) parts.push_back(C{v >= 1.0});
          }
        }
        now.resize(vars.size());
        auto make = [&]() -> C {
          if (how == 0) return C(parts);
          if (how == 1) {
            if (n == 0) return C(std::initializer_list<C>{});
            if (n == 1) return C{{parts[0]}};
            if (n == 2) return C{parts[0], parts[1]};
            return C{parts[0], parts[1], parts[2]};
          }
          // nested concatenation
          if (n == 3) return C{C{parts[0], parts[1]}, parts[2]};
          if (n == 2) return C(std::vector<C>{C(std::vector<C>{parts[0]}), parts[1]});
          return C(parts);
        };
        C con = make();
        int nv = vars.size();
        for (int bad = -1; bad < nv; ++bad) {
          for (int bad2 = bad; bad2 < (bad < 0 ? 0 : nv); ++bad2) {
            std::vector<double> rows;
            bool truth = true;
            for (int k = 0; k < nv; ++k) {
              double v = eq ? (k == bad || k == bad2 ? 1.5 + k : 1.0) : (k == bad || k == bad2 ? 0.5 - k : 1.0 + k % 3);
              vars[k].set_value(v);
              rows.push_back(v - 1.0);
              truth &= eq ? v == 1 : v >= 1;
            }
            if (!check(run, con, rows, truth, "concatenation")) break;
          }
        }
      }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config cfg;
  cfg.property = "P13";
  cfg.level = "exploration";
  cfg.rule = "a case is one constraint built from operands of given kinds and shapes; a transition is one evaluation of all its rows and its truth at one ordering of the element pairs";
  cfg.assumptions = {"strict relations are constraints that hold with equality too, as the library documents for >= and <="};
  return mc::main(argc, argv, cfg, [](mc::Run& run) {
    relations(run);
    bound(run);
    concat<slp::EqualityConstraints<double>>(run, true);
    concat<slp::InequalityConstraints<double>>(run, false);
  });
}
