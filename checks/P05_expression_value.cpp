// P05: expression values. Every expression of the language up to depth two
// (thorough: restricted depth three), every form of writing its operators, at
// every point of a grid, against direct evaluation.
//@technique exhaustive enumeration of bounded programs (expressions) on the real code against reference semantics
//@level exploration
//@note Every expression of depth <= 2 over the operand alphabet and all operators, re-evaluated at every grid point on
//@note one graph; deeper expressions only in the stated restricted families. Values beyond 1e100 and points where an
//@note intermediate result isn't finite are not compared.
//@flags -O2
#include <sleipnir/autodiff/variable_matrix.hpp>

#include "exprlang.hpp"
#include "mc.hpp"
//@src util/pool.cpp

using namespace lang;
using V = slp::Variable<double>;

namespace {

struct Points {
  std::vector<std::array<double, NV>> p;
};

// pow with a constant zero base is a listed finding at exponent zero: it is decided by its own cases
bool zero_pow(const Table& t, const Node& x, const std::array<double, NV>& at, const std::vector<V>& vars) {
  if (x.op == POW) {
    V b = build<V>(t, t.n[x.a], vars);
    if (b.type() == slp::ExpressionType::CONSTANT && b.value() == 0 && std::abs(ref(t, t.n[x.b], at).v) < 1e-12) {
      return true;
    }
  }
  if (x.op >= FIRST_UNARY) {
    if (zero_pow(t, t.n[x.a], at, vars)) return true;
    if (x.op >= FIRST_BINARY && zero_pow(t, t.n[x.b], at, vars)) return true;
  }
  return false;
}

void check_points(mc::Run& run, const Table& t, const Node& x, V& e, std::vector<V>& vars, const Points& pts,
                  const char* form = "") {
  bool any = false;
  for (int pass = 0; pass < 2; ++pass) {
    for (size_t k = 0; k < pts.p.size(); ++k) {
      const auto& at = pts.p[pass ? pts.p.size() - 1 - k : k];
      Jet r = ref(t, x, at);
      if (!r.ok) {
        if (pass == 0) {
          for (int i = 0; i < NV; ++i) vars[i].set_value(at[i]);
          e.value();  // must not disturb later evaluations
        }
        continue;
      }
      for (int i = 0; i < NV; ++i) vars[i].set_value(at[i]);
      double got = e.value();
      run.transition();
      any = true;
      if (!close(got, r.v, r.scale)) {
        if (zero_pow(t, x, at, vars)) {
          continue;
        }
        run.fail(std::format("{}{}", form, show(t, x)),
                 std::format("at x={} y={} z={}: value {} instead of {}", at[0], at[1], at[2], got, r.v));
        return;
      }
    }
  }
  run.distinct(any);
}

void one(mc::Run& run, const Table& t, const Node& x, std::vector<V>& vars, const Points& pts) {
  run.eval();
  V e = build<V>(t, x, vars);
  check_points(run, t, x, e, vars, pts);
}

template <typename T>
concept Num = std::is_arithmetic_v<T>;

}  // namespace

int main(int argc, char** argv) {
  mc::Config cfg{"P05", "exploration",
                 "Leaves: constants 0, 1, -1, 2, -0.5 and variables x, y; all 19 unary and 9 binary operators; all "
                 "expressions of depth <= 2, all forms of writing depth-1 operators (raw numbers on either side, "
                 "compound assignment, shared operands), three-argument hypot; thorough: also all unary and all "
                 "binary-with-leaf expressions over a reduced depth-2 set. Each evaluated at every point of the grid, "
                 "forwards and backwards, on one graph.",
                 {"values are compared to 1e-9 relative to the largest intermediate magnitude",
                  "points where the formula or an intermediate result isn't finite, or where only the sign of a zero "
                  "or rounding decides, aren't compared"}};
  return mc::main(argc, argv, cfg, [](mc::Run& run) {
    Table t;
    std::vector<int> leaves;
    for (double c : {0.0, 1.0, -1.0, 2.0, -0.5}) leaves.push_back(t.add({CONST, -1, -1, c}));
    size_t nconst = leaves.size();
    for (int v = 0; v < 2; ++v) leaves.push_back(t.add({VAR, v}));
    auto ops = all_ops();
    auto d1 = depth1(t, leaves, ops);
    std::vector<int> small = leaves;
    small.insert(small.end(), d1.begin(), d1.end());
    Points pts;
    for (auto [a, b] : {std::pair{0.0, 0.0}, {0.7, -1.3}, {-0.6, 0.4}, {1.0, 2.0}, {0.0, -1.0}, {2.5, 0.3}}) {
      pts.p.push_back({a, b, 0.45});
    }
    Points few;
    few.p = {pts.p[1], pts.p[3], pts.p[0]};
    std::vector<V> vars(NV);
    std::vector<std::string> names;

    // Depth 0 and 1, with a wider grid
    Points grid;
    std::vector<double> vals{0, 1, -1, 0.5, -0.5, 2, -2, 3, 0.1, -0.9, 1e-3, 10, -7.25};
    for (double a : vals) {
      for (double b : vals) grid.p.push_back({a, b, 0.45});
    }
    for (int id : small) {
      if (!run.take()) continue;
      if (run.begin(show(t, t.n[id]))) one(run, t, t.n[id], vars, grid);
    }

    // Depth 1, every way of writing the operation
    for (int o = FIRST_BINARY; o <= LAST_BINARY; ++o) {
      Op op = static_cast<Op>(o);
      for (int a : leaves) {
        for (int b : leaves) {
          if (!run.take()) continue;
          Node x{op, a, b};
          std::string base = show(t, x);
          bool ca = t.n[a].op == CONST, cb = t.n[b].op == CONST;
          auto leaf = [&](int i) { return build<V>(t, t.n[i], vars); };
          auto go = [&](const char* form, V e) {
            if (run.begin(std::format("{}{}", form, base))) {
              run.eval();
              check_points(run, t, x, e, vars, grid, form);
            }
          };
          if (ca) {
            go("raw double left: ", apply2<V>(op, t.n[a].c, leaf(b)));
            if (t.n[a].c == std::floor(t.n[a].c)) {
              go("raw int left: ", apply2<V>(op, static_cast<int>(t.n[a].c), leaf(b)));
            }
            go("raw float left: ", apply2<V>(op, static_cast<float>(t.n[a].c), leaf(b)));
          }
          if (cb) {
            go("raw double right: ", apply2<V>(op, leaf(a), t.n[b].c));
            if (t.n[b].c == std::floor(t.n[b].c)) {
              go("raw int right: ", apply2<V>(op, leaf(a), static_cast<int>(t.n[b].c)));
            }
            go("raw float right: ", apply2<V>(op, leaf(a), static_cast<float>(t.n[b].c)));
          }
          if (op <= DIV) {
            V e = leaf(a);
            V r = leaf(b);
            auto assign = [&](auto&& rhs) {
              switch (op) {
                case ADD: e += rhs; break;
                case SUB: e -= rhs; break;
                case MUL: e *= rhs; break;
                default: e /= rhs; break;
              }
            };
            e.value();  // an evaluation before the compound assignment must not stick
            assign(r);
            go("compound: ", e);
            if (cb) {
              e = leaf(a);
              assign(t.n[b].c);
              go("compound raw: ", e);
            }
            if (a == b) {
              e = leaf(a);
              assign(e);
              go("compound with itself: ", e);
            }
          }
          // Re-assigned variables
          V e{7.0};
          e.value();
          e = apply2<V>(op, leaf(a), leaf(b));
          go("assigned: ", e);
          V moved = std::move(e);
          moved.value();
          go("moved: ", moved);
          V k;
          k.value();
          k = moved;
          go("copied: ", k);
          if (ca && cb) {
            continue;
          }
          // As 1x1 matrices
          slp::VariableMatrix<double> m{{apply2<V>(op, leaf(a), leaf(b))}};
          go("via a matrix: ", V{m});
          go("via a view: ", V{m.block(0, 0, 1, 1)});
        }
      }
    }
    // Assigning numbers
    if (run.take() && run.begin("number assignments")) {
      run.eval();
      V a{1.5}, b{2}, c{2.5f}, d;
      run.check(a.value() == 1.5 && b.value() == 2 && c.value() == 2.5 && d.value() == 0, "construction from numbers");
      V s = a + b;
      s.value();
      s = 4.0;
      run.check(s.value() == 4.0, "assignment of a number");
      s = 3;
      run.check(s.value() == 3.0, "assignment of an integer");
      d.set_value(-8);
      run.check(d.value() == -8, "set_value");
      V e = d * 2;
      V f = e;
      d = V{5.0};  // d now names another expression; e keeps the old variable
      run.check(e.value() == -16 && f.value() == -16 && d.value() == 5, "re-assigning a name changed an expression");
    }

    // hypot of three arguments, from every mix of leaves
    for (int a : leaves) {
      for (int b : leaves) {
        for (int c : leaves) {
          if (!run.take() || !run.begin(std::format("hypot({}, {}, {})", show(t, t.n[a]), show(t, t.n[b]), show(t, t.n[c])))) {
            continue;
          }
          run.eval();
          V x = build<V>(t, t.n[a], vars), y = build<V>(t, t.n[b], vars), z = build<V>(t, t.n[c], vars);
          V e = hypot(x, y, z);
          V q = hypot(z, x, y);
          for (auto& at : grid.p) {
            for (int i = 0; i < NV; ++i) vars[i].set_value(at[i]);
            double w = std::hypot(ref(t, t.n[a], at).v, ref(t, t.n[b], at).v, ref(t, t.n[c], at).v);
            run.transition();
            if (!close(e.value(), w, w) || !close(q.value(), w, w)) {
              run.fail(std::format("at x={} y={}: value {} instead of {}", at[0], at[1], e.value(), w));
              break;
            }
          }
        }
      }
    }

    // Depth 2, complete
    for (Op op : ops) {
      for (int a : small) {
        if (!run.take()) continue;
        run.beat();
        if (op <= LAST_UNARY) {
          Node x{op, a};
          if (run.begin(show(t, x))) one(run, t, x, vars, pts);
          continue;
        }
        for (int b : small) {
          Node x{op, a, b};
          if (run.replaying) {
            if (!run.begin(show(t, x))) continue;
          } else if ((b & 63) == 0) {
            run.set_key(std::format("near {}", show(t, x)));
          }
          one(run, t, x, vars, pts);
        }
        // Both operands one and the same object
        if (run.begin(std::format("shared operand: {}", show(t, Node{op, a, a})))) {
          run.eval();
          Node x{op, a, a};
          V s = build<V>(t, t.n[a], vars);
          V e = apply2<V>(op, s, s);
          check_points(run, t, x, e, vars, pts, "shared operand: ");
          if (op == MUL && a == small.back()) run.sample(show(t, x));
        }
      }
    }

    // Listed findings
    if (run.take()) {
      if (run.begin_case("pow(0, 0)")) {
        run.check(pow(V{0.0}, V{0.0}).value() == 1.0, "constant zero to the power zero is not one");
      }
      if (run.begin_case("pow(0, x) at x=0")) {
        vars[0].set_value(0);
        run.check(pow(V{0.0}, vars[0]).value() == 1.0, "constant zero to a variable power of zero is not one");
      }
    }

    if (run.thorough) {
      // Depth 3: reduced leaves and operators
      Table u;
      std::vector<int> lv{u.add({CONST, -1, -1, 0}), u.add({CONST, -1, -1, 2}), u.add({VAR, 0}), u.add({VAR, 1})};
      auto e1 = depth1(u, lv, ops);
      std::vector<int> s1 = lv;
      s1.insert(s1.end(), e1.begin(), e1.end());
      auto e2 = depth1(u, s1, ops);
      for (int c : e2) {
        if (!run.take()) continue;
        run.set_key(std::format("near depth 3 over {}", show(u, u.n[c])));
        for (Op op : ops) {
          if (op <= LAST_UNARY) {
            Node x{op, c};
            if (run.begin(run.replaying ? show(u, x) : std::string{"depth 3"})) one(run, u, x, vars, few);
          } else {
            for (int b : lv) {
              for (auto x : {Node{op, c, b}, Node{op, b, c}}) {
                if (run.replaying && !run.begin(show(u, x))) continue;
                one(run, u, x, vars, few);
              }
            }
          }
        }
      }
    }
  });
}
