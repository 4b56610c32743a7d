// P06: gradients, Jacobians and Hessians against exact second-order jets.
//@technique exhaustive enumeration of bounded programs (expressions, shared graphs, row sets) on the real code against an exact forward-mode oracle
//@level exploration
//@note Every expression of depth <= 2 and every straight-line program of 3 steps (all sharing patterns), evaluated and
//@note expression derivatives, every row combination for Jacobians, at every grid point.
//@flags -O2
//@src autodiff/*.cpp
//@src util/*.cpp
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>

#include "exprlang.hpp"
#include "mc.hpp"

using namespace lang;
using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;
using Pt = std::array<double, NV>;

namespace {

// pow(0, c <= 0) and pow(0, variable): decided by P05
bool murky(const Table& t, const Node& x, const Pt& at) {
  if (x.op == CONST || x.op == VAR) return false;
  if (murky(t, t.n[x.a], at) || (x.op > LAST_UNARY && murky(t, t.n[x.b], at))) return true;
  if (x.op != POW) return false;
  Jet b = ref(t, t.n[x.b], at);
  return ref(t, t.n[x.a], at).v == 0 && (b.var || b.v <= 0);
}

VM column(const std::vector<V>& vars, const std::vector<int>& wrt) {
  VM m{slp::detail::empty, static_cast<int>(wrt.size()), 1};
  for (size_t i = 0; i < wrt.size(); ++i) m[static_cast<int>(i)] = vars[wrt[i]];
  return m;
}

void set(std::vector<V>& vars, const Pt& at) {
  for (int i = 0; i < NV; ++i) vars[i].set_value(at[i]);
}

const std::vector<Pt> PTS{{0.7, -1.3, 0.2}, {0.3, 0.4, 1.5}, {1.1, 2.0, -0.7}, {-0.6, 0.9, 0.4}, {0.0, 0.5, 1.0}};

// All derivatives of one expression
void one(mc::Run& run, const Table& t, const Node& x, const V& e, std::vector<V>& vars, const std::vector<int>& wrt) {
  run.eval();
  auto fail = [&](std::string what) {
    std::string w;
    for (int i : wrt) w += "xyzw"[i];
    run.fail(show(t, x), std::format("wrt {}: {}", w, what));
  };
  std::vector<Jet> jets;
  bool any = false;
  for (auto& p : PTS) {
    jets.push_back(ref(t, x, p));
    if (jets.back().ok && jets.back().dok && murky(t, x, p)) jets.back().dok = false;
    any |= jets.back().dok && jets.back().ok;
  }
  if (!any) return;
  run.distinct();
  set(vars, PTS[0]);
  int n = static_cast<int>(wrt.size());
  VM w = column(vars, wrt);
  slp::Gradient<double> grad{e, w};
  slp::Hessian<double, Eigen::Lower | Eigen::Upper> hess{e, w};
  slp::Hessian<double, Eigen::Lower> low{e, w};
  VM ge = grad.get(), he = hess.get();
  if (ge.rows() != n || ge.cols() != 1 || he.rows() != n || he.cols() != n) return fail("derivative has the wrong shape");
  for (size_t k = 0; k < PTS.size(); ++k) {
    const Jet& j = jets[k];
    if (!j.ok || !j.dok) continue;
    run.transition();
    set(vars, PTS[k]);
    auto at = [&] { return std::format("at x={} y={} z={}", PTS[k][0], PTS[k][1], PTS[k][2]); };
    double s2 = j.scale * j.scale;
    Eigen::SparseVector<double> g = grad.value();
    Eigen::SparseMatrix<double> h = hess.value();
    Eigen::SparseMatrix<double> l = low.value();
    if (g.rows() != n || h.rows() != n || h.cols() != n || l.rows() != n || l.cols() != n) return fail("value has the wrong shape");
    for (int a = 0; a < n; ++a) {
      double want = j.g[wrt[a]];
      if (!close(g.coeff(a), want, j.scale)) return fail(std::format("gradient[{}] = {} not {} {}", a, g.coeff(a), want, at()));
      double got = ge[a].value();
      if (!close(got, want, j.scale)) return fail(std::format("gradient expression[{}] = {} not {} {}", a, got, want, at()));
      for (int b = 0; b < n; ++b) {
        double hw = j.h[wrt[a]][wrt[b]];
        if (!close(h.coeff(a, b), hw, s2)) return fail(std::format("Hessian[{},{}] = {} not {} {}", a, b, h.coeff(a, b), hw, at()));
        double le = b <= a ? hw : 0;
        if (!close(l.coeff(a, b), le, s2)) return fail(std::format("lower Hessian[{},{}] = {} not {} {}", a, b, l.coeff(a, b), le, at()));
        double he_ab = he[a, b].value();
        if (!close(he_ab, hw, s2)) return fail(std::format("Hessian expression[{},{}] = {} not {} {}", a, b, he_ab, hw, at()));
      }
    }
  }
}

// Builds a straight-line program with sharing: every table entry is one node
V build_shared(const Table& t, int id, std::vector<V>& memo, std::vector<char>& have, const std::vector<V>& vars) {
  if (have[id]) return memo[id];
  const Node& x = t.n[id];
  V v = x.op == CONST      ? V{x.c}
        : x.op == VAR      ? vars[x.a]
        : x.op <= LAST_UNARY ? apply1<V>(x.op, build_shared(t, x.a, memo, have, vars))
                           : V{apply2<V>(x.op, build_shared(t, x.a, memo, have, vars), build_shared(t, x.b, memo, have, vars))};
  memo[id] = v;
  have[id] = 1;
  return v;
}

void jacobian(mc::Run& run, const Table& t, const std::vector<int>& rows, std::vector<V>& vars, const std::vector<int>& wrt,
              bool shared) {
  run.eval();
  std::string name = "Jacobian of [";
  for (int r : rows) name += show(t, t.n[r]) + ", ";
  name += "] wrt ";
  for (int i : wrt) name += "xyzw"[i];
  if (!run.begin(name)) return;
  set(vars, PTS[0]);
  int m = static_cast<int>(rows.size()), n = static_cast<int>(wrt.size());
  VM f{slp::detail::empty, m, 1};
  std::vector<V> memo(t.n.size());
  std::vector<char> have(t.n.size());
  for (int i = 0; i < m; ++i) f[i] = shared ? build_shared(t, rows[i], memo, have, vars) : build<V>(t, t.n[rows[i]], vars);
  slp::Jacobian<double> jac{f, column(vars, wrt)};
  VM je = jac.get();
  if (je.rows() != m || je.cols() != n) return run.fail(name, "expression has the wrong shape");
  run.distinct();
  for (auto& p : PTS) {
    set(vars, p);
    run.transition();
    Eigen::SparseMatrix<double> J = jac.value();
    if (J.rows() != m || J.cols() != n) return run.fail(name, "value has the wrong shape");
    for (int i = 0; i < m; ++i) {
      Jet j = ref(t, t.n[rows[i]], p);
      if (!j.ok || !j.dok || murky(t, t.n[rows[i]], p)) continue;
      for (int k = 0; k < n; ++k) {
        double want = j.g[wrt[k]], got = J.coeff(i, k), gote = je[i, k].value();
        if (!close(got, want, j.scale)) return run.fail(name, std::format("[{},{}] = {} not {} at x={} y={}", i, k, got, want, p[0], p[1]));
        if (!close(gote, want, j.scale)) return run.fail(name, std::format("expression [{},{}] = {} not {} at x={} y={}", i, k, gote, want, p[0], p[1]));
      }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config cfg{"P06", "exploration",
                 "Gradient, full and lower Hessian, evaluated and as expressions, of all expressions of depth <= 2 over "
                 "constants {2, -0.5, 0} (thorough: {0, 1, -1, 2, -0.5}), x, y and all operators, wrt (y, z, x); all "
                 "straight-line programs of three steps with every sharing pattern; Jacobians of all 1-3-row sets over 24 "
                 "row kinds and all orders of all variable subsets; at five points each.",
                 {"reference derivatives are computed in double precision; points where the function is not twice "
                  "differentiable are not judged"}};
  return mc::main(argc, argv, cfg, [](mc::Run& run) {
    std::vector<V> vars(NV);
    // 1. All expressions of depth <= 2
    {
      Table t;
      std::vector<int> leaves;
      for (double c : run.thorough ? std::vector{0.0, 1.0, -1.0, 2.0, -0.5} : std::vector{2.0, -0.5, 0.0}) leaves.push_back(t.add({CONST, -1, -1, c}));
      for (int v = 0; v < 2; ++v) leaves.push_back(t.add({VAR, v}));
      auto ops = all_ops();
      auto d1 = depth1(t, leaves, ops);
      std::vector<int> small = leaves;
      small.insert(small.end(), d1.begin(), d1.end());
      std::vector<std::vector<int>> orders{{0}, {1}, {2}, {0, 1}, {1, 0}, {2, 0}, {0, 2}, {0, 1, 2}, {1, 2, 0}, {2, 1, 0}};
      for (int id : small) {
        if (!run.take() || !run.begin(show(t, t.n[id]))) continue;
        for (auto& o : orders) one(run, t, t.n[id], build<V>(t, t.n[id], vars), vars, o);
      }
      const std::vector<int> wrt{1, 2, 0};
      for (Op op : ops) {
        for (int a : small) {
          if (!run.take()) continue;
          if (op <= LAST_UNARY) {
            Node x{op, a};
            if (run.begin(show(t, x))) one(run, t, x, build<V>(t, x, vars), vars, wrt);
            continue;
          }
          if (!run.replaying) run.set_key(std::format("{} with left operand {}", OP_NAME[op], show(t, t.n[a])));
          for (int b : small) {
            Node x{op, a, b};
            if (run.replaying && !run.begin(show(t, x))) continue;
            one(run, t, x, build<V>(t, x, vars), vars, wrt);
          }
        }
      }
    }
    // 2. Straight-line programs: every sharing pattern
    {
      std::vector<Op> ops = run.thorough ? std::vector{SIN, EXP, ABS, LOG, ADD, SUB, MUL, DIV, POW, ATAN2, HYPOT, MAX}
                                         : std::vector{SIN, EXP, ADD, SUB, MUL, DIV};
      const std::vector<int> wrt{1, 0};
      Table t;
      std::vector<int> leaves{t.add({CONST, -1, -1, 2.0}), t.add({VAR, 0}), t.add({VAR, 1})};
      auto steps = [&](int avail) {
        std::vector<Node> v;
        for (Op op : ops) {
          for (int a = 0; a < avail; ++a) {
            if (op <= LAST_UNARY) {
              v.push_back({op, a});
            } else {
              for (int b = 0; b < avail; ++b) v.push_back({op, a, b});
            }
          }
        }
        return v;
      };
      auto s1 = steps(3), s2 = steps(4), s3 = steps(5);
      for (auto& n1 : s1) {
        for (auto& n2 : s2) {
          if (!run.take()) continue;
          Table u = t;
          u.add(n1);
          u.add(n2);
          if (!run.replaying) run.set_key("shared graphs over " + show(u, n2) + " and " + show(u, n1));
          for (auto& n3 : s3) {
            // The last step uses both others, or n2 uses n1: otherwise seen before
            bool uses2 = n3.a == 4 || n3.b == 4, uses1 = n3.a == 3 || n3.b == 3 || n2.a == 3 || n2.b == 3;
            if (!uses2 || !uses1) continue;
            Table w = u;
            int id = w.add(n3);
            if (run.replaying && !run.begin(show(w, n3))) continue;
            std::vector<V> memo(w.n.size());
            std::vector<char> have(w.n.size());
            one(run, w, n3, build_shared(w, id, memo, have, vars), vars, wrt);
          }
        }
      }
    }
    // 3. Jacobians: every combination of row kinds, every order of every subset of variables
    {
      Table t;
      int zero = t.add({CONST, -1, -1, 0.0}), two = t.add({CONST, -1, -1, 2.0}), x = t.add({VAR, 0}), y = t.add({VAR, 1}), z = t.add({VAR, 2});
      int xy = t.add({MUL, x, y}), sx = t.add({SIN, x}), x2 = t.add({MUL, two, x}), sum = t.add({ADD, x, y});
      std::vector<int> kinds{zero, two, x, y, z, x2, sum, t.add({SUB, x, x}), t.add({NEG, z}), xy, t.add({MUL, x, x}), t.add({MUL, sum, sum}),
                             t.add({POW, y, two}), sx, t.add({MUL, sx, y}), t.add({ADD, sum, z}), t.add({ADD, xy, z}), t.add({DIV, x, two}),
                             t.add({DIV, two, y}), t.add({MUL, xy, z}), t.add({EXP, xy}), t.add({ADD, sx, sx}), t.add({MUL, xy, xy}),
                             t.add({SUB, t.add({MUL, sum, two}), t.add({MUL, z, two})})};
      std::vector<std::vector<int>> orders;
      for (int a = 0; a < NV; ++a) {
        orders.push_back({a});
        for (int b = 0; b < NV; ++b) {
          if (b == a) continue;
          orders.push_back({a, b});
          for (int c = 0; c < NV; ++c) {
            if (c != a && c != b) orders.push_back({a, b, c});
          }
        }
      }
      for (int a : kinds) {
        for (int b : kinds) {
          if (!run.take()) continue;
          for (auto& o : orders) {
            if (b == kinds[0]) jacobian(run, t, {a}, vars, o, true);
            jacobian(run, t, {a, b}, vars, o, true);
            if (run.thorough) {
              for (int c : kinds) jacobian(run, t, {a, b, c}, vars, o, true);
            }
          }
          if (!run.thorough) {
            for (int c : kinds) jacobian(run, t, {a, b, c}, vars, {2, 0, 1}, true);
          }
        }
      }
    }
  });
}
