// P07: expression types. Every expression of bounded depth: the reported type
// bounds the real degree, and is exactly what the degree lattice gives.
//@technique exhaustive enumeration of bounded programs (expressions) on the real code against an exact degree oracle
//@level exploration
//@note Soundness is decided with exact second-order derivatives of the denoted function at every grid point for every
//@note expression of depth <= 2 (all operators) and depth <= 3 (polynomial operators); exactness against the degree lattice.
//@flags -O2
//@src util/pool.cpp
#include <optional>

#include <sleipnir/autodiff/variable.hpp>

#include "exprlang.hpp"
#include "mc.hpp"

using namespace lang;
using V = slp::Variable<double>;
using enum slp::ExpressionType;
using T = slp::ExpressionType;

namespace {

// Names independent of the library's own formatter
inline const char* to_message(T t) {
  switch (t) {
    case NONE: return "none";
    case CONSTANT: return "constant";
    case LINEAR: return "linear";
    case QUADRATIC: return "quadratic";
    default: return "nonlinear";
  }
}

struct Typed {
  T type;
  bool folded;  // a number known while building
  double c;
  bool bad = false;  // depends on a number that isn't finite or isn't defined
};

bool is(const Typed& x, double v) { return x.type == CONSTANT && x.c == v; }

// The degree lattice, with the neutral and absorbing constants
Typed rule(Op op, const Typed& l, const Typed& r) {
  auto num = [&](double v) { return Typed{CONSTANT, true, v}; };
  bool both = l.type == CONSTANT && (op <= LAST_UNARY || r.type == CONSTANT);
  switch (op) {
    case PLUS: return l;
    case NEG: return l.type == CONSTANT ? num(-l.c) : l;
    case ADD:
    case SUB:
      if (both) return num(op == ADD ? l.c + r.c : l.c - r.c);
      return {std::max(l.type, r.type), false, 0};
    case MUL:
      if (is(l, 0) || is(r, 0)) return num(0);
      if (both) return num(l.c * r.c);
      if (l.type == CONSTANT) return r;
      if (r.type == CONSTANT) return l;
      return {l.type == LINEAR && r.type == LINEAR ? QUADRATIC : NONLINEAR, false, 0};
    case DIV:
      if (is(l, 0)) return num(0);
      if (both) return num(l.c / r.c);
      if (r.type == CONSTANT) return l;
      return {NONLINEAR, false, 0};
    case POW:
      if (is(l, 0) || is(l, 1)) return l;
      if (is(r, 0)) return num(1);
      if (is(r, 1)) return l;
      if (both) return num(std::pow(l.c, r.c));
      if (is(r, 2) && l.type == LINEAR) return {QUADRATIC, false, 0};
      return {NONLINEAR, false, 0};
    default:
      break;
  }
  if (both) {
    if (op <= LAST_UNARY) {
      Jet j;
      j.v = l.c;
      return num(ref1(op, j).v);
    }
    Jet a, b;
    a.v = l.c;
    b.v = r.c;
    return num(ref2(op, a, b).v);
  }
  return {NONLINEAR, false, 0};
}

Typed expected(const Table& t, const Node& x) {
  if (x.op == CONST) return {CONSTANT, true, x.c};
  if (x.op == VAR) return {LINEAR, false, 0};
  Typed l = expected(t, t.n[x.a]);
  Typed r = x.op > LAST_UNARY ? expected(t, t.n[x.b]) : Typed{CONSTANT, true, 0};
  Typed w = rule(x.op, l, r);
  w.bad = l.bad || r.bad || (w.type == CONSTANT && !std::isfinite(w.c)) || (x.op == POW && is(l, 0));
  return w;
}

void one(mc::Run& run, const Table& t, const Node& x, std::vector<V>& vars,
         const std::vector<std::array<double, NV>>& pts, bool exact) {
  run.eval();
  Typed w = expected(t, x);
  if (w.bad) {
    return;  // the value itself is decided by P05
  }
  V e = build<V>(t, x, vars);
  T type = e.type();
  auto fail = [&](std::string what) { run.fail(show(t, x), what); };
  // Soundness: compare the exact derivatives between points
  std::optional<Jet> first;
  bool nontrivial = false;
  for (auto& at : pts) {
    Jet j = ref(t, x, at);
    if (!j.dok || !j.ok) {
      continue;
    }
    nontrivial = true;
    run.transition();
    double tol = 1e-7 * std::max(1.0, j.scale);
    for (int a = 0; a < NV; ++a) {
      if (type <= CONSTANT && std::abs(j.g[a]) > tol) {
        return fail(std::format("reported {} but has slope {} at x={} y={}", to_message(type), j.g[a], at[0], at[1]));
      }
      for (int b = 0; b < NV; ++b) {
        if (type <= LINEAR && std::abs(j.h[a][b]) > tol) {
          return fail(std::format("reported {} but has curvature {} at x={} y={}", to_message(type), j.h[a][b], at[0], at[1]));
        }
        if (type == QUADRATIC && first && std::abs(first->h[a][b] - j.h[a][b]) > tol + 1e-7 * first->scale) {
          return fail(std::format("reported {} but its curvature varies", to_message(type)));
        }
      }
    }
    if (!first) first = j;
  }
  if (type == NONE) {
    return fail("reported none");
  }
  run.distinct(nontrivial);
  if (exact) {
    if (type != w.type) {
      fail(std::format("reported {} instead of {}", to_message(type), to_message(w.type)));
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config cfg{"P07", "exploration",
                 "All expressions of depth <= 2 over constants 0, 1, -1, 2, -0.5, variables x, y and all operators; all "
                 "polynomial-operator expressions of depth 3 with a leaf operand (thorough: with a depth-1 operand) over "
                 "0, 1, 2, x, y; soundness judged by exact derivatives at grid points, exactness by the degree lattice.",
                 {"a function that looks like a lower degree at every grid point is taken to be of that degree"}};
  return mc::main(argc, argv, cfg, [](mc::Run& run) {
    Table t;
    std::vector<int> leaves;
    for (double c : {0.0, 1.0, -1.0, 2.0, -0.5}) leaves.push_back(t.add({CONST, -1, -1, c}));
    for (int v = 0; v < 2; ++v) leaves.push_back(t.add({VAR, v}));
    auto ops = all_ops();
    auto d1 = depth1(t, leaves, ops);
    std::vector<int> small = leaves;
    small.insert(small.end(), d1.begin(), d1.end());
    std::vector<std::array<double, NV>> pts{{0.7, -1.3, 0}, {0.3, 0.4, 0}, {1.1, 2.0, 0}, {-0.6, 0.9, 0}};
    std::vector<V> vars(NV);
    for (int i = 0; i < NV; ++i) vars[i].set_value(pts[0][i]);
    for (int id : small) {
      if (run.take() && run.begin(show(t, t.n[id]))) one(run, t, t.n[id], vars, pts, true);
    }
    for (Op op : ops) {
      for (int a : small) {
        if (!run.take()) continue;
        if (op <= LAST_UNARY) {
          Node x{op, a};
          if (run.begin(show(t, x))) one(run, t, x, vars, pts, true);
          continue;
        }
        if (!run.replaying) run.set_key(std::format("{} with left operand {}", OP_NAME[op], show(t, t.n[a])));
        for (int b : small) {
          Node x{op, a, b};
          if (run.replaying && !run.begin(show(t, x))) continue;
          one(run, t, x, vars, pts, true);
        }
      }
    }
    // Polynomial operators, deeper
    Table u;
    std::vector<int> lv;
    for (double c : {0.0, 1.0, 2.0}) lv.push_back(u.add({CONST, -1, -1, c}));
    for (int v = 0; v < 2; ++v) lv.push_back(u.add({VAR, v}));
    std::vector<Op> poly{NEG, ABS, ADD, SUB, MUL, DIV, POW};
    auto e1 = depth1(u, lv, poly);
    std::vector<int> s1 = lv;
    s1.insert(s1.end(), e1.begin(), e1.end());
    auto e2 = depth1(u, s1, poly);
    for (int a : e2) {
      if (!run.take()) continue;
      if (!run.replaying) run.set_key(std::format("depth 3 over {}", show(u, u.n[a])));
      for (Op op : poly) {
        if (op <= LAST_UNARY) {
          Node x{op, a};
          if (run.replaying && !run.begin(show(u, x))) continue;
          one(run, u, x, vars, pts, true);
          continue;
        }
        for (int b : run.thorough ? s1 : lv) {
          for (auto x : {Node{op, a, b}, Node{op, b, a}}) {
            if (run.replaying && !run.begin(show(u, x))) continue;
            one(run, u, x, vars, pts, true);
          }
        }
      }
      if (a == e2[5000]) run.sample(show(u, u.n[a]));
    }
  });
}
