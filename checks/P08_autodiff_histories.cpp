// P08: interleavings of derivative objects over one shared expression graph.
//@technique exhaustive enumeration of all operation histories up to a depth on the real code, against closed-form references
//@level exploration
//@note Every interleaving of create, evaluate, get, differentiate again, assign, build and destroy over four derivative
//@note objects sharing nodes; after every step results and all variables are compared with closed forms.
//@flags -O2
//@src autodiff/*.cpp
//@src util/*.cpp
#include <functional>
#include <memory>
#include <optional>

#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>

#include "mc.hpp"

using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;

namespace {

constexpr int NOBJ = 4;
enum Kind { CREATE, VALUE, GET, READ, DROP };  // per object
const char* const KIND[] = {"create", "value", "get", "read", "drop"};
const char* const OBJ[] = {"gradient", "jacobian", "hessian", "lower"};
// ops 0..19: object*5+kind; then
enum { SETX = NOBJ * 5, SETY, SETZ, EVAL, BUILD, AGAIN, REBUILD, OTHER, COUNT };
const char* const MISC[] = {"x:=", "y:=", "z:=", "eval", "build", "differentiate-again", "rebuild-graph", "differentiate-other"};

std::string name(int op) {
  return op < SETX ? std::string(KIND[op % 5]) + "-" + OBJ[op / 5] : MISC[op - SETX];
}

const double XS[] = {0.5, -1.25, 2.0}, YS[] = {1.5, 0.25, -0.75}, ZS[] = {-2.0, 0.75, 1.0};
constexpr double U = 1.75;

// u is differentiated by in every object but occurs in none of their functions.
// s = xy; f1 = sin(s) + s + exp(y * y); f2 = s s z; f3 = x + 2y; f4 = s + f3
struct World {
  V x, y, z, u, s, f1, f2, f3, f4;
  int xi = 0, yi = 0, zi = 0;
  std::unique_ptr<slp::Gradient<double>> grad;                              // f1 wrt y, u, x
  std::unique_ptr<slp::Jacobian<double>> jac;                               // f3, f2, f4, s wrt z, x, u, y
  std::unique_ptr<slp::Hessian<double, Eigen::Lower | Eigen::Upper>> hess;  // f1 wrt u, x, y
  std::unique_ptr<slp::Hessian<double, Eigen::Lower>> low;                  // f2 wrt x, y, z, u
  std::optional<VM> got[NOBJ];

  World() {
    x.set_value(XS[0]);
    y.set_value(YS[0]);
    z.set_value(ZS[0]);
    u.set_value(U);
    graph();
  }
  void graph() {
    s = x * y;
    f1 = sin(s) + s + exp(y * y);
    f2 = s * s * z;
    f3 = x + 2.0 * y;
    f4 = s + f3;
  }
  bool has(int o) const { return o == 0 ? !!grad : o == 1 ? !!jac : o == 2 ? !!hess : !!low; }

  bool enabled(int op) const {
    if (op < SETX) {
      int o = op / 5;
      switch (op % 5) {
        case CREATE: return !has(o);
        case READ: return got[o].has_value();
        default: return has(o);
      }
    }
    if (op == AGAIN) return got[0].has_value();
    return true;
  }

  Eigen::MatrixXd want(int o) const {
    double a = XS[xi], b = YS[yi], c = ZS[zi], p = a * b, k = std::cos(p) + 1, q = -std::sin(p);
    Eigen::MatrixXd m;
    switch (o) {
      case 0:
        m.resize(3, 1);
        m << k * a + 2 * b * std::exp(b * b), 0, k * b;
        break;
      case 1:
        m.resize(4, 4);
        m << 0, 1, 0, 2, p * p, 2 * p * b * c, 0, 2 * p * a * c, 0, b + 1, 0, a + 2, 0, b, 0, a;
        break;
      case 2:
        m.resize(3, 3);
        m << 0, 0, 0, 0, q * b * b, k + q * p, 0, k + q * p, q * a * a + (2 + 4 * b * b) * std::exp(b * b);
        break;
      default:
        m.resize(4, 4);
        m << 2 * b * b * c, 0, 0, 0, 4 * p * c, 2 * a * a * c, 0, 0, 2 * p * b, 2 * p * a, 0, 0, 0, 0, 0, 0;
        break;
    }
    return m;
  }

  std::string compare(const Eigen::MatrixXd& got, const Eigen::MatrixXd& want, const char* what) {
    if (got.rows() != want.rows() || got.cols() != want.cols()) return std::format("{} has the wrong shape", what);
    for (int i = 0; i < want.rows(); ++i) {
      for (int j = 0; j < want.cols(); ++j) {
        if (!(std::abs(got(i, j) - want(i, j)) <= 1e-11)) {
          return std::format("{}[{},{}] = {} not {} with x={} y={} z={}", what, i, j, got(i, j), want(i, j), XS[xi], YS[yi], ZS[zi]);
        }
      }
    }
    return "";
  }

  std::string step(int op) {
    if (op < SETX) {
      int o = op / 5;
      switch (op % 5) {
        case CREATE:
          if (o == 0) grad = std::make_unique<slp::Gradient<double>>(f1, VM{{y}, {u}, {x}});
          if (o == 1) jac = std::make_unique<slp::Jacobian<double>>(VM{{f3}, {f2}, {f4}, {s}}, VM{{z}, {x}, {u}, {y}});
          if (o == 2) hess = std::make_unique<slp::Hessian<double, Eigen::Lower | Eigen::Upper>>(f1, VM{{u}, {x}, {y}});
          if (o == 3) low = std::make_unique<slp::Hessian<double, Eigen::Lower>>(f2, VM{{x}, {y}, {z}, {u}});
          break;
        case VALUE: {
          Eigen::MatrixXd m;
          if (o == 0) m = Eigen::VectorXd{grad->value()};
          if (o == 1) m = Eigen::MatrixXd{jac->value()};
          if (o == 2) m = Eigen::MatrixXd{hess->value()};
          if (o == 3) m = Eigen::MatrixXd{low->value()};
          return compare(m, want(o), OBJ[o]);
        }
        case GET:
          if (o == 0) got[o].emplace(grad->get());
          if (o == 1) got[o].emplace(jac->get());
          if (o == 2) got[o].emplace(hess->get());
          if (o == 3) got[o].emplace(low->get());
          break;
        case READ: {
          Eigen::MatrixXd w = want(o);
          if (o == 3) w = Eigen::MatrixXd{w.selfadjointView<Eigen::Lower>()};
          Eigen::MatrixXd m = got[o]->value();
          if (o == 3) {  // only the lower triangle is promised
            for (int i = 0; i < 4 && m.rows() == 4; ++i) {
              for (int j = i + 1; j < 4; ++j) w(i, j) = m(i, j);
            }
          }
          return compare(m, w, "expression");
        }
        case DROP:
          if (o == 0) grad.reset();
          if (o == 1) jac.reset();
          if (o == 2) hess.reset();
          if (o == 3) low.reset();
          break;
      }
      return "";
    }
    double a = XS[xi], b = YS[yi], c = ZS[zi], p = a * b;
    auto scalar = [&](V& e, double w, const char* what) -> std::string {
      double g = e.value();
      return std::abs(g - w) <= 1e-11 ? "" : std::format("{} = {} not {} with x={} y={} z={}", what, g, w, a, b, c);
    };
    switch (op) {
      case SETX: x.set_value(XS[xi = (xi + 1) % 3]); break;
      case SETY: y.set_value(YS[yi = (yi + 1) % 3]); break;
      case SETZ: z.set_value(ZS[zi = (zi + 1) % 3]); break;
      case EVAL: {
        auto r = scalar(f2, p * p * c, "f2");
        if (r.empty()) r = scalar(f1, std::sin(p) + p + std::exp(b * b), "f1");
        return r;
      }
      case BUILD: {
        V t = s * f1 - f3;
        return scalar(t, p * (std::sin(p) + p + std::exp(b * b)) - (a + 2 * b), "new expression");
      }
      case AGAIN: {  // derivative of a derivative expression, discarded at once
        slp::Gradient<double> g{V{(*got[0])[2]}, VM{{x}, {y}}};
        double k = std::cos(p) + 1, q = -std::sin(p);
        return compare(Eigen::VectorXd{g.value()}, Eigen::Vector2d{q * b * b, k + q * p}, "gradient of gradient");
      }
      case OTHER: {  // a function of u, for which the objects left nothing behind
        V t = u * u * x + y;
        slp::Gradient<double> g{t, VM{{u}, {x}}};
        slp::Hessian<double, Eigen::Lower | Eigen::Upper> h{t, VM{{u}, {x}}};
        auto r = compare(Eigen::VectorXd{g.value()}, Eigen::Vector2d{2 * U * a, U * U}, "other gradient");
        if (r.empty()) r = compare(g.get().value(), Eigen::Vector2d{2 * U * a, U * U}, "other gradient expression");
        if (r.empty()) r = compare(Eigen::MatrixXd{h.value()}, Eigen::Matrix2d{{2 * a, 2 * U}, {2 * U, 0}}, "other Hessian");
        return r;
      }
      case REBUILD: graph(); break;  // existing objects keep the old nodes alive
    }
    return "";
  }

  std::string variables() {
    if (x.value() != XS[xi] || y.value() != YS[yi] || z.value() != ZS[zi] || u.value() != U) return "a variable changed";
    return "";
  }
};

std::string show(const std::vector<int>& h) {
  std::string s;
  for (int op : h) s += (s.empty() ? "" : ", ") + name(op);
  return s;
}

// Runs a whole history from scratch; false if it isn't executable
bool execute(mc::Run& run, const std::vector<int>& h) {
  World w;
  for (size_t i = 0; i < h.size(); ++i) {
    if (!w.enabled(h[i])) return false;
    std::string r = w.step(h[i]);
    run.transition();
    if (r.empty()) r = w.variables();
    if (!r.empty()) {
      run.fail(show(h), std::format("after {} steps: {}", i + 1, r));
      return true;
    }
  }
  // At the end everything that exists must be right, in both orders
  for (int round = 0; round < 2; ++round) {
    for (int i = 0; i < NOBJ; ++i) {
      int o = round ? NOBJ - 1 - i : i;
      for (int k : {(int)READ, (int)VALUE}) {
        if (!w.enabled(o * 5 + k)) continue;
        std::string r = w.step(o * 5 + k);
        if (!r.empty()) {
          run.fail(show(h), "at the end: " + r);
          return true;
        }
      }
    }
  }
  std::string r = w.step(EVAL);
  if (r.empty()) r = w.step(OTHER);
  if (!r.empty()) run.fail(show(h), "at the end: " + r);
  return true;
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config cfg{"P08", "exploration",
                 "All histories of exactly N operations (quick 5, thorough 6; shorter ones are their prefixes) over 28 "
                 "operations: create/value/get/read/drop of a gradient, a Jacobian with linear, quadratic and nonlinear rows, "
                 "a full and a lower Hessian; three variable assignments; evaluation; building, differentiating derivative "
                 "expressions, rebuilding the graph. All objects are evaluated again at the end of each history.",
                 {}};
  return mc::main(argc, argv, cfg, [](mc::Run& run) {
    const int depth = run.thorough ? 6 : 5;
    std::vector<int> h;
    std::function<void()> rec = [&] {
      if ((int)h.size() == 2) {
        if (!run.take()) return;
        if (!run.replaying) run.set_key(show(h) + ", ...");
      }
      if ((int)h.size() == depth) {
        if (run.replaying && !run.begin(show(h))) return;
        run.eval();
        run.distinct();
        execute(run, h);
        run.beat();
        return;
      }
      // Which operations are enabled depends on the structure only
      bool has[NOBJ] = {}, got[NOBJ] = {};
      for (int op : h) {
        if (op >= SETX) continue;
        if (op % 5 == CREATE) has[op / 5] = true;
        if (op % 5 == DROP) has[op / 5] = false;
        if (op % 5 == GET) got[op / 5] = true;
      }
      for (int op = 0; op < COUNT; ++op) {
        if (op < SETX) {
          int o = op / 5, k = op % 5;
          if (k == CREATE ? has[o] : k == READ ? !got[o] : !has[o]) continue;
        } else if (op == AGAIN && !got[0]) {
          continue;
        }
        h.push_back(op);
        rec();
        h.pop_back();
      }
    };
    rec();
    // Longer histories of the steps that touch shared scratch state
    std::vector<int> prefix{0 * 5 + CREATE, 1 * 5 + CREATE, 2 * 5 + CREATE, 3 * 5 + CREATE};
    std::vector<int> alphabet{0 * 5 + VALUE, 1 * 5 + VALUE, 2 * 5 + VALUE, 3 * 5 + VALUE, 0 * 5 + GET, 1 * 5 + GET, 2 * 5 + GET, SETX, SETY, SETZ, BUILD, REBUILD, EVAL, OTHER};
    const int len = run.thorough ? 6 : 5;
    std::function<void()> deep = [&] {
      if ((int)h.size() == 2 && !run.take()) return;
      if ((int)h.size() == len) {
        std::vector<int> all = prefix;
        all.insert(all.end(), h.begin(), h.end());
        if (run.replaying && !run.begin(show(all))) return;
        if (!run.replaying) run.set_key(show(all));
        run.eval();
        run.distinct();
        execute(run, all);
        return;
      }
      for (int op : alphabet) {
        h.push_back(op);
        deep();
        h.pop_back();
      }
    };
    deep();
    run.sample("create-gradient, get-gradient, create-hessian, x:=, differentiate-again");
  });
}
