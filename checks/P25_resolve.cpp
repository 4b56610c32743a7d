// P25: re-solving depends only on the problem and starting point, not on history.
//@technique exhaustive enumeration of histories up to a depth over solving (to the end, cut short, stopped), moving starting values and parameters, adding constraints and variables, replacing the cost, other problems and derivatives, and moving the problem; every solve is compared, iterate by iterate, with a freshly built problem
//@level exploration
//@note Every history of up to 4 (thorough: 5) of 15 operations from 4 problems; each ends with a solve.
//@src **/*.cpp
//@flags -O2 -DNDEBUG
#include <memory>

#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>

#include "problang.hpp"

#include "mc.hpp"

using namespace problang;

namespace {

using slp::ExitStatus;
using Info = slp::IterationInfo<double>;

// Functions of x, y and a parameter p
struct PFn {
  const char* name;
  std::function<Var(const Var&, const Var&, const Var&)> ad;
  std::function<double(double, double, double)> at;
};
#define PF(NAME, EXPR)                                                                  \
  PFn {                                                                                 \
    NAME, [](const auto& x, const auto& y, const auto& p) -> Var { (void)x, (void)y, (void)p; return EXPR; }, \
        [](auto x, auto y, auto p) -> double { (void)x, (void)y, (void)p; return EXPR; }          \
  }

const std::vector<PFn> cost_menu{
    PF("(x-p)^2+(y+2)^2", (x - p) * (x - p) + (y + 2.0) * (y + 2.0)),
    PF("p^2 x^2+exp(y)-y", p * p * x * x + exp(y) - y),
    PF("x-log(x)+y^2", x - log(x) + y * y),
    PF("x+p y", x + p * y),
};
const std::vector<PFn> eq_menu{
    PF("x^2+y^2=4", x * x + y * y - 4.0),
    PF("x=p y", x - p * y),
};
const std::vector<PFn> ineq_menu{
    PF("x<=p", p - x),
    PF("x>=-1", x + 1.0),
    PF("x^2+y^2<=4", 4.0 - x * x - y * y),
    PF("p x+y>=-3", p * x + y + 3.0),
};

struct Model {
  int cost = -1;
  std::vector<int> eq, ineq;
  double p = 1.5;
  Vec2 at{0.5, -0.5};
  std::vector<bool> vars{false, true};  // which kind each decision variable in order of creation is: true: used
};

struct Built25 {
  std::unique_ptr<slp::Problem<double>> problem = std::make_unique<slp::Problem<double>>();
  Var x, y, p;
  std::vector<Var> unused;
  std::vector<std::pair<Var, const PFn*>> exprs;

  Built25() : x{problem->decision_variable()}, y{problem->decision_variable()} {}
  void cost(const PFn& f) {
    Var e = f.ad(x, y, p);
    problem->minimize(e);
    exprs.emplace_back(e, &f);
  }
  void eq(const PFn& f) {
    Var e = f.ad(x, y, p);
    problem->subject_to(e == 0.0);
    exprs.emplace_back(e, &f);
  }
  void ineq(const PFn& f) {
    Var e = f.ad(x, y, p);
    problem->subject_to(e >= 0.0);
    exprs.emplace_back(e, &f);
  }
  void extra() {
    unused.push_back(problem->decision_variable());
    unused.back().set_value(7.0);
  }
};

struct Solved {
  ExitStatus status{};
  std::vector<std::vector<double>> iterates;
  Vec2 p{0, 0};
};

enum Kind { FULL, SHORT, STOPPED, FEASIBLE };

Solved solve(Built25& b, Kind kind) {
  Solved r;
  slp::Options o;
  o.max_iterations = kind == SHORT ? 2 : 60;
  o.feasible_ipm = kind == FEASIBLE;
  b.problem->add_callback([&](const Info& info) -> bool {
    std::vector<double> v;
    for (auto* vec : {&info.x, &info.s, &info.y, &info.z})
      for (double e : *vec) v.push_back(e);
    r.iterates.push_back(std::move(v));
    return kind == STOPPED && r.iterates.size() == 2;
  });
  r.status = b.problem->solve(o);
  b.problem->clear_callbacks();
  r.p = {b.x.value(), b.y.value()};
  return r;
}

constexpr std::string_view letters = "SUTKabcEIFPODMW";

void run_word(mc::Run& run, int base, const std::string& word) {
  std::string key = std::format("base {} | {}", base, word);
  if (!run.begin_case(key)) return;
  run.state();
  run.distinct();
  run.trace();
  Built25 b;
  Model m;
  auto set_cost = [&](int c) {
    m.cost = c;
    b.cost(cost_menu[c]);
  };
  auto add_eq = [&] {
    int i = m.eq.size() % eq_menu.size();
    m.eq.push_back(i);
    b.eq(eq_menu[i]);
  };
  auto add_ineq = [&] {
    int i = m.ineq.size() % ineq_menu.size();
    m.ineq.push_back(i);
    b.ineq(ineq_menu[i]);
  };
  int extra = 0;
  auto move_to = [&](Vec2 at) {
    m.at = at;
    b.x.set_value(at[0]);
    b.y.set_value(at[1]);
  };
  b.p.set_value(m.p);
  move_to(m.at);
  set_cost(base == 3 ? 2 : 0);
  if (base == 1) add_eq();
  if (base >= 2) add_ineq();

  // Another problem, whose values must not change
  Built25 other;
  other.p.set_value(0.25);
  other.cost(cost_menu[0]);
  other.ineq(ineq_menu[2]);
  other.x.set_value(0.125);
  Vec2 other_at{0.125, 0.0};

  auto do_solve = [&](Kind kind, char letter) {
    Built25 fresh;
    fresh.p.set_value(m.p);
    fresh.x.set_value(m.at[0]);
    fresh.y.set_value(m.at[1]);
    for (int i = 0; i < extra; ++i) fresh.extra();
    fresh.cost(cost_menu[m.cost]);
    for (int i : m.eq) fresh.eq(eq_menu[i]);
    for (int i : m.ineq) fresh.ineq(ineq_menu[i]);
    auto want = solve(fresh, kind);
    auto got = solve(b, kind);
    run.transition(got.iterates.size());
    auto fail = [&](std::string what) { run.fail(key, std::format("{}: {}", letter, what)); };
    if (got.status != want.status) fail(std::format("{} instead of {}", got.status, want.status));
    if (got.iterates.size() != want.iterates.size()) {
      fail(std::format("{} iterations instead of {}", got.iterates.size(), want.iterates.size()));
    } else {
      for (size_t k = 0; k < got.iterates.size(); ++k) {
        auto &g = got.iterates[k], &w = want.iterates[k];
        bool ok = g.size() == w.size();
        for (size_t i = 0; ok && i < g.size(); ++i) ok = g[i] == w[i] || std::abs(g[i] - w[i]) <= 1e-9 * (1 + std::abs(w[i]));
        if (!ok) {
          fail(std::format("iterate {} differs", k));
          break;
        }
      }
    }
    if (!((got.p - want.p).lpNorm<Eigen::Infinity>() <= 1e-9 * (1 + want.p.lpNorm<Eigen::Infinity>())) && got.p != want.p && want.p.allFinite())
      fail(std::format("({}, {}) instead of ({}, {})", got.p[0], got.p[1], want.p[0], want.p[1]));
    if (got.iterates.empty() && got.p != m.at) fail(std::format("moved from ({}, {}) to ({}, {}) without an iteration", m.at[0], m.at[1], got.p[0], got.p[1]));
    m.at = got.p;
    if (b.p.value() != m.p) fail(std::format("the parameter became {}", b.p.value()));
    for (auto& u : b.unused)
      if (std::isfinite(got.p[0]) && !(std::abs(u.value() - 7.0) < 1e-6) && got.status == ExitStatus::SUCCESS && m.ineq.empty() && m.eq.empty())
        fail(std::format("an unused variable became {}", u.value()));
  };
  auto check_values = [&](char letter) {
    auto fail = [&](std::string what) { run.fail(key, std::format("{}: {}", letter, what)); };
    for (auto& [e, f] : b.exprs) {
      double v = e.value(), w = f->at(m.at[0], m.at[1], m.p);
      if (!(v == w || std::abs(v - w) <= 1e-9 * (1 + std::abs(w)) || (std::isnan(v) && std::isnan(w))))
        fail(std::format("{} has value {} instead of {}", f->name, v, w));
    }
    if (b.x.value() != m.at[0] || b.y.value() != m.at[1]) fail("the variables lost their values");
    if (other.x.value() != other_at[0] || other.y.value() != other_at[1] || other.p.value() != 0.25) fail("the other problem's values changed");
  };

  for (char c : word + "S") {
    switch (c) {
      case 'S': do_solve(FULL, c); break;
      case 'U': do_solve(FEASIBLE, c); break;
      case 'T': do_solve(SHORT, c); break;
      case 'K': do_solve(STOPPED, c); break;
      case 'a': move_to({0, 0}); break;
      case 'b': move_to({1.25, 0.75}); break;
      case 'c': move_to({-3, 2}); break;
      case 'E': add_eq(); break;
      case 'I': add_ineq(); break;
      case 'F': set_cost((m.cost + 1) % cost_menu.size()); break;
      case 'P':
        m.p = m.p == 1.5 ? 0.0 : m.p == 0.0 ? -2.0 : 1.5;
        b.p.set_value(m.p);
        break;
      case 'O': {
        auto r = solve(other, FULL);
        other_at = r.p;
        // One that lives only now
        Built25 gone;
        gone.cost(cost_menu[1]);
        gone.eq(eq_menu[0]);
        solve(gone, SHORT);
        break;
      }
      case 'D':
        ++extra;
        b.extra();
        break;
      case 'M': {
        auto moved = std::make_unique<slp::Problem<double>>(std::move(*b.problem));
        b.problem = std::move(moved);
        break;
      }
      case 'W': {
        // Derivatives of the problem's own expressions, with respect to others too
        auto& e = b.exprs.front().first;
        slp::Gradient<double> g{e, b.p};
        (void)g.value();
        slp::VariableMatrix<double> xy(2);
        xy[0] = b.x;
        xy[1] = b.y;
        slp::Hessian<double> h{b.exprs.back().first, xy};
        (void)h.value();
        break;
      }
    }
    run.transition();
    check_values(c);
  }
}

void explore(mc::Run& run) {
  const int depth = run.thorough ? 5 : 4;
  for (int base = 0; base < 4; ++base) {
    std::string word;
    std::function<void()> rec = [&] {
      if (run.take()) run_word(run, base, word);
      if (static_cast<int>(word.size()) == depth) return;
      for (char c : letters) {
        word += c;
        rec();
        word.pop_back();
      }
    };
    rec();
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv,
                  {"P25",
                   "exploration",
                   "every history up to the depth of 15 operations on a problem, followed by a solve",
                   {"two decision variables, a parameter, unused variables", "iterates are compared to 1e-9"},
                   120},
                  explore);
}
