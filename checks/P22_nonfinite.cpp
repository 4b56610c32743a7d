// P22: non-finite evaluations never turn into a reported success.
//@technique exhaustive fault enumeration: every evaluation of every function of every problem of a menu is made non-finite (NaN, inf, -inf; once, from then on, or at that point), one fault at a time (thorough: every pair of transient faults), in the real Newton, SQP and interior-point solvers, whose evaluations are answered by an independent evaluation of the formulas
//@level fault_enumeration
//@note Every evaluation of f, its gradient, the Lagrangian Hessian and its constraint part, the constraints and their
//@note Jacobians, in 36 problems (including ones that need second-order corrections, filter resets and feasibility restoration).
//@src **/*.cpp
//@flags -O1
#include "problang.hpp"

#include <limits>
#include <map>

#include <sleipnir/optimization/solver/interior_point.hpp>
#include <sleipnir/optimization/solver/newton.hpp>
#include <sleipnir/optimization/solver/sqp.hpp>

#include "mc.hpp"

using namespace problang;

namespace {

using Vec = Eigen::VectorXd;
using Sp = Eigen::SparseMatrix<double>;
using SpVec = Eigen::SparseVector<double>;
using slp::ExitStatus;
constexpr double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();

enum Func { F, G, H, HC, CE, AE, CI, AI, NFUNC };
constexpr const char* names[]{"f", "grad f", "H", "H_c", "c_e", "A_e", "c_i", "A_i"};
enum Mode { ONCE, FROM, POINT };
constexpr const char* mode_names[]{"once", "from then on", "at that point"};

struct Fault {
  int func = -1, k = 0, element = 0;
  double value = nan;
  Mode mode = ONCE;
};

struct Hang {};

struct Session {
  const Spec& spec;
  std::vector<Fault> faults;
  int count[NFUNC]{};
  long total = 0;
  Vec fault_point[2];
  bool hit[2]{};
  // Per function: the points whose latest evaluation was not finite
  std::map<std::pair<double, double>, bool> bad[NFUNC];
  bool first_bad = false;

  void spoil(int func, const Vec& x, std::vector<double*> elements) {
    if (++total > 200000) throw Hang{};
    int n = ++count[func];
    for (size_t i = 0; i < faults.size(); ++i) {
      auto& ft = faults[i];
      if (ft.func != func) continue;
      bool now = n == ft.k;
      if (now) {
        fault_point[i] = x;
        hit[i] = true;
      }
      if (ft.mode == FROM) now = n >= ft.k;
      if (ft.mode == POINT) now = now || (hit[i] && x == fault_point[i]);
      if (!now || elements.empty()) continue;
      if (ft.element == 2) {
        for (auto* e : elements) *e = ft.value;
      } else {
        *elements[ft.element == 0 ? 0 : elements.size() - 1] = ft.value;
      }
    }
    bool fin = x.allFinite();
    for (auto* e : elements) fin &= std::isfinite(*e);
    if (n == 1 && func != HC && !fin) first_bad = true;
    bad[func][{x[0], x[1]}] = !fin;
  }
  static std::vector<double*> elements(Sp& m) {
    std::vector<double*> e;
    for (int k = 0; k < m.outerSize(); ++k)
      for (Sp::InnerIterator it{m, k}; it; ++it) e.push_back(&it.valueRef());
    return e;
  }
  static std::vector<double*> elements(Vec& v) {
    std::vector<double*> e;
    for (int i = 0; i < v.size(); ++i) e.push_back(&v[i]);
    return e;
  }

  D2 cost(const Vec& x) { return spec.cost < 0 ? D2{0.0} : costs()[spec.cost].at(Vec2{x[0], x[1]}); }
  std::vector<D2> rows(const std::vector<Fn>& fns, const std::vector<int>& idx, const Vec& x) {
    std::vector<D2> r;
    for (int i : idx) r.push_back(fns[i].at(Vec2{x[0], x[1]}));
    return r;
  }
  std::vector<D2> eq(const Vec& x) { return rows(equalities(), spec.eq, x); }
  std::vector<D2> ineq(const Vec& x) { return rows(inequalities(), spec.ineq, x); }

  double f(const Vec& x) {
    double v = cost(x).v;
    spoil(F, x, {&v});
    return v;
  }
  SpVec g(const Vec& x) {
    auto d = cost(x);
    Vec v{2};
    v << d.g[0], d.g[1];
    spoil(G, x, elements(v));
    SpVec r(2);
    r.insert(0) = v[0];
    r.insert(1) = v[1];
    return r;
  }
  Sp hessian(int func, const Vec& x, const Vec& y, const Vec& z) {
    D2 l = func == H ? cost(x) : D2{0.0};
    auto ce = eq(x), ci = ineq(x);
    for (size_t i = 0; i < ce.size(); ++i)
      for (int k = 0; k < 3; ++k) l.h[k] -= y[i] * ce[i].h[k];
    for (size_t i = 0; i < ci.size(); ++i)
      for (int k = 0; k < 3; ++k) l.h[k] -= z[i] * ci[i].h[k];
    Sp m(2, 2);
    m.insert(0, 0) = l.h[0];
    m.insert(1, 0) = l.h[1];
    m.insert(1, 1) = l.h[2];
    m.makeCompressed();
    spoil(func, x, elements(m));
    return m;
  }
  Vec values(int func, const Vec& x) {
    auto r = func == CE ? eq(x) : ineq(x);
    Vec v(r.size());
    for (size_t i = 0; i < r.size(); ++i) v[i] = r[i].v;
    spoil(func, x, elements(v));
    return v;
  }
  Sp jacobian(int func, const Vec& x) {
    auto r = func == AE ? eq(x) : ineq(x);
    Sp m(r.size(), 2);
    for (int j = 0; j < 2; ++j)
      for (size_t i = 0; i < r.size(); ++i) m.insert(i, j) = r[i].g[j];
    m.makeCompressed();
    spoil(func, x, elements(m));
    return m;
  }
};

struct Result {
  ExitStatus status{};
  Vec x;
  int callbacks = 0, last_iteration = -1;
  bool hang = false;
};

constexpr int max_iterations = 100;

Result solve(Session& s) {
  Result r;
  r.x = Vec{2};
  r.x << s.spec.start[0], s.spec.start[1];
  slp::Options o;
  o.max_iterations = max_iterations;
  std::vector<std::function<bool(const slp::IterationInfo<double>&)>> cb;
  cb.push_back([&](const slp::IterationInfo<double>& info) {
    ++r.callbacks;
    r.last_iteration = info.iteration;
    return false;
  });
  int me = s.spec.eq.size(), mi = s.spec.ineq.size();
  slp::ProblemScaling<double> scaling{1.0, Vec::Ones(me), Vec::Ones(mi)};
  Vec none;
  try {
    if (me + mi == 0) {
      slp::NewtonMatrixCallbacks<double> m{
          2, [&](const Vec& x) { return s.f(x); }, [&](const Vec& x) { return s.g(x); },
          [&](const Vec& x) { return s.hessian(H, x, none, none); }, scaling};
      r.status = slp::newton<double>(m, cb, o, r.x);
    } else if (mi == 0) {
      slp::SQPMatrixCallbacks<double> m{
          2,
          me,
          [&](const Vec& x) { return s.f(x); },
          [&](const Vec& x) { return s.g(x); },
          [&](const Vec& x, const Vec& y) { return s.hessian(H, x, y, none); },
          [&](const Vec& x, const Vec& y) { return s.hessian(HC, x, y, none); },
          [&](const Vec& x) { return s.values(CE, x); },
          [&](const Vec& x) { return s.jacobian(AE, x); },
          scaling};
      r.status = slp::sqp<double>(m, cb, o, r.x);
    } else {
      slp::InteriorPointMatrixCallbacks<double> m{
          2,
          me,
          mi,
          [&](const Vec& x) { return s.f(x); },
          [&](const Vec& x) { return s.g(x); },
          [&](const Vec& x, const Vec& y, const Vec& z) { return s.hessian(H, x, y, z); },
          [&](const Vec& x, const Vec& y, const Vec& z) { return s.hessian(HC, x, y, z); },
          [&](const Vec& x) { return s.values(CE, x); },
          [&](const Vec& x) { return s.jacobian(AE, x); },
          [&](const Vec& x) { return s.values(CI, x); },
          [&](const Vec& x) { return s.jacobian(AI, x); },
          scaling};
      r.status = slp::interior_point<double>(m, cb, o, r.x);
    }
  } catch (Hang&) {
    r.hang = true;
  }
  return r;
}

std::string fault_text(const Fault& f) {
  return std::format("{} #{} element {} = {} {}", names[f.func], f.k, f.element == 2 ? "all" : f.element ? "last" : "first",
                     f.value, mode_names[f.mode]);
}

// Runs one faulty solve and judges it
void judge(mc::Run& run, const Spec& spec, const std::vector<Fault>& faults, bool convex) {
  std::string key = spec.text();
  for (auto& f : faults) key += " | " + fault_text(f);
  if (!run.begin_case(key)) return;
  run.state();
  run.distinct();
  Session s{spec, faults};
  auto r = solve(s);
  run.transition(s.total);
  run.trace();
  auto fail = [&](std::string what) {
    run.fail(key, std::format("{} at ({}, {}): {}", r.status, r.x[0], r.x[1], what));
  };
  if (r.hang) {
    run.fail(key, "still evaluating after 200000 evaluations");
    return;
  }
  // The iteration that enters feasibility restoration shows its callbacks the iterate before and after entering
  if (r.callbacks > 2 * max_iterations) fail(std::format("{} iterations", r.callbacks));
  if (r.last_iteration >= max_iterations) fail(std::format("iteration number {}", r.last_iteration));
  Facts f = facts(spec, Vec2{r.x[0], r.x[1]});
  switch (r.status) {
    case ExitStatus::SUCCESS: {
      std::pair p{r.x[0], r.x[1]};
      if (!f.finite) {
        fail("the point is not finite");
        break;
      }
      for (int fn : {F, G, CE, AE, CI, AI}) {
        if (s.count[fn] == 0) continue;
        auto it = s.bad[fn].find(p);
        if (it == s.bad[fn].end()) fail(std::format("{} was never evaluated there", names[fn]));
        else if (it->second) fail(std::format("{} is not finite there", names[fn]));
      }
      if (f.violation > 1.01e-8) fail(std::format("violation {}", f.violation));
      if (f.regular && f.stationarity > 1e-7 * std::max(1.0, f.dual_sum / 100))
        fail(std::format("smallest KKT residual {}", f.stationarity));
      break;
    }
    case ExitStatus::NONFINITE_INITIAL_GUESS:
      if (!s.first_bad) fail("the first evaluations were finite");
      break;
    case ExitStatus::LOCALLY_INFEASIBLE:
      // Unless the last that was heard of the constraints was not finite
      if (f.violation <= 0.9e-8 && !s.bad[CE][{r.x[0], r.x[1]}] && !s.bad[CI][{r.x[0], r.x[1]}]) fail("all constraints hold");
      break;
    case ExitStatus::MAX_ITERATIONS_EXCEEDED:
      if (r.callbacks < max_iterations / 2) fail(std::format("after {} iterations", r.callbacks));
      break;
    case ExitStatus::FACTORIZATION_FAILED:
    case ExitStatus::LINE_SEARCH_FAILED:
    case ExitStatus::FEASIBILITY_RESTORATION_FAILED:
    case ExitStatus::DIVERGING_ITERATES:
      break;
    default:
      fail("no reason for this status");
  }
  if (s.first_bad && r.status != ExitStatus::NONFINITE_INITIAL_GUESS)
    fail("the initial evaluations were not finite");
  if (convex && r.status != ExitStatus::SUCCESS && !s.first_bad) {
    bool around = true;
    for (auto& ft : faults) around &= ft.mode == ONCE && (ft.func == F || ft.func == CE || ft.func == CI);
    if (around) fail("a transient fault the line search can step around stopped a strictly convex problem");
  }
}

// Starts, costs and constraints that are not finite to begin with, through Problem
void explore_starts(mc::Run& run) {
  std::vector<int> all_costs{-1}, none{-1};
  for (size_t i = 0; i < costs().size(); ++i) all_costs.push_back(i);
  for (int c : all_costs)
    for (int eq = -1; eq < static_cast<int>(equalities().size()); ++eq)
      for (int in = -1; in < static_cast<int>(inequalities().size()); ++in) {
        if (eq >= 0 && in >= 0 && !run.thorough && (c + eq + in) % 5) continue;
        for (int which = 0; which < 3; ++which)
          for (double value : {nan, inf, -inf}) {
            if (!run.take()) continue;
            Spec spec;
            spec.cost = c;
            if (eq >= 0) spec.eq = {eq};
            if (in >= 0) spec.ineq = {in};
            spec.start = {0.5, 0.5};
            if (which != 1) spec.start[0] = value;
            if (which != 0) spec.start[1] = value;
            std::string key = spec.text();
            if (!run.begin_case(key)) continue;
            run.state();
            run.distinct();
            run.trace();
            Built b{spec};
            int callbacks = 0;
            b.problem.add_callback([&](const slp::IterationInfo<double>&) { ++callbacks; });
            auto status = b.problem.solve();
            run.transition();
            auto p = b.point();
            Facts f = facts(spec, p);
            if (status == ExitStatus::SUCCESS && callbacks > 0 && (!f.finite || !std::isfinite(p[0]) || !std::isfinite(p[1])))
              run.fail(key, std::format("success at ({}, {})", p[0], p[1]));
          }
      }
  for (double value : {nan, inf, -inf})
    for (int kind = 0; kind < 6; ++kind) {
      if (!run.take()) continue;
      const char* kinds[]{"constant cost", "constant equality", "constant inequality", "cost term", "equality term", "inequality term"};
      std::string key = std::format("{} = {}", kinds[kind], value);
      if (!run.begin_case(key)) continue;
      run.state();
      run.distinct();
      run.trace();
      slp::Problem<double> problem;
      auto x = problem.decision_variable();
      x.set_value(1.0);
      slp::Variable<double> v{value};
      if (kind == 0) problem.minimize(v);
      if (kind == 1) problem.subject_to(v == 0.0);
      if (kind == 2) problem.subject_to(v >= 0.0);
      if (kind >= 3) problem.minimize(kind == 3 ? x * x + v : x * x);
      if (kind == 4) problem.subject_to(x == v);
      if (kind == 5) problem.subject_to(x >= v);
      auto status = problem.solve();
      run.transition();
      bool holds = kind == 2 && value == inf;
      if (status == ExitStatus::SUCCESS && !holds) run.fail(key, "success");
    }
}

void explore(mc::Run& run) {
  explore_starts(run);
  auto problems = menu();
  for (auto& [spec, convex] : problems) {
    Session base{spec, {}};
    auto r = solve(base);
    int total[NFUNC];
    for (int i = 0; i < NFUNC; ++i) total[i] = std::min(base.count[i], run.thorough ? 2000 : 400);
    auto elements = [&](int fn) -> std::vector<int> {
      if (fn == F) return {0};
      return {0, 1, 2};
    };
    if (convex && run.take() && run.begin_case(spec.text())) {
      if (r.status != ExitStatus::SUCCESS) run.fail(spec.text(), std::format("{} without any fault", r.status));
    }
    for (int fn = 0; fn < NFUNC; ++fn)
      for (int k = 1; k <= total[fn]; ++k)
        for (double value : {nan, inf, -inf})
          for (Mode mode : {ONCE, FROM, POINT})
            for (int el : elements(fn))
              if (run.take()) judge(run, spec, {{fn, k, el, value, mode}}, convex);
    // Two transient faults
    int limit = run.thorough ? 60 : 15;
    for (int f1 = 0; f1 < NFUNC; ++f1)
      for (int k1 = 1; k1 <= std::min(total[f1], limit); ++k1)
        for (int f2 = f1; f2 < NFUNC; ++f2)
          for (int k2 = f2 == f1 ? k1 + 1 : 1; k2 <= std::min(total[f2], limit); ++k2)
            if (run.take()) judge(run, spec, {{f1, k1, 0, nan, ONCE}, {f2, k2, 0, nan, ONCE}}, convex);
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv,
                  {"P22",
                   "fault_enumeration",
                   "every evaluation of every function, made NaN, inf or -inf once, from then on, or at that point",
                   {"unscaled problems in two variables, an iteration limit of 100"},
                   60},
                  explore);
}
