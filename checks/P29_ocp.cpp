// P29: optimal control transcriptions encode the stated dynamics.
//@technique exhaustive enumeration of optimal control configurations (dynamics, dynamics type, constructor, timestep method, transcription, step count) and of one-at-a-time perturbations of every prescribed quantity, built and solved by the real library and compared with an independent simulation; every sequence of set-up calls that applies to each is tried
//@level exploration
//@note 7 dynamics, 1 to 3 (thorough: 6) steps; each initial state component, input and timestep perturbed in turn (thorough: each pair).
//@src **/*.cpp
//@flags -O1 -DNDEBUG
#include <cmath>
#include <format>
#include <functional>

#include <Eigen/Core>
#include <sleipnir/optimization/ocp.hpp>

#include "mc.hpp"

namespace {

using slp::DynamicsType;
using slp::ExitStatus;
using slp::TimestepMethod;
using slp::TranscriptionMethod;
using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using Ocp = slp::OCP<double>;
using Seconds = std::chrono::duration<double>;

// f(t, x, u, dt), once with numbers and once with variables
struct Dynamics {
  const char* name;
  int n, m;
  bool autonomous;  // Doesn't use t and dt
  bool linear;
  std::function<Vec(double, const Vec&, const Vec&, double)> num;
  std::function<VM(const V&, const VM&, const VM&, const V&)> var;
};

template <typename F>
Dynamics make(const char* name, int n, int m, bool autonomous, bool linear, F f) {
  return {name, n, m, autonomous, linear,
          [=](double t, const Vec& x, const Vec& u, double dt) {
            Vec r(n);
            f(r, t, x, u, dt);
            return r;
          },
          [=](const V& t, const VM& x, const VM& u, const V& dt) {
            VM r(n);
            f(r, t, x, u, dt);
            return r;
          }};
}

const std::vector<Dynamics>& dynamics() {
  using std::cos;
  using std::sin;
  static const std::vector<Dynamics> d{
      make("-x+2u", 1, 1, true, true, [](auto& r, auto&, auto& x, auto& u, auto&) { r[0] = -x[0] + 2.0 * u[0]; }),
      make("[x1; u-x0/2]", 2, 1, true, true,
           [](auto& r, auto&, auto& x, auto& u, auto&) {
             r[0] = x[1] + 0.0;
             r[1] = u[0] - 0.5 * x[0];
           }),
      make("[u0+x1/4; u1-u0]", 2, 2, true, true,
           [](auto& r, auto&, auto& x, auto& u, auto&) {
             r[0] = u[0] + 0.25 * x[1];
             r[1] = u[1] - u[0];
           }),
      make("sin(x)+xu", 1, 1, true, false, [](auto& r, auto&, auto& x, auto& u, auto&) { r[0] = sin(x[0]) + x[0] * u[0]; }),
      make("t*u+t*t-x/2", 1, 1, false, false, [](auto& r, auto& t, auto& x, auto& u, auto&) { r[0] = t * u[0] + t * t - 0.5 * x[0]; }),
      make("3*dt*x+u", 1, 1, false, false, [](auto& r, auto&, auto& x, auto& u, auto& dt) { r[0] = 3.0 * dt * x[0] + u[0]; }),
      make("[x1*u1; x2-x0*u0+t; cos(x0)-dt*x2]", 3, 2, false, false,
           [](auto& r, auto& t, auto& x, auto& u, auto& dt) {
             r[0] = x[1] * u[1];
             r[1] = x[2] - x[0] * u[0] + t;
             r[2] = cos(x[0]) - dt * x[2];
           })};
  return d;
}

struct Config {
  const Dynamics* d;
  bool short_form;
  DynamicsType type;
  TimestepMethod step;
  TranscriptionMethod how;
  int N;
  std::string text() const {
    return std::format("{}{} {} {} {} N={}", d->name, short_form ? " f(x,u)" : "", type == DynamicsType::DISCRETE ? "discrete" : "ode",
                       step == TimestepMethod::FIXED      ? "fixed"
                       : step == TimestepMethod::VARIABLE ? "variable"
                                                          : "single",
                       how == TranscriptionMethod::DIRECT_TRANSCRIPTION  ? "transcription"
                       : how == TranscriptionMethod::DIRECT_COLLOCATION ? "collocation"
                                                                        : "shooting",
                       N);
  }
};

constexpr double DT = 0.2;

Ocp build(const Config& c, double dt = DT) {
  auto& d = *c.d;
  if (c.short_form) {
    auto f = [&](const VM& x, const VM& u) { return d.var(V{0.0}, x, u, V{0.0}); };
    slp::function_ref<VM(const VM&, const VM&)> ref{f};
    return Ocp{d.n, d.m, Seconds{dt}, c.N, ref, c.type, c.step, c.how};
  }
  auto f = [&](const V& t, const VM& x, const VM& u, const V& dt) { return d.var(t, x, u, dt); };
  slp::function_ref<VM(const V&, const VM&, const VM&, const V&)> ref{f};
  return Ocp{d.n, d.m, Seconds{dt}, c.N, ref, c.type, c.step, c.how};
}

// What the trajectory is to be
struct Plan {
  Vec x0;
  Mat U;   // m x (N+1)
  Vec dt;  // N+1
};

Plan base(const Config& c) {
  Plan p{Vec(c.d->n), Mat(c.d->m, c.N + 1), Vec::Constant(c.N + 1, DT)};
  for (int i = 0; i < c.d->n; ++i) p.x0[i] = 0.7 - 0.4 * i;
  for (int i = 0; i < c.d->m; ++i)
    for (int k = 0; k <= c.N; ++k) p.U(i, k) = 0.3 + 0.25 * i - 0.15 * k * (i ? -1 : 1) + 0.05 * k * k;
  if (c.step == TimestepMethod::VARIABLE)
    for (int k = 0; k <= c.N; ++k) p.dt[k] = DT + 0.03 * k;
  return p;
}

// The quantities in it that can be prescribed
int parts(const Config& c) {
  return c.d->n + c.d->m * (c.N + 1) + (c.step == TimestepMethod::VARIABLE ? c.N + 1 : 1);
}
std::string nudge(const Config& c, Plan& p, int i, double by) {
  if (i < c.d->n) {
    p.x0[i] += by;
    return std::format("x0[{}]", i);
  }
  i -= c.d->n;
  if (i < c.d->m * (c.N + 1)) {
    p.U(i % c.d->m, i / c.d->m) += by;
    return std::format("u[{},{}]", i % c.d->m, i / c.d->m);
  }
  i -= c.d->m * (c.N + 1);
  if (c.step == TimestepMethod::VARIABLE) {
    p.dt[i] += by / 4;
    return std::format("dt[{}]", i);
  }
  p.dt.array() += by / 4;
  return "dt";
}

// How far the state at the end of a step is from what it must be
Vec defect(const Config& c, double t, double h, const Vec& x, const Vec& y, const Vec& u, const Vec& v) {
  auto f = [&](double s, const Vec& a, const Vec& b) { return c.d->num(s, a, b, h); };
  if (c.how == TranscriptionMethod::DIRECT_COLLOCATION) {
    Vec f0 = f(t, x, u), f1 = f(t + h, y, v);
    // The cubic through both ends, at its middle
    Vec middle = (x + y) / 2 + h * (f0 - f1) / 8;
    Vec slope = 1.5 * (y - x) / h - (f0 + f1) / 4;
    return slope - f(t + h / 2, middle, (u + v) / 2);
  }
  if (c.type == DynamicsType::DISCRETE) return y - f(t, x, u);
  Vec k1 = f(t, x, u), k2 = f(t + h / 2, x + h / 2 * k1, u), k3 = f(t + h / 2, x + h / 2 * k2, u), k4 = f(t + h, x + h * k3, u);
  return y - (x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4));
}

// The states the plan leads to
Mat simulate(const Config& c, const Plan& p) {
  Mat X(c.d->n, c.N + 1);
  X.col(0) = p.x0;
  double t = 0;
  for (int k = 0; k < c.N; ++k) {
    Vec y = X.col(k);
    auto F = [&](const Vec& z) { return defect(c, t, p.dt[k], X.col(k), z, p.U.col(k), p.U.col(k + 1)); };
    for (int it = 0; it < 30; ++it) {
      Vec r = F(y);
      if (r.norm() < 1e-14) break;
      Mat J(c.d->n, c.d->n);
      for (int i = 0; i < c.d->n; ++i) {
        Vec e = Vec::Zero(c.d->n);
        e[i] = 1e-5;
        J.col(i) = (F(y + e) - F(y - e)) / 2e-5;
      }
      y -= J.fullPivLu().solve(r);
    }
    X.col(k + 1) = y;
    t += p.dt[k];
  }
  return X;
}

// Whether what the accessors expose satisfies the dynamics
std::string satisfied(const Config& c, Ocp& ocp) {
  Mat X = ocp.X().value(), U = ocp.U().value(), D = ocp.dt().value();
  double t = 0;
  for (int k = 0; k < c.N; ++k) {
    Vec r = defect(c, t, D(0, k), X.col(k), X.col(k + 1), U.col(k), U.col(k + 1));
    if (!(r.lpNorm<Eigen::Infinity>() < 1e-5)) return std::format("the dynamics of step {} are off by {}", k, r.lpNorm<Eigen::Infinity>());
    t += D(0, k);
  }
  return "";
}

std::string shapes(const Config& c, Ocp& ocp) {
  auto is = [](VM m, int r, int k) { return m.rows() == r && m.cols() == k; };
  if (!is(ocp.X(), c.d->n, c.N + 1)) return "X has a wrong shape";
  if (!is(ocp.U(), c.d->m, c.N + 1)) return "U has a wrong shape";
  if (!is(ocp.dt(), 1, c.N + 1)) return "dt has a wrong shape";
  if (!is(ocp.initial_state(), c.d->n, 1) || !is(ocp.final_state(), c.d->n, 1)) return "an end state has a wrong shape";
  return "";
}

bool close(const Mat& a, const Mat& b, double tol = 2e-5) {
  return a.rows() == b.rows() && a.cols() == b.cols() && (a - b).size() && (a - b).cwiseAbs().maxCoeff() <= tol;
}

V pull(Ocp& ocp, const Config& c, const Plan& p) {
  V cost{0.0};
  for (int k = 0; k <= c.N; ++k)
    for (int i = 0; i < c.d->m; ++i) cost += slp::pow(ocp.U()[i, k] - p.U(i, k), 2);
  if (c.step == TimestepMethod::VARIABLE)
    for (int k = 0; k <= c.N; ++k) cost += slp::pow(ocp.dt()[0, k] - p.dt[k], 2);
  else if (c.step == TimestepMethod::VARIABLE_SINGLE)
    cost += slp::pow(ocp.dt()[0, 0] - p.dt[0], 2);
  return cost;
}

// Start somewhere near, but nowhere right
void place(Ocp& ocp, const Config& c, const Plan& p, const Mat& X) {
  for (int k = 0; k <= c.N; ++k) {
    for (int i = 0; i < c.d->m; ++i) ocp.U()[i, k].set_value(p.U(i, k) + 0.03 * (k + 1) - 0.05 * i);
    if (c.how != TranscriptionMethod::SINGLE_SHOOTING || k == 0)
      for (int i = 0; i < c.d->n; ++i) ocp.X()[i, k].set_value(X(i, k) + 0.04 * (k + 1) - 0.03 * i);
    if (c.step == TimestepMethod::VARIABLE) ocp.dt()[0, k].set_value(p.dt[k] + 0.01 * (k + 1));
  }
  if (c.step == TimestepMethod::VARIABLE_SINGLE) ocp.dt()[0, 0].set_value(p.dt[0] + 0.02);
}

slp::Options options() {
  slp::Options o;
  o.max_iterations = 200;
  return o;
}

// The trajectory nearest to the plan is the one the plan leads to
void planned(mc::Run& run, const Config& c, const std::string& what, const Plan& p, int initial_form) {
  std::string key = c.text() + " plan " + what;
  if (!run.begin_case(key)) return;
  run.state();
  run.distinct();
  run.trace();
  Mat X = simulate(c, p);
  Ocp ocp = build(c, c.step == TimestepMethod::FIXED ? p.dt[0] : DT);
  if (auto e = shapes(c, ocp); !e.empty()) run.fail(key, e);
  Mat D0 = Mat::Constant(1, c.N + 1, c.step == TimestepMethod::FIXED ? p.dt[0] : DT);
  if (!close(ocp.dt().value(), D0, 1e-15)) run.fail(key, "the timesteps don't start at the given one");
  if (initial_form == 0)
    ocp.constrain_initial_state(p.x0);
  else if (initial_form == 1)
    ocp.constrain_initial_state(VM{p.x0});
  else {
    for (int i = 0; i < c.d->n; ++i) ocp.subject_to(ocp.initial_state()[i] == p.x0[i]);
  }
  ocp.minimize(pull(ocp, c, p));
  place(ocp, c, p, X);
  run.transition();
  auto status = ocp.solve(options());
  run.eval();
  if (status != ExitStatus::SUCCESS) {
    run.fail(key, std::format("{} although a trajectory exists", status));
    return;
  }
  Mat D = c.step == TimestepMethod::FIXED ? D0 : Mat{p.dt.transpose()};
  if (!close(ocp.U().value(), p.U)) run.fail(key, "the inputs aren't the prescribed ones");
  if (!close(ocp.dt().value(), D)) run.fail(key, "the timesteps aren't the prescribed ones");
  if (!close(ocp.X().value(), X))
    run.fail(key, std::format("the states aren't those the dynamics lead to, off by {}", (ocp.X().value() - X).cwiseAbs().maxCoeff()));
  if (!close(ocp.initial_state().value(), ocp.X().value().col(0), 0) || !close(ocp.final_state().value(), ocp.X().value().col(c.N), 0))
    run.fail(key, "initial_state() or final_state() isn't the first or last column of X()");
}

// A final state other than the plan's; shooting for it, the dynamics hold
void final_state(mc::Run& run, const Config& c, int form) {
  if (c.d->m * c.N < c.d->n || !c.d->linear) return;
  std::string key = std::format("{} final form {}", c.text(), form);
  if (!run.begin_case(key)) return;
  run.state();
  run.distinct();
  run.trace();
  Plan p = base(c);
  Mat X = simulate(c, p);
  Vec goal = X.col(c.N);
  for (int i = 0; i < c.d->n; ++i) goal[i] += 0.05 * (i + 1);
  Ocp ocp = build(c);
  // A scalar stands for every component
  if (form == 2) {
    ocp.constrain_initial_state(0.25);
    p.x0.setConstant(0.25);
    X = simulate(c, p);
    goal.setConstant(0.35);
    ocp.constrain_final_state(0.35);
  } else {
    ocp.constrain_initial_state(p.x0);
    if (form == 0)
      ocp.constrain_final_state(goal);
    else
      ocp.constrain_final_state(VM{goal});
  }
  ocp.minimize(pull(ocp, c, p));
  place(ocp, c, p, X);
  run.transition();
  auto status = ocp.solve(options());
  run.eval();
  if (status != ExitStatus::SUCCESS) {
    run.fail(key, std::format("{} although the final state can be reached", status));
    return;
  }
  if (!close(ocp.final_state().value(), goal) || !close(ocp.X().value().col(c.N), goal)) run.fail(key, "the final state isn't the one asked for");
  if (!close(ocp.X().value().col(0), p.x0)) run.fail(key, "the initial state isn't the one asked for");
  if (auto e = satisfied(c, ocp); !e.empty()) run.fail(key, e);
}

// Bounds hold in every step, and only they do
void bounds(mc::Run& run, const Config& c, bool lower, int form) {
  std::string key = std::format("{} {} input bound form {}", c.text(), lower ? "lower" : "upper", form);
  if (!run.begin_case(key)) return;
  run.state();
  run.distinct();
  run.trace();
  Plan p = base(c);
  Vec limit(c.d->m);
  for (int i = 0; i < c.d->m; ++i) limit[i] = form == 2 ? 0.25 : 0.15 + 0.2 * i;
  Mat expected = p.U;
  for (int k = 0; k <= c.N; ++k)
    for (int i = 0; i < c.d->m; ++i) expected(i, k) = lower ? std::max(p.U(i, k), limit[i]) : std::min(p.U(i, k), limit[i]);
  Plan q = p;
  q.U = expected;
  Mat X = simulate(c, q);
  Ocp ocp = build(c);
  auto set = [&](const auto& l) {
    if (lower)
      ocp.set_lower_input_bound(l);
    else
      ocp.set_upper_input_bound(l);
  };
  if (form == 0)
    set(limit);
  else if (form == 1)
    set(VM{limit});
  else
    set(0.25);
  ocp.constrain_initial_state(p.x0);
  ocp.minimize(pull(ocp, c, p));
  place(ocp, c, q, X);
  run.transition();
  auto status = ocp.solve(options());
  run.eval();
  if (status != ExitStatus::SUCCESS)
    run.fail(key, std::format("{} although a trajectory exists", status));
  else {
    // A variable whose optimum lies on its bound is only found to the square root of the tolerance
    if (!close(ocp.U().value(), expected, 1e-3)) run.fail(key, "the inputs aren't the nearest ones within the bounds");
    if (auto e = satisfied(c, ocp); !e.empty()) run.fail(key, e);
  }
}

void timestep_bounds(mc::Run& run, const Config& c, bool min, bool binding) {
  std::string key = std::format("{} {} {} timestep", c.text(), binding ? "binding" : "loose", min ? "minimum" : "maximum");
  if (!run.begin_case(key)) return;
  run.state();
  run.distinct();
  run.trace();
  Plan p = base(c);
  double limit = min == binding ? DT + 0.015 : DT - 0.015;
  if (c.step == TimestepMethod::VARIABLE && !binding) limit = min ? DT - 0.015 : 1.0;
  Ocp ocp = build(c);
  if (min)
    ocp.set_min_timestep(Seconds{limit});
  else
    ocp.set_max_timestep(Seconds{limit});
  Plan q = p;
  for (int k = 0; k <= c.N; ++k) q.dt[k] = min ? std::max(p.dt[k], limit) : std::min(p.dt[k], limit);
  Mat X = simulate(c, q);
  ocp.constrain_initial_state(p.x0);
  ocp.minimize(pull(ocp, c, p));
  place(ocp, c, q, X);
  run.transition();
  auto status = ocp.solve(options());
  run.eval();
  bool impossible = c.step == TimestepMethod::FIXED && binding;
  if (impossible) {
    if (status == ExitStatus::SUCCESS) run.fail(key, "success although the fixed timestep is out of its bounds");
    return;
  }
  if (status != ExitStatus::SUCCESS)
    run.fail(key, std::format("{} although a trajectory exists", status));
  else {
    if (c.step != TimestepMethod::FIXED && !close(ocp.dt().value(), q.dt.transpose(), 2e-3)) run.fail(key, "the timesteps aren't the nearest ones within the bounds");
    if (auto e = satisfied(c, ocp); !e.empty()) run.fail(key, e);
  }
}

// Accessors and the per-step callbacks
void steps(mc::Run& run, const Config& c) {
  std::string key = c.text() + " steps";
  if (!run.begin_case(key)) return;
  run.state();
  run.distinct();
  run.trace();
  Ocp ocp = build(c);
  struct Call {
    V t;
    VM x, u;
    V dt;
  };
  std::vector<Call> with, without;
  auto f4 = [&](const V& t, const VM& x, const VM& u, const V& dt) { with.push_back({t, x, u, dt}); };
  auto f2 = [&](const VM& x, const VM& u) { without.push_back({V{0.0}, x, u, V{0.0}}); };
  ocp.for_each_step(slp::function_ref<void(const V&, const VM&, const VM&, const V&)>{f4});
  ocp.for_each_step(slp::function_ref<void(const VM&, const VM&)>{f2});
  run.transition(2);
  if (static_cast<int>(with.size()) != c.N + 1 || static_cast<int>(without.size()) != c.N + 1) {
    run.fail(key, std::format("called {} and {} times for {} steps", with.size(), without.size(), c.N));
    return;
  }
  // Twice, with other values
  for (int round = 0; round < 2; ++round) {
    Plan p = base(c);
    p.U.array() += 0.11 * round;
    if (c.step != TimestepMethod::FIXED) p.dt.array() += 0.07 * round;
    p.x0.array() -= 0.2 * round;
    Mat X = simulate(c, p);
    if (c.how != TranscriptionMethod::SINGLE_SHOOTING)
      for (int k = 0; k <= c.N; ++k) X.col(k).array() += 0.1 * k + 1;
    for (int k = 0; k <= c.N; ++k) {
      for (int i = 0; i < c.d->m; ++i) ocp.U()[i, k].set_value(p.U(i, k));
      if (c.how != TranscriptionMethod::SINGLE_SHOOTING || k == 0)
        for (int i = 0; i < c.d->n; ++i) ocp.X()[i, k].set_value(X(i, k));
      if (c.step == TimestepMethod::VARIABLE) ocp.dt()[0, k].set_value(p.dt[k]);
    }
    // Any of them is the one timestep
    if (c.step == TimestepMethod::VARIABLE_SINGLE) ocp.dt()[0, c.N].set_value(p.dt[0]);
    run.eval();
    if (!close(ocp.X().value(), X, 1e-10)) run.fail(key, "X() doesn't hold the states");
    if (!close(ocp.U().value(), p.U, 0)) run.fail(key, "U() doesn't hold the inputs");
    if (!close(ocp.dt().value(), p.dt.transpose(), 0)) run.fail(key, "dt() doesn't hold the timesteps");
    if (!close(ocp.initial_state().value(), X.col(0), 0)) run.fail(key, "initial_state() isn't the first state");
    if (!close(ocp.final_state().value(), X.col(c.N), 1e-10)) run.fail(key, "final_state() isn't the last state");
    double t = 0;
    for (int k = 0; k <= c.N; ++k) {
      auto& a = with[k];
      auto& b = without[k];
      if (!close(a.x.value(), X.col(k), 1e-10) || !close(b.x.value(), X.col(k), 1e-10)) run.fail(key, std::format("call {} got another state", k));
      if (!close(a.u.value(), p.U.col(k), 0) || !close(b.u.value(), p.U.col(k), 0)) run.fail(key, std::format("call {} got another input", k));
      if (std::abs(a.dt.value() - p.dt[k]) > 1e-15) run.fail(key, std::format("call {} got another timestep", k));
      if (std::abs(a.t.value() - t) > 1e-12) run.fail(key, std::format("call {} got time {} instead of {}", k, a.t.value(), t));
      t += p.dt[k];
    }
  }
}

// A constraint per step: inputs no less than something of time and state
void step_constraint(mc::Run& run, const Config& c) {
  std::string key = c.text() + " constraint in each step";
  if (!run.begin_case(key)) return;
  run.state();
  run.distinct();
  run.trace();
  Plan p = base(c);
  Ocp ocp = build(c);
  auto f = [&](const V& t, const VM&, const VM& u, const V& dt) { ocp.subject_to(u[0] == 0.1 + 0.5 * t + 0.25 * dt); };
  ocp.for_each_step(slp::function_ref<void(const V&, const VM&, const VM&, const V&)>{f});
  Plan q = p;
  double t = 0;
  // Keep timesteps out of the trade-off
  V cost{0.0};
  for (int k = 0; k <= c.N; ++k) {
    q.U(0, k) = 0.1 + 0.5 * t + 0.25 * p.dt[k];
    t += p.dt[k];
    for (int i = 1; i < c.d->m; ++i) cost += slp::pow(ocp.U()[i, k] - p.U(i, k), 2);
    if (c.step == TimestepMethod::VARIABLE) cost += slp::pow(ocp.dt()[0, k] - p.dt[k], 2);
  }
  if (c.step == TimestepMethod::VARIABLE_SINGLE) cost += slp::pow(ocp.dt()[0, 0] - p.dt[0], 2);
  ocp.constrain_initial_state(p.x0);
  if (cost.type() != slp::ExpressionType::CONSTANT) ocp.minimize(cost);
  Mat X = simulate(c, q);
  place(ocp, c, q, X);
  run.transition();
  auto status = ocp.solve(options());
  run.eval();
  if (status != ExitStatus::SUCCESS)
    run.fail(key, std::format("{} although a trajectory exists", status));
  else if (!close(ocp.U().value(), q.U) || !close(ocp.X().value(), X))
    run.fail(key, "the trajectory isn't the one satisfying the constraints");
}

void explore(mc::Run& run) {
  for (int N = 1; N <= (run.thorough ? 6 : 3); ++N)
    for (auto& d : dynamics())
      for (auto type : {DynamicsType::EXPLICIT_ODE, DynamicsType::DISCRETE})
        for (auto step : {TimestepMethod::FIXED, TimestepMethod::VARIABLE, TimestepMethod::VARIABLE_SINGLE})
          for (auto how : {TranscriptionMethod::DIRECT_TRANSCRIPTION, TranscriptionMethod::DIRECT_COLLOCATION, TranscriptionMethod::SINGLE_SHOOTING}) {
            // Documented: direct collocation requires an explicit ODE
            if (how == TranscriptionMethod::DIRECT_COLLOCATION && type == DynamicsType::DISCRETE) continue;
            for (bool brief : {false, true}) {
              if (brief && !d.autonomous) continue;
              Config c{&d, brief, type, step, how, N};
              if (!run.take()) continue;
              run.beat();
              planned(run, c, "base", base(c), brief ? 1 : 0);
              const int n = parts(c);
              for (int i = 0; i < n; ++i)
                for (double by : {0.12, -0.08}) {
                  Plan p = base(c);
                  auto what = nudge(c, p, i, by);
                  planned(run, c, std::format("{}{:+}", what, by), p, i % 3);
                  if (run.thorough && by > 0 && N <= 4)
                    for (int j = 0; j < i; ++j) {
                      Plan q = p;
                      auto also = nudge(c, q, j, -0.08);
                      planned(run, c, std::format("{}{:+} {}-0.08", what, by, also), q, j % 3);
                    }
                }
              steps(run, c);
              step_constraint(run, c);
              for (int form = 0; form < 3; ++form) {
                final_state(run, c, form);
                for (bool lower : {true, false}) bounds(run, c, lower, form);
              }
              for (bool min : {true, false})
                for (bool binding : {true, false}) timestep_bounds(run, c, min, binding);
            }
          }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv,
                  {.property = "P29",
                   .level = "exploration",
                   .rule = "a configuration and a prescription of every input, timestep and the initial state (base, or one of them changed); the solution is compared with an independent simulation, and every set-up call with its effect",
                   .assumptions = {"solutions are compared with tolerances well above the solver's"}},
                  explore);
}
