// P33: solvers called directly keep their contract.
//@technique exhaustive enumeration of every problem with up to N rows over a menu of costs, rows and starts, given to the real solvers as matrix callbacks under default, unit and documented scaling, with and without explicit slacks and duals; a monitor at every evaluation and callback, bitwise comparison of runs that must agree, and the optimality conditions of the returned primal and dual point evaluated independently
//@level exploration
//@note All problems with at most 2 (thorough: 3, of them one equality) of 30 rows, 15 costs, 5 starts, limited to 60 iterations each; Eigen's assertions are on.
//@src **/*.cpp
//@flags -O1
#include "rawlang.hpp"

#include "mc.hpp"

using namespace rawlang;

namespace {

using slp::ExitStatus;

struct Frame {
  int iteration;
  std::vector<double> all;  // x, s, y, z
};

struct Result {
  ExitStatus status{};
  Dense x, s, y, z;
  double mu = 0;
  int iterations = 0;
  std::vector<Frame> frames;
  bool restored = false;
};

enum Scaling { Default, Ones, Documented };

// Whether two runs did the same to the last bit
bool same(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
  return true;
}
std::vector<double> vec(const Dense& d) { return {d.data(), d.data() + d.size()}; }

std::string difference(const Result& a, const Result& b, int offset = 0) {
  if (a.frames.size() != b.frames.size() && a.status == b.status) return std::format("{} instead of {} iterations", b.frames.size(), a.frames.size());
  for (size_t k = 0; k < std::min(a.frames.size(), b.frames.size()); ++k) {
    if (b.frames[k].iteration != a.frames[k].iteration + offset) return std::format("iteration {} instead of {}", b.frames[k].iteration, a.frames[k].iteration + offset);
    if (!same(a.frames[k].all, b.frames[k].all)) return std::format("another iterate {}", k);
  }
  if (a.status != b.status) return std::format("{} instead of {}", b.status, a.status);
  if (!same(vec(a.x), vec(b.x))) return "another point";
  return "";
}

// Solves from the given point; explicit_duals: with the overload that takes and returns slacks and duals
Result solve(mc::Run& run, const std::string& key, Raw& raw, Scaling scaling, bool explicit_duals, int first_iteration = 0, const Result* from = nullptr) {
  Result r;
  const int ne = raw.ne(), ni = raw.ni();
  std::vector<std::function<bool(const Info&)>> callbacks;
  callbacks.push_back([&](const Info& info) {
    Frame f{info.iteration, {}};
    for (auto* v : {&info.x, &info.s, &info.y, &info.z}) f.all.insert(f.all.end(), v->data(), v->data() + v->size());
    r.frames.push_back(std::move(f));
    if (info.x.size() > 2) r.restored = true;
    return false;
  });
  bool wrong = false;
  raw.seen = [&](const char* what, long x, long y, long z) {
    run.transition();
    if (wrong || (x == 2 && (y < 0 || y == ne) && (z < 0 || z == ni))) return;
    wrong = true;
    run.fail(key, std::format("{} is called with {} variables, {} and {} duals", what, x, y, z));
  };
  slp::Options o;
  o.max_iterations = 60;
  r.x = from ? from->x : Dense{{raw.spec.start[0], raw.spec.start[1]}};
  r.s = from ? from->s : Dense::Ones(ni);
  r.y = from ? from->y : Dense::Zero(ne);
  r.z = from ? from->z : Dense::Ones(ni);
  r.iterations = first_iteration;
  auto scale = [&](auto& m) {
    if (scaling == Default) return;
    auto given = [](const std::vector<double>& d, int n) {
      return d.empty() ? Dense{Dense::Ones(n)} : Dense{Eigen::Map<const Dense>{d.data(), static_cast<Eigen::Index>(d.size())}};
    };
    m.scaling = slp::ProblemScaling<double>{raw.df, given(raw.de, ne), given(raw.di, ni)};
  };
  if (ni) {
    auto m = raw.ipm();
    scale(m);
    if (explicit_duals) {
      r.mu = from ? from->mu : 0.1 * m.scaling.f;
      r.status = slp::interior_point<double>(m, callbacks, o, false, r.x, r.s, r.y, r.z, r.mu, r.iterations);
    } else {
      r.status = slp::interior_point<double>(m, callbacks, o, r.x);
    }
  } else if (ne) {
    auto m = raw.sqp();
    scale(m);
    if (explicit_duals)
      r.status = slp::sqp<double>(m, callbacks, o, r.x, r.y);
    else
      r.status = slp::sqp<double>(m, callbacks, o, r.x);
  } else {
    auto m = raw.newton();
    if (scaling == Documented) m.scaling = slp::ProblemScaling<double>{raw.df, {}, {}};
    r.status = slp::newton<double>(m, callbacks, o, r.x);
  }
  raw.seen = nullptr;
  return r;
}

// What SUCCESS claims about the returned point, in the problem's own units
std::string judge(const Raw& raw, const Result& r) {
  const int ne = raw.ne(), ni = raw.ni();
  Raw plain{raw.spec};
  Dense g = plain.gradient(r.x);
  auto c_e = plain.rows(r.x, true), c_i = plain.rows(r.x, false);
  double duals = 0, size = g.lpNorm<Eigen::Infinity>(), complementarity = 0, z_sum = 0;
  for (int k = 0; k < ne; ++k) {
    double y = raw.e(k) * r.y[k] / raw.df;
    duals += std::abs(y);
    if (!(std::abs(c_e[k].v) <= 1e-8 * 1.001 + 1e-13 * (1 + r.x.squaredNorm()))) return std::format("equality {} is {}", k, c_e[k].v);
    for (int i = 0; i < 2; ++i) {
      g[i] -= y * c_e[k].g[i];
      size = std::max(size, std::abs(y * c_e[k].g[i]));
    }
  }
  for (int k = 0; k < ni; ++k) {
    double z = raw.i(k) * r.z[k] / raw.df, s = r.s[k] / raw.i(k);
    duals += std::abs(z);
    z_sum += std::abs(z);
    if (!(s > 0) || !(z > 0)) return std::format("slack {} and dual {} of inequality {}", s, z, k);
    if (!(std::abs(c_i[k].v - s) <= 1e-8 * 1.001 + 1e-13 * (1 + r.x.squaredNorm() + std::abs(s)))) return std::format("inequality {} is {}, its slack {}", k, c_i[k].v, s);
    complementarity = std::max(complementarity, s * z);
    for (int i = 0; i < 2; ++i) {
      g[i] -= z * c_i[k].g[i];
      size = std::max(size, std::abs(z * c_i[k].g[i]));
    }
  }
  double s_d = ne + ni ? std::max(100.0, duals / (ne + ni)) / 100 : 1.0, s_c = ni ? std::max(100.0, z_sum / ni) / 100 : 1.0;
  if (!(g.lpNorm<Eigen::Infinity>() <= 1e-8 * s_d * 1.001 + 1e-12 * size)) return std::format("the gradient of the Lagrangian is {}", g.lpNorm<Eigen::Infinity>());
  if (!(complementarity <= 1e-8 * s_c * 1.001)) return std::format("complementarity is {}", complementarity);
  return "";
}

void run_case(mc::Run& run, const Spec& spec, bool convex = false) {
  std::string key = spec.text();
  if (!run.begin_case(key)) return;
  run.state();
  run.distinct();
  run.eval();
  const int ne = spec.eq.size(), ni = spec.ineq.size();
  Raw raw{spec};
  auto base = solve(run, key, raw, Default, false);
  run.trace();
  auto compare = [&](const char* what, const Result& other, int offset = 0) {
    run.trace();
    if (auto e = difference(base, other, offset); !e.empty()) run.fail(key, std::format("{}: {}", what, e));
  };
  compare("again", solve(run, key, raw, Default, false));
  // Factors of one are the same as none
  if (ne + ni) compare("unit scaling", solve(run, key, raw, Ones, false));
  // The other overloads
  Result full = solve(run, key, raw, Default, true);
  compare("explicit duals", full);
  auto judge_success = [&](const char* what, const Raw& p, const Result& r, Scaling scaling) {
    // Strictly convex with linear rows and an interior
    if (convex && r.status != ExitStatus::SUCCESS) run.fail(key, std::format("{} isn't solved: {}", what, r.status));
    if (r.status != ExitStatus::SUCCESS) return;
    if (auto e = judge(p, r); !e.empty()) run.fail(key, std::format("success of {} at ({}, {}): {}", what, r.x[0], r.x[1], e));
    // It stays there
    Raw copy = p;
    auto again = solve(run, key, copy, scaling, true, 0, &r);
    run.trace();
    if (again.status != ExitStatus::SUCCESS || !again.frames.empty() || !same(vec(again.x), vec(r.x)))
      run.fail(key, std::format("the solution of {} isn't recognised: {} after {} iterations", what, again.status, again.frames.size()));
  };
  judge_success("the problem", raw, full, Default);
  if (ni && full.status != ExitStatus::MAX_ITERATIONS_EXCEEDED) {
    // Iterations are counted from the number given
    auto later = solve(run, key, raw, Default, true, 7);
    if (later.status != ExitStatus::MAX_ITERATIONS_EXCEEDED) compare("numbered from 7", later, 7);
    if (full.status == ExitStatus::SUCCESS && !full.restored && full.iterations != (int)full.frames.size())
      run.fail(key, std::format("{} iterations counted, {} made", full.iterations, full.frames.size()));
  }
  // The scaling the documentation describes
  Dense x0{{spec.start[0], spec.start[1]}};
  auto factor = [](const D2& d) { return std::min(1.0, 100.0 / std::max(std::abs(d.g[0]), std::abs(d.g[1]))); };
  Raw scaled{spec};
  scaled.df = spec.cost < 0 ? 1.0 : factor(raw.cost(x0));
  for (auto& d : raw.rows(x0, true)) scaled.de.push_back(factor(d));
  for (auto& d : raw.rows(x0, false)) scaled.di.push_back(factor(d));
  bool usable = std::isfinite(scaled.df) && scaled.df > 0;
  for (auto* v : {&scaled.de, &scaled.di})
    for (double d : *v) usable &= std::isfinite(d) && d > 0;
  if (usable) {
    auto r = solve(run, key, scaled, Documented, true);
    run.trace();
    judge_success("the scaled problem", scaled, r, Documented);
  }
  // Any factors will do
  Raw other{spec};
  other.df = 0.25;
  for (int k = 0; k < ne; ++k) other.de.push_back(k % 2 ? 4.0 : 0.125);
  for (int k = 0; k < ni; ++k) other.di.push_back(k % 2 ? 0.5 : 8.0);
  auto r = solve(run, key, other, Documented, true);
  run.trace();
  judge_success("the rescaled problem", other, r, Documented);
}

void explore(mc::Run& run) {
  auto one = [&](const Spec& spec, bool convex = false) {
    if (!run.take()) return;
    run.beat();
    run_case(run, spec, convex);
  };
  for (auto& [spec, convex] : menu()) one(spec, convex);
  for (int cost = -1; cost < (int)costs().size(); ++cost)
    for (auto& start : starts())
      row_sets(run.thorough ? 3 : 2, [&](auto& eq, auto& ineq) {
        if (eq.size() + ineq.size() == 3 && eq.size() > 1) return;
        one(Spec{cost, eq, ineq, start});
      });
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv,
                  {.property = "P33",
                   .level = "exploration",
                   .rule = "a problem and a start; solved through every overload and scaling, each run monitored and compared",
                   .assumptions = {"matrix callbacks return finite sizes consistent with the declared ones; explicit factors are positive"},
                   .hang_seconds = 120},
                  explore);
}
