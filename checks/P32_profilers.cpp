// P32: profilers account for time exactly, and time traces show what was spent where.
//@technique exhaustive enumeration of every sequence of starts, stops, copies, scopes (opened, moved, stopped, left, unwound) and clock advances up to a depth on the real profilers under a controlled clock, against exact integer bookkeeping; and of every menu problem through the real solvers with a clock that only advances in known amounts inside the problem's functions and callbacks, comparing the printed time traces with what was spent
//@level model_checking
//@note Sequences of up to 6 (thorough: 7, of solve profilers 8) of 12 operations on two profilers of either kind; clock advances of 0, 1 ns, 1 us + 7 ns, 0.3 s, 10^9 s.
//@note Solves: all problems with at most 1 (thorough: 2) of 30 rows, 15 costs, 5 starts, limited to 40 iterations each.
//@src **/*.cpp
//@flags -O1 -DNDEBUG
#include <chrono>
#include <deque>
#include <map>
#include <sstream>

#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

#include <sleipnir/optimization/solver/interior_point.hpp>
#include <sleipnir/optimization/solver/newton.hpp>
#include <sleipnir/optimization/solver/sqp.hpp>
#include <sleipnir/util/profiler.hpp>

#include "problang.hpp"

#include "mc.hpp"

using namespace problang;

namespace {

bool virtual_clock = false;
long long virtual_now = 0;  // ns
long long tick = 0;         // ns by which every reading advances the clock

}  // namespace

// Takes precedence over the standard library's definition
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept {
  if (virtual_clock) {
    virtual_now += tick;
    return time_point{std::chrono::nanoseconds{virtual_now}};
  }
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return time_point{std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec}};
}

namespace {

// ---- the profilers themselves

enum Op { Start, Stop, StartOther, StopOther, Open, Move, ScopedStop, Close, Unwind, CloseOldest, Copy, Advance, OpCount };
const char* const op_names[] = {"start", "stop", "start other", "stop other", "open a scope", "move the scope", "stop the scope",
                                "leave the scope", "unwind the scope", "destroy the oldest scope", "copy", "advance"};
constexpr long long advances[] = {1, 1'007, 300'000'000, 0, 1'000'000'000'000'000'000};

// What a profiler should say
struct Model {
  bool started = false;
  long long start = 0, current = 0;
  __int128 total = 0;
  long count = 0;
  void on_start() {
    started = true;
    start = virtual_now;
  }
  void on_stop() {
    current = virtual_now - start;
    total += current;
    ++count;
  }
};

template <typename P>
constexpr bool is_setup = std::is_same_v<P, slp::SetupProfiler>;

bool close_to(double got, long double want, double ulps) { return std::abs(got - static_cast<double>(want)) <= ulps * 2.3e-16 * std::abs(static_cast<double>(want)); }

template <typename P>
std::string judge(const P& p, const Model& m, std::string_view name) {
  if (p.name() != name) return std::format("the name is '{}'", p.name());
  if constexpr (is_setup<P>) {
    if (!close_to(p.duration().count(), m.current / 1e9L, 2)) return std::format("a duration of {} s instead of {} ns", p.duration().count(), m.current);
  } else {
    if (p.num_solves() != m.count) return std::format("{} measurements instead of {}", p.num_solves(), m.count);
    if (!close_to(p.current_duration().count(), m.current / 1e9L, 2)) return std::format("a duration of {} s instead of {} ns", p.current_duration().count(), m.current);
    if (!close_to(p.total_duration().count(), m.total / 1e9L, 4 + 2 * m.count)) return std::format("a total of {} s instead of {} ns", p.total_duration().count(), (long long)m.total);
    long double average = m.count ? m.total / 1e9L / m.count : 0;
    if (!close_to(p.average_duration().count(), average, 4 + 6 * m.count)) return std::format("an average of {} s instead of {} s", p.average_duration().count(), (double)average);
  }
  return "";
}

// One sequence on fresh profilers. False if an operation doesn't apply.
template <typename P>
bool sequence(mc::Run& run, const std::vector<int>& ops, int advance_from, bool judge_all) {
  char buffer[2][16] = {"first", "second"};
  std::string names[2] = {buffer[0], buffer[1]};
  // Copies of a profiler go on independently
  std::deque<P> profilers;
  std::deque<Model> models;
  std::deque<int> named;
  for (int i = 0; i < 2; ++i) {
    profilers.emplace_back(std::string_view{buffer[i]});
    models.emplace_back();
    named.push_back(i);
  }
  for (auto& b : buffer) b[0] = '?';
  virtual_now = 1'000'000'007;
  struct Scope {
    std::optional<slp::ScopedProfiler<P>> s;
    bool active;
    size_t of;
  };
  std::deque<Scope> scopes;
  int advanced = advance_from;
  size_t first = 0;
  std::string wrong;
  auto text = [&](size_t upto) {
    std::string t = is_setup<P> ? "setup profiler:" : "solve profiler:";
    int a = advance_from;
    for (size_t i = 0; i <= upto; ++i) {
      t += std::string{i ? ", " : " "} + op_names[ops[i]];
      if (ops[i] == Advance) t += std::format(" {} ns", advances[a++ % std::size(advances)]);
    }
    return t;
  };
  auto end_scope = [&](size_t k) {
    auto& sc = scopes[k];
    if (sc.active) models[sc.of].on_stop();
    sc.s.reset();
    if (k == 0)
      scopes.pop_front();
    else
      scopes.pop_back();
  };
  for (size_t i = 0; i < ops.size() && wrong.empty(); ++i) {
    switch (ops[i]) {
      case Start:
        profilers[first].start();
        models[first].on_start();
        break;
      case StartOther:
        profilers[1].start();
        models[1].on_start();
        break;
      case Stop:
      case StopOther: {
        size_t k = ops[i] == StopOther ? 1 : first;
        // Only what has been started can be stopped
        if (!models[k].started) return false;
        profilers[k].stop();
        models[k].on_stop();
        break;
      }
      case Open:
        if (scopes.size() >= 3) return false;
        scopes.push_back({std::nullopt, true, scopes.size() % 2 ? 1 : first});
        scopes.back().s.emplace(profilers[scopes.back().of]);
        models[scopes.back().of].on_start();
        break;
      case Move: {
        if (scopes.empty() || scopes.size() >= 3) return false;
        auto& from = scopes.back();
        bool active = from.active;
        size_t of = from.of;
        from.active = false;
        auto* source = &*from.s;
        // (references into a deque survive push_back)
        scopes.push_back({std::nullopt, active, of});
        scopes.back().s.emplace(std::move(*source));
        break;
      }
      case ScopedStop: {
        if (scopes.empty()) return false;
        auto& sc = scopes.back();
        sc.s->stop();
        if (sc.active) models[sc.of].on_stop();
        sc.active = false;
        break;
      }
      case Close:
        if (scopes.empty()) return false;
        end_scope(scopes.size() - 1);
        break;
      case CloseOldest:
        if (scopes.size() < 2) return false;
        end_scope(0);
        break;
      case Unwind: {
        if (scopes.empty()) return false;
        auto& sc = scopes.back();
        try {
          slp::ScopedProfiler<P> inner{std::move(*sc.s)};
          throw 1;
        } catch (int) {
        }
        if (sc.active) models[sc.of].on_stop();
        sc.active = false;
        break;
      }
      case Copy: {
        if (profilers.size() >= 4) return false;
        // The copy is used from here on in place of the first one
        profilers.push_back(profilers[first]);
        models.push_back(models[first]);
        named.push_back(0);
        first = profilers.size() - 1;
        break;
      }
      case Advance:
        virtual_now += advances[advanced++ % std::size(advances)];
        break;
    }
    if (!judge_all && i + 1 < ops.size()) continue;
    for (size_t k = 0; k < profilers.size() && wrong.empty(); ++k) wrong = judge(profilers[k], models[k], names[named[k]]);
    if constexpr (!is_setup<P>)
      for (auto& sc : scopes)
        if (wrong.empty() && sc.s && !close_to(sc.s->current_duration().count(), models[sc.of].current / 1e9L, 2)) wrong = "a scope gives another duration";
    if (!wrong.empty()) run.fail(text(i), wrong);
  }
  run.transition(ops.size());
  // What is left is stopped once more
  while (!scopes.empty()) end_scope(scopes.size() - 1);
  for (size_t k = 0; k < profilers.size() && wrong.empty(); ++k) {
    wrong = judge(profilers[k], models[k], names[named[k]]);
    if (!wrong.empty()) run.fail(text(ops.size() - 1) + ", leave", wrong);
  }
  return true;
}

template <typename P>
void sequences(mc::Run& run, int depth) {
  virtual_clock = true;
  std::vector<int> ops;
  // All sequences; those whose last operation doesn't apply are cut
  auto grow = [&](auto& self) -> void {
    if (ops.size() == 2) {
      if (!run.take()) return;
      std::string key = std::format("{} {} {}", is_setup<P> ? "setup" : "solve", op_names[ops[0]], op_names[ops[1]]);
      if (!run.begin(key)) return;
      run.beat();
    }
    if (!ops.empty()) {
      bool any = false;
      bool advances_time = std::ranges::count(ops, Advance) > 0;
      for (int from = 0; from < (advances_time ? (int)std::size(advances) : 1); ++from)
        if (sequence<P>(run, ops, from, false)) {
          any = true;
          if (ops.size() >= 2) {
            run.state();
            run.distinct();
            run.trace();
            run.eval();
          }
        }
      if (!any) return;
    }
    if ((int)ops.size() == depth) return;
    for (int op = 0; op < OpCount; ++op) {
      ops.push_back(op);
      self(self);
      ops.pop_back();
    }
  };
  grow(grow);
  virtual_clock = false;
}

// ---- time traces of solves

using Dense = Eigen::VectorXd;
using Sparse = Eigen::SparseMatrix<double>;
using SparseV = Eigen::SparseVector<double>;
using Info = slp::IterationInfo<double>;

template <typename F>
std::string captured(F f) {
  fflush(stdout);
  int saved = dup(1);
  int fd = memfd_create("out", 0);
  dup2(fd, 1);
  f();
  fflush(stdout);
  dup2(saved, 1);
  close(saved);
  std::string s(lseek(fd, 0, SEEK_END), 0);
  lseek(fd, 0, SEEK_SET);
  if (read(fd, s.data(), s.size()) != static_cast<ssize_t>(s.size())) s = "?";
  close(fd);
  return s;
}

struct TraceRow {
  int depth;
  std::string name;
  double percent, total, each = 0;
  long runs = 0;
};
struct Traces {
  std::vector<std::vector<TraceRow>> tables;  // in order
  std::vector<std::pair<char, double>> iterations;
  std::string error;
};

Traces parse(const std::string& out) {
  Traces t;
  std::istringstream in{out};
  bool iterating = false, tracing = false;
  for (std::string l; std::getline(in, l);) {
    const std::string bar = "│";
    if (l.find("┃iter") == 0) iterating = true, tracing = false;
    if (l.find("┃") == 0 && l.find("time trace") != l.npos) {
      tracing = true;
      iterating = false;
      t.tables.emplace_back();
    }
    if (l.find("└") == 0) iterating = tracing = false;
    if (l.rfind(bar, 0) != 0) continue;
    l = l.substr(bar.size());
    if (l.size() < bar.size() || l.substr(l.size() - bar.size()) != bar) {
      t.error = "a row isn't closed";
      return t;
    }
    l.resize(l.size() - bar.size());
    if (iterating) {
      std::istringstream row{l};
      std::string w;
      char type = ' ';
      row >> w >> w;
      if (w == "s" || w == "r") {
        type = w[0];
        row >> w;
      }
      t.iterations.emplace_back(type, strtod(w.c_str(), nullptr));
    } else if (tracing) {
      TraceRow r{};
      auto bar_at = l.find("▕"), bar_end = l.find("▏ ", bar_at + 3);
      auto percent_at = l.rfind('%', bar_at);
      // The histogram may contain the closing mark
      for (auto next = l.find("▏ ", bar_end + 3); next != l.npos; next = l.find("▏ ", bar_end + 3)) {
        if (l.find_first_of("0123456789", next) == l.npos) break;
        bar_end = next;
      }
      if (bar_at == l.npos || bar_end == l.npos || percent_at == l.npos) {
        t.error = "not a row of a time trace: " + l;
        return t;
      }
      auto number = l.rfind(' ', percent_at - 1) + 1;
      r.percent = strtod(l.c_str() + number, nullptr);
      r.name = l.substr(0, number);
      while (!r.name.empty() && r.name.back() == ' ') r.name.pop_back();
      auto arrow = r.name.find("↳ ");
      if (arrow != r.name.npos) {
        r.depth = 1 + arrow / 2;
        r.name = r.name.substr(arrow + strlen("↳ "));
      }
      std::istringstream rest{l.substr(bar_end + strlen("▏ "))};
      rest >> r.total;
      rest >> r.each >> r.runs;
      t.tables.back().push_back(r);
    }
  }
  return t;
}

double total_of_children(const std::vector<TraceRow>& t, size_t k) {
  double sum = 0;
  for (size_t i = k + 1; i < t.size() && t[i].depth > t[k].depth; ++i)
    if (t[i].depth == t[k].depth + 1) sum += t[i].total;
  return sum;
}

// What every time trace should satisfy
std::string judge_trace(const std::vector<TraceRow>& t) {
  if (t.empty()) return "an empty time trace";
  if (t[0].depth != 0) return "a time trace without a root";
  for (size_t k = 0; k < t.size(); ++k) {
    auto& r = t[k];
    if (r.total < 0 || r.each < 0 || r.runs < 0) return r.name + " is negative";
    double percent = t[0].total == 0 ? (k == 0 ? 100 : 0) : r.total / t[0].total * 100;
    // (both are known to a microsecond)
    if (std::abs(r.percent - percent) > 0.0051 + (t[0].total ? 100 * 0.0021 / t[0].total : 0)) return std::format("{} is {}% instead of {}%", r.name, r.percent, percent);
  }
  return "";
}

constexpr long long ms = 1'000'000;

struct Spent {
  long count = 0;
  long long time = 0;
};

void solve_case(mc::Run& run, const Spec& spec, bool stop_midway) {
  std::string key = "time trace of " + spec.text() + (stop_midway ? ", stopped" : "");
  if (!run.begin_case(key)) return;
  run.state();
  run.distinct();
  run.trace();
  run.eval();
  const int ne = spec.eq.size(), ni = spec.ineq.size();
  std::map<std::string, Spent> spent;
  auto spend = [&](const char* name, long long t) {
    auto& s = spent[name];
    ++s.count;
    s.time += t;
    virtual_now += t;
  };
  auto cost = [&](const Dense& x) { return spec.cost < 0 ? D2{} : costs()[spec.cost].at(Vec2{x[0], x[1]}); };
  auto rows = [&](const Dense& x, bool equality) {
    std::vector<D2> r;
    for (int k : equality ? spec.eq : spec.ineq) r.push_back((equality ? equalities() : inequalities())[k].at(Vec2{x[0], x[1]}));
    return r;
  };
  auto f = [&](const Dense& x) {
    spend("f(x)", 1 * ms);
    return cost(x).v;
  };
  auto g = [&](const Dense& x) {
    spend("∇f(x)", 2 * ms);
    SparseV v{2};
    auto c = cost(x);
    for (int i = 0; i < 2; ++i) v.insert(i) = c.g[i];
    return v;
  };
  auto hessian = [&](const Dense& x, const Dense& y, const Dense& z, bool with_cost) {
    D2 sum = with_cost ? cost(x) : D2{};
    auto e = rows(x, true), i = rows(x, false);
    for (int k = 0; k < ne; ++k) sum = sum - D2{y[k]} * e[k];
    for (int k = 0; k < ni; ++k) sum = sum - D2{z[k]} * i[k];
    Sparse m{2, 2};
    m.insert(0, 0) = sum.h[0];
    m.insert(1, 0) = sum.h[1];
    m.insert(1, 1) = sum.h[2];
    m.makeCompressed();
    return m;
  };
  auto values = [&](const Dense& x, bool equality) {
    auto r = rows(x, equality);
    Dense v(r.size());
    for (size_t k = 0; k < r.size(); ++k) v[k] = r[k].v;
    return v;
  };
  auto jacobian = [&](const Dense& x, bool equality) {
    auto r = rows(x, equality);
    Sparse m(r.size(), 2);
    for (size_t k = 0; k < r.size(); ++k)
      for (int i = 0; i < 2; ++i) m.insert(k, i) = r[k].g[i];
    m.makeCompressed();
    return m;
  };
  std::vector<long long> main_at;
  long long setup_hessian = 0;
  std::vector<std::function<bool(const Info&)>> callbacks;
  callbacks.push_back([&](const Info& info) {
    if (info.x.size() == 2) {
      if (main_at.empty()) setup_hessian = spent["∇²ₓₓL"].time;
      main_at.push_back(virtual_now);
      spend("callbacks", 7 * ms);
      return stop_midway && main_at.size() == 3;
    }
    virtual_now += 7 * ms;
    return false;
  });
  slp::Options o;
  o.max_iterations = 40;
  o.diagnostics = true;
  Dense x{{spec.start[0], spec.start[1]}};
  slp::ExitStatus status{};
  virtual_now = 3'000 * ms;
  long long began = virtual_now;
  const Dense none;
  auto out = captured([&] {
    virtual_clock = true;
    if (ni) {
      slp::InteriorPointMatrixCallbacks<double> m;
      m.num_decision_variables = 2;
      m.num_equality_constraints = ne;
      m.num_inequality_constraints = ni;
      m.f = f;
      m.g = g;
      m.H = [&](const Dense& x, const Dense& y, const Dense& z) { return spend("∇²ₓₓL", 4 * ms), hessian(x, y, z, true); };
      m.H_c = [&](const Dense& x, const Dense& y, const Dense& z) { return spend("∇²ₓₓL_c", 5 * ms), hessian(x, y, z, false); };
      m.c_e = [&](const Dense& x) { return spend("cₑ(x)", 11 * ms), values(x, true); };
      m.A_e = [&](const Dense& x) { return spend("∂cₑ/∂x", 13 * ms), jacobian(x, true); };
      m.c_i = [&](const Dense& x) { return spend("cᵢ(x)", 17 * ms), values(x, false); };
      m.A_i = [&](const Dense& x) { return spend("∂cᵢ/∂x", 19 * ms), jacobian(x, false); };
#ifdef SLEIPNIR_ENABLE_BOUND_PROJECTION
      status = slp::interior_point<double>(m, callbacks, o, Eigen::ArrayX<bool>::Constant(ni, false), x);
#else
      status = slp::interior_point<double>(m, callbacks, o, x);
#endif
    } else if (ne) {
      slp::SQPMatrixCallbacks<double> m;
      m.num_decision_variables = 2;
      m.num_equality_constraints = ne;
      m.f = f;
      m.g = g;
      m.H = [&](const Dense& x, const Dense& y) { return spend("∇²ₓₓL", 4 * ms), hessian(x, y, none, true); };
      m.H_c = [&](const Dense& x, const Dense& y) { return spend("∇²ₓₓL_c", 5 * ms), hessian(x, y, none, false); };
      m.c_e = [&](const Dense& x) { return spend("cₑ(x)", 11 * ms), values(x, true); };
      m.A_e = [&](const Dense& x) { return spend("∂cₑ/∂x", 13 * ms), jacobian(x, true); };
      status = slp::sqp<double>(m, callbacks, o, x);
    } else {
      slp::NewtonMatrixCallbacks<double> m;
      m.num_decision_variables = 2;
      m.f = f;
      m.g = g;
      m.H = [&](const Dense& x) { return spend("∇²ₓₓL", 4 * ms), hessian(x, none, none, true); };
      status = slp::newton<double>(m, callbacks, o, x);
    }
    virtual_clock = false;
  });
  const double elapsed = (virtual_now - began) / 1e6;
  run.transition(main_at.size());
  auto t = parse(out);
  if (!t.error.empty()) return run.fail(key, t.error);
  // Nothing is traced if the solve never starts
  if (t.tables.empty() && main_at.empty()) return;
  if (t.tables.size() != 1) return run.fail(key, std::format("{} time traces", t.tables.size()));
  auto& trace = t.tables[0];
  if (auto e = judge_trace(trace); !e.empty()) return run.fail(key, e);
  auto near = [](double got, double want) { return std::abs(got - want) <= 0.0021; };
  std::map<std::string, TraceRow> row;
  for (auto& r : trace)
    if (!row.emplace(r.name, r).second) return run.fail(key, r.name + " is traced twice");
  if (!near(trace[0].total, elapsed)) return run.fail(key, std::format("a total of {} ms for {} ms", trace[0].total, elapsed));
  if (trace[0].runs != 1) return run.fail(key, std::format("{} solves", trace[0].runs));
  for (auto& r : trace) {
    if (r.runs == 0 ? r.total != 0 || r.each != 0 : std::abs(r.each * r.runs - r.total) > 0.0021 * (r.runs + 1))
      return run.fail(key, std::format("{}: {} ms each, {} runs, {} ms in all", r.name, r.each, r.runs, r.total));
  }
  for (auto& [name, s] : spent) {
    auto r = row.find(name);
    if (r == row.end()) return run.fail(key, name + " isn't traced");
    if (r->second.runs != s.count || !near(r->second.total, s.time / 1e6))
      return run.fail(key, std::format("{}: {} runs of {} ms instead of {} of {} ms", name, r->second.runs, r->second.total, s.count, s.time / 1e6));
  }
  // The iteration in which the iterates are found to be infeasible or to diverge ends before its callbacks
  const long unfinished = status == slp::ExitStatus::LOCALLY_INFEASIBLE || status == slp::ExitStatus::DIVERGING_ITERATES;
  if (auto r = row.find("iteration"); r == row.end() || r->second.runs < (long)main_at.size() || r->second.runs > (long)main_at.size() + unfinished ||
                                      !near(r->second.total, main_at.empty() ? 0 : elapsed - (main_at[0] - began) / 1e6))
    return run.fail(key, std::format("{} iterations of {} ms instead of {} of {} ms", r->second.runs, r->second.total, main_at.size(),
                                     main_at.empty() ? 0 : elapsed - (main_at[0] - began) / 1e6));
  if (auto r = row.find("setup"); r == row.end() || r->second.runs != 1 || (!main_at.empty() && !near(r->second.total, (main_at[0] - began) / 1e6)))
    return run.fail(key, std::format("setup takes {} ms", r->second.total));
  // No time passes between the problem's functions
  for (auto name : {"feasibility check", "KKT matrix build", "KKT matrix decomp", "KKT system solve"})
    if (auto r = row.find(name); r != row.end() && r->second.total != 0) return run.fail(key, std::format("{} took {} ms", name, r->second.total));
  for (auto [inner, outer] : {std::pair{"SOC", "line search"}, {"line search", "iteration"}, {"feas. restoration", "iteration"}}) {
    auto i = row.find(inner), o2 = row.find(outer);
    if (i != row.end() && o2 != row.end() && i->second.total > o2->second.total + 0.0021) return run.fail(key, std::format("{} took longer than {}", inner, outer));
  }
  // The phases of an iteration don't overlap, and neither search nor restoration evaluates the Hessian
  double phases = main_at.empty() ? 0 : (spent["∇²ₓₓL"].time - setup_hessian) / 1e6;
  for (auto name : {"feasibility check", "callbacks", "KKT matrix build", "KKT matrix decomp", "KKT system solve", "line search", "feas. restoration"})
    if (auto r = row.find(name); r != row.end()) phases += r->second.total;
  if (phases > row["iteration"].total + 0.021) return run.fail(key, std::format("the phases of iterations take {} ms, the iterations {} ms", phases, row["iteration"].total));
  // The duration of each iteration
  size_t k = 0;
  for (auto& [type, duration] : t.iterations) {
    if (type != ' ') continue;
    if (k >= main_at.size()) return run.fail(key, "more rows than iterations");
    double want = ((k + 1 < main_at.size() ? main_at[k + 1] : virtual_now) - main_at[k]) / 1e6;
    if (!near(duration, want)) return run.fail(key, std::format("iteration {} took {} ms instead of {} ms", k, duration, want));
    ++k;
  }
  run.sample(std::format("{}: {} iterations, {} ms", key, main_at.size(), elapsed));
}

// Setup: every reading of the clock takes a while
void setup_case(mc::Run& run, const Spec& spec) {
  std::string key = "setup trace of " + spec.text();
  if (!run.begin_case(key)) return;
  run.state();
  run.distinct();
  run.trace();
  run.eval();
  Built b{spec};
  slp::Options o;
  o.max_iterations = 40;
  o.diagnostics = true;
  virtual_now = 3'000 * ms;
  auto out = captured([&] {
    virtual_clock = true;
    tick = ms;
    b.problem.solve(o);
    tick = 0;
    virtual_clock = false;
  });
  auto t = parse(out);
  if (!t.error.empty()) return run.fail(key, t.error);
  // One for setup and one for the solve
  for (size_t n = 0; n < t.tables.size(); ++n) {
    auto& trace = t.tables[n];
    if (auto e = judge_trace(trace); !e.empty()) return run.fail(key, e);
    if (n > 0) continue;
    for (size_t k = 0; k < trace.size(); ++k) {
      if (trace[k].total < 1) return run.fail(key, std::format("setting up {} took no time", trace[k].name));
      if (total_of_children(trace, k) > trace[k].total + 0.001 * trace.size()) return run.fail(key, std::format("the parts of {} took longer than it", trace[k].name));
      bool leaf = k + 1 == trace.size() || trace[k + 1].depth <= trace[k].depth;
      if (leaf && trace[k].total > 3) return run.fail(key, std::format("setting up {} took {} ms", trace[k].name, trace[k].total));
    }
  }
}

void solves(mc::Run& run) {
  auto both = [&](const Spec& spec) {
    if (!run.take()) return;
    run.beat();
    solve_case(run, spec, false);
    solve_case(run, spec, true);
    setup_case(run, spec);
  };
  for (auto& [spec, convex] : menu()) both(spec);
  for (int cost = -1; cost < (int)costs().size(); ++cost)
    for (auto& start : starts())
      row_sets(run.thorough ? 2 : 1, [&](auto& eq, auto& ineq) { both(Spec{cost, eq, ineq, start}); });
}

void explore(mc::Run& run) {
  sequences<slp::SetupProfiler>(run, run.thorough ? 7 : 6);
  sequences<slp::SolveProfiler>(run, run.thorough ? 8 : 6);
  solves(run);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv,
                  {.property = "P32",
                   .level = "model_checking",
                   .rule = "a sequence of operations on two profilers and their scopes under a controlled clock, or a problem and a start; the profilers and the printed traces are compared with exact bookkeeping",
                   .assumptions = {"a profiler that was never started isn't stopped", "the clock doesn't go backwards"}},
                  explore);
}
