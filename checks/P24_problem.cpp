// P24: the solver fits the problem, and trivial problems are answered rightly.
//@technique exhaustive enumeration of build histories: every word of build operations (costs, objectives, rows of every type, groups, bounds) up to a depth against a model of the problem, every interleaving and grouping of the same rows, every permutation of convex ones, and every history of creating decision variables; each problem is solved by the real library
//@level exploration
//@note Words over 24 build operations up to 3 operations (thorough: 4), solved after every prefix; 4 costs x every pair of
//@note equality and inequality sets of up to 2 rows x every interleaving, grouping and permutation; variable creation up to 4 operations.
//@src **/*.cpp
//@flags -O2 -DNDEBUG
#include <sys/mman.h>

#include <numeric>

#include "problang.hpp"

#include "mc.hpp"

using namespace problang;

namespace {

using slp::ExitStatus;
using slp::ExpressionType;
using Info = slp::IterationInfo<double>;

// Captures what is written to stdout
class Capture {
 public:
  Capture() {
    std::fflush(stdout);
    m_saved = dup(1);
    m_fd = memfd_create("out", 0);
    dup2(m_fd, 1);
  }
  std::string text() {
    if (m_saved < 0) return m_text;
    std::fflush(stdout);
    dup2(m_saved, 1);
    close(m_saved);
    m_saved = -1;
    off_t n = lseek(m_fd, 0, SEEK_END);
    m_text.resize(n);
    if (n > 0 && pread(m_fd, m_text.data(), n, 0) != n) m_text.clear();
    close(m_fd);
    return m_text;
  }
  ~Capture() { text(); }

 private:
  int m_saved, m_fd;
  std::string m_text;
};

constexpr ExpressionType types[]{ExpressionType::CONSTANT, ExpressionType::LINEAR, ExpressionType::QUADRATIC,
                                 ExpressionType::NONLINEAR};

// Build operations
struct Op {
  std::string name;
  enum Kind { MIN, MAX, EQ, INEQ, EQ2, INEQ2, BOUNDS } kind;
  int a = 0, b = 0;
};

const std::vector<Op>& ops() {
  static const std::vector<Op> v = [] {
    std::vector<Op> o;
    for (auto c : {"3", "x+y", "x*y", "(x-1)^2+(y+2)^2", "exp(x)+y^2"}) {
      int i = cost_index(c);
      o.push_back({std::string{"min "} + c, Op::MIN, i});
      if (costs()[i].degree != 2) o.push_back({std::string{"max "} + c, Op::MAX, i});
    }
    for (auto c : {"x+y=1", "x^2+y^2=1", "y=exp(x)", "0=0", "0=1"}) o.push_back({c, Op::EQ, row_index(equalities(), c)});
    for (auto c : {"x>=0", "x+y<=1", "x^2+y^2<=4", "sin(x)>=2", "x>=3", "1>=0", "-1>=0"})
      o.push_back({c, Op::INEQ, row_index(inequalities(), c)});
    o.push_back({"{x+y=1, x*y=1}", Op::EQ2, row_index(equalities(), "x+y=1"), row_index(equalities(), "x*y=1")});
    o.push_back({"[0=0 x=2]", Op::EQ2, row_index(equalities(), "0=0"), row_index(equalities(), "x=2")});
    o.push_back({"{x<=2, 1>=0}", Op::INEQ2, row_index(inequalities(), "x<=2"), row_index(inequalities(), "1>=0")});
    o.push_back({"bounds(0, x, 2)", Op::BOUNDS, row_index(inequalities(), "x>=0"), row_index(inequalities(), "x<=2")});
    return o;
  }();
  return v;
}

// A vector of variables, row by row
slp::VariableMatrix<double> column(const Var& a, const Var& b) { return slp::VariableMatrix<double>{{a}, {b}}; }

void apply(const Op& op, slp::Problem<double>& problem, const Var& x, const Var& y) {
  auto e = [&](int i) { return equalities()[i].ad(x, y); };
  auto n = [&](int i) { return inequalities()[i].ad(x, y); };
  switch (op.kind) {
    case Op::MIN:
      if (op.a % 2) {
        Var f = costs()[op.a].ad(x, y);
        problem.minimize(f);
      } else {
        problem.minimize(costs()[op.a].ad(x, y));
      }
      break;
    case Op::MAX:
      if (op.a % 2) {
        Var f = costs()[op.a].ad(x, y);
        problem.maximize(f);
      } else {
        problem.maximize(costs()[op.a].ad(x, y));
      }
      break;
    case Op::EQ: problem.subject_to(e(op.a) == 0.0); break;
    case Op::INEQ: problem.subject_to(n(op.a) >= 0.0); break;
    case Op::EQ2:
      if (op.name[0] == '[') {
        problem.subject_to(column(e(op.a), e(op.b)) == Eigen::Vector2d{0.0, 0.0});
      } else {
        problem.subject_to(slp::EqualityConstraints<double>{{e(op.a) == 0.0, e(op.b) == 0.0}});
      }
      break;
    case Op::INEQ2: {
      slp::InequalityConstraints<double> c{{n(op.a) >= 0.0, n(op.b) >= 0.0}};
      problem.subject_to(c);
      break;
    }
    case Op::BOUNDS: problem.subject_to(slp::bounds(0.0, x, 2.0)); break;
  }
}

void apply(const Op& op, Spec& spec) {
  switch (op.kind) {
    case Op::MIN:
    case Op::MAX: spec.cost = op.a; spec.maximize_negation = op.kind == Op::MAX; break;
    case Op::EQ: spec.eq.push_back(op.a); break;
    case Op::INEQ: spec.ineq.push_back(op.a); break;
    case Op::EQ2: spec.eq.insert(spec.eq.end(), {op.a, op.b}); break;
    case Op::INEQ2:
    case Op::BOUNDS: spec.ineq.insert(spec.ineq.end(), {op.a, op.b}); break;
  }
}

ExpressionType highest(const std::vector<Fn>& fns, const std::vector<int>& idx) {
  int d = -1;
  for (int i : idx) d = std::max(d, fns[i].degree);
  return d < 0 ? ExpressionType::NONE : types[d];
}

void words(mc::Run& run) {
  const int depth = run.thorough ? 4 : 3;
  std::vector<int> word;
  std::function<void()> rec = [&] {
    if (run.take()) {
      std::string key = "word:";
      Spec spec;
      spec.start = {0.5, -0.5};
      for (int i : word) {
        key += " | " + ops()[i].name;
        apply(ops()[i], spec);
      }
      if (run.begin_case(key)) {
        run.state();
        run.distinct();
        run.trace();
        run.transition(word.size() + 1);
        slp::Problem<double> problem;
        Var x = problem.decision_variable(), y = problem.decision_variable();
        x.set_value(spec.start[0]);
        y.set_value(spec.start[1]);
        for (int i : word) apply(ops()[i], problem, x, y);
        auto f = spec.cost < 0 ? ExpressionType::NONE : types[costs()[spec.cost].degree];
        auto ce = highest(equalities(), spec.eq), ci = highest(inequalities(), spec.ineq);
        auto check_types = [&](const char* when) {
          if (problem.cost_function_type() != f || problem.equality_constraint_type() != ce ||
              problem.inequality_constraint_type() != ci)
            run.fail(key, std::format("{}: types {} {} {} instead of {} {} {}", when, problem.cost_function_type(),
                                      problem.equality_constraint_type(), problem.inequality_constraint_type(), f, ce, ci));
        };
        check_types("before solving");
        int calls = 0;
        std::string shape;
        problem.add_callback([&](const Info& info) {
          if (calls++) return;
          int n = 2, e = spec.eq.size(), i = spec.ineq.size();
          if (info.iteration != 0) shape = std::format("first iteration is {}", info.iteration);
          if (info.x.size() != n || info.g.size() != n || info.H.rows() != n || info.H.cols() != n)
            shape = std::format("{} variables, gradient {}, Hessian {}x{}", info.x.size(), info.g.size(), info.H.rows(), info.H.cols());
          if (info.x.size() >= 2 && (info.x[0] != spec.start[0] || info.x[1] != spec.start[1])) shape = "starts elsewhere";
          if (info.y.size() != e || info.A_e.rows() != e) shape = std::format("{} equality duals, Jacobian {}x{}, {} rows expected", info.y.size(), info.A_e.rows(), info.A_e.cols(), e);
          if (info.s.size() != i || info.z.size() != i || info.A_i.rows() != i) shape = std::format("{} slacks, {} inequality duals, Jacobian {}x{}, {} rows expected", info.s.size(), info.z.size(), info.A_i.rows(), info.A_i.cols(), i);
          if ((e && info.A_e.cols() != n) || (i && info.A_i.cols() != n)) shape = "Jacobian columns";
        });
        slp::Options o;
        o.max_iterations = 4;
        o.diagnostics = word.size() <= 2;
        ExitStatus status;
        std::string out;
        if (o.diagnostics) {
          Capture c;
          status = problem.solve(o);
          out = c.text();
        } else {
          status = problem.solve(o);
        }
        check_types("after solving");
        if (!shape.empty()) run.fail(key, shape);
        Vec2 p{x.value(), y.value()};
        const bool constant = f <= ExpressionType::CONSTANT && ce <= ExpressionType::CONSTANT && ci <= ExpressionType::CONSTANT;
        const bool conflict = !constant && bounds_conflict(spec);
        const bool few = !constant && !conflict && spec.eq.size() > 2;
        if (constant || conflict || few) {
          if (calls) run.fail(key, std::format("{} iterations of a problem answered at once", calls));
          if (p != spec.start) run.fail(key, "variables moved");
          ExitStatus want = few ? ExitStatus::TOO_FEW_DOFS
                            : conflict || facts(spec, p).violation > 1e-8 ? ExitStatus::GLOBALLY_INFEASIBLE
                                                                          : ExitStatus::SUCCESS;
          if (status != want) run.fail(key, std::format("{} instead of {}", status, want));
        } else {
          if (status == ExitStatus::TOO_FEW_DOFS || status == ExitStatus::GLOBALLY_INFEASIBLE ||
              status == ExitStatus::NONFINITE_INITIAL_GUESS || status == ExitStatus::TIMEOUT ||
              status == ExitStatus::CALLBACK_REQUESTED_STOP)
            run.fail(key, std::format("no reason for {}", status));
          if (calls == 0 && status != ExitStatus::LOCALLY_INFEASIBLE) run.fail(key, std::format("{} without an iteration", status));
        }
        if (o.diagnostics && !few) {
          std::string_view want = constant             ? "no-op solver"
                                  : !spec.ineq.empty() ? "IPM solver"
                                  : !spec.eq.empty()   ? "SQP solver"
                                                       : "Newton solver";
          for (std::string_view s : {"no-op solver", "IPM solver", "SQP solver", "Newton solver"})
            if ((out.find(s) != out.npos) != (s == want)) run.fail(key, std::format("the {} is expected; {} {}", want, s, s == want ? "was not used" : "was used"));
        }
      }
    }
    if (static_cast<int>(word.size()) == depth) return;
    for (size_t i = 0; i < ops().size(); ++i) {
      word.push_back(i);
      rec();
      word.pop_back();
    }
  };
  rec();
}

// The same problem, added in other orders and groupings
struct Solved {
  ExitStatus status{};
  Vec2 p{0, 0};
  int calls = 0;
};

Solved solve(slp::Problem<double>& problem, Var& x, Var& y, const Vec2& start) {
  Solved r;
  x.set_value(start[0]);
  y.set_value(start[1]);
  problem.add_callback([&](const Info&) { ++r.calls; });
  slp::Options o;
  o.max_iterations = 60;
  r.status = problem.solve(o);
  problem.clear_callbacks();
  r.p = {x.value(), y.value()};
  return r;
}

// Ways of splitting n rows into consecutive groups, as bit masks of the borders
void orders(mc::Run& run) {
  const std::vector<int> cs{cost_index("(x-1)^2+(y+2)^2"), cost_index("x+y"), cost_index("exp(x)+y^2"), cost_index("rosenbrock")};
  std::vector<int> es, is;
  for (auto e : {"x+y=1", "x=y", "x^2+y^2=1", "x*y=1", "x=2"}) es.push_back(row_index(equalities(), e));
  for (auto i : {"x>=0", "x<=2", "x+y<=1", "x^2+y^2<=4", "x+y>=3", "sqrt(x)>=1"}) is.push_back(row_index(inequalities(), i));
  auto sets = [](const std::vector<int>& v) {
    std::vector<std::vector<int>> r{{}};
    for (size_t i = 0; i < v.size(); ++i) {
      r.push_back({v[i]});
      for (size_t j = i + 1; j < v.size(); ++j) r.push_back({v[i], v[j]});
    }
    return r;
  };
  for (int c : cs)
    for (auto& e : sets(es))
      for (auto& n : sets(is))
        for (Vec2 start : {Vec2{0.5, 0.5}, Vec2{-3, 2}}) {
          if (!run.take()) continue;
          Spec spec{c, e, n, start};
          std::string name = spec.text();
          // Reference: cost, equalities, inequalities, one by one
          Built b{spec};
          auto ref = solve(b.problem, b.x, b.y, start);
          const bool convex = c == cs[0] && std::ranges::all_of(e, [](int i) { return equalities()[i].degree <= 1; }) &&
                              std::ranges::all_of(n, [](int i) { return inequalities()[i].degree <= 1; });
          auto compare = [&](const std::string& key, const Solved& r, bool exact) {
            run.state();
            run.distinct();
            run.trace();
            run.transition(r.calls);
            double d = (r.p - ref.p).lpNorm<Eigen::Infinity>();
            if (r.status != ref.status) run.fail(key, std::format("{} instead of {}", r.status, ref.status));
            else if (exact ? !(d <= 1e-9 * (1 + ref.p.lpNorm<Eigen::Infinity>())) && ref.p.allFinite()
                           : ref.status == ExitStatus::SUCCESS && !(d <= 1e-5))
              run.fail(key, std::format("({}, {}) instead of ({}, {})", r.p[0], r.p[1], ref.p[0], ref.p[1]));
            if (exact && r.calls != ref.calls) run.fail(key, std::format("{} iterations instead of {}", r.calls, ref.calls));
          };
          // Every interleaving of cost, equality groups and inequality groups, with every grouping
          int ne = e.size(), ni = n.size();
          for (int ge = 0; ge < (ne == 2 ? 2 : 1); ++ge)
            for (int gi = 0; gi < (ni == 2 ? 2 : 1); ++gi)
              for (int maximize = 0; maximize < 2; ++maximize) {
                std::string order = "C";
                order += std::string(ge ? 1 : ne, 'E');
                order += std::string(gi ? 1 : ni, 'I');
                std::ranges::sort(order);
                do {
                  std::string key = std::format("{} | {}{}{}{}", name, order, ge ? " equalities grouped" : "", gi ? " inequalities grouped" : "", maximize ? " maximizing the negation" : "");
                  if (!run.begin_case(key)) continue;
                  slp::Problem<double> problem;
                  Var x = problem.decision_variable(), y = problem.decision_variable();
                  int ke = 0, ki = 0;
                  for (char o : order) {
                    if (o == 'C') {
                      // An objective set before is replaced
                      if (ge) problem.minimize(x * x * y);
                      if (maximize) problem.maximize(-costs()[c].ad(x, y));
                      else problem.minimize(costs()[c].ad(x, y));
                    } else if (o == 'E') {
                      auto row = [&](int k) { return equalities()[e[k]].ad(x, y); };
                      if (ge) problem.subject_to(column(row(0), row(1)) == Eigen::Vector2d{0, 0});
                      else problem.subject_to(row(ke++) == 0.0);
                    } else {
                      auto row = [&](int k) { return inequalities()[n[k]].ad(x, y); };
                      if (gi) problem.subject_to(slp::InequalityConstraints<double>{{row(0) >= 0.0, row(1) >= 0.0}});
                      else problem.subject_to(row(ki++) >= 0.0);
                    }
                  }
                  compare(key, solve(problem, x, y, start), true);
                } while (std::ranges::next_permutation(order).found);
              }
          // Every order of the rows themselves
          if (convex)
            for (int pe = 0; pe < (ne == 2 ? 2 : 1); ++pe)
              for (int pi = 0; pi < (ni == 2 ? 2 : 1); ++pi) {
                std::string key = std::format("{} | rows{}{}", name, pe ? " equalities reversed" : "", pi ? " inequalities reversed" : "");
                if (!run.begin_case(key)) continue;
                Spec other = spec;
                if (pe) std::ranges::reverse(other.eq);
                if (pi) std::ranges::reverse(other.ineq);
                Built o{other};
                compare(key, solve(o.problem, o.x, o.y, start), false);
              }
        }
}

// Histories of creating decision variables
void variables(mc::Run& run) {
  struct Make {
    int rows, cols;
    bool symmetric;
  };
  const std::vector<Make> makes{{0, 0, false}, {1, 1, false}, {2, 1, false}, {1, 3, false}, {2, 2, false}, {1, 1, true}, {2, 2, true}, {3, 3, true}};
  const int depth = run.thorough ? 5 : 4;
  std::vector<int> word;
  std::function<void()> rec = [&] {
    if (!word.empty() && run.take()) {
      std::string key = "variables:";
      for (int i : word) key += std::format(" {}x{}{}", makes[i].rows, makes[i].cols, makes[i].symmetric ? "s" : "");
      if (run.begin_case(key)) {
        run.state();
        run.distinct();
        run.trace();
        run.transition(word.size());
        slp::Problem<double> problem;
        std::vector<Var> vars;
        std::vector<slp::VariableMatrix<double>> kept;
        for (int i : word) {
          auto& m = makes[i];
          if (m.rows == 0) {
            vars.push_back(problem.decision_variable());
            continue;
          }
          auto v = m.symmetric ? problem.symmetric_decision_variable(m.rows) : problem.decision_variable(m.rows, m.cols);
          if (v.rows() != m.rows || v.cols() != m.cols) run.fail(key, std::format("{}x{} matrix", v.rows(), v.cols()));
          for (int r = 0; r < m.rows; ++r)
            for (int c = 0; c < m.cols; ++c) {
              if (m.symmetric && c > r) {
                v[r, c].set_value(3.5);
                if (v[c, r].value() != 3.5) run.fail(key, std::format("element ({}, {}) isn't ({}, {})", r, c, c, r));
                v[c, r].set_value(0.0);
              } else {
                vars.push_back(v[r, c]);
              }
            }
          kept.push_back(std::move(v));
        }
        for (auto& v : vars)
          if (v.value() != 0.0) run.fail(key, std::format("initial value {}", v.value()));
        // Each variable has its own target
        Var f = 0.0;
        for (size_t k = 0; k < vars.size(); ++k) {
          vars[k].set_value(0.25 * k);
          Var d = vars[k] - (k + 1.0);
          f = f + d * d;
        }
        for (size_t k = 0; k < vars.size(); ++k)
          if (vars[k].value() != 0.25 * k) run.fail(key, "two variables share a value");
        problem.minimize(f);
        int calls = 0;
        problem.add_callback([&](const Info& info) {
          if (calls++) return;
          if (info.x.size() != static_cast<int>(vars.size())) run.fail(key, std::format("{} variables in the solver instead of {}", info.x.size(), vars.size()));
          auto sorted = [](std::vector<double> v) {
            std::ranges::sort(v);
            return v;
          };
          std::vector<double> got(info.x.begin(), info.x.end()), want;
          for (auto& v : vars) want.push_back(v.value());
          if (sorted(got) != sorted(want)) run.fail(key, "the solver starts elsewhere");
        });
        auto status = problem.solve();
        if (status != ExitStatus::SUCCESS) run.fail(key, std::format("{}", status));
        for (size_t k = 0; k < vars.size(); ++k)
          if (!(std::abs(vars[k].value() - (k + 1.0)) < 1e-6)) run.fail(key, std::format("variable {} is {} instead of {}", k, vars[k].value(), k + 1.0));
      }
    }
    if (static_cast<int>(word.size()) == depth) return;
    for (size_t i = 0; i < makes.size(); ++i) {
      word.push_back(i);
      rec();
      word.pop_back();
    }
  };
  rec();
}

void explore(mc::Run& run) {
  variables(run);
  words(run);
  orders(run);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv,
                  {"P24",
                   "exploration",
                   "every word of build operations up to the depth; every interleaving, grouping and permutation of the same rows; every word of variable creations",
                   {"which method runs is seen from the shapes handed to callbacks and from the diagnostics",
                    "permuted rows are compared on convex problems only, to 1e-5"},
                   120},
                  explore);
}
