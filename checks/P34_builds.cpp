// P34: build options, output options and the scalar type don't change what is computed.
//@technique exhaustive enumeration of every problem with up to N rows over a menu of costs, rows, starts and options, each solved by four separate builds of the real library (default, diagnostics compiled out, bound projection, user-defined scalar type) and with every combination of output options; results and every iterate are compared bit for bit where nothing may change, and certified independently where the starting point is moved
//@level exploration
//@note All problems with at most 2 (thorough: 3) of 30 rows, 15 costs, 5 starts, default options and feasible_ipm, limited to 60 iterations each.
//@src **/*.cpp
//@flags -O1 -DNDEBUG -DEIGEN_DONT_VECTORIZE
//@variant? NODIAG -O1 -DNDEBUG -DEIGEN_DONT_VECTORIZE -DSLEIPNIR_DISABLE_DIAGNOSTICS
//@variant? BOUNDS -O1 -DNDEBUG -DEIGEN_DONT_VECTORIZE -DSLEIPNIR_ENABLE_BOUND_PROJECTION
//@variant? WRAPPED -O1 -DNDEBUG -DEIGEN_DONT_VECTORIZE -DPROBLANG_SCALAR=WrappedDouble -include wrapped_double.hpp
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <bit>

#include "mc.hpp"
#include "outcome.hpp"

using namespace problang;

namespace {

enum Output { DIAGNOSTICS = 1, SPY = 2, CALLBACK = 4 };

struct Result {
  int status = -1000;
  int iterations = 0;
  int restoring = 0;  // iterations of feasibility restoration
  double x[2], first[2];
  double max_s = 0;
  uint64_t hash = 0;  // of everything handed to callbacks
  int printed = 0;    // whether anything was written to stdout, or to a file
  bool operator==(const Result& o) const {
    return status == o.status && iterations == o.iterations && hash == o.hash &&
           std::bit_cast<uint64_t>(x[0]) == std::bit_cast<uint64_t>(o.x[0]) &&
           std::bit_cast<uint64_t>(x[1]) == std::bit_cast<uint64_t>(o.x[1]);
  }
  bool same_result(const Result& o) const {
    return status == o.status && std::bit_cast<uint64_t>(x[0]) == std::bit_cast<uint64_t>(o.x[0]) &&
           std::bit_cast<uint64_t>(x[1]) == std::bit_cast<uint64_t>(o.x[1]);
  }
  std::string text() const {
    return std::format("{} after {} iterations at ({}, {}), iterates {:016x}",
                       status < -100 || status > 100 ? "?" : std::format("{}", static_cast<slp::ExitStatus>(status)),
                       iterations, x[0], x[1], hash);
  }
};

struct Request {
  int cost, ne, ni, eq[4], ineq[4];
  double start[2];
  int feasible, output, limit;
};

double plain(double v) { return v; }
template <typename T>
  requires(!std::same_as<T, double>)
double plain(const T& v) {
  return static_cast<double>(v);
}

/// Where stdout goes while solving
int out_fd = -1;

Result solve(const Request& q) {
  Spec spec{q.cost, {q.eq, q.eq + q.ne}, {q.ineq, q.ineq + q.ni}, Vec2{q.start[0], q.start[1]}};
  Result r;
  Built b{spec};
  slp::Options o;
  o.feasible_ipm = q.feasible;
  o.max_iterations = q.limit;
  o.diagnostics = q.output & DIAGNOSTICS;
  uint64_t h = 1469598103934665603u;
  auto mix = [&](double v) {
    // All NaNs are one
    h = (h ^ (v != v ? 1 : std::bit_cast<uint64_t>(v))) * 1099511628211u;
    h ^= h >> 29;
  };
  if (q.output & CALLBACK) {
    b.problem.add_callback([&](const slp::IterationInfo<Scalar>& info) {
      if (r.iterations++ == 0) {
        r.first[0] = plain(info.x[0]);
        r.first[1] = plain(info.x[1]);
      }
      r.restoring += info.x.size() > 2;
      mix(info.iteration);
      for (auto& v : info.x) mix(plain(v));
      for (auto& v : info.s) mix(plain(v));
      for (auto& v : info.y) mix(plain(v));
      for (auto& v : info.z) mix(plain(v));
      r.max_s = 0;
      for (auto& v : info.s) r.max_s = std::max(r.max_s, std::abs(plain(v)));
      for (auto* m : {&info.H, &info.A_e, &info.A_i}) {
        mix(m->rows());
        mix(m->cols());
        for (int k = 0; k < m->outerSize(); ++k)
          for (typename std::decay_t<decltype(*m)>::InnerIterator it{*m, k}; it; ++it) {
            mix(it.row());
            mix(plain(it.value()));
          }
      }
      for (typename std::decay_t<decltype(info.g)>::InnerIterator it{info.g}; it; ++it) {
        mix(it.index());
        mix(plain(it.value()));
      }
    });
  }
  for (const char* f : {"H.spy", "A_e.spy", "A_i.spy"}) unlink(f);
  if (ftruncate(out_fd, 0)) abort();
  lseek(out_fd, 0, SEEK_SET);
  fflush(stdout);
  int saved = dup(1);
  dup2(out_fd, 1);
  r.status = static_cast<int>(b.problem.solve(o, q.output & SPY));
  fflush(stdout);
  dup2(saved, 1);
  close(saved);
  struct stat st {};
  fstat(out_fd, &st);
  r.printed = st.st_size > 0;
  for (const char* f : {"H.spy", "A_e.spy", "A_i.spy"})
    if (access(f, F_OK) == 0) r.printed |= 2;
  Vec2 p = b.point();
  r.x[0] = p[0];
  r.x[1] = p[1];
  r.hash = h;
  if (!(q.output & CALLBACK) || !r.iterations) r.first[0] = q.start[0], r.first[1] = q.start[1];
  return r;
}

/// A directory of our own to write pattern files into
void work_here() {
  std::string d = std::format("{}/p34-{}", getenv("WORK_DIR") ? getenv("WORK_DIR") : "/tmp", getpid());
  std::filesystem::create_directories(d);
  if (chdir(d.c_str())) abort();
  out_fd = open("stdout.txt", O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (out_fd < 0) abort();
}

bool read_all(int fd, void* p, size_t n) {
  for (char* c = static_cast<char*>(p); n;) {
    auto k = read(fd, c, n);
    if (k <= 0) return false;
    c += k;
    n -= k;
  }
  return true;
}

[[noreturn]] void serve() {
  int in = dup(0), out = dup(1);
  work_here();
  Request q;
  while (read_all(in, &q, sizeof q)) {
    alarm(60);
    Result r = solve(q);
    alarm(0);
    if (write(out, &r, sizeof r) != sizeof r) break;
  }
  _exit(0);
}

/// Another build, as a process that answers requests
class Build {
 public:
  explicit Build(const char* variable) : m_variable{variable} {}
  ~Build() { stop(); }
  bool exists() const { return getenv(m_variable); }
  std::optional<Result> ask(const Request& q) {
    if (m_pid < 0) start();
    Result r;
    if (write(m_in, &q, sizeof q) != sizeof q || !read_all(m_out, &r, sizeof r)) {
      stop();
      return std::nullopt;
    }
    return r;
  }

 private:
  const char* m_variable;
  pid_t m_pid = -1;
  int m_in = -1, m_out = -1;

  void start() {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) abort();
    m_pid = fork();
    if (m_pid == 0) {
      dup2(a[0], 0);
      dup2(b[1], 1);
      execl(getenv(m_variable), getenv(m_variable), "--serve", nullptr);
      _exit(127);
    }
    close(a[0]);
    close(b[1]);
    m_in = a[1];
    m_out = b[0];
  }
  void stop() {
    if (m_pid < 0) return;
    close(m_in);
    close(m_out);
    waitpid(m_pid, nullptr, 0);
    m_pid = -1;
  }
};

/// Whether a row bounds one variable
bool is_bound(int row) {
  auto& fn = inequalities()[row];
  if (fn.degree != 1) return false;
  D2 d = fn.at({0, 0});
  return (d.g[0] == 0) != (d.g[1] == 0);
}

void explore(mc::Run& run) {
  signal(SIGPIPE, SIG_IGN);
  work_here();
  Build nodiag{"VERIF_NODIAG"}, bounds{"VERIF_BOUNDS"}, wrapped{"VERIF_WRAPPED"};
  for (auto name : {"VERIF_NODIAG", "VERIF_BOUNDS", "VERIF_WRAPPED"})
    if (run.take() && run.begin_case(std::format("build {}", name)) && !getenv(name))
      run.fail(std::format("build {}", name), "this build does not compile");
  auto one = [&](const Spec& spec, bool feasible) {
    std::string key = spec.text() + (feasible ? " [feasible_ipm]" : "");
    if (!run.begin_case(key)) return;
    run.state();
    run.distinct();
    Request q{spec.cost, (int)spec.eq.size(), (int)spec.ineq.size(), {}, {}, {spec.start[0], spec.start[1]}, feasible, 0, 60};
    std::copy(spec.eq.begin(), spec.eq.end(), q.eq);
    std::copy(spec.ineq.begin(), spec.ineq.end(), q.ineq);
    auto with = [&](int output) {
      Request r = q;
      r.output = output;
      return r;
    };
    const Result base = solve(with(CALLBACK));
    run.transition(base.iterations);
    run.trace();
    auto compare = [&](const char* what, const std::optional<Result>& r, bool iterates, int printed) {
      run.eval();
      run.trace();
      if (!r) {
        run.fail(key, std::format("{}: crashed or hung", what));
        return;
      }
      if (iterates ? !(*r == base) : !r->same_result(base))
        run.fail(key, std::format("{}: {}; default: {}", what, r->text(), base.text()));
      if (printed >= 0 && r->printed != printed)
        run.fail(key, std::format("{}: wrote {}", what,
                                  r->printed == 0 ? "nothing" : r->printed == 1 ? "to stdout" : "to stdout or files"));
    };
    if (base.printed) run.fail(key, "wrote something without being asked to");
    // Output options
    compare("without callbacks", solve(with(0)), false, 0);
    auto d = solve(with(CALLBACK | DIAGNOSTICS));
    compare("with diagnostics", d, true, -1);
    if (d.printed != 1) run.fail(key, "with diagnostics: printed nothing, or wrote files");
    auto s = solve(with(CALLBACK | SPY));
    compare("with pattern files", s, true, -1);
    if (s.printed == 1 || s.printed == 3) run.fail(key, "with pattern files: printed something");
    if (run.thorough) compare("with diagnostics and pattern files", solve(with(DIAGNOSTICS | SPY | CALLBACK)), true, -1);
    // Other builds
    if (nodiag.exists()) {
      compare("diagnostics compiled out", nodiag.ask(with(CALLBACK)), true, 0);
      compare("diagnostics compiled out, asked for", nodiag.ask(with(CALLBACK | DIAGNOSTICS | SPY)), true, 0);
    }
    if (wrapped.exists()) compare("user-defined scalar", wrapped.ask(with(CALLBACK)), true, 0);
    if (!bounds.exists()) return;
    bool bound = false;
    for (int i : spec.ineq) bound |= is_bound(i);
    auto b = bounds.ask(with(CALLBACK));
    // While restoring, the bounds of the relaxed problem's own variables are projected too
    if (!b || (!bound && !base.restoring)) {
      compare("bound projection, no bounds", b, true, 0);
      return;
    }
    run.eval();
    run.trace();
    // The first iterate is inside the bounds
    Vec2 first{b->first[0], b->first[1]};
    if (!b->iterations) first = {b->x[0], b->x[1]};
    if (b->iterations)
      for (int i : spec.ineq)
        if (is_bound(i) && inequalities()[i].at(first).v < 0)
          run.fail(key, std::format("bound projection: first iterate ({}, {}) violates {}", first[0], first[1],
                                    inequalities()[i].name));
    auto status = static_cast<slp::ExitStatus>(b->status);
    Outcome o{status, Vec2{b->x[0], b->x[1]}, b->iterations, b->max_s, q.limit, 1e-8, first};
    // Where the solve ends before iterating, the point it would start from isn't known
    if (status == slp::ExitStatus::NONFINITE_INITIAL_GUESS && !b->iterations) return;
    certify(spec, o, [&](std::string what) { run.fail(key, std::format("bound projection: {}: {}", b->text(), what)); });
  };
  for (int feasible = 0; feasible < 2; ++feasible)
    for (int cost = -1; cost < (int)costs().size(); ++cost)
      for (auto& start : starts())
        row_sets(run.thorough ? 3 : 2, [&](auto& eq, auto& ineq) {
          if (feasible && ineq.empty()) return;
          if (run.thorough && eq.size() + ineq.size() == 3 && start != starts()[1] && start != starts()[2]) return;
          if (run.take()) one(Spec{cost, eq, ineq, start}, feasible);
        });
}

}  // namespace

int main(int argc, char** argv) {
  if (argc > 1 && std::string_view{argv[1]} == "--serve") serve();
  return mc::main(argc, argv,
                  {.property = "P34",
                   .level = "exploration",
                   .rule = "a problem, a start and an option set; solved by four builds and with every output option, each compared with the plain solve",
                   .assumptions = {"iterates of builds are compared bit for bit without vectorization, so that sums are added in one order",
                                   "with bound projection and bounds, outcomes are certified instead of compared"},
                   .hang_seconds = 120},
                  explore);
}
