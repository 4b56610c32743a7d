// P31: diagnostics, formatters and pattern files state exactly what they describe.
//@technique exhaustive enumeration of enumeration values, format specifications, small matrix sequences, constraint vectors and small problems through the real formatters, report functions, pattern files and solver diagnostics; the produced text and bytes are parsed back and compared with independently obtained facts
//@level exploration
//@note All sequences of at most 2 (thorough: 3) of 81 2x2 patterns and other shapes; constraint vectors of up to 5 (thorough: 6) rows over 5 values;
//@note all menu problems with at most 2 (thorough: 3) rows, 4 (thorough: all) starts.
//@src **/*.cpp
//@flags -O1 -DNDEBUG
//@fallback -DNO_HELPERS
#include <deque>
#include <cstdio>
#include <cstring>
#include <format>
#include <fstream>
#include <set>
#include <sstream>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <sleipnir/optimization/solver/exit_status.hpp>
#include <sleipnir/optimization/solver/util/inertia.hpp>
#include <sleipnir/util/print.hpp>
#include <sleipnir/util/print_diagnostics.hpp>
#include <sleipnir/util/spy.hpp>

#include "problang.hpp"

#include "mc.hpp"

using namespace problang;

namespace {

using slp::ExitStatus;
using slp::ExpressionType;
using Sparse = Eigen::SparseMatrix<double>;
using Info = slp::IterationInfo<double>;

// Captures standard output
template <typename F>
std::string captured(F f) {
  fflush(stdout);
  int saved = dup(1);
  int fd = memfd_create("out", 0);
  dup2(fd, 1);
  f();
  fflush(stdout);
  dup2(saved, 1);
  close(saved);
  std::string s(lseek(fd, 0, SEEK_END), 0);
  lseek(fd, 0, SEEK_SET);
  if (read(fd, s.data(), s.size()) != static_cast<ssize_t>(s.size())) s = "?";
  close(fd);
  return s;
}
// Standard output goes where nothing can be written
template <typename F>
void unwritable(bool closed, F f) {
  fflush(stdout);
  int saved = dup(1);
  if (closed) {
    close(1);
  } else {
    int fd = open("/dev/full", O_WRONLY);
    dup2(fd, 1);
    close(fd);
  }
  f();
  fflush(stdout);
  dup2(saved, 1);
  close(saved);
  clearerr(stdout);
}

std::vector<std::string> lines(const std::string& s) {
  std::vector<std::string> r;
  std::istringstream in{s};
  for (std::string l; std::getline(in, l);) r.push_back(l);
  return r;
}

// ---- names

void names(mc::Run& run) {
  if (!run.take()) return;
  using enum ExitStatus;
  const std::vector<std::pair<ExitStatus, std::string>> all{
      {SUCCESS, "success"},
      {CALLBACK_REQUESTED_STOP, "callback requested stop"},
      {TOO_FEW_DOFS, "too few degrees of freedom"},
      {LOCALLY_INFEASIBLE, "locally infeasible"},
      {GLOBALLY_INFEASIBLE, "globally infeasible"},
      {FACTORIZATION_FAILED, "factorization failed"},
      {LINE_SEARCH_FAILED, "line search failed"},
      {FEASIBILITY_RESTORATION_FAILED, "feasibility restoration failed"},
      {NONFINITE_INITIAL_GUESS, "nonfinite initial guess"},
      {DIVERGING_ITERATES, "diverging iterates"},
      {MAX_ITERATIONS_EXCEEDED, "max iterations exceeded"},
      {TIMEOUT, "timeout"}};
  const std::vector<std::pair<ExpressionType, std::string>> types{{ExpressionType::NONE, "none"},
                                                                 {ExpressionType::CONSTANT, "constant"},
                                                                 {ExpressionType::LINEAR, "linear"},
                                                                 {ExpressionType::QUADRATIC, "quadratic"},
                                                                 {ExpressionType::NONLINEAR, "nonlinear"}};
  auto judge = [&](const std::string& key, auto value, const std::string& name) {
    if (!run.begin_case(key)) return;
    run.state();
    run.distinct();
    run.trace();
    auto want = [&](std::string got, std::string expected, const char* spec) {
      run.eval();
      if (got != expected) run.fail(key, std::format("with {} gives '{}' instead of '{}'", spec, got, expected));
    };
    want(std::format("{}", value), name, "{}");
    want(std::format("{:40}", value), std::format("{:40}", name), "{:40}");
    want(std::format("{:>40}", value), std::format("{:>40}", name), "{:>40}");
    want(std::format("{:*^33}", value), std::format("{:*^33}", name), "{:*^33}");
    want(std::format("{:.4}", value), std::format("{:.4}", name), "{:.4}");
    want(std::format("[{}|{}]", value, value), "[" + name + "|" + name + "]", "twice");
    char buf[100] = {};
    *std::format_to(buf, "<{}>", value) = 0;
    want(buf, "<" + name + ">", "format_to");
    if (std::formatted_size("{}", value) != name.size()) run.fail(key, "formatted_size is another");
    want(captured([&] { slp::println("{}", value); }), name + "\n", "println");
    want(captured([&] { slp::print("{}", value); }), name, "print");
  };
  std::set<int> codes;
  for (auto& [v, n] : all) {
    judge("status " + n, v, n);
    codes.insert(static_cast<int>(v));
  }
  if (codes.size() != all.size()) run.fail("status", "two statuses have one value");
  if (static_cast<int>(SUCCESS) != 0 || static_cast<int>(CALLBACK_REQUESTED_STOP) <= 0) run.fail("status", "successes aren't at least zero");
  for (auto& [v, n] : all)
    if (v != SUCCESS && v != CALLBACK_REQUESTED_STOP && static_cast<int>(v) >= 0) run.fail("status " + n, "a failure isn't negative");
  for (auto& [v, n] : types) judge("type " + n, v, n);
  const int limit = run.thorough ? 12 : 4;
  for (int p = 0; p < limit; ++p)
    for (int n = 0; n < limit; ++n)
      for (int z = 0; z < limit; ++z) {
        std::string key = std::format("inertia {} {} {}", p, n, z);
        if (!run.begin_case(key)) continue;
        run.state();
        run.distinct();
        slp::Inertia i{p, n, z};
        if (std::format("{}", i) != std::format("({}, {}, {})", p, n, z)) run.fail(key, std::format("formatted as {}", i));
        char buf[100] = {};
        *std::format_to(buf, "<{}>", i) = 0;
        if (std::string{buf} != std::format("<({}, {}, {})>", p, n, z)) run.fail(key, std::format("formatted into a buffer as {}", buf));
        if (i.positive != p || i.negative != n || i.zero != z) run.fail(key, "changed by formatting");
        Eigen::VectorXd d(p + n + z);
        int k = 0;
        for (int j = 0; j < std::max({p, n, z}); ++j) {
          if (j < n) d[k++] = -1.0 - j;
          if (j < z) d[k++] = 0;
          if (j < p) d[k++] = 0.5 + j;
        }
        if (!(slp::Inertia{d} == i)) run.fail(key, std::format("counted as {}", slp::Inertia{d}));
      }
}

// ---- pattern files

struct Pattern {
  std::string title, row_label, col_label;
  int rows = 0, cols = 0;
  std::vector<std::map<std::pair<int, int>, char>> frames;
  std::string error;
};

Pattern decode(const std::string& path) {
  Pattern p;
  std::ifstream in{path, std::ios::binary};
  std::string s{std::istreambuf_iterator<char>{in}, {}};
  size_t at = 0;
  auto number = [&]() -> int {
    if (at + 4 > s.size()) {
      p.error = "ends within a number";
      at = s.size() + 1;
      return 0;
    }
    uint32_t v = 0;
    for (int i = 0; i < 4; ++i) v |= static_cast<uint32_t>(static_cast<unsigned char>(s[at + i])) << (8 * i);
    at += 4;
    return static_cast<int>(v);
  };
  auto text = [&]() -> std::string {
    int n = number();
    if (n < 0 || at + n > s.size()) {
      p.error = "ends within a text";
      return "";
    }
    at += n;
    return s.substr(at - n, n);
  };
  p.title = text();
  if (p.error.empty()) p.row_label = text();
  if (p.error.empty()) p.col_label = text();
  if (p.error.empty()) p.rows = number();
  if (p.error.empty()) p.cols = number();
  while (p.error.empty() && at < s.size()) {
    int n = number();
    auto& frame = p.frames.emplace_back();
    for (int i = 0; i < n && p.error.empty(); ++i) {
      int r = number(), c = number();
      if (at >= s.size()) {
        p.error = "ends within a coordinate";
        break;
      }
      char sign = s[at++];
      if (r < 0 || r >= p.rows || c < 0 || c >= p.cols) p.error = std::format("coordinate ({}, {}) outside of {}x{}", r, c, p.rows, p.cols);
      if (!frame.emplace(std::pair{r, c}, sign).second) p.error = "a coordinate recurs";
      if (sign != '+' && sign != '-' && sign != '0') p.error = "not a sign";
    }
  }
  return p;
}
std::map<std::pair<int, int>, char> pattern(const Sparse& m) {
  std::map<std::pair<int, int>, char> r;
  for (int k = 0; k < m.outerSize(); ++k)
    for (Sparse::InnerIterator it{m, k}; it; ++it) r[{it.row(), it.col()}] = it.value() > 0 ? '+' : it.value() < 0 ? '-' : '0';
  return r;
}

// Values by code: absent, -2.5, stored zero, 1e-300...
// (filled in place, because copying compresses)
void fill(Sparse& m, int code, bool compressed) {
  int rows = m.rows(), cols = m.cols();
  std::vector<Eigen::Triplet<double>> t;
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j, code /= 4)
      if (code % 4) t.emplace_back(i, j, code % 4 == 1 ? -2.5 : code % 4 == 2 ? 0.0 : 1e-300);
  m.setFromTriplets(t.begin(), t.end());
  if (!compressed) {
    m.uncompress();
    m.reserve(Eigen::VectorXi::Constant(cols, 3));
    if (cols && m.isCompressed()) abort();
  }
}

std::string workdir() {
  static std::string dir = [] {
    const char* w = getenv("WORK_DIR");
    std::string d = std::format("{}/p31-{}", w ? w : "/tmp", getpid());
    mkdir(d.c_str(), 0700);
    if (chdir(d.c_str())) abort();
    return d;
  }();
  return dir;
}

void pattern_files(mc::Run& run) {
  struct Shape {
    int rows, cols, codes;
  };
  const std::vector<Shape> shapes{{1, 1, 4}, {2, 1, 16}, {1, 3, 64}, {2, 2, 256}, {0, 2, 1}, {2, 0, 1}};
  const std::vector<std::string> texts{"", "Hessian", "Länge ∂", std::string(300, 'x'), std::string("a\0b\n", 4)};
  for (auto& shape : shapes)
    for (int n = 0; n <= (run.thorough && shape.codes <= 64 ? 3 : 2); ++n) {
      long total = 1;
      for (int i = 0; i < n; ++i) total *= shape.codes;
      if (n == 2 && shape.codes == 256 && !run.thorough) total = 256 * 64;
      constexpr long Part = 512;
      for (long from = 0; from < total; from += Part) {
        if (!run.take()) continue;
        workdir();
        for (long code = from; code < std::min(total, from + Part); ++code) {
          std::string key = std::format("pattern file {}x{} {} of {}", shape.rows, shape.cols, code, n);
          if (!run.begin_case(key)) continue;
          run.state();
          run.distinct();
          run.trace();
          auto& a = texts[code % texts.size()];
          auto& b = texts[code / 3 % texts.size()];
          auto& c = texts[code / 7 % texts.size()];
          std::deque<Sparse> ms;
          {
            slp::Spy<double> spy{"direct.spy", a, b, c, shape.rows, shape.cols};
            long rest = code;
            for (int i = 0; i < n; ++i, rest /= shape.codes) {
              fill(ms.emplace_back(shape.rows, shape.cols), rest % shape.codes, (code + i) % 2);
              spy.add(ms.back());
              run.transition();
            }
          }
          auto p = decode("direct.spy");
          if (!p.error.empty()) run.fail(key, "decoding: " + p.error);
          if (p.title != a || p.row_label != b || p.col_label != c) run.fail(key, "other title or labels");
          if (p.rows != shape.rows || p.cols != shape.cols) run.fail(key, "another size");
          if (static_cast<int>(p.frames.size()) != n)
            run.fail(key, std::format("{} matrices instead of {}", p.frames.size(), n));
          else
            for (int i = 0; i < n; ++i)
              if (p.frames[i] != pattern(ms[i])) run.fail(key, std::format("matrix {} is another", i));
        }
      }
    }
}

// ---- reports

struct Row {
  int index, count;
  double value;
};
// Lines "  k/n: v = 0" or "... ≥ 0" after a line containing the mark
std::vector<Row> report(const std::string& out, const char* mark, const char* relation) {
  std::vector<Row> r;
  bool in = false;
  for (auto& l : lines(out)) {
    if (l.find(mark) != l.npos) in = true;
    Row row;
    char rest[40];
    if (in && l.rfind("  ", 0) == 0) {
      if (sscanf(l.c_str(), "  %d/%d: %lf %30[^\n]", &row.index, &row.count, &row.value, rest) == 4 && std::string{rest} == relation)
        r.push_back(row);
      else
        r.push_back({-1, -1, 0});
    }
  }
  return r;
}

// `sharp`: values are known exactly
std::string judge_report(const std::vector<Row>& rows, const Eigen::VectorXd& c, bool equality, bool sharp) {
  int last = 0;
  std::set<int> listed;
  for (auto& r : rows) {
    if (r.index < 1 || r.count != c.size() || r.index > c.size()) return "a line doesn't number a constraint";
    if (r.index <= last) return "the lines aren't in order of declaration";
    last = r.index;
    double v = c[r.index - 1];
    if (!sharp && !std::isfinite(v)) {
      if (std::isfinite(r.value)) return std::format("constraint {} is {}, not {}", r.index, v, r.value);
      listed.insert(r.index);
      continue;
    }
    if (sharp ? r.value != v && !(std::isnan(v) && std::isnan(r.value)) : !(std::abs(r.value - v) <= 1e-7 * (1 + std::abs(v))))
      return std::format("constraint {} is {}, not {}", r.index, v, r.value);
    listed.insert(r.index);
  }
  double eps = sharp ? 0 : 1e-9;
  for (int i = 0; i < c.size(); ++i) {
    bool violated = equality ? std::abs(c[i]) > eps : std::isfinite(c[i]) && c[i] < -eps;
    bool fine = equality ? std::abs(c[i]) <= 0 : c[i] >= eps;
    if (violated && !listed.contains(i + 1)) return std::format("violated constraint {} ({}) isn't listed", i + 1, c[i]);
    if ((sharp || eps > 0) && fine && listed.contains(i + 1)) return std::format("constraint {} ({}) isn't violated", i + 1, c[i]);
  }
  return "";
}

#ifndef NO_HELPERS
void reports(mc::Run& run) {
  const std::vector<double> values{-2.5, -1e-9, 0.0, 1e-3, 7.0};
  for (int n = 0; n <= (run.thorough ? 6 : 5); ++n) {
    long total = 1;
    for (int i = 0; i < n; ++i) total *= values.size();
    constexpr long Part = 250;
    for (long from = 0; from < total; from += Part) {
      if (!run.take()) continue;
      for (long code = from; code < std::min(total, from + Part); ++code) {
        std::string key = std::format("reports of {} rows {}", n, code);
        if (!run.begin_case(key)) continue;
        run.state();
        run.distinct();
        run.trace(3);
        Eigen::VectorXd c(n);
        long rest = code;
        for (int i = 0; i < n; ++i, rest /= values.size()) c[i] = values[rest % values.size()];
        const Eigen::VectorXd before = c;
        auto one = [&](const char* name, const char* mark, bool equality, auto print) {
          run.transition();
          auto out = captured([&] { print(c); });
          if (out.find(mark) == out.npos) run.fail(key, std::format("{} says: {}", name, out));
          auto e = judge_report(report(out, "Violated constraints", equality ? "= 0" : "≥ 0"), c, equality, true);
          if (!e.empty()) run.fail(key, std::format("{}: {}", name, e));
        };
        one("too few degrees of freedom", "too few degrees of freedom", true, [](auto& v) { slp::print_too_few_dofs_error(v); });
        one("equality", "locally infeasible due to violated equality", true, [](auto& v) { slp::print_c_e_local_infeasibility_error(v); });
        one("inequality", "locally infeasible due to violated inequality", false, [](auto& v) { slp::print_c_i_local_infeasibility_error(v); });
        if (!(c.array() == before.array()).all()) run.fail(key, "changed by printing");
      }
    }
  }
  // Conflicting bounds
  for (int code = 0; code < 256; ++code) {
    if (!run.take()) continue;
    std::string key = std::format("conflicting bounds {}", code);
    if (!run.begin_case(key)) continue;
    run.state();
    run.distinct();
    std::vector<std::pair<Eigen::Index, Eigen::Index>> pairs;
    for (int k = 0, c = code; k < code % 4; ++k, c /= 4) pairs.emplace_back(c % 4, 3 + c / 4 % 4);
    auto out = captured([&] { slp::print_bound_constraint_global_infeasibility_error(pairs); });
    std::vector<std::pair<Eigen::Index, Eigen::Index>> got;
    for (auto& l : lines(out)) {
      long a, b;
      if (sscanf(l.c_str(), "  Inequality constraint %ld gives a lower bound that is greater than the upper bound given by inequality constraint %ld", &a, &b) == 2)
        got.emplace_back(a, b);
    }
    if (got != pairs) run.fail(key, out);
  }
}

int codepoints(const std::string& s) {
  int n = 0;
  for (unsigned char c : s) n += (c & 0xc0) != 0x80;
  return n;
}

void renderings(mc::Run& run) {
  if (!run.take()) return;
  // Powers of ten
  for (int e = -30; e <= 30; ++e)
    for (double f : {1.0, 1.0 + 1e-9}) {
      std::string key = std::format("power of ten {}*10^{}", f, e);
      if (!run.begin_case(key)) continue;
      run.state();
      run.distinct();
      auto s = slp::power_of_10(f * std::pow(10.0, e));
      std::string want = e == 0 ? " 1" : e == 1 ? "10" : "10";
      if (e < 0) want += "⁻";
      if (e < 0 || e > 1)
        for (char d : std::to_string(std::abs(e))) want += std::array{"⁰", "¹", "²", "³", "⁴", "⁵", "⁶", "⁷", "⁸", "⁹"}[d - '0'];
      // Rounding in the library's logarithm could go either way only below an exact power
      if (s != want && f * std::pow(10.0, e) >= std::stod("1e" + std::to_string(e))) {
        if (!(f == 1.0 + 1e-9 && e < 0)) run.fail(key, std::format("'{}' instead of '{}'", s, want));
      }
    }
  if (slp::power_of_10(0.0) != " 0") run.fail("power of ten", "zero is rendered as " + slp::power_of_10(0.0));
  // Histograms
  for (int eighth = -3; eighth < 75; ++eighth) {
    std::string key = std::format("histogram {}", eighth);
    if (!run.begin_case(key)) continue;
    run.state();
    run.distinct();
    auto s = slp::histogram<9>((eighth + 0.5) / 72);
    if (codepoints(s) != 9) run.fail(key, "another width: " + s);
    int n = 0;
    const std::array blocks{"▏", "▎", "▍", "▌", "▋", "▊", "▉", "█"};
    for (size_t at = 0; at < s.size();) {
      bool found = false;
      for (int k = 0; k < 8; ++k)
        if (s.compare(at, strlen(blocks[k]), blocks[k]) == 0) {
          n += k + 1;
          at += strlen(blocks[k]);
          found = true;
          break;
        }
      if (!found) ++at;
    }
    int want = std::clamp(eighth, 0, 72);
    if (n != want) run.fail(key, std::format("{} eighths instead of {}", n, want));
  }
  for (double ms : {0.0, 0.0005, 0.001, 0.0019, 1.0, 12.3456789, 99999.125}) {
    std::string key = std::format("{} ms", ms);
    if (!run.begin_case(key)) continue;
    run.state();
    run.distinct();
    double got = slp::to_ms(std::chrono::duration<double>{ms / 1e3});
    if (!(std::abs(got - ms) <= 1.000001e-3)) run.fail(key, std::format("{} ms", got));
  }
}
#endif

// ---- solves

struct Line {
  int iteration;
  char type;
  double error, cost, infeasibility, complementarity, primal_step, primal_size, dual_size;
  int backtracks;
};

// The rows of the iteration table
std::vector<Line> table(const std::string& out, std::string& error) {
  std::vector<Line> rows;
  bool in = false;
  for (auto l : lines(out)) {
    if (l.find("┃iter") == 0) in = true;
    if (l.find("└") == 0) in = false;
    const std::string bar = "│";
    if (!in || l.rfind(bar, 0) != 0) continue;
    l = l.substr(bar.size());
    if (l.size() < bar.size() || l.substr(l.size() - bar.size()) != bar) {
      error = "a row isn't closed";
      return rows;
    }
    l.resize(l.size() - bar.size());
    std::istringstream in2{l};
    std::vector<std::string> t;
    for (std::string w; in2 >> w;) t.push_back(w);
    Line r{};
    r.type = ' ';
    if (t.size() == 15) {
      r.type = t[1][0];
      if (t[1] != "s" && t[1] != "r") error = "an unknown iteration type " + t[1];
      t.erase(t.begin() + 1);
    }
    if (t.size() != 14) {
      error = "a row with " + std::to_string(t.size()) + " entries: " + l;
      return rows;
    }
    auto d = [&](int i) {
      char* end;
      double v = strtod(t[i].c_str(), &end);
      if (*end) error = "not a number: " + t[i];
      return v;
    };
    r.iteration = atoi(t[0].c_str());
    r.error = d(2);
    r.cost = d(3);
    r.infeasibility = d(4);
    r.complementarity = d(5);
    r.primal_step = d(9);
    r.primal_size = d(11);
    r.dual_size = d(12);
    r.backtracks = atoi(t[13].c_str());
    rows.push_back(r);
  }
  return rows;
}

struct Frame {
  int iteration;
  Vec2 x;
  Sparse H, A_e, A_i;
};

bool near(double a, double b, double scale) { return std::abs(a - b) <= 2e-4 * std::abs(b) + 1e-9 * (1 + scale) || (std::isnan(a) && std::isnan(b)) || a == b; }

void solve_case(mc::Run& run, const Spec& spec, std::optional<std::string> extra = {}) {
  std::string key = "solve " + spec.text() + extra.value_or("");
  if (!run.begin_case(key)) return;
  run.state();
  run.distinct();
  run.trace(3);
  slp::Options o;
  o.max_iterations = 100;
  std::set<int> seen;
  auto solve = [&](bool diagnostics, bool spy, std::vector<Frame>* frames, Vec2& p, Built& b) {
    o.diagnostics = diagnostics;
    if (frames)
      b.problem.add_callback([frames, &seen](const Info& i) {
        seen.insert(i.iteration);
        if (i.x.size() == 2) frames->push_back({i.iteration, Vec2{i.x[0], i.x[1]}, i.H, i.A_e, i.A_i});
      });
    auto s = b.problem.solve(o, spy);
    p = b.point();
    return s;
  };
  for (auto f : {"H.spy", "A_e.spy", "A_i.spy"}) unlink(f);
  Vec2 plain_p, p, q;
  std::vector<Frame> plain_frames, frames;
  Built plain{spec}, b{spec};
  auto plain_status = solve(false, false, &plain_frames, plain_p, plain);
  if (access("H.spy", F_OK) == 0) run.fail(key, "a pattern file is written unasked");
  ExitStatus status;
  auto out = captured([&] { status = solve(true, true, &frames, p, b); });
  run.transition(2);
  auto same = [](const Vec2& a, const Vec2& b) { return memcmp(a.data(), b.data(), sizeof(double) * 2) == 0; };
  if (status != plain_status || !same(p, plain_p) || frames.size() != plain_frames.size())
    run.fail(key, std::format("diagnostics change the result: {} at ({}, {}) instead of {} at ({}, {})", status, p[0], p[1], plain_status, plain_p[0], plain_p[1]));
  if (auto silent = captured([&] {
        Built c{spec};
        solve(false, false, nullptr, q, c);
      });
      !silent.empty())
    run.fail(key, "diagnostics without being asked: " + silent.substr(0, 100));
  // Standard output that can't be written
  if (run.index() % 4 == 0 || run.replaying)
    for (bool closed : {false, true}) {
      ExitStatus s;
      Built c{spec};
      std::string thrown;
      unwritable(closed, [&] {
        try {
          s = solve(true, false, nullptr, q, c);
        } catch (const std::exception& e) {
          thrown = e.what();
        }
      });
      if (!thrown.empty())
        run.fail(key, "failing output ends the solve: " + thrown);
      else if (s != plain_status || !same(q, plain_p))
        run.fail(key, "failing output changes the result");
    }

  auto ls = lines(out);
  auto has = [&](const std::string& l) { return std::ranges::find(ls, l) != ls.end(); };
  // Structure
  auto type_name = [](ExpressionType t) { return t == ExpressionType::NONE ? std::string{"no"} : std::format("{}", t); };
  for (auto& [t, what] : {std::pair{b.problem.cost_function_type(), "cost function"}, {b.problem.equality_constraint_type(), "equality constraints"},
                          {b.problem.inequality_constraint_type(), "inequality constraints"}})
    if (!has(std::format("  ↳ {} {}", type_name(t), what))) run.fail(key, std::format("doesn't say '{} {}'", type_name(t), what));
  auto counted = [](int n, const char* what) { return std::format("{} {}{}", n, what, n == 1 ? "" : "s"); };
  if (!has("2 decision variables")) run.fail(key, "doesn't say '2 decision variables'");
  for (bool equality : {true, false}) {
    auto& rows = equality ? spec.eq : spec.ineq;
    auto heading = counted(rows.size(), equality ? "equality constraint" : "inequality constraint");
    auto at = std::ranges::find(ls, heading);
    if (at == ls.end()) {
      run.fail(key, "doesn't say '" + heading + "'");
      continue;
    }
    std::map<std::string, int> want, got;
    for (int r : rows) {
      slp::Variable<double> x, y;
      ++want[std::format("{}", ((equality ? equalities() : inequalities())[r].ad(x, y) - 0.0).type())];
    }
    for (++at; at != ls.end() && at->rfind("  ↳ ", 0) == 0; ++at) {
      int n;
      char word[20];
      if (sscanf(at->c_str() + strlen("  ↳ "), "%d %19s", &n, word) == 2) got[word] += n;
    }
    if (got != want) run.fail(key, std::format("counts other types of {} constraints", equality ? "equality" : "inequality"));
  }
  // Exit
  int exits = 0;
  for (auto& l : ls)
    if (l.rfind("Exit: ", 0) == 0) {
      ++exits;
      if (l != std::format("Exit: {}", status)) run.fail(key, std::format("says '{}' for {}", l, status));
    }
  if (exits > 1 || (exits == 0 && !frames.empty())) run.fail(key, std::format("tells the exit status {} times", exits));
  // Rows
  auto cost = [&](const Vec2& v) { return spec.cost < 0 ? 0.0 : costs()[spec.cost].at(v).v; };
  auto eq = [&](const Vec2& v) {
    Eigen::VectorXd c(spec.eq.size());
    for (size_t i = 0; i < spec.eq.size(); ++i) c[i] = equalities()[spec.eq[i]].at(v).v;
    return c;
  };
  auto ineq = [&](const Vec2& v) {
    Eigen::VectorXd c(spec.ineq.size());
    for (size_t i = 0; i < spec.ineq.size(); ++i) c[i] = inequalities()[spec.ineq[i]].at(v).v;
    return c;
  };
  std::string error;
  auto rows = table(out, error);
  if (!error.empty()) run.fail(key, error);
  std::map<int, size_t> called;
  for (size_t i = 0; i < frames.size(); ++i) called.emplace(frames[i].iteration, i);
  int last = -1;
  std::set<int> corrected, restored;
  for (auto& r : rows) {
    if (r.type == 's') corrected.insert(r.iteration);
    if (r.type == 'r') restored.insert(r.iteration);
  }
  for (auto& r : rows) {
    run.eval();
    if (!(r.primal_size >= 0 && r.primal_size <= 1 && r.dual_size >= 0 && r.dual_size <= 1)) run.fail(key, std::format("a step size of {} or {}", r.primal_size, r.dual_size));
    if (r.backtracks < 0 || (r.type == 's' || (r.type == ' ' && corrected.contains(r.iteration))) && r.backtracks) run.fail(key, std::format("{} backtracks", r.backtracks));
    if (r.type != ' ') continue;
    // Restoration's own iterations are numbered too
    for (bool more = true; more && last + 1 < r.iteration;) {
      more = restored.contains(last + 1);
      if (more) ++last;
    }
    if (r.iteration != last + 1) {
      run.fail(key, std::format("row {} after row {}", r.iteration, last));
      break;
    }
    last = r.iteration;
    auto at = called.find(r.iteration);
    if (at == called.end() && !restored.empty() && seen.contains(r.iteration)) {
      // The row that closes a restoration, whose callbacks saw a larger problem
      at = called.lower_bound(r.iteration);
      if (at == called.begin()) continue;
      --at;
    }
    if (at == called.end()) {
      run.fail(key, std::format("a row for iteration {}, which no callback saw", r.iteration));
      break;
    }
    // What the step led to
    bool known = at->second + 1 < frames.size();
    Vec2 next = known ? frames[at->second + 1].x : p;
    double scale = next.squaredNorm() + frames[at->second].x.squaredNorm();
    scale += scale * scale;
    if (!next.allFinite() || !std::isfinite(scale)) continue;
    if (!near(r.cost, cost(next), scale)) run.fail(key, std::format("row {} says the cost is {}, it is {}", r.iteration, r.cost, cost(next)));
    double violation = eq(next).lpNorm<1>();
    if (spec.ineq.empty()) {
      if (!near(r.infeasibility, violation, scale)) run.fail(key, std::format("row {} says the infeasibility is {}, it is {}", r.iteration, r.infeasibility, violation));
    } else {
      for (double c : ineq(next)) violation += std::max(-c, 0.0);
      if (r.infeasibility < violation * (1 - 2e-4) - 1e-9 * (1 + scale))
        run.fail(key, std::format("row {} says the infeasibility is {}, it is at least {}", r.iteration, r.infeasibility, violation));
    }
    if (spec.ineq.empty() && restored.empty() && !corrected.contains(r.iteration)) {
      // How far it went
      double step = (next - frames[at->second].x).lpNorm<Eigen::Infinity>();
      if (!(std::abs(r.primal_step * r.primal_size - step) <= 2e-2 * step + 1e-9 * (1 + scale)))
        run.fail(key, std::format("row {} says a step of {} scaled by {}, it is {}", r.iteration, r.primal_step, r.primal_size, step));
      if ((r.backtracks == 0) != (r.primal_size > 0.99)) run.fail(key, std::format("row {} says {} backtracks and a step size of {}", r.iteration, r.backtracks, r.primal_size));
    }
  }
  if (status == ExitStatus::SUCCESS && !rows.empty() && rows.back().type == ' ' && !(rows.back().error <= 1.01e-8))
    run.fail(key, std::format("success with a final error of {}", rows.back().error));
  // Reports
  bool dofs = out.find("The problem has too few degrees of freedom") != out.npos;
  bool bad_eq = out.find("locally infeasible due to violated equality") != out.npos;
  bool bad_ineq = out.find("locally infeasible due to violated inequality") != out.npos;
  bool conflict = out.find("globally infeasible due to conflicting bound") != out.npos;
  if (dofs != (status == ExitStatus::TOO_FEW_DOFS)) run.fail(key, std::format("too few degrees of freedom {}reported on {}", dofs ? "" : "not ", status));
  if ((bad_eq || bad_ineq) && status != ExitStatus::LOCALLY_INFEASIBLE && status != ExitStatus::FEASIBILITY_RESTORATION_FAILED && rows.empty())
    run.fail(key, std::format("local infeasibility reported on {}", status));
  if (conflict && status != ExitStatus::GLOBALLY_INFEASIBLE) run.fail(key, std::format("conflicting bounds reported on {}", status));
  bool restoration = false;
  for (auto& r : rows) restoration |= r.type == 'r';
  if (dofs) {
    auto e = judge_report(report(out, "Violated constraints", "= 0"), eq(p), true, false);
    if (!e.empty()) run.fail(key, "too few degrees of freedom: " + e);
  } else if ((bad_eq || bad_ineq) && !restoration && status == ExitStatus::LOCALLY_INFEASIBLE) {
    auto e = judge_report(report(out, "Violated constraints", bad_eq ? "= 0" : "≥ 0"), bad_eq ? eq(p) : ineq(p), bad_eq, false);
    if (!e.empty()) run.fail(key, "infeasibility: " + e);
  }
  // Pattern files
  if (frames.empty()) return;
  auto file = [&](const char* name, int rows, Sparse Frame::* m) {
    auto f = decode(name);
    if (!f.error.empty()) {
      run.fail(key, std::format("{}: {}", name, f.error));
      return;
    }
    if (f.rows != rows || f.cols != 2) run.fail(key, std::format("{} is of {}x{} matrices", name, f.rows, f.cols));
    if (f.title.empty() || f.row_label.empty() || f.col_label.empty()) run.fail(key, std::format("{} has no title or labels", name));
    if (f.frames.size() != frames.size()) {
      run.fail(key, std::format("{} holds {} matrices for {} iterations", name, f.frames.size(), frames.size()));
      return;
    }
    for (size_t i = 0; i < frames.size(); ++i)
      if (f.frames[i] != pattern(frames[i].*m)) {
        run.fail(key, std::format("{}: matrix {} is another", name, i));
        return;
      }
  };
  file("H.spy", 2, &Frame::H);
  if (!spec.eq.empty() || !spec.ineq.empty()) file("A_e.spy", spec.eq.size(), &Frame::A_e);
  if (!spec.ineq.empty()) file("A_i.spy", spec.ineq.size(), &Frame::A_i);
}

void solves(mc::Run& run) {
  std::vector<Vec2> from = starts();
  if (!run.thorough) from = {from[0], from[1], {2.9, 0.4}, {-7, 11}};
  const int rows = run.thorough ? 3 : 2;
  auto all = [&](const Spec& base) {
    if (!run.take()) return;
    workdir();
    run.beat();
    for (auto& s : from) {
      Spec spec = base;
      spec.start = s;
      solve_case(run, spec);
    }
  };
  const int nc = costs().size(), ne = equalities().size(), ni = inequalities().size();
  for (int c = -1; c < nc; ++c) {
    all({c, {}, {}, {}});
    for (int e = 0; e < ne; ++e) {
      all({c, {e}, {}, {}});
      for (int e2 = e; e2 < ne; ++e2) {
        all({c, {e, e2}, {}, {}});
        // More constraints than variables
        if (rows > 2 || (c + e + e2) % 6 == 0)
          for (int e3 = 0; e3 < ne; e3 += run.thorough ? 1 : 3) all({c, {e, e2, e3}, {}, {}});
      }
      for (int i = 0; i < ni; ++i) all({c, {e}, {i}, {}});
    }
    for (int i = 0; i < ni; ++i) {
      all({c, {}, {i}, {}});
      for (int i2 = i; i2 < ni; ++i2) all({c, {}, {i, i2}, {}});
    }
  }
}

void explore(mc::Run& run) {
  names(run);
#ifndef NO_HELPERS
  renderings(run);
  reports(run);
#endif
  pattern_files(run);
  solves(run);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::main(argc, argv,
                  {.property = "P31",
                   .level = "exploration",
                   .rule = "a value and a format specification, a sequence of matrices, a constraint vector, or a problem and a start; the produced text or file is parsed and compared with facts obtained independently of it",
                   .assumptions = {"numbers in tables are compared to the digits printed; problems under feasibility restoration only have their own rows checked"}},
                  explore);
}
