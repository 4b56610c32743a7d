// P14: the filter accepts exactly what the documented rules accept.
//@technique exhaustive exploration of bounded histories of accepted steps, resets and bound changes on the real code; at every reached state every trial of a grid is tried and compared with a reference filter
//@level model_checking
//@note All histories up to depth 3 (thorough 4) over a menu of accepted steps and resets, about 2000 trials tried at
//@note each reached state (non-finite values included), and the entry constructors against their definitions.
//@flags -O2
#include <cmath>
#include <limits>

#include <sleipnir/optimization/solver/util/filter.hpp>

#include "mc.hpp"

using Filter = slp::Filter<double>;
using Entry = slp::FilterEntry<double>;

namespace {

constexpr double INF = std::numeric_limits<double>::infinity();
const double NaN = std::nan("");

struct E {
  double f, v;
};

// Tells whether a <= b, and whether that is too close to call (other than by exact equality with nothing to round)
struct Cmp {
  bool le;
  bool close;
};
Cmp le(double a, double b, bool exact) {
  double scale = std::max({std::abs(a), std::abs(b), 1e-300});
  return {a <= b, !exact && std::abs(a - b) <= 1e-13 * scale};
}

// Reference: the filter of Wächter and Biegler as the code documents it
struct Model {
  double vmin, vmax;
  std::vector<E> entries;
  bool last_due_to_filter = false;
  bool judged = false;

  explicit Model(double v0) : vmin{1e-4 * std::max(1.0, v0)}, vmax{1e4 * std::max(1.0, v0)} {}

  // 1 accept, 0 reject, -1 too close to call
  int try_add(E cur, E trial, double D, double a) {
    if (!std::isfinite(trial.f) || !std::isfinite(trial.v) || trial.v > vmax) {
      return 0;  // what the last rejection was due to isn't judged after these
    }
    judged = true;
    double lhs = D < 0 ? a * std::pow(-D, 2.3) : 0, rhs = std::pow(cur.v, 1.1);
    bool switching = D < 0 && lhs > rhs;
    if (D < 0 && rhs != 0 && std::abs(lhs - rhs) <= 1e-12 * rhs) return -1;
    Cmp armijo = le(trial.f, cur.f + 1e-8 * a * D, D == 0);
    double phi = std::pow(a, 1.5);
    Cmp dec_f = le(trial.f, cur.f - phi * 1e-8 * cur.v, cur.v == 0);
    Cmp dec_v = le(trial.v, (1 - phi * 1e-5) * cur.v, cur.v == 0);
    if (std::abs(cur.v - vmin) <= 1e-13 * vmin) return -1;
    bool progress;
    if (cur.v <= vmin && switching) {
      if (armijo.close) return -1;
      progress = armijo.le;
    } else {
      if ((dec_f.close && !(dec_v.le && !dec_v.close)) || (dec_v.close && !(dec_f.le && !dec_f.close))) return -1;
      progress = dec_f.le || dec_v.le;
    }
    if (!progress) {
      last_due_to_filter = false;
      return 0;
    }
    for (auto& e : entries) {
      if (e.f <= trial.f && e.v <= trial.v) {
        last_due_to_filter = true;
        return 0;
      }
    }
    if (armijo.close) return -1;
    if (!switching || !armijo.le) {
      E n{cur.f - phi * 1e-8 * cur.v, (1 - phi * 1e-5) * cur.v};
      std::erase_if(entries, [&](const E& e) { return n.f <= e.f && n.v <= e.v; });
      entries.push_back(n);
    }
    return 1;
  }
  void reset() {
    entries.clear();
    last_due_to_filter = false;
  }
};

struct Step {
  E trial;
  double D, a;
};

std::string show(const Step& s) { return std::format("(f={} v={} D={} a={})", s.trial.f, s.trial.v, s.D, s.a); }

// Tries every trial of the grid at this state, on copies
void probe(mc::Run& run, const Filter& f, const Model& m, E cur, const std::vector<Step>& grid, const std::string& key) {
  for (auto& s : grid) {
    Model mm = m;
    mm.judged = false;
    int want = mm.try_add(cur, s.trial, s.D, s.a);
    if (want < 0) continue;
    Filter ff = f;
    run.transition();
    bool got = ff.try_add(Entry{cur.f, cur.v}, Entry{s.trial.f, s.trial.v}, s.D, s.a);
    if (got != (want == 1)) {
      run.fail(key, std::format("trial {} from (f={} v={}) is {}, must be {}", show(s), cur.f, cur.v, got ? "accepted" : "rejected", want ? "accepted" : "rejected"));
      return;
    }
    if (!got && mm.judged && ff.last_rejection_due_to_filter() != mm.last_due_to_filter) {
      run.fail(key, std::format("rejection of {} from (f={} v={}) is reported as {}due to the filter", show(s), cur.f, cur.v,
                                ff.last_rejection_due_to_filter() ? "" : "not "));
      return;
    }
    // The outcome must not have changed the filter otherwise: a second identical trial
    int again = mm.try_add(cur, s.trial, s.D, s.a);
    if (again >= 0 && ff.try_add(Entry{cur.f, cur.v}, Entry{s.trial.f, s.trial.v}, s.D, s.a) != (again == 1)) {
      run.fail(key, std::format("trial {} from (f={} v={}) repeated: wrongly {}", show(s), cur.f, cur.v, again ? "rejected" : "accepted"));
      return;
    }
  }
}

void explore(mc::Run& run, Filter f, Model m, E cur, int depth, const std::vector<Step>& menu, const std::vector<Step>& grid, const std::string& key) {
  if (run.begin_case(key)) {
    run.state(), run.distinct();
    probe(run, f, m, cur, grid, key);
  } else if (!run.only.starts_with(key)) {
    return;
  }
  if (depth == 0) {
    run.trace();
    return;
  }
  for (size_t i = 0; i < menu.size() + 2; ++i) {
    Filter ff = f;
    Model mm = m;
    E next = cur;
    std::string k = key;
    if (i < menu.size()) {
      const Step& s = menu[i];
      int want = mm.try_add(cur, s.trial, s.D, s.a);
      if (want < 0) continue;
      bool got = ff.try_add(Entry{cur.f, cur.v}, Entry{s.trial.f, s.trial.v}, s.D, s.a);
      k += std::format(" {}", i);
      if (got != (want == 1)) {
        run.fail(key, std::format("trial {} from (f={} v={}): {}", show(s), cur.f, cur.v, got));
        return;
      }
      // rejected trials leave only the flag changed; keep one of them
      if (!got && !(mm.last_due_to_filter && i % 7 == 0)) continue;
      if (got) next = s.trial;
    } else if (i == menu.size()) {
      ff.reset();
      mm.reset();
      k += " r";
    } else {
      // what the solvers do when the filter impedes progress
      ff.max_constraint_violation *= 0.1;
      mm.vmax *= 0.1;
      ff.reset();
      mm.reset();
      k += " R";
    }
    run.transition();
    if (i >= menu.size() && ff.last_rejection_due_to_filter()) {
      run.fail(key, "a reset filter has rejected something");
      return;
    }
    if (ff.min_constraint_violation != mm.vmin || std::abs(ff.max_constraint_violation - mm.vmax) > 1e-9 * mm.vmax) {
      run.fail(key, "violation bounds changed");
      return;
    }
    explore(run, ff, mm, next, depth - 1, menu, grid, k);
  }
}

void entries(mc::Run& run) {
  using Vec = Eigen::VectorXd;
  std::vector<double> vals{-2, 0, 0.5, 3};
  for (int ne = 0; ne <= 3; ++ne) {
    for (int ni = 0; ni <= 2; ++ni) {
      int te = 1, ti = 1;
      for (int i = 0; i < ne; ++i) te *= 4;
      for (int i = 0; i < ni; ++i) ti *= 4 * 3;
      for (int x = 0; x < te; ++x) {
        Vec ce(ne);
        for (int i = 0, y = x; i < ne; ++i, y /= 4) ce[i] = vals[y % 4];
        double l1 = 0;
        for (int i = 0; i < ne; ++i) l1 += std::abs(ce[i]);
        if (run.take() && run.begin_case(std::format("entry e{} {} i{}", ne, x, ni))) {
          run.state(), run.distinct();
          if (ni == 0) {
            Entry e{1.5, ce};
            run.transition();
            if (e.cost != 1.5 || std::abs(e.constraint_violation - l1) > 1e-14) run.fail("SQP entry");
          }
          for (int z = 0; z < ti; ++z) {
            Vec s(ni), ci(ni);
            double want_f = -3, want_v = l1;
            double mu = z % 2 ? 0.1 : 2.0;
            for (int i = 0, y = z; i < ni; ++i, y /= 12) {
              ci[i] = vals[y % 4];
              s[i] = std::vector<double>{0.25, 1, 4}[y / 4 % 3];
              want_f -= mu * std::log(s[i]);
              want_v += std::abs(ci[i] - s[i]);
            }
            Entry e{-3.0, s, ce, ci, mu};
            run.transition();
            if (std::abs(e.cost - want_f) > 1e-12 || std::abs(e.constraint_violation - want_v) > 1e-12) run.fail(std::format("interior-point entry {}", z));
          }
        }
      }
    }
  }
  // Domination is componentwise
  for (double f1 : {-1.0, 0.0, 2.0}) {
    for (double v1 : {0.0, 1.0, 2.0}) {
      for (double f2 : {-1.0, 0.0, 2.0}) {
        for (double v2 : {0.0, 1.0, 2.0}) {
          if (!run.take() || !run.begin_case(std::format("dominated ({}, {}) ({}, {})", f1, v1, f2, v2))) continue;
          run.state(), run.distinct(), run.transition();
          if (Entry{f1, v1}.dominated_by(Entry{f2, v2}) != (f2 <= f1 && v2 <= v1)) run.fail("dominated_by");
        }
      }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config cfg;
  cfg.property = "P14";
  cfg.level = "model_checking";
  cfg.rule = "a state is the filter after one history of accepted steps, filter-caused rejections, resets and bound reductions; a transition is one trial compared with the reference filter";
  cfg.assumptions = {"trials whose comparisons are equal up to rounding are not decided"};
  return mc::main(argc, argv, cfg, [](mc::Run& run) {
    std::vector<Step> grid, menu;
    for (double f : {-100.0, -1.0, 0.0, 0.999999999, 1.0, 1.0 + 1e-7, 5.0, INF, -INF, NaN}) {
      for (double v : {0.0, 5e-5, 0.5, 0.99, 0.999995, 1.0, 3.0, 2e3, 2e4, 1e7, INF, NaN}) {
        for (double D : {-2.0, -1e-3, 0.0, 1.0}) {
          for (double a : {1.0, 0.5, 1e-3}) grid.push_back({{f, v}, D, a});
        }
      }
    }
    for (double f : {-1.0, 0.0, 1.0, 5.0}) {
      for (double v : {0.0, 0.5, 1.0, 3.0}) {
        for (auto [D, a] : {std::pair{-2.0, 1.0}, std::pair{1.0, 0.5}, std::pair{-1e-3, 0.5}}) menu.push_back({{f, v}, D, a});
      }
    }
    entries(run);
    for (double v0 : {0.0, 0.5, 1.0, 7.0, 1e5}) {
      for (E cur : {E{1, 0}, E{1, 1}, E{0, 3}, E{1, 5e-5}, E{1, 2e3}}) {
        Filter f{v0};
        Model m{v0};
        std::string key = std::format("v0={} start({}, {})", v0, cur.f, cur.v);
        if (run.shard == 0 && run.begin_case(key)) {
          run.state(), run.distinct();
          if (std::abs(f.min_constraint_violation - m.vmin) > 1e-12 * m.vmin || std::abs(f.max_constraint_violation - m.vmax) > 1e-12 * m.vmax) {
            run.fail("initial violation bounds");
          }
          if (f.last_rejection_due_to_filter()) run.fail("a fresh filter has rejected something");
          probe(run, f, m, cur, grid, key);
        }
        int depth = run.thorough ? 4 : (cur.v == 1 && (v0 == 0 || v0 == 7)) ? 3 : 2;
        if (run.thorough && !(v0 == 0 || v0 == 7)) depth = 3;
        for (size_t i = 0; i < menu.size(); ++i) {
          if (!run.take()) continue;
          Filter ff = f;
          Model mm = m;
          int want = mm.try_add(cur, menu[i].trial, menu[i].D, menu[i].a);
          if (want < 0) continue;
          bool got = ff.try_add(Entry{cur.f, cur.v}, Entry{menu[i].trial.f, menu[i].trial.v}, menu[i].D, menu[i].a);
          if (got != (want == 1) || !got) continue;  // the probe reports it
          explore(run, ff, mm, menu[i].trial, depth - 1, menu, grid, key + std::format(" {}", i));
        }
      }
    }
  });
}
