// P02: scope guards. Every history of making, moving, releasing and destroying
// guards up to a depth, left normally or by an exception, on the real type.
//@technique exhaustive enumeration of operation histories on the real guard type against a reference model
//@level model_checking
//@note Every history up to the depth bound over three guard slots, each with four kinds of action, ended by
//@note normal scope exit or by stack unwinding; actions that throw are outside the bound.
#include <array>
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>

#include <sleipnir/util/scope_exit.hpp>

#include "mc.hpp"

namespace {

constexpr int SLOTS = 3;
std::vector<int> g_log;

struct Act {
  int id;
  void operator()() { g_log.push_back(id); }
};
struct ConstAct {
  int id;
  void operator()() const { g_log.push_back(id); }
};
// Owns its state: calling a moved-from one is visible
struct OwningAct {
  std::unique_ptr<int> id;
  void operator()() { g_log.push_back(id ? *id : -1000); }
};
template <int K>
void act() {
  g_log.push_back(K);
}

template <typename G, typename Make>
struct Driver {
  Make make;

  enum Op : int { MAKE, RELEASE, DESTROY, MOVE };
  struct Step {
    Op op;
    int a, b;
  };

  static std::string name(const Step& s) {
    switch (s.op) {
      case MAKE: return std::format("make{}", s.a);
      case RELEASE: return std::format("release{}", s.a);
      case DESTROY: return std::format("destroy{}", s.a);
      default: return std::format("move{}->{}", s.a, s.b);
    }
  }

  struct Model {
    std::array<int, SLOTS> st;  // -1: no guard, 0: inactive, k > 0: active with action k
    int next = 1;
    std::vector<int> log;
    Model() { st.fill(-1); }
    void destroy(int i) {
      if (st[i] > 0) {
        log.push_back(st[i]);
      }
      st[i] = -1;
    }
    bool apply(const Step& s) {
      switch (s.op) {
        case MAKE:
          destroy(s.a);
          st[s.a] = next++;
          return true;
        case RELEASE:
          if (st[s.a] < 0) {
            return false;
          }
          st[s.a] = 0;
          return true;
        case DESTROY:
          if (st[s.a] < 0) {
            return false;
          }
          destroy(s.a);
          return true;
        default:
          if (st[s.a] < 0) {
            return false;
          }
          destroy(s.b);
          st[s.b] = st[s.a];
          st[s.a] = 0;
          return true;
      }
    }
  };

  void real(const std::vector<Step>& steps, bool thrown) {
    auto body = [&] {
      std::optional<G> g0, g1, g2;
      std::optional<G>* g[] = {&g0, &g1, &g2};
      int next = 1;
      for (auto& s : steps) {
        switch (s.op) {
          case MAKE:
            g[s.a]->reset();
            make(*g[s.a], next++);
            break;
          case RELEASE: (*g[s.a])->release(); break;
          case DESTROY: g[s.a]->reset(); break;
          case MOVE:
            g[s.b]->reset();
            g[s.b]->emplace(std::move(**g[s.a]));
            break;
        }
      }
      if (thrown) {
        throw std::runtime_error{"leave"};
      }
    };
    try {
      body();
    } catch (const std::runtime_error&) {
    }
  }

  void explore(mc::Run& run, const char* kind, int depth, std::vector<Step>& steps) {
    for (bool thrown : {false, true}) {
      if (!run.take()) {
        continue;
      }
      std::string key = std::string{kind} + ":";
      for (auto& s : steps) {
        key += " " + name(s);
      }
      key += thrown ? " throw" : " return";
      if (!run.begin_case(key)) {
        continue;
      }
      Model m;
      for (auto& s : steps) {
        m.apply(s);
      }
      for (int i = SLOTS - 1; i >= 0; --i) {
        m.destroy(i);
      }
      g_log.clear();
      real(steps, thrown);
      run.trace();
      run.state();
      run.transition(steps.size() + 1);
      if (steps.size() == 4 && m.log.size() == 2) {
        run.sample(key);
      }
      if (g_log != m.log) {
        std::string a, b;
        for (int i : g_log) a += std::format(" {}", i);
        for (int i : m.log) b += std::format(" {}", i);
        run.fail(key, std::format("actions run:{}; must be:{}", a, b));
      }
    }
    if (depth == 0) {
      return;
    }
    std::vector<Step> all;
    for (int i = 0; i < SLOTS; ++i) {
      all.push_back({MAKE, i, 0});
      all.push_back({RELEASE, i, 0});
      all.push_back({DESTROY, i, 0});
      for (int j = 0; j < SLOTS; ++j) {
        if (i != j) {
          all.push_back({MOVE, i, j});
        }
      }
    }
    for (auto& s : all) {
      Model m;
      bool ok = true;
      for (auto& t : steps) {
        m.apply(t);
      }
      if (!m.apply(s)) {
        continue;
      }
      steps.push_back(s);
      explore(run, kind, depth - 1, steps);
      steps.pop_back();
    }
  }
};

template <typename G, typename Make>
void go(mc::Run& run, const char* kind, Make make) {
  Driver<G, Make> d{make};
  std::vector<typename Driver<G, Make>::Step> steps;
  d.explore(run, kind, run.thorough ? 7 : 5, steps);
}

// Lexically nested guards, the ordinary use
void nested(mc::Run& run) {
  for (int released = 0; released < 16; ++released) {
    for (int moved = 0; moved < 16; ++moved) {
      for (int leave = 0; leave < 10; ++leave) {
        if (!run.take()) {
          continue;
        }
        auto key = std::format("nested: released={:04b} moved={:04b} leave={}", released, moved, leave);
        if (!run.begin_case(key)) {
          continue;
        }
        run.transition();
        g_log.clear();
        std::vector<int> want;
        auto at = [&](int p) {
          if (leave == 2 * p) {
            throw std::runtime_error{""};
          }
          return leave == 2 * p + 1;
        };
        auto f = [&] {
          slp::scope_exit a{[&] { g_log.push_back(0); }};
          if (released & 1) a.release();
          if (moved & 1) { auto t = std::move(a); g_log.push_back(10); }
          if (at(0)) return;
          slp::scope_exit b{[&] { g_log.push_back(1); }};
          if (released & 2) b.release();
          if (moved & 2) { auto t = std::move(b); g_log.push_back(11); }
          if (at(1)) return;
          for (int k = 0; k < 2; ++k) {
            slp::scope_exit c{[&, k] { g_log.push_back(2 + 10 * k); }};
            if (released & 4) c.release();
            if (moved & 4) { auto t = std::move(c); g_log.push_back(12); }
            if (at(2)) return;
          }
          slp::scope_exit d{[&] { g_log.push_back(3); }};
          if (released & 8) d.release();
          if (moved & 8) { auto t = std::move(d); g_log.push_back(13); }
          if (at(3)) return;
        };
        // Reference
        auto r = [&](int i, int id) {  // returns whether the guard still fires at scope end
          bool active = !(released & (1 << i));
          if (moved & (1 << i)) {
            want.push_back(10 + i);
            if (active) want.push_back(id);
            active = false;
          }
          return active;
        };
        auto left = [&](int p) { return leave == 2 * p || leave == 2 * p + 1; };
        [&] {
          bool a = r(0, 0);
          auto fin_a = [&] { if (a) want.push_back(0); };
          if (left(0)) return fin_a();
          bool b = r(1, 1);
          auto fin_b = [&] { if (b) want.push_back(1); fin_a(); };
          if (left(1)) return fin_b();
          for (int k = 0; k < 2; ++k) {
            bool c = r(2, 2 + 10 * k);
            if (c) want.push_back(2 + 10 * k);
            if (left(2)) return fin_b();
          }
          bool d = r(3, 3);
          if (d) want.push_back(3);
          fin_b();
        }();
        try {
          f();
        } catch (const std::runtime_error&) {
        }
        if (g_log != want) {
          std::string a, b;
          for (int i : g_log) a += std::format(" {}", i);
          for (int i : want) b += std::format(" {}", i);
          run.fail(key, std::format("actions run:{}; must be:{}", a, b));
        }
      }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config cfg{"P02", "model_checking",
                 "All histories of make, move, release and destroy on three guards up to the depth "
                 "bound (quick 5, thorough 7), ended by return or by an exception, for actions held "
                 "by value, by function pointer, owning their state, const and type-erased; plus every "
                 "release/move/leave pattern of four lexically nested guards.",
                 {"actions don't throw"}};
  return mc::main(argc, argv, cfg, [](mc::Run& run) {
    nested(run);
    go<slp::scope_exit<Act>>(run, "value", [](auto& o, int k) { o.emplace(Act{k}); });
    go<slp::scope_exit<void (*)()>>(run, "pointer", [](auto& o, int k) {
      static constexpr void (*f[])() = {act<0>, act<1>, act<2>, act<3>, act<4>,
                                        act<5>, act<6>, act<7>, act<8>};
      o.emplace(+f[k]);
    });
    go<slp::scope_exit<OwningAct>>(run, "owning",
                                   [](auto& o, int k) { o.emplace(OwningAct{std::make_unique<int>(k)}); });
    go<slp::scope_exit<ConstAct>>(run, "const", [](auto& o, int k) { o.emplace(ConstAct{k}); });
    go<slp::scope_exit<std::function<void()>>>(run, "function", [](auto& o, int k) {
      o.emplace(std::function<void()>{[k] { g_log.push_back(k); }});
    });
  });
}
