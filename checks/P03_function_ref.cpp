// P03: function references. Explicit-state search over which callable each
// reference is bound to; every transition replayed on the real type.
//@technique explicit-state model checking with every transition replayed on the real type
//@level model_checking
//@note All binding states of three references over ten callables are reached; every path of the
//@note breadth-first search and every operation from every state is replayed on the real code, under ASan/UBSan,
//@note for four signatures. Null function pointers are outside the bound.
//@fallback -DNO_CONST_ASSIGN
//@flags -fsanitize=address,undefined -fno-sanitize-recover=undefined
#include <array>
#include <deque>
#include <functional>
#include <memory>
#include <optional>
#include <set>

#include <sleipnir/util/function_ref.hpp>

#include "mc.hpp"

using slp::function_ref;

namespace {

int g_who = -1;
long g_arg = 0;

// One signature: how it is called and what its callables look like
struct SigInt {
  using Sig = int(int);
  static int ret(int who, int x) { return 100 * who + x; }
  template <typename R>
  static std::string call(R& r, int who) {
    g_who = -1;
    int v = r(7);
    if (g_who != who || g_arg != 7 || v != 100 * who + 7) {
      return std::format("calling it ran callable {} with {} and returned {}; must run callable {} "
                         "with 7 and return {}", g_who, g_arg, v, who, 100 * who + 7);
    }
    return "";
  }
  static int run(int who, int x) {
    g_who = who;
    g_arg = x;
    return ret(who, x);
  }
  using Arg = int;
  using Ret = int;
};

struct SigVoid {
  using Sig = void(const std::string&, long&);
  template <typename R>
  static std::string call(R& r, int who) {
    g_who = -1;
    std::string s = "abcdefghijklmnopqrstuvwxyz0123456789";
    long out = 0;
    r(s, out);
    if (g_who != who || out != who + 1) {
      return std::format("calling it ran callable {} and wrote {}; must run callable {}", g_who, out, who);
    }
    return "";
  }
  static void run(int who, const std::string& s, long& out) {
    g_who = s.size() == 36 ? who : -2;
    out = who + 1;
  }
};

struct SigRef {
  using Sig = int&(int&);
  template <typename R>
  static std::string call(R& r, int who) {
    g_who = -1;
    int x = 5;
    int& y = r(x);
    if (g_who != who || &y != &x || x != 5 + who) {
      return std::format("calling it ran callable {} (expected {}), argument reference {}", g_who, who,
                         &y == &x ? "kept" : "lost");
    }
    return "";
  }
  static int& run(int who, int& x) {
    g_who = who;
    x += who;
    return x;
  }
};

struct SigMove {
  using Sig = std::unique_ptr<int>(std::unique_ptr<int>, double);
  template <typename R>
  static std::string call(R& r, int who) {
    g_who = -1;
    auto p = std::make_unique<int>(3);
    int* raw = p.get();
    auto q = r(std::move(p), 0.5);
    if (g_who != who || q.get() != raw || *q != 3 + who) {
      return std::format("calling it ran callable {} (expected {}); the moved argument was {}", g_who,
                         who, q.get() == raw ? "passed" : "lost");
    }
    return "";
  }
  static std::unique_ptr<int> run(int who, std::unique_ptr<int> p, double d) {
    g_who = d == 0.5 ? who : -2;
    *p += who;
    return p;
  }
};

template <typename S>
struct Mutable {
  int id;
  int calls = 0;
  template <typename... A>
    requires requires(A&&... a) { S::run(0, std::forward<A>(a)...); }
  decltype(auto) operator()(A&&... a) {
    ++calls;
    return S::run(id, std::forward<A>(a)...);
  }
};
template <typename S>
struct Const {
  int id;
  template <typename... A>
    requires requires(A&&... a) { S::run(0, std::forward<A>(a)...); }
  decltype(auto) operator()(A&&... a) const {
    return S::run(id, std::forward<A>(a)...);
  }
};
template <typename S, int ID>
struct Fn;
template <int ID>
struct Fn<SigInt, ID> {
  static int f(int x) { return SigInt::run(ID, x); }
};
template <int ID>
struct Fn<SigVoid, ID> {
  static void f(const std::string& s, long& o) { SigVoid::run(ID, s, o); }
};
template <int ID>
struct Fn<SigRef, ID> {
  static int& f(int& x) { return SigRef::run(ID, x); }
};
template <int ID>
struct Fn<SigMove, ID> {
  static std::unique_ptr<int> f(std::unique_ptr<int> p, double d) { return SigMove::run(ID, std::move(p), d); }
};

constexpr int REFS = 3;
constexpr int CALLABLES = 10;

template <typename S>
struct World {
  using F = function_ref<typename S::Sig>;
  using Ptr = std::add_pointer_t<typename S::Sig>;
  // The callables
  Mutable<S> c0{0};
  Mutable<S> c1{1};
  const Const<S> c2{2};
  Const<S> c3{3};
  Ptr c4 = &Fn<S, 4>::f;
  const Ptr c5 = &Fn<S, 5>::f;
  std::move_only_function<typename S::Sig> c6{Mutable<S>{6}};
  // Lambda with a capture on the heap
  std::shared_ptr<int> seven = std::make_shared<int>(7);
  struct L {
    std::shared_ptr<int> p;
    template <typename... A>
      requires requires(A&&... a) { S::run(0, std::forward<A>(a)...); }
    decltype(auto) operator()(A&&... a) {
      return S::run(*p, std::forward<A>(a)...);
    }
  } c7{seven};
  // Two callables of different types at the same address
  struct Outer {
    Mutable<S> inner{9};
    template <typename... A>
      requires requires(A&&... a) { S::run(0, std::forward<A>(a)...); }
    decltype(auto) operator()(A&&... a) {
      return S::run(inner.id - 1, std::forward<A>(a)...);
    }
  } c8;
  int calls() const { return c0.calls + c1.calls + c8.inner.calls; }
  std::unique_ptr<F> r[REFS];

  template <typename Fun>
  void with(int k, Fun fun) {
    switch (k) {
      case 0: fun(c0); break;
      case 1: fun(c1); break;
      case 2: fun(c2); break;
      case 3: fun(c3); break;
      case 4: fun(c4); break;
      case 5: fun(c5); break;
      case 6: fun(c6); break;
      case 7: fun(c7); break;
      case 8: fun(c8); break;
      case 9: fun(c8.inner); break;
    }
  }
};

struct Op {
  int kind, a, b;
  std::string name() const {
    switch (kind) {
      case 0: return std::format("r{}(c{})", a, b);
      case 1: return std::format("r{}=c{}", a, b);
      case 2: return std::format("r{}=r{}", a, b);
      case 3: return std::format("r{}=const r{}", a, b);
      case 4: return std::format("r{}=move(r{})", a, b);
      case 5: return std::format("r{}(r{})", a, b);
      case 6: return std::format("r{}(move(r{}))", a, b);
      case 7: return std::format("r{}.swap(r{})", a, b);
      case 8: return std::format("swap(r{},r{})", a, b);
      case 9: return std::format("destroy r{}", a);
      case 10: return std::format("r{}=F(c{})", a, b);
      case 11: return std::format("r{}=F(r{})", a, b);
      default: return std::format("call r{}", a);
    }
  }
};
std::vector<Op> all_ops() {
  std::vector<Op> ops;
  for (int a = 0; a < REFS; ++a) {
    for (int k : {0, 1, 10}) {
      for (int c = 0; c < CALLABLES; ++c) {
        ops.push_back({k, a, c});
      }
    }
    for (int b = 0; b < REFS; ++b) {
      for (int k : {2, 3, 4, 7, 11}) {
        ops.push_back({k, a, b});
      }
      if (a != b) {
        ops.push_back({5, a, b});
        ops.push_back({6, a, b});
        ops.push_back({8, a, b});
      }
    }
    ops.push_back({9, a, 0});
    ops.push_back({12, a, 0});
  }
  return ops;
}

using State = std::array<int8_t, REFS>;  // -1: no reference, k: bound to callable k

bool apply(State& s, const Op& o) {
  switch (o.kind) {
    case 0: s[o.a] = o.b; return true;
    case 1:
    case 10:
      if (s[o.a] < 0) return false;
      s[o.a] = o.b;
      return true;
    case 2: case 3: case 4: case 11:
      if (s[o.a] < 0 || s[o.b] < 0) return false;
      s[o.a] = s[o.b];
      return true;
    case 5: case 6:
      if (s[o.b] < 0) return false;
      s[o.a] = s[o.b];
      return true;
    case 7: case 8:
      if (s[o.a] < 0 || s[o.b] < 0) return false;
      std::swap(s[o.a], s[o.b]);
      return true;
    case 9:
      if (s[o.a] < 0) return false;
      s[o.a] = -1;
      return true;
    default: return s[o.a] >= 0;
  }
}

template <typename S>
void real(World<S>& w, const Op& o) {
  using F = typename World<S>::F;
  auto& ra = w.r[o.a];
  switch (o.kind) {
    case 0: w.with(o.b, [&](auto& c) { ra = std::make_unique<F>(c); }); break;
    case 1:
      w.with(o.b, [&](auto& c) {
#ifdef NO_CONST_ASSIGN
        *ra = F{c};
#else
        *ra = c;
#endif
      });
      break;
    case 2: *ra = *w.r[o.b]; break;
    case 3: *ra = std::as_const(*w.r[o.b]); break;
    case 4: *ra = std::move(*w.r[o.b]); break;
    case 5: ra = std::make_unique<F>(*w.r[o.b]); break;
    case 6: ra = std::make_unique<F>(std::move(*w.r[o.b])); break;
    case 7: ra->swap(*w.r[o.b]); break;
    case 8: swap(*ra, *w.r[o.b]); break;
    case 9: ra.reset(); break;
    case 10: w.with(o.b, [&](auto& c) { *ra = F{c}; }); break;
    case 11: *ra = F{*w.r[o.b]}; break;
    case 12: S::call(*ra, 0); break;
  }
}

template <typename S>
void search(mc::Run& run, const char* sig) {
  auto ops = all_ops();
  struct Node {
    State s;
    std::vector<Op> path;
  };
  std::deque<Node> queue;
  std::set<State> seen;
  State init;
  init.fill(-1);
  queue.push_back({init, {}});
  seen.insert(init);
  auto replay = [&](const std::vector<Op>& path) {
    if (!run.take()) {
      return;
    }
    std::string key = std::string{sig} + ":";
    for (auto& o : path) {
      key += " " + o.name() + ";";
    }
    if (!run.begin(key)) {
      return;
    }
    run.transition();
    run.trace();
    if (path.size() == 4) {
      run.sample(key);
    }
    World<S> w;
    State s = init;
    for (auto& o : path) {
      apply(s, o);
      real(w, o);
    }
    for (int round = 0; round < 2; ++round) {
      for (int i = 0; i < REFS; ++i) {
        if (s[i] >= 0) {
          int before = w.calls();
          auto e = S::call(*w.r[i], s[i]);
          if (e.empty() && w.calls() != before + (s[i] < 2 || s[i] == 9)) {
            e = "calling it did not reach the original object exactly once";
          }
          if (!e.empty()) {
            run.fail(key, std::format("r{}: {}", i, e));
            return;
          }
        }
      }
    }
  };
  while (!queue.empty()) {
    Node n = queue.front();
    queue.pop_front();
    if (run.shard == 0) {
      run.state();
    }
    for (auto& o : ops) {
      State t = n.s;
      if (!apply(t, o)) {
        continue;
      }
      auto path = n.path;
      path.push_back(o);
      replay(path);
      // Two-step continuations matter when an operation leaves hidden state
      if (run.thorough || n.path.size() < 2) {
        for (auto& o2 : ops) {
          State u = t;
          if (!apply(u, o2)) {
            continue;
          }
          path.push_back(o2);
          replay(path);
          path.pop_back();
        }
      }
      if (seen.insert(t).second) {
        queue.push_back({t, path});
      }
    }
  }
}

// Callables taken by reference through a parameter, as the library does
int apply_twice(function_ref<int(int)> f, int x) {
  function_ref<int(int)> g = f;
  return g(f(x));
}

void misc(mc::Run& run) {
  if (!run.take() || !run.begin("misc")) {
    return;
  }
  run.transition();
  run.check(apply_twice([](int x) { return x + 3; }, 1) == 7, "temporary callable as argument");
  run.check(apply_twice(Fn<SigInt, 2>::f, 0) == 400 - 200 + 200, "function as argument");
  struct X {
    int k;
    int add(int x) { return x + k; }
  };
  auto mem = &X::add;
  function_ref<int(X&, int)> m{mem};
  X x{5};
  run.check(m(x, 2) == 7, "member function");
  const auto narrow = [](int v) -> short { return v; };
  function_ref<long(int)> c{narrow};
  run.check(c(-3) == -3, "converted result");
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config cfg{"P03", "model_checking",
                 "All binding states of three function references over ten callables (stateful and "
                 "const objects, function pointers, move-only function, heap-capturing object, an "
                 "object and its first member at one address) for four "
                 "signatures; from each, every operation (thorough: every pair of operations) by "
                 "construction, assignment, copy, move, swap, temporary and destruction, then calling all "
                 "references twice.",
                 {"callables outlive the references bound to them"}};
  return mc::main(argc, argv, cfg, [](mc::Run& run) {
    misc(run);
    search<SigInt>(run, "int(int)");
    search<SigVoid>(run, "void(const string&, long&)");
#ifndef NO_CONST_ASSIGN
    search<SigRef>(run, "int&(int&)");
#endif
    search<SigMove>(run, "unique_ptr(unique_ptr, double)");
  });
}
