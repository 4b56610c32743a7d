// P09: memory safety of the node pool and of expression graphs.
//@technique exhaustive enumeration of operation histories on the real code under AddressSanitizer with free pool blocks poisoned, against a reference model
//@level exploration
//@note All allocation histories of the pool and all expression-building histories up to a depth, with a memory checker that
//@note sees every free block; deep graphs on a small stack; values and block counts compared with a model after each step.
//@flags -O1 -g1 -fsanitize=address -DSLEIPNIR_VERIFY
//@src autodiff/*.cpp
//@src util/*.cpp
#include <cstring>
#include <functional>
#include <memory>
#include <optional>
#include <thread>

#include <pthread.h>

#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/util/pool.hpp>

#include "mc.hpp"

using V = slp::Variable<double>;
using F = slp::Variable<float>;
using VM = slp::VariableMatrix<double>;

namespace {

// ---- A. The pool itself ----------------------------------------------------

// op: 0..2 allocate a size; 3+k free the k-th oldest live block
void pool_history(mc::Run& run, int per_chunk, const std::vector<int>& ops) {
  static const size_t SIZE[] = {48, 56, 64};
  std::string key = std::format("pool of {} blocks:", per_chunk);
  for (int op : ops) key += op < 3 ? std::format(" alloc{}", SIZE[op]) : std::format(" free#{}", op - 3);
  if (!run.begin(key)) return;
  run.eval();
  slp::PoolResource pool{static_cast<size_t>(per_chunk)};
  struct Block {
    unsigned char* p;
    size_t n;
    unsigned char tag;
  };
  std::vector<Block> live;
  std::map<size_t, std::set<void*>> seen;
  std::map<size_t, size_t> count, peak;
  unsigned char tag = 1;
  auto verify = [&](const Block& b) {
    for (size_t i = 0; i < b.n; ++i) {
      if (b.p[i] != b.tag) return false;
    }
    return true;
  };
  for (int op : ops) {
    run.transition();
    if (op < 3) {
      size_t n = SIZE[op];
      auto* p = static_cast<unsigned char*>(pool.allocate(n));
      if (!p) return run.fail(key, "allocate returned null");
      if (reinterpret_cast<uintptr_t>(p) % 8) return run.fail(key, "misaligned block");
      for (auto& b : live) {
        if (p < b.p + b.n && b.p < p + n) return run.fail(key, "two live blocks overlap");
      }
      std::memset(p, tag, n);
      live.push_back({p, n, tag++});
      seen[n].insert(p);
      peak[n] = std::max(peak[n], ++count[n]);
    } else {
      auto b = live[op - 3];
      if (!verify(b)) return run.fail(key, "a live block changed");
      live.erase(live.begin() + (op - 3));
      --count[b.n];
      pool.deallocate(b.p, b.n);
    }
    for (auto& b : live) {
      if (!verify(b)) return run.fail(key, "a live block changed");
    }
    if (pool.blocks_in_use() != live.size()) {
      return run.fail(key, std::format("blocks_in_use() = {} with {} live", pool.blocks_in_use(), live.size()));
    }
  }
  for (auto& [n, s] : seen) {
    size_t chunks = (peak[n] + per_chunk - 1) / per_chunk;
    if (s.size() > chunks * per_chunk) return run.fail(key, "freed blocks aren't reused");
  }
  run.distinct();
}

// ---- B. Expression histories -------------------------------------------------

// Reference expressions: plain trees with symbolic differentiation by X
struct R;
using RP = std::shared_ptr<const R>;
struct R {
  enum { NUM, FREE, X, ADD, MUL, SIN, COS } op;
  double c = 0;
  RP a, b;
};
RP mk(R r) { return std::make_shared<const R>(std::move(r)); }
double value(const RP& r, double x) {
  switch (r->op) {
    case R::NUM: case R::FREE: return r->c;
    case R::X: return x;
    case R::ADD: return value(r->a, x) + value(r->b, x);
    case R::MUL: return value(r->a, x) * value(r->b, x);
    case R::SIN: return std::sin(value(r->a, x));
    default: return std::cos(value(r->a, x));
  }
}
RP diff(const RP& r) {
  switch (r->op) {
    case R::NUM: case R::FREE: return mk({R::NUM, 0});
    case R::X: return mk({R::NUM, 1});
    case R::ADD: return mk({R::ADD, 0, diff(r->a), diff(r->b)});
    case R::MUL: return mk({R::ADD, 0, mk({R::MUL, 0, diff(r->a), r->b}), mk({R::MUL, 0, r->a, diff(r->b)})});
    case R::SIN: return mk({R::MUL, 0, diff(r->a), mk({R::COS, 0, r->a})});
    default: return mk({R::MUL, 0, mk({R::MUL, 0, diff(r->a), mk({R::NUM, -1})}), mk({R::SIN, 0, r->a})});
  }
}

struct Op {
  enum K { FRESH, NUM, COPY, MOVE, SELF, ADD, MUL, SIN, GRAD, HESS, DROP, READ, SETX, FFRESH, FMUL, FDROP } k;
  int i = 0, j = 0, l = 0;  // slots 0, 1; operand 2 is X
};
std::string show(const Op& o) {
  auto n = [](int s) { return std::string(1, "abX"[s]); };
  switch (o.k) {
    case Op::FRESH: return n(o.i) + "=variable";
    case Op::NUM: return n(o.i) + "=2";
    case Op::COPY: return n(o.i) + "=" + n(o.j);
    case Op::MOVE: return n(o.i) + "=move(" + n(o.j) + ")";
    case Op::SELF: return n(o.i) + "=" + n(o.i);
    case Op::ADD: return n(o.i) + "=" + n(o.j) + "+" + n(o.l);
    case Op::MUL: return n(o.i) + "=" + n(o.j) + "*" + n(o.l);
    case Op::SIN: return n(o.i) + "=sin " + n(o.j);
    case Op::GRAD: return n(o.i) + "=d/dX " + n(o.j);
    case Op::HESS: return "hessian " + n(o.j);
    case Op::DROP: return "drop " + n(o.i);
    case Op::READ: return "read " + n(o.i);
    case Op::SETX: return "X:=";
    case Op::FFRESH: return "f=float variable";
    case Op::FMUL: return "f=f*f+f";
    default: return "drop f";
  }
}

std::string show(const std::vector<Op>& h) {
  std::string s;
  for (auto& o : h) s += (s.empty() ? "" : ", ") + show(o);
  return s;
}

void history(mc::Run& run, const std::vector<Op>& h) {
  run.eval();
  size_t before = slp::global_pool_resource().blocks_in_use();
  auto fail = [&](std::string what) { run.fail(show(h), what); };
  {
    V X;
    double x = 0.75;
    X.set_value(x);
    V s[2]{V{nullptr}, V{nullptr}};
    RP m[2];
    std::optional<F> f;
    float fv = 0;
    RP mx = mk({R::X});
    double fresh = 0.5;
    auto same = [&](int i) {
      double w = value(m[i], x), g = s[i].value();
      return std::abs(g - w) <= 1e-9 * std::max(1.0, std::abs(w));
    };
    for (auto& o : h) {
      auto null = [&](int k) { return k < 2 && !m[k]; };
      auto opnd = [&](int k) -> V& { return k == 2 ? X : s[k]; };
      auto ref = [&](int k) { return k == 2 ? mx : m[k]; };
      run.transition();
      switch (o.k) {
        case Op::FRESH:
          s[o.i] = V{};
          fresh += 0.25;
          s[o.i].set_value(fresh);
          m[o.i] = mk({R::FREE, fresh});
          break;
        case Op::NUM:
          s[o.i] = V{2.0};
          m[o.i] = mk({R::NUM, 2});
          break;
        case Op::COPY:
          s[o.i] = s[o.j];
          m[o.i] = m[o.j];
          break;
        case Op::MOVE:
          s[o.i] = std::move(s[o.j]);
          m[o.i] = std::move(m[o.j]);
          s[o.j] = V{nullptr};
          m[o.j] = nullptr;
          break;
        case Op::SELF: {
          V& alias = s[o.i];
          s[o.i] = alias;
          break;
        }
        case Op::ADD:
          if (null(o.j) || null(o.l)) return;
          s[o.i] = opnd(o.j) + opnd(o.l);
          m[o.i] = mk({R::ADD, 0, ref(o.j), ref(o.l)});
          break;
        case Op::MUL:
          if (null(o.j) || null(o.l)) return;
          s[o.i] = opnd(o.j) * opnd(o.l);
          m[o.i] = mk({R::MUL, 0, ref(o.j), ref(o.l)});
          break;
        case Op::SIN:
          if (null(o.j)) return;
          s[o.i] = sin(opnd(o.j));
          m[o.i] = mk({R::SIN, 0, ref(o.j)});
          break;
        case Op::GRAD:
          if (null(o.j)) return;
          s[o.i] = V{slp::Gradient<double>{s[o.j], X}.get()[0]};
          m[o.i] = diff(m[o.j]);
          break;
        case Op::HESS: {
          if (null(o.j)) return;
          V y;
          y.set_value(0.0);
          slp::Hessian<double> hess{s[o.j], VM{{X}, {y}}};
          double w = value(diff(diff(m[o.j])), x);
          double g = hess.value().coeff(0, 0);
          if (std::abs(g - w) > 1e-9 * std::max(1.0, std::abs(w))) return fail(std::format("Hessian = {} not {}", g, w));
          break;
        }
        case Op::DROP:
          s[o.i] = V{nullptr};
          m[o.i] = nullptr;
          break;
        case Op::READ:
          if (null(o.i)) return;
          if (!same(o.i)) return fail(std::format("{} = {} not {}", "ab"[o.i], s[o.i].value(), value(m[o.i], x)));
          break;
        case Op::SETX:
          x = -1.5 * x;
          X.set_value(x);
          break;
        case Op::FFRESH:
          f.emplace();
          f->set_value(fv = 0.5f);
          break;
        case Op::FMUL:
          if (!f) return;
          f = *f * *f + *f;
          fv = fv * fv + fv;
          break;
        case Op::FDROP: f.reset(); break;
      }
    }
    for (int r = 0; r < 2; ++r) {
      for (int i = 0; i < 2; ++i) {
        if (m[i] && !same(i)) return fail(std::format("at the end {} = {} not {}", "ab"[i], s[i].value(), value(m[i], x)));
      }
      if (f && std::abs(f->value() - fv) > 1e-4f * std::max(1.0f, std::abs(fv))) return fail(std::format("at the end f = {} not {}", f->value(), fv));
      // Freed nodes are reused while these are alive
      V y = X + X;
      if (std::abs(y.value() - 2 * x) > 1e-12) return fail("a new expression has the wrong value");
    }
  }
  size_t after = slp::global_pool_resource().blocks_in_use();
  if (after != before) return fail(std::format("{} nodes leaked", static_cast<long>(after - before)));
  run.distinct();
}

std::vector<Op> alphabet(int level) {
  std::vector<Op> v;
  for (int i = 0; i < 2; ++i) {
    int o = 1 - i;
    v.push_back({Op::FRESH, i});
    v.push_back({Op::SIN, i, i});
    v.push_back({Op::GRAD, i, i});
    v.push_back({Op::DROP, i});
    v.push_back({Op::MUL, i, i, 2});
    v.push_back({Op::ADD, i, 0, 1});
    if (level >= 1) {
      v.push_back({Op::MUL, i, 0, 1});
      v.push_back({Op::COPY, i, o});
      v.push_back({Op::MOVE, i, o});
      v.push_back({Op::MUL, i, i, i});
    }
    if (level >= 2) {
      v.push_back({Op::NUM, i});
      v.push_back({Op::SELF, i});
      v.push_back({Op::ADD, i, i, i});
      v.push_back({Op::MUL, i, 1, 0});
      v.push_back({Op::ADD, i, 2, o});
      v.push_back({Op::SIN, i, 2});
      v.push_back({Op::SIN, i, o});
      v.push_back({Op::GRAD, i, o});
      v.push_back({Op::HESS, i, i});
      v.push_back({Op::READ, i});
    }
  }
  if (level >= 1) {
    v.push_back({Op::FFRESH});
    v.push_back({Op::FMUL});
    v.push_back({Op::SETX});
  }
  if (level >= 2) v.push_back({Op::FDROP});
  return v;
}

void all_histories(mc::Run& run, const std::vector<Op>& ops, int depth) {
  std::vector<Op> h;
  std::function<void()> rec = [&] {
    if ((int)h.size() == std::min(2, depth) && !run.take()) return;
    if ((int)h.size() == depth) {
      if (run.replaying ? run.begin(show(h)) : (run.set_key(show(h)), true)) history(run, h);
      return;
    }
    bool have[3] = {false, false, true}, f = false;
    for (auto& o : h) {
      switch (o.k) {
        case Op::DROP: have[o.i] = false; break;
        case Op::COPY: have[o.i] = have[o.j]; break;
        case Op::MOVE: have[o.i] = have[o.j]; have[o.j] = false; break;
        case Op::FFRESH: f = true; break;
        case Op::FDROP: f = false; break;
        case Op::FMUL: case Op::SETX: case Op::READ: case Op::HESS: case Op::SELF: break;
        default: have[o.i] = true;
      }
    }
    for (auto& o : ops) {
      bool ok = true;
      switch (o.k) {
        case Op::ADD: case Op::MUL: ok = have[o.j] && have[o.l]; break;
        case Op::SIN: case Op::GRAD: case Op::HESS: ok = have[o.j]; break;
        case Op::COPY: case Op::MOVE: ok = have[o.j]; break;
        case Op::READ: case Op::DROP: case Op::SELF: ok = have[o.i]; break;
        case Op::FMUL: case Op::FDROP: ok = f; break;
        default: break;
      }
      if (!ok) continue;
      h.push_back(o);
      rec();
      h.pop_back();
    }
  };
  rec();
}

// ---- C. Deep graphs on a small stack -------------------------------------------

const char* const SHAPE[] = {"left chain", "right chain", "unary chain", "doubling chain", "zigzag", "two interleaved chains", "product chain", "division chain", "negated chain"};
const char* const USE[] = {"drop", "value, drop", "gradient value", "gradient expression", "keep the middle", "overwrite", "Hessian of a small one", "drop leaf first"};

std::string deep(int shape, int use, int n) {
  V x;
  x.set_value(0.5);
  V leaf = x;
  V s = x, other = x;
  V middle{nullptr};
  double val = 0.5, oval = 0.5, der = 1, oder = 1;
  for (int i = 0; i < n; ++i) {
    switch (shape) {
      case 0: s = s + x; val += 0.5; der += 1; break;
      case 1: s = x - s; val = 0.5 - val; der = 1 - der; break;
      case 2: s = sin(s); der *= std::cos(val); val = std::sin(val); break;
      case 3: s = (s + s) * 0.5; break;
      case 4: s = i % 2 ? V{s + x} : V{x + s}; val += 0.5; der += 1; break;
      case 5: {
        V t = s;
        s = other + x;
        other = std::move(t);
        std::swap(val, oval);
        std::swap(der, oder);
        val += 0.5;
        der += 1;
        break;
      }
      case 6: s = s * (x + 0.5); der = der * 1 + val; break;
      case 7: s = s / (x + 0.5); der = der - val; break;
      default: s = -s; val = -val; der = -der; break;
    }
    if (i == n / 2) middle = s;
  }
  auto bad = [](double g, double w) { return !(std::abs(g - w) <= 1e-6 * std::max(1.0, std::abs(w))); };
  switch (use) {
    case 0: break;
    case 1:
      if (bad(s.value(), val)) return std::format("value {} not {}", s.value(), val);
      break;
    case 2: {
      slp::Gradient<double> g{s, x};
      if (bad(g.value().coeff(0), der)) return std::format("gradient {} not {}", g.value().coeff(0), der);
      break;
    }
    case 3: {
      VM g = slp::Gradient<double>{s, x}.get();
      if (bad(g[0].value(), der)) return std::format("gradient expression {} not {}", g[0].value(), der);
      break;
    }
    case 4: {
      s = V{nullptr};
      other = V{nullptr};
      double v = middle.value();
      if (!std::isfinite(v)) return "kept part isn't finite";
      break;
    }
    case 5:
      s = V{1.0};
      other = s;
      if (s.value() != 1) return "overwritten value";
      break;
    case 6: {
      slp::Hessian<double> h{s, VM{{x}}};
      double v = h.value().coeff(0, 0);
      if (!std::isfinite(v)) return "Hessian isn't finite";
      break;
    }
    default:
      leaf = V{nullptr};
      x = V{nullptr};
      if (bad(s.value(), val)) return "value after dropping the leaf";
      break;
  }
  return "";
}

// Runs f on a thread with a stack of the given size
template <typename Fn>
void on_stack(size_t bytes, Fn&& f) {
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, bytes);
  pthread_t t;
  auto tramp = [](void* p) -> void* {
    (*static_cast<std::remove_reference_t<Fn>*>(p))();
    return nullptr;
  };
  if (pthread_create(&t, &a, tramp, &f) == 0) pthread_join(t, nullptr);
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config cfg{"P09", "exploration",
                 "All allocate/free histories of length <= 7 (thorough 8) over three block sizes with 1-3 blocks per chunk; all expression "
                 "histories of length 5 over 42 operations, 5 over 23, 7 over 12 (thorough: 5, 6, 8) on two double slots, one float "
                 "slot and a shared leaf, under AddressSanitizer with free blocks poisoned; 9 shapes of graphs of 20000 (thorough "
                 "1000000) nodes times 8 uses on a 256 KB stack.",
                 {"AddressSanitizer reports every access to a freed (poisoned) block"}};
  return mc::main(argc, argv, cfg, [](mc::Run& run) {
    // A
    const int len = run.thorough ? 8 : 7;
    for (int per_chunk : {1, 2, 3}) {
      std::vector<int> ops;
      std::function<void(int)> rec = [&](int live) {
        if ((int)ops.size() == 3 && !run.take()) return;
        if ((int)ops.size() == len) return pool_history(run, per_chunk, ops);
        for (int op = 0; op < 3 + live; ++op) {
          ops.push_back(op);
          rec(op < 3 ? live + 1 : live - 1);
          ops.pop_back();
        }
      };
      rec(0);
    }
    // B
    // The first chunk is laid out by the first scalar type used in a thread
    for (int first : {0, 1}) {
      if (!run.take() || !run.begin(std::format("scalar types, {} first", first ? "float" : "double"))) continue;
      on_stack(1 << 20, [&] {
        std::vector<F> f;
        std::vector<V> d;
        auto make = [&](bool flt) {
          for (int i = 0; i < 40; ++i) {
            if (flt) {
              f.emplace_back();
              f.back().set_value(i + 0.5f);
              if (i % 3 == 2) f.back() = f[f.size() - 2] + f[f.size() - 3];
            } else {
              d.emplace_back();
              d.back().set_value(i + 0.25);
              if (i % 3 == 2) d.back() = d[d.size() - 2] + d[d.size() - 3];
            }
          }
        };
        auto sum = [&] {
          double s = 0;
          for (auto& v : f) s += v.value();
          for (auto& v : d) s += v.value();
          return s;
        };
        make(first);
        double want = sum();
        make(!first);
        double more = sum() - want;
        for (int i = 0; i < 20; ++i) {
          (first ? (void)f.pop_back() : (void)d.pop_back());
        }
        double part = sum();
        make(first);
        make(!first);
        double w = 0;
        for (int i = 0; i < 40; ++i) w += i % 3 == 2 ? (i - 1 + 0.5) + (i - 2 + 0.5) : i + 0.5;
        double v = 0;
        for (int i = 0; i < 40; ++i) v += i % 3 == 2 ? (i - 1 + 0.25) + (i - 2 + 0.25) : i + 0.25;
        run.check(std::abs(want - (first ? w : v)) < 1e-3 && std::abs(more - (first ? v : w)) < 1e-3 &&
                      std::abs(sum() - (part + w + v)) < 1e-3,
                  "values of mixed scalar types are wrong");
      });
    }
    all_histories(run, alphabet(2), 5);
    all_histories(run, alphabet(1), run.thorough ? 6 : 5);
    all_histories(run, alphabet(0), run.thorough ? 8 : 7);
    // C
    for (int shape = 0; shape < 9; ++shape) {
      for (int use = 0; use < 8; ++use) {
        if (!run.take()) continue;
        int n = use == 6 ? 2000 : run.thorough ? 1000000 : 20000;
        if (!run.begin(std::format("{} of {}: {}", SHAPE[shape], n, USE[use]))) continue;
        run.eval();
        run.distinct();
        size_t before = slp::global_pool_resource().blocks_in_use();
        on_stack(256 << 10, [&] {
          size_t b = slp::global_pool_resource().blocks_in_use();
          std::string r = deep(shape, use, n);
          if (!r.empty()) run.fail(r);
          size_t a = slp::global_pool_resource().blocks_in_use();
          if (a != b) run.fail(std::format("{} nodes leaked", static_cast<long>(a - b)));
        });
        run.check(slp::global_pool_resource().blocks_in_use() == before, "another thread's nodes are counted here");
      }
    }
    run.sample("a=variable, b=a*X, a=d/dX b, drop b, a=sin a");
  });
}
