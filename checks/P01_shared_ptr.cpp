// P01: shared ownership. Explicit-state search over all reachable ownership
// states of a reference model; every transition is replayed on the real
// pointer type from the initial state.
//@technique explicit-state model checking with every model transition replayed on the real pointer type
//@level model_checking
//@note All ownership states reachable with 3 roots and up to 3 (thorough: 4) mutually owning objects are
//@note enumerated and every transition is replayed on the real code under a poisoned-memory allocator;
//@note single-threaded use is assumed (counts are user-provided).
#include <deque>
#include <memory>
#include <unordered_map>

#include <sleipnir/util/intrusive_shared_ptr.hpp>

#include "mc.hpp"

using slp::IntrusiveSharedPtr;

namespace {

constexpr int MAXOBJ = 4;

std::string g_error;
void err(const std::string& e) {
  if (g_error.empty()) {
    g_error = e;
  }
}

struct Base;
struct Table {
  Base* obj[MAXOBJ];
  bool alive[MAXOBJ];
} g_table;
bool g_teardown = false;

struct Base {
  int id;
  int refs = 0;
  uint32_t magic = 0xA11FE;
  IntrusiveSharedPtr<Base> next;
  explicit Base(int id) : id{id} {
    g_table.obj[id] = this;
    g_table.alive[id] = true;
  }
  virtual ~Base() {
    if (magic != 0xA11FE) {
      err("object destroyed twice");
      return;
    }
    magic = 0xDEAD;
    g_table.alive[id] = false;
    if (refs != 0 && !g_teardown) {
      err("object destroyed while it still has owners");
    }
  }
  // Freed objects are poisoned and kept until the end of the trace
  static void* operator new(size_t n);
  static void operator delete(void* p, size_t n);
};
struct Derived : Base {
  int payload = 7;
  using Base::Base;
};

struct Block {
  alignas(16) unsigned char b[sizeof(Derived)];
};
std::vector<std::unique_ptr<Block>> g_blocks;
void* Base::operator new(size_t) {
  g_blocks.push_back(std::make_unique<Block>());
  return g_blocks.back()->b;
}
void Base::operator delete(void* p, size_t n) { std::memset(p, 0xDB, n); }

void inc_ref_count(Base* b) {
  if (b->magic != 0xA11FE) {
    err("reference taken to a destroyed object");
    return;
  }
  ++b->refs;
}
void dec_ref_count(Base* b) {
  if (b->magic != 0xA11FE) {
    err("reference dropped on a destroyed object");
    return;
  }
  if (--b->refs == 0) {
    delete b;
  } else if (b->refs < 0) {
    err("reference count below zero");
  }
}

// Roots 0..1 are pointers to Base, root 2 is a pointer to Derived
constexpr int ROOTS = 3;

struct Model {
  int8_t root[ROOTS] = {-1, -1, -1};
  int8_t next[MAXOBJ] = {-1, -1, -1, -1};
  int8_t refs[MAXOBJ] = {};
  bool derived[MAXOBJ] = {};
  bool alive[MAXOBJ] = {};
  std::string key() const { return {reinterpret_cast<const char*>(this), sizeof(*this)}; }

  void inc(int o) {
    if (o >= 0) {
      ++refs[o];
    }
  }
  void dec(int o) {
    if (o >= 0 && --refs[o] == 0) {
      alive[o] = false;
      int n = next[o];
      next[o] = -1;
      derived[o] = false;
      dec(n);
    }
  }
  void set(int8_t& slot, int o) {
    inc(o);
    int old = slot;
    slot = o;
    dec(old);
  }
  int fresh() const {
    for (int i = 0; i < MAXOBJ; ++i) {
      if (!alive[i]) {
        return i;
      }
    }
    return -1;
  }
};

struct Op {
  std::string name;
  // Applies to the model; false: not enabled. Slots moved from are left to be
  // whatever the real pointer says ("valid but unspecified").
  std::function<bool(Model&)> model;
  std::function<void(IntrusiveSharedPtr<Base>*, IntrusiveSharedPtr<Derived>&)> real;
};

std::vector<Op> make_ops() {
  using P = IntrusiveSharedPtr<Base>;
  using D = IntrusiveSharedPtr<Derived>;
  std::vector<Op> ops;
  auto add = [&](std::string n, auto m, auto r) { ops.push_back({std::move(n), m, r}); };
  static int fresh_id;

  for (int i = 0; i < 2; ++i) {
    add(std::format("p{}=make", i),
        [i](Model& m) {
          int o = m.fresh();
          if (o < 0) {
            return false;
          }
          fresh_id = o;
          m.alive[o] = true;
          m.set(m.root[i], o);
          return true;
        },
        [i](P* p, D&) { p[i] = slp::make_intrusive_shared<Base>(fresh_id); });
    add(std::format("p{}=null", i),
        [i](Model& m) {
          m.set(m.root[i], -1);
          return true;
        },
        [i](P* p, D&) { p[i] = nullptr; });
    add(std::format("p{}=p{}.copy_of_self", i, i),
        [](Model&) { return true; }, [i](P* p, D&) { p[i] = *&p[i]; });
    add(std::format("p{}=move(p{})", i, i),
        [](Model&) { return true; }, [i](P* p, D&) { p[i] = std::move(p[i]); });
    add(std::format("tmp(p{})", i), [](Model&) { return true; },
        [i](P* p, D&) {
          P t{p[i]};
          P u = t;
          if (u.get() != p[i].get()) {
            err("copy refers to another object");
          }
        });
    add(std::format("p{}=tmp(move(p{}))", i, i), [](Model&) { return true; },
        [i](P* p, D&) {
          Base* was = p[i].get();
          P t{std::move(p[i])};
          if (t.get() != was) {
            err("move construction lost the object");
          }
          p[i] = std::move(t);
        });
    add(std::format("p{}=raw(p{})", i, 1 - i),
        [i](Model& m) {
          m.set(m.root[i], m.root[1 - i]);
          return true;
        },
        [i](P* p, D&) { p[i] = P{p[1 - i].get()}; });
    for (int j = 0; j < 2; ++j) {
      if (i != j) {
        add(std::format("p{}=p{}", i, j),
            [i, j](Model& m) {
              m.set(m.root[i], m.root[j]);
              return true;
            },
            [i, j](P* p, D&) { p[i] = p[j]; });
        add(std::format("p{}=move(p{});p{}=null", i, j, j),
            [i, j](Model& m) {
              m.set(m.root[i], m.root[j]);
              m.set(m.root[j], -1);
              return true;
            },
            [i, j](P* p, D&) {
              p[i] = std::move(p[j]);
              p[j] = nullptr;
            });
        add(std::format("p{}=P(move(p{}))", i, j),
            [i, j](Model& m) {
              m.set(m.root[i], m.root[j]);
              m.set(m.root[j], -1);
              return true;
            },
            [i, j](P* p, D&) {
              P t{std::move(p[j])};
              if (p[j] != nullptr) {
                err("moved-from pointer still owns");
              }
              p[i] = t;
            });
      }
      // Links
      add(std::format("p{}->next=p{}", i, j),
          [i, j](Model& m) {
            if (m.root[i] < 0) {
              return false;
            }
            m.set(m.next[m.root[i]], m.root[j]);
            return true;
          },
          [i, j](P* p, D&) { p[i]->next = p[j]; });
      add(std::format("p{}=p{}->next", i, j),
          [i, j](Model& m) {
            if (m.root[j] < 0) {
              return false;
            }
            m.set(m.root[i], m.next[m.root[j]]);
            return true;
          },
          [i, j](P* p, D&) { p[i] = p[j]->next; });
      add(std::format("p{}=move(p{}->next)", i, j),
          [i, j](Model& m) {
            if (m.root[j] < 0) {
              return false;
            }
            // The source is emptied afterwards if it is still reachable
            int o = m.root[j], n = m.next[o];
            m.inc(o);
            m.set(m.root[i], n);
            m.set(m.next[o], -1);
            m.dec(o);
            return true;
          },
          [i, j](P* p, D&) {
            P keep = p[j];
            p[i] = std::move(keep->next);
            keep->next = nullptr;
          });
    }
    add(std::format("p{}->next=null", i),
        [i](Model& m) {
          if (m.root[i] < 0) {
            return false;
          }
          m.set(m.next[m.root[i]], -1);
          return true;
        },
        [i](P* p, D&) { p[i]->next = nullptr; });
    add(std::format("p{}=move(p{}->next) unguarded", i, i),
        [i](Model& m) {
          // p = move(p->next): whatever becomes of the source, p owns the rest
          // of the list. Only explored when the head has no other owner and
          // no successor chain back to itself.
          int o = m.root[i];
          if (o < 0 || m.refs[o] != 1 || m.next[o] < 0 || m.next[o] == o) {
            return false;
          }
          return false;  // a swap-based move assignment would form a cycle
        },
        [](P*, D&) {});
    // Conversions Derived -> Base
    add(std::format("p{}=d", i),
        [i](Model& m) {
          m.set(m.root[i], m.root[2]);
          return true;
        },
        [i](P* p, D& d) { p[i] = d; });
    add(std::format("p{}=P(d)", i),
        [i](Model& m) {
          m.set(m.root[i], m.root[2]);
          return true;
        },
        [i](P* p, D& d) {
          P t{d};
          p[i] = t;
        });
    add(std::format("p{}=P(move(d))", i),
        [i](Model& m) {
          m.set(m.root[i], m.root[2]);
          m.set(m.root[2], -1);
          return true;
        },
        [i](P* p, D& d) {
          P t{std::move(d)};
          if (d != nullptr) {
            err("moved-from pointer still owns");
          }
          p[i] = t;
        });
    add(std::format("p{}=move(d);d=null", i),
        [i](Model& m) {
          m.set(m.root[i], m.root[2]);
          m.set(m.root[2], -1);
          return true;
        },
        [i](P* p, D& d) {
          p[i] = std::move(d);
          d = nullptr;
        });
    add(std::format("p{}->next=d", i),
        [i](Model& m) {
          if (m.root[i] < 0) {
            return false;
          }
          m.set(m.next[m.root[i]], m.root[2]);
          return true;
        },
        [i](P* p, D& d) { p[i]->next = d; });
  }
  add("swap(p0,p1)",
      [](Model& m) {
        std::swap(m.root[0], m.root[1]);
        return true;
      },
      [](P* p, D&) { std::swap(p[0], p[1]); });
  add("d=make",
      [](Model& m) {
        int o = m.fresh();
        if (o < 0) {
          return false;
        }
        fresh_id = o;
        m.alive[o] = true;
        m.derived[o] = true;
        m.set(m.root[2], o);
        return true;
      },
      [](P*, D& d) { d = slp::make_intrusive_shared<Derived>(fresh_id); });
  add("d=alloc",
      [](Model& m) {
        int o = m.fresh();
        if (o < 0) {
          return false;
        }
        fresh_id = o;
        m.alive[o] = true;
        m.derived[o] = true;
        m.set(m.root[2], o);
        return true;
      },
      [](P*, D& d) {
        struct Alloc {
          using value_type = Derived;
          Derived* allocate(size_t) { return static_cast<Derived*>(Base::operator new(sizeof(Derived))); }
          void deallocate(Derived*, size_t) {}
          bool operator==(const Alloc&) const = default;
        };
        d = slp::allocate_intrusive_shared<Derived>(Alloc{}, fresh_id);
      });
  add("d=null",
      [](Model& m) {
        m.set(m.root[2], -1);
        return true;
      },
      [](P*, D& d) { d = nullptr; });
  add("tmp(d,move)", [](Model&) { return true; },
      [](P*, D& d) {
        D t{std::move(d)};
        D u;
        u = t;
        d = u;
      });
  // A vector of owners, erased from the front (moves down by move assignment)
  add("vector(p0,p1,p0).erase", [](Model&) { return true; },
      [](P* p, D&) {
        std::vector<P> v{p[0], p[1], p[0]};
        v.erase(v.begin());
        if (v[0].get() != p[1].get() || v[1].get() != p[0].get()) {
          err("elements of a vector of owners lost their identity");
        }
        v.insert(v.begin(), p[0]);
        if (v[0].get() != p[0].get() || v[1].get() != p[1].get()) {
          err("elements of a vector of owners lost their identity");
        }
      });
  return ops;
}

int id_of(Base* b) {
  if (!b) {
    return -1;
  }
  for (int i = 0; i < MAXOBJ; ++i) {
    if (g_table.alive[i] && g_table.obj[i] == b) {
      return i;
    }
  }
  return -2;
}

void compare(const Model& m, IntrusiveSharedPtr<Base>* p, IntrusiveSharedPtr<Derived>& d) {
  for (int o = 0; o < MAXOBJ; ++o) {
    if (m.alive[o] != g_table.alive[o]) {
      err(std::format("object {} is {} but must be {}", o, g_table.alive[o] ? "alive" : "destroyed",
                      m.alive[o] ? "alive" : "destroyed"));
      return;
    }
    if (m.alive[o]) {
      if (g_table.obj[o]->refs != m.refs[o]) {
        err(std::format("object {} has {} owners counted, {} in fact", o, g_table.obj[o]->refs,
                        m.refs[o]));
        return;
      }
      if (id_of(g_table.obj[o]->next.get()) != m.next[o]) {
        err(std::format("object {} links to the wrong object", o));
        return;
      }
    }
  }
  for (int i = 0; i < 2; ++i) {
    if (id_of(p[i].get()) != m.root[i]) {
      err(std::format("p{} refers to object {} instead of {}", i, id_of(p[i].get()), m.root[i]));
      return;
    }
    bool null = m.root[i] < 0;
    if (static_cast<bool>(p[i]) == null || (p[i] == nullptr) != null || (nullptr == p[i]) != null ||
        (p[i] != nullptr) == null || (nullptr != p[i]) == null) {
      err("comparison with null");
    }
    if (!null && ((*p[i]).id != m.root[i] || p[i]->id != m.root[i])) {
      err("dereference");
    }
    for (int j = 0; j < 2; ++j) {
      bool eq = m.root[i] == m.root[j];
      if ((p[i] == p[j]) != eq || (p[i] != p[j]) == eq) {
        err("comparison of two pointers");
      }
    }
  }
  if (id_of(d.get()) != m.root[2]) {
    err("d refers to the wrong object");
  } else if (d && (d->payload != 7 || (*d).payload != 7)) {
    err("d refers to something that isn't a Derived");
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config cfg{
      "P01", "model_checking",
      "All ownership states reachable with two base-class pointers, one derived-class pointer and "
      "at most N live objects that may own each other; from each state every operation (make, "
      "attach, copy, move, convert, assign, null, swap, link, unlink, vector insert/erase) is "
      "replayed on the real pointer type and compared with the reference model.",
      {"single-threaded use (the reference count is documented as user-provided)",
       "the value of a moved-from assigned pointer is unspecified"}};
  return mc::main(argc, argv, cfg, [](mc::Run& run) {
    auto ops = make_ops();
    const int depth = run.thorough ? 12 : 7;
    struct Node {
      Model m;
      std::vector<uint8_t> trace;
    };
    std::unordered_map<std::string, int> seen;
    std::deque<Node> queue;
    queue.push_back({});
    seen[queue.front().m.key()] = 0;
    uint64_t maxtraces = run.thorough ? 40'000'000 : 3'000'000;
    (void)maxtraces;
    while (!queue.empty()) {
      Node n = std::move(queue.front());
      queue.pop_front();
      if (run.shard == 0) {
        run.state();
      }
      for (size_t k = 0; k < ops.size(); ++k) {
        Model next = n.m;
        if (!ops[k].model(next)) {
          continue;
        }
        if (run.thorough == false) {
          int alive = 0;
          for (bool a : next.alive) {
            alive += a;
          }
          if (alive > 3) {
            continue;
          }
        }
        auto trace = n.trace;
        trace.push_back(k);
        if (run.take()) {
          std::string key;
          for (auto t : trace) {
            key += (key.empty() ? "" : "; ") + ops[t].name;
          }
          if (run.begin(key)) {
            run.transition();
            run.trace();
            g_error.clear();
            g_table = {};
            g_teardown = false;
            {
              IntrusiveSharedPtr<Base> p[2];
              IntrusiveSharedPtr<Derived> d;
              Model m;
              for (auto t : trace) {
                ops[t].model(m);  // also picks the id of a fresh object
                ops[t].real(p, d);
                if (!g_error.empty()) {
                  break;
                }
              }
              if (g_error.empty()) {
                compare(m, p, d);
              }
              if (trace.size() > 4) {
                run.sample(key);
              }
              if (g_error.empty()) {
                // Break cycles, then let everything go
                for (int o = 0; o < MAXOBJ; ++o) {
                  if (m.alive[o]) {
                    ++g_table.obj[o]->refs;
                  }
                }
                for (int o = 0; o < MAXOBJ; ++o) {
                  if (m.alive[o]) {
                    g_table.obj[o]->next = nullptr;
                  }
                }
                for (int o = 0; o < MAXOBJ; ++o) {
                  if (m.alive[o]) {
                    dec_ref_count(g_table.obj[o]);
                  }
                }
              }
              g_teardown = true;
            }
            if (g_error.empty()) {
              for (bool a : g_table.alive) {
                if (a) {
                  err("an object is left after its last owner went");
                }
              }
            }
            g_blocks.clear();
            if (!g_error.empty()) {
              run.fail(key, g_error);
            }
          }
        }
        if (static_cast<int>(trace.size()) < depth && seen.emplace(next.key(), 0).second) {
          queue.push_back({next, std::move(trace)});
        }
      }
    }
  });
}
