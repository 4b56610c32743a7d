// The expression language explored by P05-P09: enumeration, construction with
// the library, and reference semantics (value, and exact first and second
// derivatives by forward propagation of second-order jets).
#pragma once

#include <array>
#include <cmath>
#include <cstdint>
#include <format>
#include <string>
#include <vector>

#include <sleipnir/autodiff/variable.hpp>

namespace lang {

enum Op : uint8_t {
  CONST, VAR,
  NEG, PLUS, ABS, ACOS, ASIN, ATAN, CBRT, COS, COSH, ERF, EXP, LOG, LOG10, SIGN, SIN, SINH, SQRT, TAN, TANH,
  ADD, SUB, MUL, DIV, ATAN2, HYPOT, MAX, MIN, POW,
  NOPS
};
inline constexpr Op FIRST_UNARY = NEG, LAST_UNARY = TANH, FIRST_BINARY = ADD, LAST_BINARY = POW;
inline const char* const OP_NAME[] = {"", "", "-", "+", "abs", "acos", "asin", "atan", "cbrt", "cos", "cosh", "erf",
                                      "exp", "log", "log10", "sign", "sin", "sinh", "sqrt", "tan", "tanh", "+", "-",
                                      "*", "/", "atan2", "hypot", "max", "min", "pow"};

struct Node {
  Op op;
  int a = -1, b = -1;  // children; for VAR the variable, for CONST unused
  double c = 0;
};

struct Table {
  std::vector<Node> n;
  int add(Node x) {
    n.push_back(x);
    return static_cast<int>(n.size()) - 1;
  }
};

inline std::string show(const Table& t, const Node& x) {
  auto sub = [&](int i) { return show(t, t.n[i]); };
  switch (x.op) {
    case CONST: return std::format("{}", x.c);
    case VAR: return std::string(1, "xyzw"[x.a]);
    case NEG: case PLUS: return std::format("({}{})", OP_NAME[x.op], sub(x.a));
    case ADD: case SUB: case MUL: case DIV: return std::format("({} {} {})", sub(x.a), OP_NAME[x.op], sub(x.b));
    default:
      return x.op <= LAST_UNARY ? std::format("{}({})", OP_NAME[x.op], sub(x.a))
                                : std::format("{}({}, {})", OP_NAME[x.op], sub(x.a), sub(x.b));
  }
}

template <typename V>
V apply1(Op op, const V& x) {
  using std::abs, std::acos, std::asin, std::atan, std::cbrt, std::cos, std::cosh, std::erf, std::exp, std::log,
      std::log10, std::sin, std::sinh, std::sqrt, std::tan, std::tanh;
  switch (op) {
    case NEG: return -x;
    case PLUS: return +x;
    case ABS: return abs(x);
    case ACOS: return acos(x);
    case ASIN: return asin(x);
    case ATAN: return atan(x);
    case CBRT: return cbrt(x);
    case COS: return cos(x);
    case COSH: return cosh(x);
    case ERF: return erf(x);
    case EXP: return exp(x);
    case LOG: return log(x);
    case LOG10: return log10(x);
    case SIGN: return sign(x);
    case SIN: return sin(x);
    case SINH: return sinh(x);
    case SQRT: return sqrt(x);
    case TAN: return tan(x);
    default: return tanh(x);
  }
}

template <typename V, typename L, typename R>
V apply2(Op op, const L& l, const R& r) {
  switch (op) {
    case ADD: return l + r;
    case SUB: return l - r;
    case MUL: return l * r;
    case DIV: return l / r;
    case ATAN2: return atan2(l, r);
    case HYPOT: return hypot(l, r);
    case MAX: return max(l, r);
    case MIN: return min(l, r);
    default: return pow(l, r);
  }
}

// Builds the expression with the library
template <typename V>
V build(const Table& t, const Node& x, const std::vector<V>& vars) {
  switch (x.op) {
    case CONST: return V{x.c};
    case VAR: return vars[x.a];
    default: break;
  }
  if (x.op <= LAST_UNARY) {
    return apply1<V>(x.op, build(t, t.n[x.a], vars));
  }
  return apply2<V>(x.op, build(t, t.n[x.a], vars), build(t, t.n[x.b], vars));
}

// ---- Reference semantics -------------------------------------------------

inline constexpr int NV = 3;

// Value, gradient and Hessian; `ok` is cleared where the denoted function or an
// intermediate result isn't finite or (for derivatives) isn't differentiable
// twice in a neighbourhood.
struct Jet {
  double v = 0;
  double scale = 1;  // magnitude of the largest intermediate result
  std::array<double, NV> g{};
  std::array<std::array<double, NV>, NV> h{};
  bool ok = true;    // value defined
  bool dok = true;   // derivatives defined
  bool var = false;  // depends on a variable syntactically
};

inline void settle(Jet& j) {
  if (!std::isfinite(j.v) || std::abs(j.v) > 1e100) {
    j.ok = j.dok = false;
  }
  double m = std::abs(j.v);
  for (int i = 0; i < NV; ++i) {
    m = std::max(m, std::abs(j.g[i]));
    for (int k = 0; k < NV; ++k) {
      m = std::max(m, std::abs(j.h[i][k]));
    }
  }
  if (!std::isfinite(m) || m > 1e100) {
    j.dok = false;
  }
  if (std::isfinite(m)) {
    j.scale = std::max(j.scale, m);
  }
}

inline Jet unary(const Jet& x, double f, double f1, double f2, bool diff = true) {
  Jet r;
  r.v = f;
  r.ok = x.ok;
  r.dok = x.dok && (diff || !x.var);
  r.var = x.var;
  r.scale = x.scale;
  if (x.var) {
    if (!std::isfinite(f1) || !std::isfinite(f2)) {
      r.dok = false;
    } else {
      // Sensitivity counts as an intermediate magnitude too
      r.scale = std::max({r.scale, std::abs(f1), std::abs(f2)});
      for (int i = 0; i < NV; ++i) {
        r.g[i] = f1 * x.g[i];
        for (int k = 0; k < NV; ++k) {
          r.h[i][k] = f1 * x.h[i][k] + f2 * x.g[i] * x.g[k];
        }
      }
    }
  }
  settle(r);
  return r;
}

// f and its partial derivatives at (l.v, r.v)
inline Jet binary(const Jet& l, const Jet& r, double f, double fl, double fr, double fll, double flr, double frr,
                  bool diff = true) {
  if (!l.var) fl = fll = flr = 0;
  if (!r.var) fr = frr = flr = 0;
  Jet o;
  o.v = f;
  o.ok = l.ok && r.ok;
  o.var = l.var || r.var;
  o.dok = l.dok && r.dok && (diff || !o.var);
  o.scale = std::max(l.scale, r.scale);
  for (double d : {fl, fr, fll, flr, frr}) {
    if (!std::isfinite(d)) {
      o.dok = false;
    } else {
      o.scale = std::max(o.scale, std::abs(d));
    }
  }
  if (o.dok) {
    for (int i = 0; i < NV; ++i) {
      o.g[i] = fl * l.g[i] + fr * r.g[i];
      for (int k = 0; k < NV; ++k) {
        o.h[i][k] = fl * l.h[i][k] + fr * r.h[i][k] + fll * l.g[i] * l.g[k] + frr * r.g[i] * r.g[k] +
                    flr * (l.g[i] * r.g[k] + l.g[k] * r.g[i]);
      }
    }
  }
  settle(o);
  return o;
}

inline Jet ref1(Op op, const Jet& x) {
  double v = x.v;
  switch (op) {
    case NEG: return unary(x, -v, -1, 0);
    case PLUS: return x;
    case ABS: return unary(x, std::abs(v), v < 0 ? -1 : 1, 0, v != 0);
    case ACOS: {
      double s = std::sqrt(1 - v * v);
      return unary(x, std::acos(v), -1 / s, -v / (s * s * s));
    }
    case ASIN: {
      double s = std::sqrt(1 - v * v);
      return unary(x, std::asin(v), 1 / s, v / (s * s * s));
    }
    case ATAN: {
      double d = 1 + v * v;
      return unary(x, std::atan(v), 1 / d, -2 * v / (d * d));
    }
    case CBRT: {
      double c = std::cbrt(v);
      return unary(x, c, 1 / (3 * c * c), -2 / (9 * c * c * v));
    }
    case COS: return unary(x, std::cos(v), -std::sin(v), -std::cos(v));
    case COSH: return unary(x, std::cosh(v), std::sinh(v), std::cosh(v));
    case ERF: {
      double d = 1.1283791670955126 * std::exp(-v * v);
      return unary(x, std::erf(v), d, -2 * v * d);
    }
    case EXP: return unary(x, std::exp(v), std::exp(v), std::exp(v));
    case LOG: return unary(x, std::log(v), 1 / v, -1 / (v * v));
    case LOG10: return unary(x, std::log10(v), 1 / (v * 2.302585092994046), -1 / (v * v * 2.302585092994046));
    case SIGN: {
      Jet r = unary(x, v > 0 ? 1 : v < 0 ? -1 : 0, 0, 0, v != 0);
      if (v != 0 && std::abs(v) < 1e-9 * x.scale) r.ok = r.dok = false;  // rounding decides
      return r;
    }
    case SIN: return unary(x, std::sin(v), std::cos(v), -std::sin(v));
    case SINH: return unary(x, std::sinh(v), std::cosh(v), std::sinh(v));
    case SQRT: {
      double s = std::sqrt(v);
      return unary(x, s, 1 / (2 * s), -1 / (4 * s * v));
    }
    case TAN: {
      double t = std::tan(v), d = 1 + t * t;
      return unary(x, t, d, 2 * t * d);
    }
    default: {
      double t = std::tanh(v), d = 1 - t * t;
      return unary(x, t, d, -2 * t * d);
    }
  }
}

// Same derivatives up to second order
inline bool agree(const Jet& l, const Jet& r) {
  if (!l.dok || !r.dok) return false;
  double tol = 1e-12;
  for (int i = 0; i < NV; ++i) {
    if (std::abs(l.g[i] - r.g[i]) > tol) return false;
    for (int k = 0; k < NV; ++k) {
      if (std::abs(l.h[i][k] - r.h[i][k]) > tol) return false;
    }
  }
  return true;
}

inline Jet ref2(Op op, const Jet& l, const Jet& r) {
  double a = l.v, b = r.v;
  switch (op) {
    case ADD: return binary(l, r, a + b, 1, 1, 0, 0, 0);
    case SUB: return binary(l, r, a - b, 1, -1, 0, 0, 0);
    case MUL: return binary(l, r, a * b, b, a, 0, 1, 0);
    case DIV: return binary(l, r, a / b, 1 / b, -a / (b * b), 0, -1 / (b * b), 2 * a / (b * b * b));
    case ATAN2: {
      double d = a * a + b * b, d2 = d * d;
      Jet o = binary(l, r, std::atan2(a, b), b / d, -a / d, -2 * a * b / d2, (a * a - b * b) / d2, 2 * a * b / d2);
      // On the cut, and at the origin, the sign of a zero decides
      if (std::abs(a) < 1e-9 * l.scale && b <= 1e-9 * r.scale) o.ok = o.dok = false;
      return o;
    }
    case HYPOT: {
      double q = std::hypot(a, b), q3 = q * q * q;
      return binary(l, r, q, a / q, b / q, b * b / q3, -a * b / q3, a * a / q3);
    }
    case MAX:
    case MIN: {
      bool left = op == MAX ? a >= b : a <= b;
      bool tie = std::abs(a - b) <= 1e-9 * std::max(l.scale, r.scale);
      // At a tie the function is twice differentiable only where both operands agree to second order
      return binary(l, r, left ? a : b, left, !left, 0, 0, 0, !tie || agree(l, r));
    }
    default: {
      double p = std::pow(a, b);
      if (!r.var) {
        // A constant exponent: derivatives of a^b by a, also at a <= 0
        double p1 = b == 0 ? 0 : b * std::pow(a, b - 1);
        double p2 = b == 0 || b == 1 ? 0 : b * (b - 1) * std::pow(a, b - 2);
        return binary(l, r, p, p1, 0, p2, 0, 0);
      }
      double L = std::log(a);
      return binary(l, r, p, b * std::pow(a, b - 1), p * L, b * (b - 1) * std::pow(a, b - 2),
                    std::pow(a, b - 1) * (1 + b * L), p * L * L, a > 0);
    }
  }
}

inline Jet ref(const Table& t, const Node& x, const std::array<double, NV>& at) {
  switch (x.op) {
    case CONST: {
      Jet j;
      j.v = x.c;
      return j;
    }
    case VAR: {
      Jet j;
      j.v = at[x.a];
      j.g[x.a] = 1;
      j.var = true;
      return j;
    }
    default: break;
  }
  if (x.op <= LAST_UNARY) {
    return ref1(x.op, ref(t, t.n[x.a], at));
  }
  return ref2(x.op, ref(t, t.n[x.a], at), ref(t, t.n[x.b], at));
}

inline bool close(double got, double want, double scale, double tol = 1e-9) {
  return std::abs(got - want) <= tol * std::max(1.0, scale);
}

// All expressions of depth one over the leaves
inline std::vector<int> depth1(Table& t, const std::vector<int>& leaves, const std::vector<Op>& ops) {
  std::vector<int> out;
  for (Op op : ops) {
    for (int a : leaves) {
      if (op <= LAST_UNARY) {
        out.push_back(t.add({op, a}));
      } else {
        for (int b : leaves) {
          out.push_back(t.add({op, a, b}));
        }
      }
    }
  }
  return out;
}

inline std::vector<Op> all_ops() {
  std::vector<Op> v;
  for (int o = FIRST_UNARY; o <= LAST_BINARY; ++o) v.push_back(static_cast<Op>(o));
  return v;
}

}  // namespace lang
