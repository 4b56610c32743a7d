// A user-defined scalar type: a class around double, not convertible to it implicitly.

#pragma once

#include <cmath>
#include <concepts>
#include <format>
#include <limits>
#include <ostream>

#include <Eigen/Core>

class WrappedDouble {
 public:
  // Construction
  constexpr WrappedDouble() noexcept = default;
  constexpr WrappedDouble(std::floating_point auto value) noexcept
      : m_value(value) {}
  constexpr WrappedDouble(std::integral auto value) noexcept
      : m_value(value) {}

  // Observers
  constexpr double value() const { return m_value; }

  // Assignment
  constexpr WrappedDouble& operator+=(const WrappedDouble& rhs) {
    m_value += rhs.m_value;
    return *this;
  }
  constexpr WrappedDouble& operator-=(const WrappedDouble& rhs) {
    m_value -= rhs.m_value;
    return *this;
  }
  constexpr WrappedDouble& operator*=(const WrappedDouble& rhs) {
    m_value *= rhs.m_value;
    return *this;
  }
  constexpr WrappedDouble& operator/=(const WrappedDouble& rhs) {
    m_value /= rhs.m_value;
    return *this;
  }

  // Increment/decrement
  constexpr WrappedDouble& operator++() noexcept {
    ++m_value;
    return *this;
  }
  constexpr WrappedDouble& operator--() noexcept {
    --m_value;
    return *this;
  }
  constexpr WrappedDouble operator++(int) noexcept {
    WrappedDouble retval = *this;
    ++(*this);
    return retval;
  }
  constexpr WrappedDouble operator--(int) noexcept {
    WrappedDouble retval = *this;
    --(*this);
    return retval;
  }

  // Arithmetic
  constexpr WrappedDouble operator+() const noexcept { return *this; }
  constexpr WrappedDouble operator-() const noexcept {
    return WrappedDouble{-m_value};
  }
  friend constexpr WrappedDouble operator+(
      const WrappedDouble& lhs, const WrappedDouble& rhs) noexcept {
    return WrappedDouble{lhs.m_value + rhs.m_value};
  }
  friend constexpr WrappedDouble operator-(
      const WrappedDouble& lhs, const WrappedDouble& rhs) noexcept {
    return WrappedDouble{lhs.m_value - rhs.m_value};
  }
  friend constexpr WrappedDouble operator*(
      const WrappedDouble& lhs, const WrappedDouble& rhs) noexcept {
    return WrappedDouble{lhs.m_value * rhs.m_value};
  }
  friend constexpr WrappedDouble operator/(
      const WrappedDouble& lhs, const WrappedDouble& rhs) noexcept {
    return WrappedDouble{lhs.m_value / rhs.m_value};
  }

  // Comparison
  friend constexpr auto operator<=>(const WrappedDouble&,
                                    const WrappedDouble&) noexcept = default;

  // Explicit conversion
  explicit constexpr operator double() const noexcept { return m_value; }
  explicit constexpr operator int() const noexcept {
    return static_cast<int>(m_value);
  }

  // cmath
  friend WrappedDouble abs(const WrappedDouble& x) {
    return WrappedDouble{std::abs(x.m_value)};
  }
  friend WrappedDouble acos(const WrappedDouble& x) {
    return WrappedDouble{std::acos(x.m_value)};
  }
  friend WrappedDouble asin(const WrappedDouble& x) {
    return WrappedDouble{std::asin(x.m_value)};
  }
  friend WrappedDouble atan(const WrappedDouble& x) {
    return WrappedDouble{std::atan(x.m_value)};
  }
  friend WrappedDouble atan2(const WrappedDouble& y,
                              const WrappedDouble& x) {
    return WrappedDouble{std::atan2(y.m_value, x.m_value)};
  }
  friend WrappedDouble cbrt(const WrappedDouble& x) {
    return WrappedDouble{std::cbrt(x.m_value)};
  }
  friend WrappedDouble cos(const WrappedDouble& x) {
    return WrappedDouble{std::cos(x.m_value)};
  }
  friend WrappedDouble cosh(const WrappedDouble& x) {
    return WrappedDouble{std::cosh(x.m_value)};
  }
  friend WrappedDouble erf(const WrappedDouble& x) {
    return WrappedDouble{std::erf(x.m_value)};
  }
  friend WrappedDouble exp(const WrappedDouble& x) {
    return WrappedDouble{std::exp(x.m_value)};
  }
  friend WrappedDouble hypot(const WrappedDouble& x,
                              const WrappedDouble& y) {
    return WrappedDouble{std::hypot(x.m_value, y.m_value)};
  }
  friend WrappedDouble hypot(const WrappedDouble& x, const WrappedDouble& y,
                              const WrappedDouble& z) {
    return WrappedDouble{std::hypot(x.m_value, y.m_value, z.m_value)};
  }
  friend bool isfinite(const WrappedDouble& num) {
    return std::isfinite(num.m_value);
  }
  friend bool isinf(const WrappedDouble& num) {
    return std::isinf(num.m_value);
  }
  friend bool isnan(const WrappedDouble& num) {
    return std::isnan(num.m_value);
  }
  friend WrappedDouble log(const WrappedDouble& x) {
    return WrappedDouble{std::log(x.m_value)};
  }
  friend WrappedDouble log10(const WrappedDouble& x) {
    return WrappedDouble{std::log10(x.m_value)};
  }
  friend WrappedDouble pow(const WrappedDouble& base,
                            const WrappedDouble& power) {
    return WrappedDouble{std::pow(base.m_value, power.m_value)};
  }
  friend WrappedDouble sin(const WrappedDouble& x) {
    return WrappedDouble{std::sin(x.m_value)};
  }
  friend WrappedDouble sinh(const WrappedDouble& x) {
    return WrappedDouble{std::sinh(x.m_value)};
  }
  friend WrappedDouble sqrt(const WrappedDouble& x) {
    return WrappedDouble{std::sqrt(x.m_value)};
  }
  friend WrappedDouble tan(const WrappedDouble& x) {
    return WrappedDouble{std::tan(x.m_value)};
  }
  friend WrappedDouble tanh(const WrappedDouble& x) {
    return WrappedDouble{std::tanh(x.m_value)};
  }

  // Formatted output
  template <typename CharT, typename Traits>
  friend std::basic_ostream<CharT, Traits>& operator<<(
      std::basic_ostream<CharT, Traits>& os, const WrappedDouble& d) {
    return os << d.m_value;
  }

 private:
  double m_value;
};

template <>
struct std::formatter<WrappedDouble> {
  constexpr auto parse(std::format_parse_context& ctx) {
    return m_underlying.parse(ctx);
  }

  template <typename FmtContext>
  auto format(const WrappedDouble& d, FmtContext& ctx) const {
    return m_underlying.format(d.value(), ctx);
  }

 private:
  std::formatter<double> m_underlying;
};

namespace std {

template <>
struct numeric_limits<WrappedDouble> {
  static constexpr bool is_specialized = numeric_limits<double>::is_specialized;

  static constexpr WrappedDouble min() noexcept {
    return WrappedDouble{numeric_limits<double>::min()};
  }

  static constexpr WrappedDouble max() noexcept {
    return WrappedDouble{numeric_limits<double>::max()};
  }

  static constexpr WrappedDouble lowest() noexcept {
    return WrappedDouble{numeric_limits<double>::lowest()};
  }

  static constexpr int digits = numeric_limits<double>::digits;
  static constexpr int digits10 = numeric_limits<double>::digits10;
  static constexpr int max_digits10 = numeric_limits<double>::max_digits10;
  static constexpr bool is_signed = numeric_limits<double>::is_signed;
  static constexpr bool is_integer = numeric_limits<double>::is_integer;
  static constexpr bool is_exact = numeric_limits<double>::is_exact;
  static constexpr int radix = numeric_limits<double>::radix;

  static constexpr WrappedDouble epsilon() noexcept {
    return WrappedDouble{numeric_limits<double>::epsilon()};
  }

  static constexpr WrappedDouble round_error() noexcept {
    return WrappedDouble{numeric_limits<double>::round_error()};
  }

  static constexpr int min_exponent = numeric_limits<double>::min_exponent;
  static constexpr int min_exponent10 = numeric_limits<double>::min_exponent10;
  static constexpr int max_exponent = numeric_limits<double>::max_exponent;
  static constexpr int max_exponent10 = numeric_limits<double>::max_exponent10;

  static constexpr bool has_infinity = numeric_limits<double>::has_infinity;
  static constexpr bool has_quiet_NaN = numeric_limits<double>::has_quiet_NaN;
  static constexpr bool has_signaling_NaN =
      numeric_limits<double>::has_signaling_NaN;

  static constexpr WrappedDouble infinity() noexcept {
    return WrappedDouble{numeric_limits<double>::infinity()};
  }

  static constexpr WrappedDouble quiet_NaN() noexcept {
    return WrappedDouble{numeric_limits<double>::quiet_NaN()};
  }

  static constexpr WrappedDouble signaling_NaN() noexcept {
    return WrappedDouble{numeric_limits<double>::signaling_NaN()};
  }

  static constexpr WrappedDouble denorm_min() noexcept {
    return WrappedDouble{numeric_limits<double>::denorm_min()};
  }

  static constexpr bool is_iec559 = numeric_limits<double>::is_iec559;
  static constexpr bool is_bounded = numeric_limits<double>::is_bounded;
  static constexpr bool is_modulo = numeric_limits<double>::is_modulo;

  static constexpr bool traps = numeric_limits<double>::traps;
  static constexpr bool tinyness_before =
      numeric_limits<double>::tinyness_before;
  static constexpr float_round_style round_style =
      numeric_limits<double>::round_style;
};

}  // namespace std

namespace Eigen {

/// NumTraits specialization that allows instantiating Eigen types with
/// WrappedDouble.
template <>
struct NumTraits<WrappedDouble> : GenericNumTraits<WrappedDouble> {
  /// Is complex.
  static constexpr int IsComplex = NumTraits<double>::IsComplex;
  /// Is integer.
  static constexpr int IsInteger = NumTraits<double>::IsInteger;
  /// Is signed.
  static constexpr int IsSigned = NumTraits<double>::IsSigned;
  /// Require initialization.
  static constexpr int RequireInitialization =
      NumTraits<double>::RequireInitialization;
  /// Read cost.
  static constexpr int ReadCost = NumTraits<double>::ReadCost;
  /// Add cost.
  static constexpr int AddCost = NumTraits<double>::AddCost;
  /// Multiply cost.
  static constexpr int MulCost = NumTraits<double>::MulCost;

  static constexpr Real epsilon() { return Real(NumTraits<double>::epsilon()); }
  static constexpr Real dummy_precision() {
    return Real(NumTraits<double>::dummy_precision());
  }
  static constexpr int digits10() { return NumTraits<double>::digits10(); }
};

}  // namespace Eigen
