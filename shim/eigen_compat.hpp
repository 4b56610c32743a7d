// Force-included before everything else: supplies what Sleipnir uses from the
// Eigen development version it pins and what the installed Eigen 3.4.0 lacks,
// so that Sleipnir's own files compile unmodified.
#pragma once

#define EIGEN_DENSEBASE_PLUGIN "eigen_densebase_plugin.inc"
#define EIGEN_MATRIXBASE_PLUGIN "eigen_matrixbase_plugin.inc"
#define EIGEN_SPARSEMATRIX_PLUGIN "eigen_sparsematrix_plugin.inc"

#include <Eigen/Core>
#include <Eigen/SparseCore>

namespace Eigen {

// Product of two diagonal matrices
template <typename A, typename B>
auto operator*(const DiagonalBase<A>& a, const DiagonalBase<B>& b) {
  using Scalar = typename A::Scalar;
  return DiagonalMatrix<Scalar, Dynamic>{
      a.derived().diagonal().cwiseProduct(b.derived().diagonal()).eval()};
}

}  // namespace Eigen

// Newer Eigen tests scalars for exact zero with == and converts the result to
// bool; Eigen 3.4.0 uses !=, which Sleipnir's Variable doesn't have.
namespace slp {

template <typename Scalar_>
class Variable;

namespace compat {
template <typename T>
struct is_variable : std::false_type {};
template <typename S>
struct is_variable<Variable<S>> : std::true_type {};
}  // namespace compat

template <typename LHS, typename RHS>
  requires(compat::is_variable<std::remove_cvref_t<LHS>>::value &&
           compat::is_variable<std::remove_cvref_t<RHS>>::value)
bool operator!=(LHS&& lhs, RHS&& rhs) {
  return !static_cast<bool>(lhs == rhs);
}

}  // namespace slp
