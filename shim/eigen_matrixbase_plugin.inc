// Coefficient-wise functions of newer Eigen versions.
auto cwiseSquare() const { return this->cwiseProduct(this->derived()); }
auto cwiseGreater(const Scalar& s) const {
  return Eigen::Array<bool, RowsAtCompileTime, ColsAtCompileTime>(this->derived().array() > s);
}
