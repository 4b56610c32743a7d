// Multidimensional subscript of newer Eigen versions, on top of operator()(row, col).
EIGEN_STRONG_INLINE CoeffReturnType operator[](Index row, Index col) const { return this->derived()(row, col); }
EIGEN_STRONG_INLINE Scalar& operator[](Index row, Index col) { return this->derived()(row, col); }
