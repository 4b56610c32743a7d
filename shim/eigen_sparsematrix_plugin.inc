// setFromSortedTriplets() of newer Eigen versions. Newer Eigen requires the
// triplets to be sorted by (outer, inner) index; this stand-in insists on it.
template <typename InputIterators>
void setFromSortedTriplets(const InputIterators& begin, const InputIterators& end) {
  Index prev_outer = -1, prev_inner = -1;
  for (auto it = begin; it != end; ++it) {
    Index outer = IsRowMajor ? it->row() : it->col();
    Index inner = IsRowMajor ? it->col() : it->row();
    eigen_assert((outer > prev_outer || (outer == prev_outer && inner >= prev_inner)) &&
                 "setFromSortedTriplets: triplets are not sorted");
    eigen_assert(it->row() >= 0 && it->row() < this->rows() && it->col() >= 0 &&
                 it->col() < this->cols() && "setFromSortedTriplets: out of range");
    prev_outer = outer;
    prev_inner = inner;
  }
  this->setFromTriplets(begin, end);
}
