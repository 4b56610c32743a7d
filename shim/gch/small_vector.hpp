// Stand-in for gch::small_vector (not installed in this sandbox, no network).
// Same interface as far as Sleipnir uses it, backed by std::vector, so that the
// real Sleipnir headers and sources can be compiled unmodified.
#pragma once

#include <cstddef>
#include <memory>
#include <utility>
#include <vector>

namespace gch {

template <typename T, unsigned InlineCapacity = 0,
          typename Allocator = std::allocator<T>>
class small_vector : public std::vector<T, Allocator> {
 public:
  using std::vector<T, Allocator>::vector;
  small_vector() = default;
  small_vector(const small_vector&) = default;
  small_vector(small_vector&&) noexcept = default;
  small_vector& operator=(const small_vector&) = default;
  small_vector& operator=(small_vector&&) noexcept = default;
  using std::vector<T, Allocator>::operator=;
};

template <typename T, unsigned N, typename A, typename Pred>
std::size_t erase_if(small_vector<T, N, A>& v, Pred pred) {
  return std::erase_if(static_cast<std::vector<T, A>&>(v), std::move(pred));
}

template <typename T, unsigned N, typename A, typename U>
std::size_t erase(small_vector<T, N, A>& v, const U& value) {
  return std::erase(static_cast<std::vector<T, A>&>(v), value);
}

}  // namespace gch
