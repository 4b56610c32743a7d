// P04: slices. Every combination of constructor, start, stop, step and length
// over an alphabet with all boundaries, against Python's slice.indices.
//@technique exhaustive enumeration of a bounded input space on the real code against Python's slice semantics
//@level exploration
//@note Every start, stop, step in a window around zero and at the integer extremes, every length in a window and
//@note large lengths, every constructor, under UBSan. Values between the windows are not explored.
//@flags -fsanitize=undefined -fno-sanitize-recover=undefined
#include <optional>
#include <set>

#include <sleipnir/autodiff/slice.hpp>

#include "mc.hpp"

using slp::Slice;
using slp::slicing::_;
using I = std::optional<int64_t>;

namespace {

struct Ref {
  int64_t start, stop, step, count;
};

// Python's PySlice_AdjustIndices on unbounded integers
Ref python(I start_, I stop_, I step_, int64_t length) {
  int64_t step = step_.value_or(1);
  int64_t lo = step < 0 ? -1 : 0, hi = step < 0 ? length - 1 : length;
  auto clip = [&](int64_t v) {
    if (v < 0) {
      v += length;
      return std::max(v, lo);
    }
    return std::min(v, hi);
  };
  int64_t start = start_ ? clip(*start_) : (step < 0 ? hi : lo);
  int64_t stop = stop_ ? clip(*stop_) : (step < 0 ? lo : hi);
  // Counted, not computed
  int64_t count = 0;
  if (length < 1000) {
    for (int64_t i = start; step > 0 ? i < stop : i > stop; i += step) {
      ++count;
    }
  } else if (step > 0) {
    count = start < stop ? (stop - start + step - 1) / step : 0;
  } else {
    count = start > stop ? (start - stop - step - 1) / -step : 0;
  }
  return {start, stop, step, count};
}

std::string show(I v) { return v ? std::to_string(*v) : "_"; }

std::vector<std::string> variants(I a, I b, I c) {
  std::vector<std::string> v{"3"};
  if (!c) v.push_back("2");
  if (!a && !b && !c) v.push_back("1");
  return v;
}

Slice make(I a, I b, I c, const std::string& form) {
  int x = a.value_or(0), y = b.value_or(0), z = c.value_or(0);
  if (form == "1") return Slice(_);
  if (form == "2") {
    if (a && b) return Slice(x, y);
    if (a) return Slice(x, _);
    if (b) return Slice(_, y);
    return Slice(_, _);
  }
  if (a && b && c) return Slice(x, y, z);
  if (a && b) return Slice(x, y, _);
  if (a && c) return Slice(x, _, z);
  if (b && c) return Slice(_, y, z);
  if (a) return Slice(x, _, _);
  if (b) return Slice(_, y, _);
  if (c) return Slice(_, _, z);
  return Slice(_, _, _);
}

}  // namespace

int main(int argc, char** argv) {
  mc::Config cfg{"P04", "exploration",
                 "start, stop in {absent, -W..W, int extremes and their neighbours}, step likewise without 0, "
                 "length in 0..L and near the int maximum (quick W=12 L=10, thorough W=26 L=24), every "
                 "constructor form; plus every one-argument integer slice and the default slice.",
                 {}};
  return mc::main(argc, argv, cfg, [](mc::Run& run) {
    const int W = run.thorough ? 26 : 12, L = run.thorough ? 24 : 10;
    constexpr int64_t MIN = INT32_MIN, MAX = INT32_MAX;
    std::vector<I> idx{I{}}, steps{I{}};
    for (int i = -W; i <= W; ++i) {
      idx.push_back(i);
      if (i != 0) steps.push_back(i);
    }
    for (int64_t v : {MIN, MIN + 1, MIN + 2, MAX, MAX - 1, MAX - 2, MAX / 2, MIN / 2, int64_t{1000}, int64_t{-1000}}) {
      idx.push_back(v);
      steps.push_back(v);
    }
    std::vector<int64_t> lengths;
    for (int i = 0; i <= L; ++i) lengths.push_back(i);
    for (int64_t v : {int64_t{1000}, int64_t{1001}, MAX / 2, MAX - 1, MAX}) lengths.push_back(v);

    auto judge = [&](Slice s, const Ref& r, int64_t length, bool check_step) {
      int n = s.adjust(length);
      run.transition();
      if (n != r.count) {
        run.fail(std::format("{} elements; Python selects {}", n, r.count));
        return;
      }
      if (s.start != r.start || s.stop != r.stop) {
        run.fail(std::format("adjusted to {}:{}; Python adjusts to {}:{}", s.start, s.stop, r.start, r.stop));
        return;
      }
      if (check_step && s.step != std::max(r.step, -MAX)) {
        run.fail(std::format("step {} instead of {}", s.step, r.step));
        return;
      }
      if (n > 0) {
        run.distinct();
        int64_t last = s.start + int64_t{s.step} * (n - 1);
        if (s.start < 0 || s.start >= length || last < 0 || last >= length) {
          run.fail(std::format("selects indices {}..{} of a sequence of length {}", s.start, last, length));
        }
      }
    };
    for (auto a : idx) {
      for (auto b : idx) {
        if (!run.take()) {
          continue;
        }
        for (auto c : steps) {
          for (auto& form : variants(a, b, c)) {
            for (auto len : lengths) {
              if (!run.begin_case(std::format("Slice{}({},{},{}) of length {}", form, show(a), show(b), show(c), len))) {
                continue;
              }
              if (len == 7 && c && *c == -3) run.sample(std::format("Slice({},{},-3) of length 7", show(a), show(b)));
              judge(make(a, b, c, form), python(a, b, c, len), len, true);
            }
          }
        }
      }
      // One index: the element Python's [i] selects, or nothing when it is out of range
      if (a && run.take()) {
        for (auto len : lengths) {
          if (run.begin_case(std::format("Slice({}) of length {}", *a, len))) {
            int64_t i = *a < 0 ? *a + len : *a;
            bool in = i >= 0 && i < len;
            Slice s(static_cast<int>(*a));
            int n = s.adjust(len);
            run.distinct(in);
            run.check(n == in && (!in || (s.start == i && s.step == 1)),
                      std::format("selects {} elements from {}", n, s.start));
          }
        }
      }
    }
    if (run.take()) {
      for (auto len : lengths) {
        if (run.begin_case(std::format("Slice() of length {}", len))) {
          Slice s;
          run.check(s.adjust(len) == 0, "the default slice is not empty");
        }
      }
    }
  });
}
