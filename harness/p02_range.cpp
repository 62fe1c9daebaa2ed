// Replays spec/RangeCursor.tla into dlaf::common range2d.
#include <cstdint>
#include <iterator>
#include <limits>
#include <type_traits>

#include <dlaf/common/index2d.h>
#include <dlaf/common/range2d.h>

#include "common.h"
using namespace dlaf;
using namespace dlaf::common;
using vf::cat;
vf::Report R;
struct TAG;

template <class T>
using I = Index2D<T, TAG>;
template <class T>
using S = Size2D<T, TAG>;

// All the ranges that denote (org, sz)
template <class T>
std::vector<std::pair<std::string, IterableRange2D<T, TAG>>> ranges(I<T> o, S<T> s) {
  std::vector<std::pair<std::string, IterableRange2D<T, TAG>>> v;
  v.emplace_back("(begin,size)", iterate_range2d(o, s));
  v.emplace_back("(begin,end)", iterate_range2d(o, I<T>(T(o.row() + s.rows()), T(o.col() + s.cols()))));
  if (o.row() == 0 && o.col() == 0) {
    v.emplace_back("(size)", iterate_range2d(s));
    v.emplace_back("(end)", iterate_range2d(I<T>(s.rows(), s.cols())));
  }
  return v;
}

template <class T>
void list(const std::vector<long long>& v) {
  const I<T> o{T(v[0]), T(v[1])};
  const S<T> s{T(v[2]), T(v[3])};
  const long n = long(v[2] * v[3]);
  std::vector<I<T>> order;
  for (long k = 0; k < n; ++k)
    order.emplace_back(T(v[4 + 2 * k]), T(v[5 + 2 * k]));
  for (auto& [name, r] : ranges<T>(o, s)) {
    const std::string w = cat(name, "origin", v[0], v[1], "size", v[2], v[3], "bits", 8 * sizeof(T));
    R.eq(r.empty(), n == 0, "empty " + w);
    R.eq(long(r.end() - r.begin()), n, "length " + w);
    R.eq(long(std::distance(r.begin(), r.end())), n, "distance " + w);
    long k = 0;
    for (auto ij : r) {
      if (!R.ok(k < n && ij == order[k], cat("visit", k, w, "got", ij)))
        break;
      ++k;
    }
    R.eq(k, n, "number of visited indices " + w);
    for (long p = 0; p <= n; ++p) {
      auto it = r.begin() + p;
      if (p < n) {
        R.ok(*it == order[p] && it->row() == order[p].row() && it->col() == order[p].col(), cat("deref", p, w));
        R.ok(r.begin()[p] == order[p] && r.end()[p - n] == order[p], cat("[]", p, w));
      }
      for (long q = 0; q <= n; ++q) {
        auto jt = r.end();
        jt -= n - q;
        R.ok((it == jt) == (p == q) && (it != jt) == (p != q) && (it < jt) == (p < q) && (it <= jt) == (p <= q) && (it > jt) == (p > q) &&
                 (it >= jt) == (p >= q),
             cat("comparison", p, q, w));
        R.eq(long(it - jt), p - q, cat("difference", p, q, w));
      }
    }
    for (long i = v[0] - 2; i <= v[0] + v[2] + 1; ++i)
      for (long j = v[1] - 2; j <= v[1] + v[3] + 1; ++j) {
        bool in = false;
        for (auto& x : order)
          in = in || (x.row() == i && x.col() == j);
        R.eq(isIndexInRange(I<T>(T(i), T(j)), r), in, cat("isIndexInRange", i, j, w));
      }
  }
}

template <class T>
void hist(const std::vector<long long>& v) {
  const I<T> o{T(v[0]), T(v[1])};
  const S<T> s{T(v[2]), T(v[3])};
  const long n = long(v[2] * v[3]);
  for (auto& [name, r] : ranges<T>(o, s)) {
    auto it = r.begin();
    std::string w = cat(name, "origin", v[0], v[1], "size", v[2], v[3], "moves:");
    long pos = 0;
    for (size_t k = 4; k + 4 < v.size(); k += 5) {
      const long op = v[k], d = v[k + 1], to = v[k + 2];
      w += cat("op", op, "d", d, ";");
      const auto before = it;
      switch (op) {
        case 0: {
          auto& ref = ++it;
          R.ok(&ref == &it, "++it returns itself " + w);
          break;
        }
        case 1: R.ok(it++ == before, "it++ returns the old position " + w); break;
        case 2: {
          auto& ref = --it;
          R.ok(&ref == &it, "--it returns itself " + w);
          break;
        }
        case 3: R.ok(it-- == before, "it-- returns the old position " + w); break;
        case 4: it += d; break;
        case 5: it -= d; break;
        case 6: it = it + d; break;
        case 7: it = d + it; break;
        case 8: it = it - d; break;
      }
      R.eq(long(it - before), to - pos, "moved by " + w);
      pos = to;
      R.eq(long(it - r.begin()), to, "position " + w);
      R.eq(long(r.end() - it), n - to, "distance to the end " + w);
      R.eq(it == r.end(), to == n, "at end " + w);
      if (to < n)
        R.ok(*it == I<T>(T(v[k + 3]), T(v[k + 4])) && it->row() == v[k + 3], "index " + w);
    }
  }
}

// The walk of a column of `rows` cells repeats in every column, so position c*rows + r is (r, c): the
// law TLC checks on the small ranges (ColumnMajor, NoRepeat), at extents that exceed the index type.
template <class T>
void big(long long orow, long long ocol, long long rows, long long cols) {
  const I<T> o(static_cast<T>(orow), static_cast<T>(ocol));
  const S<T> s(static_cast<T>(rows), static_cast<T>(cols));
  for (auto& [name, r] : ranges<T>(o, s)) {
    const std::string w = cat("large", name, "origin", orow, ocol, "size", rows, cols, "bits", 8 * sizeof(T));
    R.eq((long long) (r.end() - r.begin()), rows * cols, "length " + w);
    R.eq(r.empty(), false, "empty " + w);
    for (long long c : {0LL, 1LL, cols / 2, cols - 1})
      for (long long q : {0LL, 1LL, rows / 2, rows - 1}) {
        if (c >= cols || q >= rows)
          continue;
        const long long p = c * rows + q;
        auto it = r.begin();
        it += p;
        const I<T> e(T(orow + q), T(ocol + c));
        R.ok(*it == e, cat("index at", p, w, "got", *it));
        R.ok(r.end()[p - rows * cols] == e, cat("index from the end at", p, w));
        R.eq(it < r.end(), true, cat("before end", p, w));
        auto nx = it;
        ++nx;
        if (p + 1 < rows * cols)
          R.ok(*nx == (q + 1 < rows ? I<T>(T(orow + q + 1), T(ocol + c)) : I<T>(T(orow), T(ocol + c + 1))), cat("next of", p, w));
        else
          R.ok(nx == r.end(), cat("end after", p, w));
        R.eq(isIndexInRange(e, r), true, cat("membership", p, w));
      }
  }
}

int main(int, char** argv) {
  using It = IteratorRange2D<int, TAG>;
  R.ok(std::is_same_v<std::iterator_traits<It>::iterator_category, std::random_access_iterator_tag>, "iterator category");
  vf::for_each_line(argv[1], [](const vf::Line& l) {
    ++R.cases;
    if (l.kind == "L") {
      list<int>(l.v);
      list<SizeType>(l.v);
      list<std::int8_t>(l.v);
    }
    else if (l.kind == "H") {
      hist<int>(l.v);
      hist<SizeType>(l.v);
    }
    else
      exit(3);
  });
  for (auto o : {std::pair<long long, long long>{0, 0}, {3, 7}}) {
    for (auto s : {std::pair<long long, long long>{65536, 65536}, {46341, 46341}, {1, 2000000000}, {2000000000, 1}, {70000, 1000000}, {2000000000, 3},
                   {65536, 32768}, {131072, 32769}, {1000000000, 1000000000}})
      big<int>(o.first, o.second, s.first, s.second), big<SizeType>(o.first, o.second, s.first, s.second);
    big<SizeType>(o.first, o.second, 1LL << 40, 1LL << 20);
    big<SizeType>(o.first, o.second, 1LL << 20, 1LL << 40);
    big<std::int8_t>(o.first, o.second, 100, 100);
    big<std::int16_t>(o.first, o.second, 32000, 32000);
  }
  return R.done();
}
