// Replays spec/GridWalk.tla and spec/IndexAlgebra.tla into dlaf::common index2d.
#include <cstdint>
#include <limits>

#include <dlaf/common/index2d.h>
#include <dlaf/types.h>

#include "common.h"
using namespace dlaf;
using namespace dlaf::common;
using vf::cat;
vf::Report R;
struct TAG;
static long deaths_budget = 600;
static std::map<std::string, int> death_per_kind;

template <class F>
void must_die(const std::string& kind, F f, const std::string& what) {
  if (death_per_kind[kind]++ >= 12 || --deaths_budget < 0)
    return;
  ++R.extra["death_probes"];
  R.ok(vf::dies(f) == 1, "accepted although not representable or outside the grid: " + what);
}

template <class L, class IdxT>
void linear(Ordering o, Index2D<IdxT, TAG> ij, Size2D<IdxT, TAG> d, __int128 n, const std::string& w) {
  if (n <= __int128(std::numeric_limits<L>::max())) {
    R.eq((long long) computeLinearIndex<L>(o, ij, d), (long long) n, "linear index " + w);
    if (o == Ordering::RowMajor)
      R.eq((long long) computeLinearIndexRowMajor<L>(ij, d), (long long) n, "row-major linear index " + w);
    else
      R.eq((long long) computeLinearIndexColMajor<L>(ij, d), (long long) n, "col-major linear index " + w);
  }
  else if (n <= __int128(std::numeric_limits<L>::max()) + 2)
    must_die(cat("narrow", sizeof(L), std::is_signed_v<L>, sizeof(IdxT)),
             [=] { volatile auto x = computeLinearIndex<L>(o, ij, d); (void) x; }, "linear index " + w);
}

template <class IdxT>
void cell(Ordering o, __int128 rows, __int128 cols, __int128 i, __int128 j, __int128 n) {
  const __int128 mx = std::numeric_limits<IdxT>::max();
  if (rows > mx || cols > mx || rows * cols > __int128(1) << 62)
    return;
  Index2D<IdxT, TAG> ij{IdxT(i), IdxT(j)};
  Size2D<IdxT, TAG> d{IdxT(rows), IdxT(cols)};
  const std::string w = cat(o == Ordering::RowMajor ? "row-major" : "col-major", "grid", (long long) rows, "x", (long long) cols, "cell",
                            (long long) i, (long long) j, "index bits", int(8 * sizeof(IdxT)));
  const SizeType nn = SizeType(n);
  auto c = computeCoords(o, nn, d);
  R.ok(c == ij, cat("coordinates of", nn, w, "got", c));
  R.ok((o == Ordering::RowMajor ? computeCoordsRowMajor(nn, d) : computeCoordsColMajor(nn, d)) == ij,
       cat("coordinates (direct) of", nn, w));
  linear<std::int8_t>(o, ij, d, n, w + "to int8");
  linear<std::uint8_t>(o, ij, d, n, w + "to uint8");
  linear<std::int16_t>(o, ij, d, n, w + "to int16");
  linear<std::uint16_t>(o, ij, d, n, w + "to uint16");
  linear<std::int32_t>(o, ij, d, n, w + "to int32");
  linear<std::uint32_t>(o, ij, d, n, w + "to uint32");
  linear<std::int64_t>(o, ij, d, n, w + "to int64");
  linear<std::uint64_t>(o, ij, d, n, w + "to uint64");
  R.eq(d.linear_size(), SizeType(rows * cols), "linear size " + w);
  if (n + 1 == rows * cols) {
    must_die(cat("end", sizeof(IdxT), int(o)), [=] { auto x = computeCoords(o, nn + 1, d); (void) x; }, "cell past the end " + w);
    must_die(cat("neg", sizeof(IdxT), int(o)), [=] { auto x = computeCoords(o, SizeType(-1), d); (void) x; }, "negative linear index " + w);
    if (i + 1 < mx)
      must_die(cat("row", sizeof(IdxT), int(o)), [=] { auto x = computeLinearIndex<SizeType>(o, Index2D<IdxT, TAG>(i + 1, j), d); (void) x; }, "row outside " + w);
    if (j + 1 < mx)
      must_die(cat("col", sizeof(IdxT), int(o)), [=] { auto x = computeLinearIndex<SizeType>(o, Index2D<IdxT, TAG>(i, j + 1), d); (void) x; }, "column outside " + w);
    must_die(cat("nrow", sizeof(IdxT), int(o)), [=] { auto x = computeLinearIndex<SizeType>(o, Index2D<IdxT, TAG>(-1, j), d); (void) x; }, "negative row " + w);
    must_die(cat("ncol", sizeof(IdxT), int(o)), [=] { auto x = computeLinearIndex<SizeType>(o, Index2D<IdxT, TAG>(i, -1), d); (void) x; }, "negative column " + w);
  }
}

static void lifted(const std::vector<long long>& v) {
  const Ordering o = v[0] == 0 ? Ordering::RowMajor : Ordering::ColumnMajor;
  const __int128 rows = v[1], cols = v[2], i = v[3], j = v[4], n = v[5];
  for (__int128 K : {__int128(1), __int128(3), __int128(100003), (__int128(1) << 16) + 1, (__int128(1) << 31) - 1, (__int128(1) << 31) + 11, __int128(1) << 40}) {
    for (__int128 r : {__int128(0), K / 2, K - 1}) {
      if (K == 1 && r > 0)
        continue;
      const bool rm = o == Ordering::RowMajor;
      const __int128 R_ = rm ? rows : rows * K, C_ = rm ? cols * K : cols, I_ = rm ? i : i * K + r, J_ = rm ? j * K + r : j;
      cell<std::int8_t>(o, R_, C_, I_, J_, n * K + r);
      cell<std::int16_t>(o, R_, C_, I_, J_, n * K + r);
      cell<int>(o, R_, C_, I_, J_, n * K + r);
      cell<SizeType>(o, R_, C_, I_, J_, n * K + r);
    }
  }
}

template <class T>
void algebra(const vf::Line& l) {
  using I = Index2D<T, TAG>;
  using S = Size2D<T, TAG>;
  const auto& v = l.v;
  auto t = [&](int k) { return T(v[k]); };
  const std::string w = cat(v.size() > 0 ? v[0] : 0, v.size() > 1 ? v[1] : 0, "/", v[2], v[3]);
  if (l.kind == "I") {
    I x(t(0), t(1));
    S s(t(2), t(3));
    R.eq(x.isIn(s), bool(v[4]), "isIn " + w);
    if (v[6])
      R.eq(x.isInOrOn(s), bool(v[5]), "isInOrOn " + w);
    R.eq(x.isValid(), bool(v[6]), "isValid " + w);
    R.eq(s.isEmpty(), bool(v[7]), "isEmpty " + w);
    R.ok(indexFromOrigin(s) == I(t(2), t(3)), "indexFromOrigin " + w);
    R.ok(sizeFromOrigin(x) == S(t(0), t(1)), "sizeFromOrigin " + w);
    R.eq(s.linear_size(), SizeType(v[2] * v[3]), "linear_size " + w);
    std::ostringstream os;
    os << x;
    R.eq(os.str(), "(" + std::to_string(v[0]) + ", " + std::to_string(v[1]) + ")", "print " + w);
  }
  else if (l.kind == "S") {
    R.eq(I(t(0), t(1)).isInSub(I(t(2), t(3)), S(t(4), t(5))), bool(v[6]), cat("isInSub", w, "size", v[4], v[5]));
  }
  else if (l.kind == "A") {
    I x(t(0), t(1)), y(t(2), t(3));
    S ys(t(2), t(3)), xs(t(0), t(1));
    I sum(t(4), t(5)), dif(t(6), t(7));
    S ssum(t(4), t(5)), sdif(t(6), t(7));
    R.ok(x + ys == sum, "index+size " + w);
    R.ok(x - ys == dif, "index-size " + w);
    R.ok(x - y == sdif, "index-index " + w);
    R.ok(xs + ys == ssum, "size+size " + w);
    R.ok(xs - ys == sdif, "size-size " + w);
    R.eq(x == y, bool(v[8]), "== " + w);
    R.eq(x != y, !v[8], "!= " + w);
    R.eq(xs == ys, bool(v[8]), "size == " + w);
    R.eq(xs != ys, !v[8], "size != " + w);
    R.ok(transposed(x) == I(t(1), t(0)) && transposed(xs) == S(t(1), t(0)), "transposed " + w);
    I tr = x;
    tr.transpose();
    R.ok(tr == I(t(1), t(0)), "transpose " + w);
    R.ok(x.template get<Coord::Row>() == t(0) && x.template get<Coord::Col>() == t(1) && x.get(Coord::Row) == t(0) &&
             x.get(Coord::Col) == t(1) && x.row() == t(0) && x.col() == t(1) && xs.rows() == t(0) && xs.cols() == t(1) &&
             xs.template get<Coord::Row>() == t(0) && xs.get(Coord::Col) == t(1),
         "components " + w);
    R.ok(I(Coord::Row, t(0), t(1)) == x && I(Coord::Col, t(1), t(0)) == x && I(Coord::Row, t(0)) == I(t(0), 0) &&
             I(Coord::Col, t(0)) == I(0, t(0)) && I(std::array<T, 2>{t(0), t(1)}) == x && S(std::array<T, 2>{t(0), t(1)}) == xs && S(Coord::Col, t(1), t(0)) == xs,
         "component construction " + w);
  }
}

int main(int, char** argv) {
  R.ok(!Index2D<int, TAG>().isValid() && !Index2D<SizeType, TAG>().isValid(), "default index must be invalid");
  R.ok(orthogonal(Coord::Row) == Coord::Col && orthogonal(Coord::Col) == Coord::Row, "orthogonal");
  vf::for_each_line(argv[1], [](const vf::Line& l) {
    ++R.cases;
    if (l.kind == "C")
      lifted(l.v);
    else {
      algebra<int>(l);
      algebra<SizeType>(l);
      algebra<std::int8_t>(l);
      algebra<std::int16_t>(l);
    }
  });
  return R.done();
}
