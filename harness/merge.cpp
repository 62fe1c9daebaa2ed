// Replays the behaviours of Deflation.tla and RankOneMerge.tla into the merge step of the tridiagonal solver, inside a
// larger problem whose other parts have to stay as they are.
// Usage: merge <behaviours> <seed> <schedules per behaviour>  |  merge trees <n>
#include <cmath>
#include <limits>
#include <memory>
#include <set>

#include <dlaf/communication/communicator_grid.h>
#include <dlaf/eigensolver/tridiag_solver/impl.h>
#include <dlaf/eigensolver/tridiag_solver/merge.h>
#include <dlaf/matrix/distribution.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/tune.h>

#include "common.h"

using namespace dlaf;
using namespace eigensolver::internal;
constexpr auto D = Device::CPU;
constexpr auto col_major = matrix::AllocationLayout::ColMajor;
namespace ex = pika::execution::experimental;
using vf::cat;
using Ints = std::vector<SizeType>;
using Reals = std::vector<double>;
vf::Report R;
const double NaN = std::numeric_limits<double>::quiet_NaN();
constexpr SizeType mark = -77777;

struct Reader {
  const std::vector<long long>& v;
  std::size_t k = 0;
  SizeType one() { return SizeType(v.at(k++)); }
  Ints some(SizeType n) {
    Ints x;
    for (SizeType i = 0; i < n; ++i)
      x.push_back(one());
    return x;
  }
  void end() const {
    if (k != v.size()) {
      std::fprintf(stderr, "bad behaviour: %zu of %zu\n", k, v.size());
      std::exit(3);
    }
  }
};

// The place of the problem: `n` elements in `t1 + t2` tiles, with other tiles before and after.
struct Place {
  SizeType seed, nb, t1, t2, n, before, after;
  SizeType ib() const { return before; }
  SizeType is() const { return before + t1; }
  SizeType ie() const { return before + t1 + t2; }
  SizeType n1() const { return t1 * nb; }
  SizeType start() const { return before * nb; }
  SizeType total() const { return start() + n + after * nb; }
  Place(Reader& r) { seed = r.one(), nb = r.one(), t1 = r.one(), t2 = r.one(), n = r.one(), before = r.one(), after = r.one(); }
  std::string text() const { return cat("problem of", n, "in", t1, "+", t2, "tiles of", nb, "between", before, "and", after, "others"); }
};

template <class X>
Matrix<X, D> vec(const Place& p) {
  return Matrix<X, D>(LocalElementSize(p.total(), 1), TileElementSize(p.nb, 1), col_major);
}
// elements of the problem from `x`, `other` elsewhere
template <class X, class V>
void put(const Place& p, Matrix<X, D>& m, const std::vector<V>& x, X other) {
  for (SizeType i = 0; i < m.nr_tiles().rows(); ++i) {
    auto t = pika::this_thread::experimental::sync_wait(m.readwrite(LocalTileIndex(i, 0)));
    for (SizeType k = 0; k < t.size().rows(); ++k) {
      const SizeType e = i * p.nb + k - p.start();
      t({k, 0}) = e >= 0 && e < p.n ? X(x[std::size_t(e)]) : other;
    }
  }
}
template <class X>
std::vector<X> get(const Place& p, Matrix<X, D>& m, X other, const std::string& what) {
  std::vector<X> x;
  for (SizeType i = 0; i < m.nr_tiles().rows(); ++i) {
    auto w = pika::this_thread::experimental::sync_wait(m.read(LocalTileIndex(i, 0)));
    for (SizeType k = 0; k < w.get().size().rows(); ++k) {
      const SizeType e = i * p.nb + k - p.start();
      const X y = w.get()({k, 0});
      if (e >= 0 && e < p.n)
        x.push_back(y);
      else if (y != other)
        R.ok(false, cat(what, ": element", e, "outside of the problem changed :", vrt::context));
    }
  }
  return x;
}
bool is_perm(const Ints& x) {
  std::set<SizeType> s(x.begin(), x.end());
  return s.size() == x.size() && (x.empty() || (*s.begin() == 0 && *s.rbegin() == SizeType(x.size()) - 1));
}
bool perm(const Ints& x, const char* what) {
  return R.ok(is_perm(x), cat(what, "is not a permutation:", vrt::context));
}
bool near(double x, double y, const char* what, SizeType i) {
  return R.ok(std::abs(x - y) <= 1e-12 * std::max(1., std::abs(y)), cat(what, i, "is", x, "not", y, ":", vrt::context));
}
template <class X>
std::size_t at(X i) {
  return std::size_t(i);
}

// ------------------------------------------------------------------------------------------------- classification

void deflation(const vf::Line& l) {
  Reader r{l.v};
  const Place p(r);
  const SizeType P = r.one(), Q = r.one(), sr = r.one(), sc = r.one(), rho = r.one(), tol = r.one(), neg = r.one();
  const SizeType n = p.n;
  const Ints d0 = r.some(n), w0 = r.some(n), sg = r.some(n), idx = r.some(n), dn = r.some(n), dd = r.some(n), w = r.some(n), ct = r.some(n);
  const SizeType nr = r.one();
  const Ints rots = r.some(4 * nr), ia = r.some(n), o3 = r.some(n), o5 = r.some(n);
  r.end();
  vrt::context = cat("behaviour", p.seed, p.text(), "grid", P, Q, "source", sr, sc, "rho", rho, "tolerance", tol);
  const SizeType k = n - std::count(ct.begin(), ct.end(), 4);
  Reals z0;
  double wmax = 0, dmax = 0;
  for (SizeType i = 0; i < n; ++i) {
    z0.push_back(double(sg[at(i)]) * std::sqrt(double(w0[at(i)])));
    wmax = std::max(wmax, std::abs(z0.back()));
    dmax = std::max(dmax, std::abs(double(d0[at(i)])));
  }
  vrt::Options o;
  o.seed = std::uint64_t(p.seed);
  o.ranks = 1;
  vrt::run(o, [&](int) {
    const double other = 1e9;
    auto i1 = vec<SizeType>(p), i2 = vec<SizeType>(p), i3 = vec<SizeType>(p), i5 = vec<SizeType>(p), i4 = vec<SizeType>(p), i6 = vec<SizeType>(p), ix = vec<SizeType>(p);
    auto d = vec<double>(p), z = vec<double>(p), x = vec<double>(p);
    Matrix<ColType, D> c = vec<ColType>(p);
    put(p, i1, idx, mark);
    put(p, d, d0, other);
    put(p, z, z0, other);
    for (auto* m : {&i2, &i3, &i5, &i4, &i6, &ix})
      put(p, *m, Ints(at(n), mark), mark);
    put(p, x, Reals(at(n), other), other);
    put(p, c, std::vector<ColType>(at(n), ColType::Dense), ColType::Deflated);
    auto types = [&](const Ints& t) {
      std::vector<ColType> v;
      for (auto y : t)
        v.push_back(y == 1 ? ColType::UpperHalf : y == 2 ? ColType::Dense : y == 3 ? ColType::LowerHalf : ColType::Deflated);
      return v;
    };

    R.eq(problemSize(p.ib(), p.ie(), d.distribution()), n, cat("size of the problem:", vrt::context));
    R.eq(problemSize(p.ib(), p.is(), d.distribution()), p.n1(), cat("size of the first half:", vrt::context));
    // index of a half that was not merged before
    initIndex(p.is(), p.ie(), ix);
    {
      const Ints v = get(p, ix, mark, "identity");
      for (SizeType i = 0; i < n; ++i)
        R.eq(v[at(i)], i < p.n1() ? mark : i - p.n1(), cat("identity at", i, ":", vrt::context));
    }
    initColTypes(p.ib(), p.is(), p.ie(), c);
    {
      const auto v = get(p, c, ColType::Deflated, "column types");
      for (SizeType i = 0; i < n; ++i)
        R.ok(v[at(i)] == (i < p.n1() ? ColType::UpperHalf : ColType::LowerHalf), cat("column type of", i, ":", vrt::context));
    }
    // what is outside is larger than what is inside
    const double t = pika::this_thread::experimental::sync_wait(calcTolerance(p.ib(), p.ie(), d, z));
    near(t / (8 * std::numeric_limits<double>::epsilon()), std::max(dmax, wmax), "largest entry for the tolerance", 0);
    near(pika::this_thread::experimental::sync_wait(scaleRho(ex::just(neg ? -1.25 * double(rho) : 1.25 * double(rho)))), 2.5 * double(rho), "scaled rho", 0);

    addIndex(p.is(), p.ie(), p.n1(), i1);
    sortIndex(p.ib(), p.ie(), ex::just(p.n1()), d, i1, i2);
    Ints got = get(p, i2, mark, "sorted index");
    get(p, i1, mark, "shifted index");
    if (!perm(got, "sorted index"))
      return;
    for (SizeType i = 0; i + 1 < n; ++i)
      R.ok(d0[at(got[at(i)])] <= d0[at(got[at(i + 1)])], cat("values not ascending at", i, ":", vrt::context));
    // equal values may come in any order: go on with the one of the behaviour
    if (got != ia)
      put(p, i2, ia, mark);

    const auto rs = pika::this_thread::experimental::sync_wait(applyDeflation(p.ib(), p.ie(), ex::just(double(rho)), ex::just(double(tol)), i2, d, z, c));
    if (!R.eq(SizeType(rs.size()), nr, cat("number of rotations:", vrt::context)))
      return;
    for (SizeType i = 0; i < nr; ++i) {
      const auto& y = rs[at(i)];
      const SizeType a = rots[at(4 * i)], b = rots[at(4 * i + 1)];
      const double wa = double(rots[at(4 * i + 2)]), wb = double(rots[at(4 * i + 3)]);
      // entries of z are positive once they were rotated
      bool before = false;
      for (SizeType j = 0; j < i; ++j)
        before = before || rots[at(4 * j)] == a;
      R.eq(y.i, a, cat("first column of rotation", i, ":", vrt::context));
      R.eq(y.j, b, cat("second column of rotation", i, ":", vrt::context));
      near(y.c, (before ? 1. : double(sg[at(a)])) * std::sqrt(wa / (wa + wb)), "cosine of rotation", i);
      near(y.s, double(sg[at(b)]) * std::sqrt(wb / (wa + wb)), "sine of rotation", i);
    }
    const Reals dv = get(p, d, other, "values"), zv = get(p, z, other, "z");
    const auto cv = get(p, c, ColType::Deflated, "column types");
    const auto want = types(ct);
    for (SizeType i = 0; i < n; ++i) {
      near(dv[at(i)], double(dn[at(i)]) / double(dd[at(i)]), "deflated value", i);
      near(std::abs(zv[at(i)]), std::sqrt(double(w[at(i)])), "deflated entry of z", i);
      if (!R.ok(cv[at(i)] == want[at(i)], cat("type of column", i, ":", vrt::context)))
        return;
    }
    auto by_value = [&](const Ints& v, const char* what) {
      if (!perm(v, what))
        return false;
      for (SizeType i = 0; i < n; ++i)
        if (!R.ok((want[at(v[at(i)])] != ColType::Deflated) == (i < k), cat(what, ": entry", i, "deflated or not:", vrt::context)))
          return false;
      for (SizeType i = 0; i + 1 < n; ++i)
        if (i != k - 1 && !R.ok(dv[at(v[at(i)])] <= dv[at(v[at(i + 1)])], cat(what, ": values not ascending at", i, ":", vrt::context)))
          return false;
      // the model gives the same values in the same places
      for (SizeType i = 0; i < n; ++i)
        near(dv[at(v[at(i)])], dv[at(o3[at(i)])], what, i);
      return true;
    };
    {
      auto [kk, udl] = pika::this_thread::experimental::sync_wait(stablePartitionIndexForDeflation<double>(p.ib(), p.ie(), c, d, i2, i3, i5));
      R.eq(SizeType(kk), k, cat("number of non-deflated entries:", vrt::context));
      for (int t = 1; t <= 3; ++t)
        R.eq(SizeType(udl[at(t - 1)]), SizeType(std::count(ct.begin(), ct.end(), t)), cat("number of columns of shape", t, ":", vrt::context));
      const Ints v3 = get(p, i3, mark, "order by value"), v5 = get(p, i5, mark, "order by shape");
      if (!by_value(v3, "order by value") || !perm(v5, "order by shape"))
        return;
      for (SizeType i = 0; i + 1 < n; ++i)
        R.ok(ct[at(v5[at(i)])] <= ct[at(v5[at(i + 1)])], cat("shapes not grouped at", i, ":", vrt::context));
      for (SizeType i = k; i < n; ++i)
        R.eq(v5[at(i)], v3[at(i)], cat("deflated entry", i, "of the order by shape:", vrt::context));
      // gather and inverse
      applyIndex<double>(p.ib(), p.ie(), i3, d, x);
      invertIndex(p.ib(), p.ie(), i3, ix);
      const Reals xv = get(p, x, other, "gathered values");
      const Ints iv = get(p, ix, mark, "inverse");
      for (SizeType i = 0; i < n; ++i) {
        R.ok(xv[at(i)] == dv[at(v3[at(i)])], cat("gathered value", i, ":", vrt::context));
        R.eq(iv[at(v3[at(i)])], i, cat("inverse at", i, ":", vrt::context));
      }
    }
    // every process of the grid computes the orders of all processes
    for (SizeType rc = 0; rc < Q; ++rc) {
      const std::string on = cat("process column", rc, "of", Q);
      const matrix::Distribution dist(GlobalElementSize(p.total(), p.total()), TileElementSize(p.nb, p.nb), comm::Size2D(int(P), int(Q)), comm::Index2D(int(rc % P), int(rc)), comm::Index2D(int(sr), int(sc)));
      auto owner = [&](SizeType j) { return ((j + p.start()) / p.nb + sc) % Q; };
      Matrix<SizeType, D> i5b(LocalElementSize(dist.local_size().cols(), 1), TileElementSize(p.nb, 1), col_major);
      for (SizeType i = 0; i < i5b.nr_tiles().rows(); ++i) {
        auto t = pika::this_thread::experimental::sync_wait(i5b.readwrite(LocalTileIndex(i, 0)));
        for (SizeType e = 0; e < t.size().rows(); ++e)
          t({e, 0}) = mark;
      }
      put(p, i2, ia, mark);
      auto [kk, kl, udl] = pika::this_thread::experimental::sync_wait(stablePartitionIndexForDeflation<double>(dist, p.ib(), p.ie(), c, d, i2, i3, i5, i5b, i4, i6));
      const Ints v3 = get(p, i3, mark, "order by value"), v5 = get(p, i5, mark, "order by shape"), v4 = get(p, i4, mark, "i4"), v6 = get(p, i6, mark, "i6"), v2 = get(p, i2, mark, "i2");
      R.eq(SizeType(kk), k, cat("number of non-deflated entries,", on, ":", vrt::context));
      if (!by_value(v3, "order by value, distributed") || !perm(v5, "order by shape, distributed") || !perm(v6, "local to global order") || !perm(v2, "global to local order") || !perm(v4, "from shape to value"))
        return;
      SizeType mine = 0, first_dense = n, last_dense = 0, last = 0, used = 0;
      for (SizeType i = 0; i < n; ++i) {
        R.eq(owner(v5[at(i)]), owner(i), cat("column", i, "stays on its process,", on, ":", vrt::context));
        const SizeType t = ct[at(v5[at(i)])];
        R.eq(t, ct[at(o5[at(i)])], cat("shape at", i, on, ":", vrt::context));
        if (owner(i) == rc && t != 4)
          ++mine;
        if (t != 1 && first_dense == n)
          first_dense = i;
        if (t == 1 || t == 2)
          last_dense = i + 1;
        if (t != 4)
          last = i + 1;
        R.eq(v3[at(v4[at(i)])], v5[at(i)], cat("i4 at", i, on, ":", vrt::context));
        R.eq(v2[at(v6[at(i)])], i, cat("i2 inverts i6 at", i, on, ":", vrt::context));
        // non-deflated columns are numbered in the order of their places, deflated ones by value
        R.eq(v6[at(i)], t == 4 ? v4[at(i)] : used, cat("i6 at", i, on, ":", vrt::context));
        used += t != 4;
      }
      R.eq(SizeType(kl), mine, cat("number of local non-deflated columns,", on, ":", vrt::context));
      R.eq(udl[0], first_dense, cat("first column that is not upper,", on, ":", vrt::context));
      R.eq(udl[1], last_dense, cat("end of the columns that are upper or dense,", on, ":", vrt::context));
      R.eq(udl[2], last, cat("end of the columns that are not deflated,", on, ":", vrt::context));
      // the local view
      SizeType lc = 0;
      for (SizeType g = 0; g < p.total(); ++g) {
        if ((g / p.nb + sc) % Q != rc)
          continue;
        auto t = pika::this_thread::experimental::sync_wait(i5b.read(LocalTileIndex(lc / p.nb, 0)));
        const SizeType y = t.get()({lc % p.nb, 0});
        const SizeType e = g - p.start();
        if (e < 0 || e >= n)
          R.eq(y, mark, cat("local order outside of the problem,", on, ":", vrt::context));
        else {
          SizeType before = 0;  // local columns of the problem before the one meant
          for (SizeType f = 0; f < v5[at(e)]; ++f)
            before += owner(f) == rc;
          R.eq(y, before, cat("local order at", e, on, ":", vrt::context));
        }
        ++lc;
      }
    }
  });
}

// ------------------------------------------------------------------------------------------------------- merges

struct Merge {
  Place p;
  SizeType dist, P, Q, sr, sc, thr, rho, s1, s2, left, nfixed;
  Ints q1, q2, d, kept;
  Reals fixed;
  std::vector<Reals> coef;
  Merge(Reader& r) : p(r) {
    dist = r.one(), P = r.one(), Q = r.one(), sr = r.one(), sc = r.one(), thr = r.one(), rho = r.one(), s1 = r.one(), s2 = r.one();
    q1 = r.some(p.n1() * p.n1()), q2 = r.some((p.n - p.n1()) * (p.n - p.n1())), d = r.some(p.n);
    left = r.one();
    kept = r.some(left);
    nfixed = r.one();
    for (SizeType i = 0; i < nfixed; ++i) {
      fixed.push_back(double(r.one()));
      const Ints c = r.some(p.n);
      coef.emplace_back(c.begin(), c.end());
    }
    r.end();
  }
  double q(SizeType i, SizeType j) const {
    const SizeType n1 = p.n1(), n2 = p.n - n1;
    if (i < n1 && j < n1)
      return double(q1[at(i * n1 + j)]) / double(s1);
    if (i >= n1 && j >= n1)
      return double(q2[at((i - n1) * n2 + j - n1)]) / double(s2);
    return 0;
  }
  std::string text() const {
    return cat("merge", p.seed, p.text(), dist ? "grid" : "local", P, Q, "source", sr, sc, "rho", rho, "deflated", nfixed, "threads", thr);
  }
};
struct Out {
  std::vector<Reals> d;
  std::vector<Ints> i;
  Reals e;
};

// what the rest of the matrix of eigenvectors holds
double filler(SizeType i, SizeType j) {
  return double((i * 7 + j * 3) % 11) - 5;
}

void merge(const Merge& m, comm::CommunicatorGrid* grid, Out& out, int rank) {
  const Place& p = m.p;
  const SizeType n = p.total();
  using T = double;
  auto square = [&] {
    if (!grid)
      return Matrix<T, D>(LocalElementSize(n, n), TileElementSize(p.nb, p.nb), col_major);
    return Matrix<T, D>(matrix::Distribution(GlobalElementSize(n, n), TileElementSize(p.nb, p.nb), grid->size(), grid->rank(), comm::Index2D(int(m.sr), int(m.sc))), col_major);
  };
  auto evecs = square();
  auto evals = vec<T>(p);
  auto at_local = [&](SizeType lc) { return Matrix<SizeType, D>(LocalElementSize(lc, 1), TileElementSize(p.nb, 1), col_major); };
  WorkSpace<T, D> ws{square(), square(), evecs, evals, vec<T>(p), vec<T>(p), vec<SizeType>(p), vec<SizeType>(p), at_local(grid ? evecs.distribution().local_size().cols() : n), vec<SizeType>(p)};
  WorkSpaceHost<T> ws_h{vec<T>(p), vec<ColType>(p), vec<SizeType>(p), vec<SizeType>(p), vec<SizeType>(p)};

  const auto& dist = ws.e0.distribution();
  for (auto ij : common::iterate_range2d(dist.local_nr_tiles())) {
    auto t = pika::this_thread::experimental::sync_wait(ws.e0.readwrite(ij));
    for (SizeType j = 0; j < t.size().cols(); ++j)
      for (SizeType i = 0; i < t.size().rows(); ++i) {
        const auto g = dist.global_element_index(dist.global_tile_index(ij), {i, j});
        const SizeType a = g.row() - p.start(), b = g.col() - p.start();
        t({i, j}) = a >= 0 && b >= 0 && a < p.n && b < p.n ? m.q(a, b) : filler(g.row(), g.col());
      }
  }
  // each half comes with the index that sorts it
  Ints idx;
  for (SizeType b : {SizeType(0), p.n1()}) {
    const SizeType len = b == 0 ? p.n1() : p.n - p.n1();
    Ints x;
    for (SizeType i = 0; i < len; ++i)
      x.push_back(i);
    std::stable_sort(x.begin(), x.end(), [&](SizeType i, SizeType j) { return m.d[at(b + i)] < m.d[at(b + j)]; });
    idx.insert(idx.end(), x.begin(), x.end());
  }
  // a half of one tile is sorted as it is (it comes from the leaf solver): the behaviours of this driver respect it
  put(p, ws_h.i1, idx, mark);
  put(p, ws_h.d0, m.d, 1e9);
  auto rho = ex::split(ex::ensure_started(ex::just(double(m.rho))));
  if (grid) {
    DistWorkSpaceHostMirror<T, D> ws_hm{initMirrorMatrix(ws.e0), initMirrorMatrix(ws.e2), initMirrorMatrix(ws.d1), initMirrorMatrix(ws.z0), initMirrorMatrix(ws.z1),
                                        initMirrorMatrix(ws.i2), initMirrorMatrix(ws.i5), initMirrorMatrix(ws.i5b), initMirrorMatrix(ws.i6)};
    auto full = grid->full_communicator_pipeline();
    auto row = grid->row_communicator_pipeline();
    auto col = grid->col_communicator_pipeline();
    mergeDistSubproblems<Backend::MC>(full, row, col, p.ib(), p.is(), p.ie(), rho, ws, ws_h, ws_hm);
    out.i[at(rank)] = get(p, ws_h.i1, mark, "final index");
  }
  else {
    WorkSpaceHostMirror<T, D> ws_hm{initMirrorMatrix(ws.e2), initMirrorMatrix(ws.d1), initMirrorMatrix(ws.z0), initMirrorMatrix(ws.z1), initMirrorMatrix(ws.i2), initMirrorMatrix(ws.i5)};
    mergeSubproblems<Backend::MC>(p.ib(), p.is(), p.ie(), rho, ws, ws_h, ws_hm);
    out.i[at(rank)] = get(p, ws_h.i1, mark, "final index");
  }
  out.d[at(rank)] = get(p, ws_h.d0, 1e9, "values");
  for (auto ij : common::iterate_range2d(dist.local_nr_tiles())) {
    auto w = pika::this_thread::experimental::sync_wait(ws.e0.read(ij));
    const auto& t = w.get();
    for (SizeType j = 0; j < t.size().cols(); ++j)
      for (SizeType i = 0; i < t.size().rows(); ++i) {
        const auto g = dist.global_element_index(dist.global_tile_index(ij), {i, j});
        out.e[at(g.row() * n + g.col())] = t({i, j});
      }
  }
}

void check(const Merge& m, const Out& o) {
  const Place& p = m.p;
  const SizeType n = p.n, N = p.total();
  for (std::size_t r = 0; r < o.d.size(); ++r) {
    for (SizeType i = 0; i < n; ++i)
      if (!R.ok(std::abs(o.d[r][at(i)] - o.d[0][at(i)]) <= 1e-13 * std::max(1., std::abs(o.d[0][at(i)])) && o.i[r][at(i)] == o.i[0][at(i)], cat("values differ between processes:", vrt::context)))
        return;
  }
  const Reals& d = o.d[0];
  const Ints& ix = o.i[0];
  if (!perm(ix, "final index"))
    return;
  for (SizeType i = 0; i + 1 < n; ++i)
    if (!R.ok(d[at(ix[at(i)])] <= d[at(ix[at(i + 1)])], cat("values not ascending at", i, ":", vrt::context)))
      return;
  for (SizeType i = 0; i < N; ++i)
    for (SizeType j = 0; j < N; ++j) {
      const SizeType a = i - p.start(), b = j - p.start();
      if (!(a >= 0 && b >= 0 && a < n && b < n) && !R.ok(o.e[at(i * N + j)] == filler(i, j), cat("element", i, j, "outside of the problem changed:", vrt::context)))
        return;
    }
  auto v = [&](SizeType i, SizeType j) { return o.e[at((i + p.start()) * N + j + p.start())]; };
  const double rho = std::abs(double(m.rho)), tol = 1e-11 * 50;
  for (SizeType i = 0; i < n; ++i)
    for (SizeType j = 0; j < n; ++j) {
      double orth = i == j ? -1 : 0, full = 0, want = 0;
      for (SizeType k = 0; k < n; ++k) {
        orth += v(k, i) * v(k, j);
        full += v(i, k) * d[at(k)] * v(j, k);
        want += m.q(i, k) * double(m.d[at(k)]) * m.q(j, k);
      }
      auto rank1 = [&](SizeType x) { return x == p.n1() - 1 ? (m.rho < 0 ? -1. : 1.) : x == p.n1() ? 1. : 0.; };
      want += rho * rank1(i) * rank1(j);
      if (!R.ok(std::abs(orth) <= 1e-11, cat("columns", i, j, "not orthonormal:", orth, ":", vrt::context)))
        return;
      if (!R.ok(std::abs(full - want) <= tol, cat("element", i, j, "of the merged problem is", full, "not", want, ":", vrt::context)))
        return;
    }
  // eigenpairs which are known exactly, with their multiplicity: the component in eigenvectors of other values is nothing
  std::map<double, SizeType> mult;
  for (std::size_t f = 0; f < m.fixed.size(); ++f) {
    ++mult[m.fixed[f]];
    double norm = 0, away = 0;
    for (SizeType k = 0; k < n; ++k) {
      double dot = 0;
      for (SizeType i = 0; i < n; ++i)
        for (SizeType j = 0; j < n; ++j)
          if (m.coef[f][at(j)] != 0)
            dot += v(i, k) * m.q(i, j) * m.coef[f][at(j)];
      norm += dot * dot;
      if (!(std::abs(d[at(k)] - m.fixed[f]) <= 1e-9))
        away += dot * dot;
    }
    R.ok(away <= 1e-16 * norm, cat("eigenvector of", m.fixed[f], "is not kept:", vrt::context));
  }
  for (auto [x, c] : mult) {
    SizeType have = 0;
    for (auto y : d)
      have += std::abs(y - x) <= 1e-10;
    R.ok(have >= c, cat("eigenvalue", x, "is there", have, "times instead of", c, ":", vrt::context));
  }
  // the other values are separated by those they come from (all shifts are upwards, by 2 rho together)
  Reals rest(d);
  for (auto x : m.fixed) {
    auto best = std::min_element(rest.begin(), rest.end(), [&](double a, double b) { return std::abs(a - x) < std::abs(b - x); });
    rest.erase(best);
  }
  std::sort(rest.begin(), rest.end());
  for (std::size_t i = 0; i < rest.size() && R.eq(SizeType(rest.size()), m.left, cat("values left:", vrt::context)); ++i) {
    const double lo = double(m.kept[i]), hi = i + 1 < rest.size() ? double(m.kept[i + 1]) : lo + 2 * rho;
    R.ok(rest[i] >= lo - tol && rest[i] <= hi + tol, cat("value", rest[i], "not between", lo, "and", hi, ":", vrt::context));
  }
}

int main(int argc, char** argv) {
  if (argc == 3 && std::string(argv[1]) == "trees") {
    for (SizeType n = 0; n <= std::atol(argv[2]); ++n) {
      std::printf("TREE %ld", long(n));
      for (auto [b, s, e] : generateSubproblemIndices(n))
        std::printf(" %ld %ld %ld", long(b), long(s), long(e));
      std::printf("\n");
    }
    return 0;
  }
  if (argc < 4)
    return 3;
  const long seed = std::atol(argv[2]), schedules = std::atol(argv[3]);
  long runs = 0;
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    if (R.mismatches > 20)
      return;
    if (l.kind == "E") {
      ++R.cases;
      ++runs;
      deflation(l);
    }
    if (l.kind != "M")
      return;
    Reader r{l.v};
    const Merge m(r);
    ++R.cases;
    for (long k = 0; k < schedules; ++k) {
      vrt::Options o;
      o.seed = std::uint64_t(seed * 1000003 + m.p.seed * 101 + k);
      o.ranks = int(m.P * m.Q);
      vrt::context = cat("schedule", o.seed, m.text());
      ++runs;
      getTuneParameters().tridiag_rank1_num_threads = std::size_t(m.thr);
      pika::vshim::state().threads = std::size_t(m.p.seed % 4 == 0 ? 2 : m.thr);
      Out out;
      out.d.resize(at(o.ranks));
      out.i.resize(at(o.ranks));
      out.e.resize(at(m.p.total() * m.p.total()));
      vrt::run(o, [&](int rank) {
        std::unique_ptr<comm::CommunicatorGrid> grid;
        if (m.dist)
          grid = std::make_unique<comm::CommunicatorGrid>(comm::Communicator(MPI_COMM_WORLD), int(m.P), int(m.Q), common::Ordering::RowMajor);
        merge(m, grid.get(), out, rank);
      });
      check(m, out);
    }
  });
  R.extra["runs"] = runs;
  R.extra["tasks"] = vrt::stats.tasks;
  R.extra["messages"] = vrt::stats.messages + vrt::stats.collectives;
  return R.done();
}
