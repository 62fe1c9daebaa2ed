// Replays spec/CompactWY.tla: the T factor of a panel of reflectors and the two back-transformations, compared bit for bit.
// Usage: wy <behaviours> <seed> <schedules per behaviour>
#include <cmath>
#include <complex>
#include <limits>

#include <dlaf/communication/communicator_grid.h>
#include <dlaf/communication/communicator_pipeline.h>
#include <dlaf/eigensolver/bt_band_to_tridiag.h>
#include <dlaf/eigensolver/bt_reduction_to_band.h>
#include <dlaf/factorization/qr.h>
#include <dlaf/factorization/qr/internal/get_tfactor_num_workers.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/matrix/panel.h>
#include <dlaf/matrix/views.h>
#include <dlaf/tune.h>
#include <vrt.h>

#include "common.h"
#include "full.h"
using namespace dlaf;
using matrix::internal::MatrixRef;
constexpr Backend MC = Backend::MC;
constexpr Device D = Device::CPU;
static vf::Report R;
const C Poison(NaN, NaN);

struct Reflector {
  SizeType top, len, col;
  C tau;
  std::vector<C> v;
};
struct Behaviour {
  SizeType seed, mode, n, m, nb, w, b, k, row, col, dist, P, Q, sr, sc, cplx, hhg, thr, nrefs;
  std::vector<Reflector> refs;
  Full t, c0, c;
  std::string text;
};
static Behaviour parse(const vf::Line& l) {
  Behaviour b;
  std::size_t p = 0;
  auto next = [&] { return l.v.at(p++); };
  for (SizeType* x : {&b.seed, &b.mode, &b.n, &b.m, &b.nb, &b.w, &b.b, &b.k, &b.row, &b.col, &b.dist, &b.P, &b.Q, &b.sr, &b.sc, &b.cplx, &b.hhg, &b.thr, &b.nrefs})
    *x = next();
  auto num = [&] {
    const double re = double(next());
    return C(re, double(next()));
  };
  for (SizeType i = 0; i < b.nrefs; ++i) {
    Reflector r{next(), next(), next(), num(), {}};
    for (SizeType j = 0; j < r.len; ++j)
      r.v.push_back(num());
    b.refs.push_back(r);
  }
  auto some = [&](SizeType r, SizeType c) {
    Full x(r, c);
    for (auto& e : x.v)
      e = num();
    return x;
  };
  if (b.mode == 1)
    b.t = some(b.k, b.k);
  b.c0 = some(b.n, b.m);
  b.c = some(b.n, b.m);
  if (p != l.v.size()) {
    std::fprintf(stderr, "bad behaviour: %zu of %zu\n", p, l.v.size());
    std::exit(3);
  }
  static const char* names[] = {"", "T factor", "back-transformation of reduction to band", "back-transformation of band to tridiagonal"};
  b.text = vf::cat("behaviour", b.seed, names[b.mode], "n", b.n, "m", b.m, "tile", b.nb, b.w, "band", b.b, "k", b.k, "at", b.row, b.col, b.dist ? "grid" : "local",
                   b.P, b.Q, "source", b.sr, b.sc, b.cplx ? "complex" : "real", "group", b.hhg, "threads", b.thr);
  return b;
}

template <class T>
Matrix<T, D> make(const Behaviour& b, SizeType r, SizeType c, SizeType tr, SizeType tc, comm::CommunicatorGrid* grid) {
  if (!grid)
    return Matrix<T, D>(matrix::Distribution(LocalElementSize(r, c), TileElementSize(tr, tc)));
  return Matrix<T, D>(matrix::Distribution(GlobalElementSize(r, c), TileElementSize(tr, tc), grid->size(), grid->rank(), comm::Index2D(int(b.sr), int(b.sc))));
}
template <class T, class F>
void each(Matrix<T, D>& a, F&& f) {
  const auto& d = a.distribution();
  for (auto ij : common::iterate_range2d(d.local_nr_tiles())) {
    auto t = pika::this_thread::experimental::sync_wait(a.readwrite(ij));
    for (SizeType j = 0; j < t.size().cols(); ++j)
      for (SizeType i = 0; i < t.size().rows(); ++i) {
        const auto g = d.global_element_index(d.global_tile_index(ij), {i, j});
        f(t({i, j}), g.row(), g.col());
      }
  }
}
static bool same(C x, C y) {
  auto one = [](double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; };
  return one(x.real(), y.real()) && one(x.imag(), y.imag());
}

template <class T>
void tfactor(const Behaviour& b, comm::CommunicatorGrid* grid) {
  using namespace factorization::internal;
  const SizeType k = b.k, r0 = b.row, c0 = b.col;
  auto v = make<T>(b, r0 + b.n, b.w, b.nb, b.w, grid);
  const auto& dist = v.distribution();
  auto inside = [&](SizeType i, SizeType j) -> C {
    if (i < r0 || j < c0 || j >= c0 + k)
      return Poison;
    const auto& r = b.refs[std::size_t(j - c0)];
    const SizeType q = i - r0 - r.top;
    return q < 0 ? C(0) : r.v[std::size_t(q)];
  };
  each(v, [&](T& x, SizeType i, SizeType j) { x = val<T>(inside(i, j)); });
  if (!grid || dist.rank_index().col() == int(b.sc)) {
    Matrix<T, D> taus(LocalElementSize(k, 1), TileElementSize(k, 1)), t(LocalElementSize(k, k), TileElementSize(k, k));
    each(taus, [&](T& x, SizeType i, SizeType) { x = val<T>(b.refs[std::size_t(i)].tau); });
    each(t, [&](T& x, SizeType, SizeType) { x = val<T>(Poison); });
    {
      const matrix::SubPanelView view(dist, {r0, c0}, k);
      matrix::Panel<Coord::Col, T, D> panel(dist);
      panel.setRangeStart(GlobalElementIndex(r0, c0));
      panel.setWidth(k);
      for (const auto& i : view.iteratorLocal())
        panel.setTile(i, splitTile(v.read(i), view(i)));
      const SizeType nws = std::max<SizeType>(0, SizeType(get_tfactor_num_workers<MC>()) - 1);
      matrix::Panel<Coord::Col, T, D> ws(matrix::Distribution(LocalElementSize(nws * k, k), TileElementSize(k, k)));
      if (grid) {
        auto pipe = grid->col_communicator_pipeline();
        computeTFactor<MC>(panel, taus.read(GlobalTileIndex(0, 0)), t.readwrite(LocalTileIndex(0, 0)), ws, pipe);
      }
      else
        computeTFactor<MC>(panel, taus.read(GlobalTileIndex(0, 0)), t.readwrite(LocalTileIndex(0, 0)), ws);
    }
    each(t, [&](T& x, SizeType i, SizeType j) {
      if (i <= j)
        R.ok(same(C(x), b.t(i, j)), vf::cat("T", i, j, "is", C(x).real(), C(x).imag(), "should be", b.t(i, j).real(), b.t(i, j).imag(), vrt::context));
    });
    each(taus, [&](T& x, SizeType i, SizeType) { R.ok(same(C(x), b.refs[std::size_t(i)].tau), vf::cat("tau", i, "was written", vrt::context)); });
  }
  each(v, [&](T& x, SizeType i, SizeType j) { R.ok(same(C(x), C(val<T>(inside(i, j)))), vf::cat("the reflectors were written at", i, j, vrt::context)); });
}

template <class T>
void backtransform(const Behaviour& b, comm::CommunicatorGrid* grid) {
  const SizeType n = b.n;
  // columns of a wider matrix which are not part of the call
  const SizeType more = b.seed % 3;
  auto c = make<T>(b, n, b.m + more, b.nb, b.w, grid);
  each(c, [&](T& x, SizeType i, SizeType j) { x = val<T>(j < b.m ? b.c0(i, j) : C(double(3 * i - j), 7)); });
  MatrixRef<T, D> ref(c, {{0, 0}, {n, b.m}});
  auto hh = make<T>(b, n, n, b.nb, b.nb, grid);
  // everything which is not a reflector is undefined
  Full x(n, n);
  for (auto& e : x.v)
    e = Poison;
  if (b.mode == 2) {
    for (auto& r : b.refs)
      for (SizeType i = 1; i < r.len; ++i)
        x(r.top + i, r.col) = r.v[std::size_t(i)];
    each(hh, [&](T& e, SizeType i, SizeType j) { e = val<T>(x(i, j)); });
    const SizeType nr = std::max<SizeType>(0, n - b.b - 1);
    auto taus = [&] {
      if (!grid)
        return Matrix<T, D>(matrix::Distribution(LocalElementSize(nr, 1), TileElementSize(b.nb, 1)));
      return Matrix<T, D>(matrix::Distribution(GlobalElementSize(nr, 1), TileElementSize(b.nb, 1), comm::Size2D(grid->size().cols(), 1), comm::Index2D(grid->rank().col(), 0), comm::Index2D(int(b.sc), 0)));
    }();
    each(taus, [&](T& e, SizeType i, SizeType) { e = val<T>(b.refs[std::size_t(i)].tau); });
    grid ? eigensolver::internal::bt_reduction_to_band<MC, D, T>(*grid, b.b, ref, hh, taus) : eigensolver::internal::bt_reduction_to_band<MC, D, T>(b.b, ref, hh, taus);
    each(taus, [&](T& e, SizeType i, SizeType) { R.ok(same(C(e), b.refs[std::size_t(i)].tau), vf::cat("tau", i, "was written", vrt::context)); });
  }
  else {
    for (auto& r : b.refs) {
      const SizeType head = (r.top - 1) / b.b * b.b;
      x(head, r.col) = r.tau;
      for (SizeType i = 1; i < r.len; ++i)
        x(head + i, r.col) = r.v[std::size_t(i)];
    }
    each(hh, [&](T& e, SizeType i, SizeType j) { e = val<T>(x(i, j)); });
    grid ? eigensolver::internal::bt_band_to_tridiagonal<MC, D, T>(*grid, b.b, ref, hh) : eigensolver::internal::bt_band_to_tridiagonal<MC, D, T>(b.b, ref, hh);
  }
  each(c, [&](T& e, SizeType i, SizeType j) {
    const C want = C(val<T>(j < b.m ? b.c(i, j) : C(double(3 * i - j), 7)));
    R.ok(same(C(e), want), vf::cat("Q C at", i, j, "is", C(e).real(), C(e).imag(), "should be", want.real(), want.imag(), vrt::context));
  });
  each(hh, [&](T& e, SizeType i, SizeType j) { R.ok(same(C(e), C(val<T>(x(i, j)))), vf::cat("the reflectors were written at", i, j, vrt::context)); });
}

int main(int argc, char** argv) {
  if (argc < 4)
    return 3;
  const long seed = std::atol(argv[2]), schedules = std::atol(argv[3]);
  long runs = 0;
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    if (l.kind != "W" || R.mismatches > 20)
      return;
    const Behaviour b = parse(l);
    ++R.cases;
    for (long k = 0; k < schedules; ++k) {
      vrt::Options o;
      o.seed = std::uint64_t(seed * 1000003 + b.seed * 101 + k);
      o.ranks = int(b.P * b.Q);
      vrt::context = vf::cat("schedule", o.seed, b.text);
      ++runs;
      auto& tune = getTuneParameters();
      tune.bt_band_to_tridiag_hh_apply_group_size = b.hhg;
      tune.tfactor_num_threads = std::size_t(b.thr);
      // one worker is left to the rest of the program
      pika::vshim::state().threads = std::size_t(b.thr + (b.seed % 4 != 0));
      vrt::run(o, [&](int) {
        std::unique_ptr<comm::CommunicatorGrid> grid;
        if (b.dist)
          grid = std::make_unique<comm::CommunicatorGrid>(comm::Communicator(MPI_COMM_WORLD), int(b.P), int(b.Q), b.seed % 2 ? common::Ordering::RowMajor : common::Ordering::ColumnMajor);
        if (b.mode == 1)
          b.cplx ? tfactor<std::complex<double>>(b, grid.get()) : tfactor<double>(b, grid.get());
        else
          b.cplx ? backtransform<std::complex<double>>(b, grid.get()) : backtransform<double>(b, grid.get());
      });
    }
  });
  R.extra["runs"] = runs;
  R.extra["tasks"] = vrt::stats.tasks;
  R.extra["messages"] = vrt::stats.messages + vrt::stats.collectives;
  return R.done();
}
