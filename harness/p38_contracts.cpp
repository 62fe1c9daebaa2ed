// Replays the calls of CallContracts.tla, each in a process of its own: a call that fits has to complete, any other has to
// be refused (the program is stopped) on the process that makes it before anything was scheduled or done.
// Usage: contracts <calls> <seed> <part> <parts>
#include <memory>

#include <dlaf/auxiliary/norm.h>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/eigensolver/band_to_tridiag.h>
#include <dlaf/eigensolver/bt_band_to_tridiag.h>
#include <dlaf/eigensolver/bt_reduction_to_band.h>
#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/eigensolver/gen_eigensolver.h>
#include <dlaf/eigensolver/gen_to_std.h>
#include <dlaf/eigensolver/reduction_to_band.h>
#include <dlaf/eigensolver/tridiag_solver.h>
#include <dlaf/factorization/cholesky.h>
#include <dlaf/inverse/cholesky.h>
#include <dlaf/inverse/triangular.h>
#include <dlaf/matrix/distribution.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/multiplication/hermitian.h>
#include <dlaf/multiplication/triangular.h>
#include <dlaf/permutations/general.h>
#include <dlaf/solver/triangular.h>
#include <dlaf/tune.h>

#include "common.h"

using namespace dlaf;
constexpr auto MC = Backend::MC;
constexpr auto D = Device::CPU;
using T = double;
using namespace eigensolver::internal;
using matrix::internal::MatrixRef;
namespace tt = pika::this_thread::experimental;
vf::Report R;

enum { Chol = 1, Trsm, Trmm, Hemm, TrInv, ChInv, G2S, Heev, HeevR, Hegv, HegvR, Hegvf, HegvfR, R2B, B2T, Tridiag, BtB2T, BtR2B, Perm, MaxNorm };
const char* names[] = {"", "cholesky_factorization", "triangular_solver", "triangular_multiplication", "hermitian_multiplication", "triangular_inverse", "inverse_from_cholesky_factor", "generalized_to_standard", "hermitian_eigensolver", "hermitian_eigensolver (results returned)", "hermitian_generalized_eigensolver", "hermitian_generalized_eigensolver (results returned)", "hermitian_generalized_eigensolver_factorized", "hermitian_generalized_eigensolver_factorized (results returned)", "reduction_to_band", "band_to_tridiagonal", "tridiagonal_eigensolver", "bt_band_to_tridiagonal", "bt_reduction_to_band", "permute", "max_norm"};

struct Shape {
  SizeType m, n, tr, tc, kr, kc, g;
};
struct Call {
  SizeType f, dist, P, Q, rank, side, op, uplo, begin, end, band, fits;
  std::vector<Shape> mats;
  std::string text;
};
Call parse(const vf::Line& l) {
  Call c;
  std::size_t k = 0;
  auto next = [&] { return SizeType(l.v.at(k++)); };
  for (SizeType* p : {&c.f, &c.dist, &c.P, &c.Q, &c.rank, &c.side, &c.op, &c.uplo, &c.begin, &c.end, &c.band, &c.fits})
    *p = next();
  c.mats.resize(std::size_t(next()));
  c.text = vf::cat(names[c.f], c.dist ? "on grid" : "local", c.P, c.Q, "process", c.rank, "side", c.side, "op", c.op, "uplo", c.uplo, "range", c.begin, c.end, "band", c.band, ": matrices (size, tile, tiles per block, place)");
  for (auto& s : c.mats) {
    for (SizeType* p : {&s.m, &s.n, &s.tr, &s.tc, &s.kr, &s.kc, &s.g})
      *p = next();
    c.text += vf::cat("[", s.m, s.n, s.tr, s.tc, s.kr, s.kc, s.g, "]");
  }
  return c;
}

constexpr int REFUSED = 42, LATE = 43, OUTSIDE = 44;
bool in_call = false;
long tasks_before = 0, pending_before = 0;
[[noreturn]] void refused() {
  if (!in_call)
    _exit(OUTSIDE);
  _exit(vrt::stats.tasks == tasks_before && vrt::pending_tasks(vrt::rank()) == pending_before ? REFUSED : LATE);
}

// what process `rank` of the program does
void process(const Call& c, int rank) {
  comm::Communicator world(MPI_COMM_WORLD);
  std::unique_ptr<comm::CommunicatorGrid> grid;
  if (c.dist)
    grid = std::make_unique<comm::CommunicatorGrid>(world, comm::IndexT_MPI(c.P), comm::IndexT_MPI(c.Q), common::Ordering::RowMajor);
  comm::Index2D me(comm::IndexT_MPI(0), comm::IndexT_MPI(0));
  comm::Size2D size(comm::IndexT_MPI(1), comm::IndexT_MPI(1));
  if (grid) {
    me = grid->rank();
    size = grid->size();
  }
  auto distribution = [&](std::size_t i) {
    const Shape& s = c.mats[i - 1];
    comm::Size2D sz(comm::IndexT_MPI(1), comm::IndexT_MPI(1));
    comm::Index2D at(comm::IndexT_MPI(0), comm::IndexT_MPI(0));
    if (s.g > 0) {
      sz = size;
      at = me;
    }
    if (s.g == 2)
      sz = comm::Size2D(size.rows() + 1, size.cols());
    if (s.g == 3) {
      const int other = (int(me.row()) * size.cols() + me.col() + 1) % (size.rows() * size.cols());
      at = comm::Index2D(other / size.cols(), other % size.cols());
    }
    if (c.f == BtR2B && i == 3 && c.dist) {  // scaling factors are distributed like the columns
      sz = comm::Size2D(size.cols(), 1);
      at = comm::Index2D(me.col(), 0);
    }
    const comm::Index2D src(comm::IndexT_MPI(0), comm::IndexT_MPI(0));
    return matrix::Distribution(GlobalElementSize(s.m, s.n), GlobalElementSize(s.tr * s.kr, s.tc * s.kc), TileElementSize(s.tr, s.tc), sz, at, src);
  };
  auto filled = [&](auto zero, std::size_t i, auto f) {
    Matrix<decltype(zero), D> m(distribution(i));
    const auto& d = m.distribution();
    for (const auto& ij : common::iterate_range2d(d.local_nr_tiles())) {
      const auto t = tt::sync_wait(m.readwrite(ij));
      const auto at = d.global_tile_index(ij);
      for (const auto& e : common::iterate_range2d(t.size())) {
        const auto g = d.global_element_index(at, e);
        t(e) = f(g.row(), g.col());
      }
    }
    return m;
  };
  auto mat = [&](std::size_t i) {
    return filled(T(0), i, [](SizeType r, SizeType col) { return r == col ? T(r + 1) : T(0); });
  };
  auto zeros = [&](std::size_t i) { return filled(T(0), i, [](SizeType, SizeType) { return T(0); }); };
  auto call = [&](auto&& f) {
    vrt::wait_idle();
    tasks_before = vrt::stats.tasks;
    pending_before = vrt::pending_tasks(rank);
    in_call = true;
    f();
    vrt::wait_idle();
    in_call = false;
  };
  // processes which do not make the call
  if (!c.fits && grid && c.rank != SizeType(me.row()) * c.Q + me.col())
    return;

  const auto L = blas::Uplo::Lower, uplo = c.uplo ? blas::Uplo::Upper : L;
  const auto side = c.side ? blas::Side::Right : blas::Side::Left;
  const auto op = c.op == 0 ? blas::Op::NoTrans : c.op == 1 ? blas::Op::Trans : blas::Op::ConjTrans;
  const auto diag = blas::Diag::NonUnit;
  const SizeType ib = c.begin, ie = c.end;
  auto& G = *grid;
#define BOTH(f, ...) call([&] { grid ? void(f(G, __VA_ARGS__)) : void(f(__VA_ARGS__)); })
  if (c.f == Hegv || c.f == Hegvf) {
    auto a = mat(1), b = mat(2), w = zeros(3), v = zeros(4);
    if (c.f == Hegv)
      BOTH((hermitian_generalized_eigensolver<MC, D, T>), L, a, b, w, v, ib, ie);
    else
      BOTH((hermitian_generalized_eigensolver_factorized<MC, D, T>), L, a, b, w, v, ib, ie);
    return;
  }
  if (c.mats.size() == 3) {
    if (c.f == Hemm) {
      auto a = mat(1), b = mat(2), x = mat(3);
      BOTH((hermitian_multiplication<MC, D, T>), blas::Side::Left, L, T(1), a, b, T(1), x);
    }
    else if (c.f == Heev) {
      auto a = mat(1), w = zeros(2), v = zeros(3);
      BOTH((hermitian_eigensolver<MC, D, T>), L, a, w, v, ib, ie);
    }
    else if (c.f == Tridiag) {
      auto t = filled(T(0), 1, [](SizeType i, SizeType j) { return j == 0 ? T(i + 1) : T(0); });
      auto w = zeros(2), v = zeros(3);
      BOTH((tridiagonal_eigensolver<MC, D, T>), t, w, v);
    }
    else if (c.f == BtR2B) {
      auto x = mat(1), v = mat(2), taus = zeros(3);
      MatrixRef<T, D> r(x);
      BOTH((bt_reduction_to_band<MC, D, T>), c.band, r, v, taus);
    }
    else {
      const SizeType first = std::max<SizeType>(0, ib * c.mats[1].tr);
      auto p = filled(SizeType(0), 1, [&](SizeType i, SizeType) { return std::max<SizeType>(0, i - first); });
      auto x = mat(2), y = mat(3);
      if (c.P % 2)
        BOTH((permutations::permute<MC, D, T, Coord::Col>), ib, ie, p, x, y);
      else
        BOTH((permutations::permute<MC, D, T, Coord::Row>), ib, ie, p, x, y);
    }
    return;
  }
  auto a = mat(1);
  if (c.mats.size() == 2) {
    auto b = mat(2);
    switch (c.f) {
      case Trsm:
        return BOTH((triangular_solver<MC, D, T>), side, uplo, op, diag, T(1), a, b);
      case Trmm:
        return BOTH((triangular_multiplication<MC, D, T>), side, uplo, op, diag, T(1), a, b);
      case G2S:
        return BOTH((generalized_to_standard<MC, D, T>), uplo, a, b);
      case HegvR:
        return BOTH((hermitian_generalized_eigensolver<MC, D, T>), L, a, b, ib, ie);
      case HegvfR:
        return BOTH((hermitian_generalized_eigensolver_factorized<MC, D, T>), L, a, b, ib, ie);
      case BtB2T: {
        auto hh = zeros(1);
        MatrixRef<T, D> r(b);
        return BOTH((bt_band_to_tridiagonal<MC, D, T>), c.band, r, hh);
      }
    }
  }
  switch (c.f) {
    case Chol:
      return BOTH((cholesky_factorization<MC, D, T>), uplo, a);
    case TrInv:
      return BOTH((triangular_inverse<MC, D, T>), uplo, diag, a);
    case ChInv:
      return BOTH((inverse_from_cholesky_factor<MC, D, T>), uplo, a);
    case HeevR:
      return BOTH((hermitian_eigensolver<MC, D, T>), L, a, ib, ie);
    case R2B:
      return BOTH((reduction_to_band<MC, D, T>), a, c.band);
    case B2T:
      return call([&] { grid ? void(band_to_tridiagonal<MC, D, T>(G, L, c.band, a)) : void(band_to_tridiagonal<MC, D, T>(L, c.band, a)); });
    case MaxNorm:
      return call([&] { tt::sync_wait(auxiliary::max_norm<MC, D, T>(G, comm::Index2D(0, 0), c.uplo ? blas::Uplo::General : L, a)); });
  }
  _exit(3);
}

int main(int argc, char** argv) {
  const unsigned long seed = std::strtoul(argv[2], nullptr, 10);
  const long part = std::atol(argv[3]), parts = std::atol(argv[4]);
  long no = 0, fit = 0;
  getTuneParameters().eigensolver_min_band = 2;
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    ++no;
    if (no % parts != part)
      return;
    const Call c = parse(l);
    ++R.cases;
    fit += c.fits;
    std::fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0) {
      if (!std::getenv("VERBOSE"))
        std::freopen("/dev/null", "w", stderr), std::freopen("/dev/null", "w", stdout);
      std::set_terminate(refused);
      vrt::Options o;
      o.seed = seed * 7919 + (unsigned long)no;
      o.ranks = c.dist ? int(c.P * c.Q) : 1;
      vrt::context = c.text;
      vrt::run(o, [&](int rank) { process(c, rank); });
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    const int got = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    R.ok(got == (c.fits ? 0 : REFUSED), vf::cat(c.fits ? "a call that fits" : "a call that does not fit", got == 0 ? "was carried out" : got == REFUSED ? "was refused" : got == LATE ? "was refused after work had begun" : got == OUTSIDE ? "could not be set up" : "ended with code " + std::to_string(got), ": line", no, c.text));
  });
  R.extra["fitting"] = fit;
  return R.done();
}
