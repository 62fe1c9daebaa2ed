// Replays the behaviours of ExactAlgebra.tla: every call of a behaviour is submitted to the library without waiting for
// the previous ones, on local matrices or on matrices distributed over a simulated process grid, under random schedules.
// Usage: alg <behaviours> <seed> <schedules per behaviour>
// CALLS (bit mask) selects the algorithms that are compiled in.
#include <complex>
#include <memory>

#include <dlaf/communication/communicator_grid.h>
#include <dlaf/matrix/distribution.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/util_matrix.h>

#include "common.h"
#if CALLS & 2
#include <dlaf/factorization/cholesky.h>
#endif
#if CALLS & 4
#include <dlaf/solver/triangular.h>
#endif
#if CALLS & 8
#include <dlaf/multiplication/triangular.h>
#endif
#if CALLS & 16
#include <dlaf/multiplication/general.h>
#endif
#if CALLS & 32
#include <dlaf/multiplication/hermitian.h>
#endif
#if CALLS & 64
#include <dlaf/inverse/triangular.h>
#endif
#if CALLS & 128
#include <dlaf/inverse/cholesky.h>
#endif
#if CALLS & 256
#include <dlaf/eigensolver/gen_to_std.h>
#endif

using namespace dlaf;
constexpr auto MC = Backend::MC;
constexpr auto D = Device::CPU;
using matrix::internal::MatrixRef;
using matrix::internal::SubMatrixSpec;
vf::Report R;

struct Scaled {
  int e = 0;
  std::vector<std::complex<double>> v;  // by rows
};
struct Behaviour {
  SizeType seed, n, m, nb, mb, kb, P, Q, sr, sc, dist, cplx;
  std::vector<std::vector<long long>> calls;
  Scaled init[7], last[7];
  SizeType rows(int x) const { return x >= 5 ? m : n; }
  SizeType cols(int x) const { return x == 3 || x == 4 ? m : n; }
  TileElementSize tile(int x) const { return {x >= 5 ? mb : nb, x == 3 || x == 4 ? mb : nb}; }
  std::string text;
};

Behaviour parse(const vf::Line& l) {
  Behaviour b;
  std::size_t k = 0;
  auto next = [&] { return l.v.at(k++); };
  for (SizeType* p : {&b.seed, &b.n, &b.m, &b.nb, &b.mb, &b.kb, &b.P, &b.Q, &b.sr, &b.sc, &b.dist, &b.cplx})
    *p = next();
  const long long nc = next();
  b.text = vf::cat("behaviour", b.seed, "n", b.n, "m", b.m, "tiles", b.nb, b.mb, "per block", b.kb, b.dist ? "grid" : "local", b.P, b.Q, "source", b.sr, b.sc, b.cplx ? "complex" : "real");
  static const char* names[] = {"", "cholesky", "trsm", "trmm", "gemm", "hemm", "trinv", "cholinv", "gen2std"};
  for (long long i = 0; i < nc; ++i) {
    b.calls.emplace_back();
    for (int j = 0; j < 19; ++j)
      b.calls.back().push_back(next());
    b.text += vf::cat(" |", names[b.calls.back()[0]]);
    for (int j = 1; j < 19; ++j)
      b.text += " " + std::to_string(b.calls.back()[std::size_t(j)]);
  }
  for (auto* file : {b.init, b.last})
    for (int x = 1; x <= 6; ++x) {
      file[x].e = int(next());
      for (SizeType i = 0; i < b.rows(x) * b.cols(x); ++i) {
        const double re = double(next()), im = double(next());
        file[x].v.emplace_back(std::ldexp(re, -file[x].e), std::ldexp(im, -file[x].e));
      }
    }
  if (k != l.v.size()) {
    std::fprintf(stderr, "bad behaviour: %zu of %zu\n", k, l.v.size());
    std::exit(3);
  }
  return b;
}

template <class T>
T val(double re, double im) {
  if constexpr (isComplex_v<T>)
    return T(BaseType<T>(re), BaseType<T>(im));
  else
    return T(re);
}

template <class T>
Matrix<T, D> make(const Behaviour& b, int x, comm::CommunicatorGrid* grid) {
  const TileElementSize ts = b.tile(x);
  if (!grid && b.kb > 1)
    return Matrix<T, D>(matrix::Distribution(GlobalElementSize(b.rows(x), b.cols(x)), GlobalElementSize(ts.rows() * b.kb, ts.cols() * b.kb), ts, comm::Size2D(1, 1), comm::Index2D(0, 0), comm::Index2D(0, 0)));
  if (!grid)
    return Matrix<T, D>(matrix::Distribution(LocalElementSize(b.rows(x), b.cols(x)), ts));
  return Matrix<T, D>(matrix::Distribution(GlobalElementSize(b.rows(x), b.cols(x)), GlobalElementSize(ts.rows() * b.kb, ts.cols() * b.kb), ts, grid->size(), grid->rank(), comm::Index2D(int(b.sr), int(b.sc))));
}

template <class T>
void fill(Matrix<T, D>& a, const Scaled& s) {
  const auto& d = a.distribution();
  for (auto ij : common::iterate_range2d(d.local_nr_tiles())) {
    auto t = pika::this_thread::experimental::sync_wait(a.readwrite(ij));
    for (SizeType j = 0; j < t.size().cols(); ++j)
      for (SizeType i = 0; i < t.size().rows(); ++i) {
        const auto g = d.global_element_index(d.global_tile_index(ij), {i, j});
        const auto& z = s.v[std::size_t(g.row() * a.size().cols() + g.col())];
        t({i, j}) = val<T>(z.real(), z.imag());
      }
  }
}

template <class T>
void compare(Matrix<T, D>& a, const Scaled& s, int x, const std::string& ctx) {
  const auto& d = a.distribution();
  for (auto ij : common::iterate_range2d(d.local_nr_tiles())) {
    auto w = pika::this_thread::experimental::sync_wait(a.read(ij));
    const auto& t = w.get();
    for (SizeType j = 0; j < t.size().cols(); ++j)
      for (SizeType i = 0; i < t.size().rows(); ++i) {
        const auto g = d.global_element_index(d.global_tile_index(ij), {i, j});
        const auto& z = s.v[std::size_t(g.row() * a.size().cols() + g.col())];
        ++R.comparisons;
        if (!(t({i, j}) == val<T>(z.real(), z.imag()))) {
          std::ostringstream os;
          os.precision(17);
          os << "entry (" << g.row() << ", " << g.col() << ") of register " << x << " is " << t({i, j}) << " and should be " << z << " : " << ctx;
          R.ok(false, os.str());
          return;
        }
      }
  }
}

template <class T>
void run(const Behaviour& b, comm::CommunicatorGrid* grid, const std::string& ctx) {
  std::vector<Matrix<T, D>> reg;
  for (int x = 0; x <= 6; ++x)
    reg.push_back(make<T>(b, std::max(1, x), grid));
  for (int x = 1; x <= 6; ++x)
    fill(reg[std::size_t(x)], b.init[x]);
  for (const auto& c : b.calls) {
    auto& X = reg[std::size_t(c[1])];
    auto& Y = reg[std::size_t(c[2])];
    auto& Z = reg[std::size_t(c[3])];
    const auto side = c[4] ? blas::Side::Right : blas::Side::Left;
    const auto uplo = c[5] ? blas::Uplo::Upper : blas::Uplo::Lower;
    const auto op = c[6] == 0 ? blas::Op::NoTrans : c[6] == 1 ? blas::Op::Trans : blas::Op::ConjTrans;
    const auto diag = c[7] ? blas::Diag::Unit : blas::Diag::NonUnit;
    const T alpha = val<T>(double(c[8]), double(c[9])), beta = val<T>(double(c[10]), double(c[11]));
    const long long* s = c.data() + 12;
    switch (c[0]) {
#if CALLS & 2
      case 1:
        grid ? cholesky_factorization<MC, D, T>(*grid, uplo, X) : cholesky_factorization<MC, D, T>(uplo, X);
        break;
#endif
#if CALLS & 4
      case 2: {
        const SizeType o = s[0], w = s[1];
        if (o == 0 && w == (c[4] ? Y.size().rows() : Y.size().cols())) {
          grid ? triangular_solver<MC, D, T>(*grid, side, uplo, op, diag, alpha, X, Y) : triangular_solver<MC, D, T>(side, uplo, op, diag, alpha, X, Y);
        }
        else {
          const SubMatrixSpec spec = c[4] ? SubMatrixSpec{{o, 0}, {w, b.n}} : SubMatrixSpec{{0, o}, {b.n, w}};
          MatrixRef<T, D> ref(Y, spec);
          grid ? solver::internal::triangular_solver<MC, D, T>(*grid, side, uplo, op, diag, alpha, X, ref) : solver::internal::triangular_solver<MC, D, T>(side, uplo, op, diag, alpha, X, ref);
        }
        break;
      }
#endif
#if CALLS & 8
      case 3:
        grid ? triangular_multiplication<MC, D, T>(*grid, side, uplo, op, diag, alpha, X, Y) : triangular_multiplication<MC, D, T>(side, uplo, op, diag, alpha, X, Y);
        break;
#endif
#if CALLS & 16
      case 4: {
        MatrixRef<const T, D> ra(X, SubMatrixSpec{{s[0], s[2]}, {s[4], s[5]}}), rb(Y, SubMatrixSpec{{s[3], s[1]}, {s[5], s[6]}});
        MatrixRef<T, D> rc(Z, SubMatrixSpec{{s[0], s[1]}, {s[4], s[6]}});
        if (grid) {
          auto row = grid->row_communicator_pipeline();
          auto col = grid->col_communicator_pipeline();
          multiplication::internal::generalMatrix<MC, D, T>(row, col, alpha, ra, rb, beta, rc);
        }
        else
          multiplication::internal::generalMatrix<MC, D, T>(blas::Op::NoTrans, blas::Op::NoTrans, alpha, ra, rb, beta, rc);
        break;
      }
#endif
#if CALLS & 32
      case 5:
        grid ? hermitian_multiplication<MC, D, T>(*grid, side, uplo, alpha, X, Y, beta, Z) : hermitian_multiplication<MC, D, T>(side, uplo, alpha, X, Y, beta, Z);
        break;
#endif
#if CALLS & 64
      case 6:
        grid ? triangular_inverse<MC, D, T>(*grid, uplo, diag, X) : triangular_inverse<MC, D, T>(uplo, diag, X);
        break;
#endif
#if CALLS & 128
      case 7:
        grid ? inverse_from_cholesky_factor<MC, D, T>(*grid, uplo, X) : inverse_from_cholesky_factor<MC, D, T>(uplo, X);
        break;
#endif
#if CALLS & 256
      case 8:
        grid ? eigensolver::internal::generalized_to_standard<MC, D, T>(*grid, uplo, X, Y) : eigensolver::internal::generalized_to_standard<MC, D, T>(uplo, X, Y);
        break;
#endif
      default:
        std::fprintf(stderr, "call %lld is not compiled in\n", c[0]);
        std::exit(3);
    }
  }
  for (int x = 1; x <= 6; ++x)
    compare(reg[std::size_t(x)], b.last[x], x, ctx);
}

int main(int argc, char** argv) {
  if (argc < 4)
    return 3;
  const long seed = std::atol(argv[2]), schedules = std::atol(argv[3]);
  long runs = 0;
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    if (l.kind != "E" || R.mismatches > 20)
      return;
    const Behaviour b = parse(l);
    ++R.cases;
    for (long k = 0; k < schedules; ++k) {
      vrt::Options o;
      o.seed = std::uint64_t(seed * 1000003 + b.seed * 101 + k);
      o.ranks = int(b.P * b.Q);
      vrt::context = vf::cat("schedule", o.seed, b.text);
      ++runs;
      vrt::run(o, [&](int) {
        std::unique_ptr<comm::CommunicatorGrid> grid;
        if (b.dist)
          grid = std::make_unique<comm::CommunicatorGrid>(comm::Communicator(MPI_COMM_WORLD), int(b.P), int(b.Q), b.seed % 2 ? common::Ordering::RowMajor : common::Ordering::ColumnMajor);
        b.cplx ? run<std::complex<double>>(b, grid.get(), vrt::context) : run<double>(b, grid.get(), vrt::context);
      });
    }
  });
  R.extra["runs"] = runs;
  R.extra["tasks"] = vrt::stats.tasks;
  R.extra["messages"] = vrt::stats.messages + vrt::stats.collectives;
  return R.done();
}
