// Replays the behaviours of DataMovement.tla (copies, redistributions, permutations, setters, max norms) on local matrices
// or on matrices distributed over a simulated process grid, under random schedules, all calls submitted without waiting.
// Usage: move <behaviours> <seed> <schedules per behaviour>
// PERMS compiles the permutations (element types float and double), otherwise the rest (double and complex).
#include <complex>
#include <memory>
#include <optional>

#include <dlaf/communication/communicator_grid.h>
#include <dlaf/matrix/copy.h>
#include <dlaf/matrix/distribution.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/util_matrix.h>
#if PERMS
#include <dlaf/permutations/general.h>
#else
#include <dlaf/auxiliary/norm.h>
#include <dlaf/auxiliary/norm/mc.h>
#endif

#include "common.h"

using namespace dlaf;
constexpr auto D = Device::CPU;
using matrix::internal::MatrixRef;
using matrix::internal::SubMatrixSpec;
namespace tt = pika::this_thread::experimental;
vf::Report R;

struct Behaviour {
  SizeType seed, n, m, e1, e2, tr, tc, t3r, t3c, P, Q, sr, sc, s3r, s3c, dist, cplx;
  std::vector<std::vector<long long>> calls;  // code, arguments
  std::vector<std::pair<double, double>> init[5], last[5];
  int rnd[5];
  SizeType rows(int x) const { return x == 4 ? n + e1 : n; }
  SizeType cols(int x) const { return x == 4 ? m + e2 : m; }
  TileElementSize tile(int x) const { return x == 3 ? TileElementSize(t3r, t3c) : TileElementSize(tr, tc); }
  std::string text;
};

Behaviour parse(const vf::Line& l) {
  Behaviour b;
  std::size_t k = 0;
  auto next = [&] { return l.v.at(k++); };
  for (SizeType* p : {&b.seed, &b.n, &b.m, &b.e1, &b.e2, &b.tr, &b.tc, &b.t3r, &b.t3c, &b.P, &b.Q, &b.sr, &b.sc, &b.s3r, &b.s3c, &b.dist, &b.cplx})
    *p = next();
  b.text = vf::cat("behaviour", b.seed, "size", b.n, b.m, "+", b.e1, b.e2, "tiles", b.tr, b.tc, "other tiles", b.t3r, b.t3c, b.dist ? "grid" : "local", b.P, b.Q, "sources", b.sr, b.sc, b.s3r, b.s3c, b.cplx ? "complex" : "real");
  const long long nc = next();
  for (long long i = 0; i < nc; ++i) {
    std::vector<long long> c{next()};
    const long long len = next();
    for (long long j = 0; j < len; ++j)
      c.push_back(next());
    b.text += " |";
    for (auto x : c)
      b.text += " " + std::to_string(x);
    b.calls.push_back(c);
  }
  auto read = [&](auto* file) {
    for (int x = 1; x <= 4; ++x)
      for (SizeType i = 0; i < b.rows(x) * b.cols(x); ++i) {
        const double re = double(next());
        file[x].emplace_back(re, double(next()));
      }
  };
  read(b.init);
  for (int x = 1; x <= 4; ++x)
    b.rnd[x] = int(next());
  read(b.last);
  if (k != l.v.size()) {
    std::fprintf(stderr, "bad behaviour: %zu of %zu\n", k, l.v.size());
    std::exit(3);
  }
  return b;
}

template <class T>
T val(double re, double im) {
  if constexpr (isComplex_v<T>)
    return T(BaseType<T>(re), BaseType<T>(im));
  else
    return T(re);
}

matrix::Distribution distr(const Behaviour& b, int x, comm::CommunicatorGrid* grid) {
  if (!grid)
    return matrix::Distribution(LocalElementSize(b.rows(x), b.cols(x)), b.tile(x));
  return matrix::Distribution(GlobalElementSize(b.rows(x), b.cols(x)), b.tile(x), grid->size(), grid->rank(), x == 3 ? comm::Index2D(int(b.s3r), int(b.s3c)) : comm::Index2D(int(b.sr), int(b.sc)));
}

// calls f(tile element reference, global index) for all local elements, stops when it returns false
template <class T, class F>
void each(Matrix<T, D>& a, F f) {
  const auto& d = a.distribution();
  for (auto ij : common::iterate_range2d(d.local_nr_tiles())) {
    auto t = tt::sync_wait(a.readwrite(ij));
    for (SizeType j = 0; j < t.size().cols(); ++j)
      for (SizeType i = 0; i < t.size().rows(); ++i)
        if (!f(t({i, j}), d.global_element_index(d.global_tile_index(ij), {i, j})))
          return;
  }
}

template <class T>
bool same(const T& a, const T& b, const char* what, int x, const GlobalElementIndex& g, const std::string& ctx) {
  ++R.comparisons;
  if (a == b)
    return true;
  std::ostringstream os;
  os.precision(17);
  os << what << " entry (" << g.row() << ", " << g.col() << ") of register " << x << " is " << a << " and should be " << b << " : " << ctx;
  R.ok(false, os.str());
  return false;
}

#if !PERMS
template <class T>
void set_random(Matrix<T, D>& a, int kind, SizeType band) {
  namespace u = matrix::util;
  switch (kind) {
    case 0:
      return u::set_random(a);
    case 1:
      return u::set_random_hermitian(a);
    case 2:
      return u::set_random_hermitian_banded(a, band);
    case 3:
      return u::set_random_hermitian_positive_definite(a);
    default:
      return u::set_random_non_zero_diagonal(a);
  }
}

// the values a setter gives do not depend on the distribution, and have the shape the setter promises
template <class T>
void compare_random(const Behaviour& b, Matrix<T, D>& a, int x, int kind, SizeType band, const std::string& ctx) {
  const SizeType rows = b.rows(x), cols = b.cols(x);
  Matrix<T, D> local(matrix::Distribution(LocalElementSize(rows, cols), b.tile(x)));
  set_random(local, kind, band);
  std::vector<T> v(std::size_t(rows * cols));
  each(local, [&](T& e, const GlobalElementIndex& g) {
    v[std::size_t(g.row() * cols + g.col())] = e;
    return true;
  });
  each(a, [&](T& e, const GlobalElementIndex& g) { return same(e, v[std::size_t(g.row() * cols + g.col())], "random", x, g, ctx); });
  std::map<double, int> seen;
  for (SizeType i = 0; i < rows; ++i)
    for (SizeType j = 0; j < cols; ++j) {
      const T e = v[std::size_t(i * cols + j)];
      const double bound = kind == 3 && i == j ? 2.0 * double(rows) + 1 : 1.0;
      const auto pos = vf::cat("random kind", kind, "band", band, "entry", i, j, ctx);
      R.ok(std::abs(e) <= bound + 1e-12, vf::cat("too large:", pos));
      if (kind >= 1 && kind <= 3) {
        R.ok(e == dlaf::conj(v[std::size_t(j * cols + i)]), vf::cat("not Hermitian:", pos));
        if (kind == 3 && i == j)
          R.ok(std::real(e) >= 2.0 * double(rows) - 1, vf::cat("small diagonal:", pos));
        if (kind == 2 && std::abs(i - j) > band)
          R.ok(e == T(0), vf::cat("outside of the band:", pos));
      }
      if (kind == 4 && i == j)
        R.ok(std::abs(e) >= 0.1 - 1e-12, vf::cat("diagonal close to zero:", pos));
      // random: two entries of different tiles (or two independent ones of a tile) do not repeat; zero is not produced
      if (kind != 2 || std::abs(i - j) <= band) {
        R.ok(e != T(0), vf::cat("zero:", pos));
        if (kind == 0 || i >= j)
          if (double re = std::real(e); std::abs(std::abs(e) - 0.1) > 1e-9)
            R.ok(++seen[re] == 1, vf::cat("repeated value:", pos));
      }
    }
}
#endif

template <class T>
void run(const Behaviour& b, comm::CommunicatorGrid* grid, const std::string& ctx) {
  std::vector<Matrix<T, D>> reg;
  for (int x = 0; x <= 4; ++x)
    reg.emplace_back(distr(b, std::max(1, x), grid));
  for (int x = 1; x <= 4; ++x)
    each(reg[std::size_t(x)], [&](T& e, const GlobalElementIndex& g) {
      const auto& z = b.init[x][std::size_t(g.row() * b.cols(x) + g.col())];
      e = val<T>(z.first, z.second);
      return true;
    });
  struct Norm {
    pika::execution::experimental::unique_any_sender<BaseType<T>> s;
    bool root;
    double value;
  };
  std::vector<Norm> norms;
  for (const auto& c : b.calls) {
    auto& X = reg[std::size_t(c[1])];
    auto& Y = reg[std::size_t(c.size() > 2 && c[2] >= 0 && c[2] <= 4 ? c[2] : 0)];
    (void) Y;
    switch (c[0]) {
#if PERMS
      case 14:
      case 16: {
        const bool col = c[3];
        const SizeType ib = c[4], ie = c[5];
        std::size_t k = 6;
        SizeType len = b.n;
        if (c[0] == 16) {
          const int me = grid ? grid->rank().row() * int(b.Q) + grid->rank().col() : 0;
          for (int w = 0; w < me; ++w)
            k += 1 + std::size_t(c.at(k));
          len = c.at(k++);
        }
        Matrix<SizeType, D> perms(matrix::Distribution(LocalElementSize(len, 1), TileElementSize(b.tr, 1)));
        each(perms, [&](SizeType& e, const GlobalElementIndex& g) {
          e = c.at(k + std::size_t(g.row()));
          return true;
        });
        constexpr auto MC = Backend::MC;
        if (c[0] == 14 && grid)
          col ? permutations::permute<MC, D, T, Coord::Col>(*grid, ib, ie, perms, X, Y) : permutations::permute<MC, D, T, Coord::Row>(*grid, ib, ie, perms, X, Y);
        else
          col ? permutations::permute<MC, D, T, Coord::Col>(ib, ie, perms, X, Y) : permutations::permute<MC, D, T, Coord::Row>(ib, ie, perms, X, Y);
        break;
      }
#else
      case 10:
        matrix::copy(X, Y);
        break;
      case 11: {
        const LocalTileIndex from{c[3], c[4]}, to{c[5], c[6]};
        const LocalTileSize sz{c[7], c[8]};
        if (from == to && b.seed % 2)
          matrix::copy(from, sz, X, Y);
        else
          matrix::copy(sz, from, X, to, Y);
        break;
      }
      case 12: {
        MatrixRef<const T, D> src(X, SubMatrixSpec{{c[3], c[4]}, {c[7], c[8]}});
        MatrixRef<T, D> dst(Y, SubMatrixSpec{{c[5], c[6]}, {c[7], c[8]}});
        matrix::internal::copy(src, dst);
        break;
      }
      case 13:
        matrix::copy(X, Y, *grid);
        break;
      case 17: {
        const long long op = c[2], a = c[3];
        auto f = [a](const GlobalElementIndex& g) {
          const double v = double(a + 7 * g.row() - 3 * g.col());
          return isComplex_v<T> && (g.row() + g.col()) % 2 ? val<T>(0, v) : val<T>(v, 0);
        };
        if (op == 0 && b.seed % 2)
          matrix::util::set(X, f);
        else
          matrix::util::set(X, f, op == 0 ? blas::Op::NoTrans : op == 1 ? blas::Op::Trans : blas::Op::ConjTrans);
        break;
      }
      case 18: {
        const auto nt = X.distribution().local_nr_tiles();
        const LocalTileIndex at{std::min<SizeType>(c[2], nt.rows()), std::min<SizeType>(c[3], nt.cols())};
        const LocalTileSize sz{std::min<SizeType>(c[4], nt.rows() - at.row()), std::min<SizeType>(c[5], nt.cols() - at.col())};
        if (at == LocalTileIndex(0, 0) && sz == nt)
          matrix::util::set0<Backend::MC>(pika::execution::thread_priority::normal, X);
        else
          matrix::util::set0<Backend::MC>(pika::execution::thread_priority::high, at, sz, X);
        break;
      }
      case 19:
        matrix::util::set_identity(X);
        break;
      case 20: {
        const comm::Index2D root{int(c[3]), int(c[4])};
        norms.push_back({pika::execution::experimental::ensure_started(auxiliary::max_norm<Backend::MC, D, T>(*grid, root, c[2] ? blas::Uplo::Lower : blas::Uplo::General, X)), grid->rank() == root, double(c[5])});
        break;
      }
      case 21:
        set_random(X, int(c[2]), SizeType(c[3]));
        break;
#endif
      default:
        std::fprintf(stderr, "call %lld is not compiled in\n", c[0]);
        std::exit(3);
    }
  }
  for (auto& s : norms) {
    const double v = double(tt::sync_wait(std::move(s.s)));
    if (s.root)
      R.ok(v == s.value, vf::cat("norm is", v, "and should be", s.value, ctx));
  }
  for (int x = 1; x <= 4; ++x) {
    if (b.rnd[x] == 0) {
      each(reg[std::size_t(x)], [&](T& e, const GlobalElementIndex& g) {
        const auto& z = b.last[x][std::size_t(g.row() * b.cols(x) + g.col())];
        return same(e, val<T>(z.first, z.second), "", x, g, ctx);
      });
      continue;
    }
#if !PERMS
    for (const auto& c : b.calls)
      if (c[0] == 21 && c[1] == x)
        compare_random(b, reg[std::size_t(x)], x, int(c[2]), SizeType(c[3]), ctx);
#endif
  }
}

int main(int argc, char** argv) {
  if (argc < 4)
    return 3;
  const long seed = std::atol(argv[2]), schedules = std::atol(argv[3]);
  long runs = 0;
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    if (l.kind != "M" || R.mismatches > 20)
      return;
    const Behaviour b = parse(l);
    ++R.cases;
    for (long k = 0; k < schedules; ++k) {
      vrt::Options o;
      o.seed = std::uint64_t(seed * 1000003 + b.seed * 101 + k);
      o.ranks = int(b.P * b.Q);
      vrt::context = vf::cat("schedule", o.seed, b.text);
      ++runs;
      vrt::run(o, [&](int) {
        std::unique_ptr<comm::CommunicatorGrid> grid;
        if (b.dist)
          grid = std::make_unique<comm::CommunicatorGrid>(comm::Communicator(MPI_COMM_WORLD), int(b.P), int(b.Q), b.seed % 2 ? common::Ordering::RowMajor : common::Ordering::ColumnMajor);
#if PERMS
        (b.seed + k) % 2 ? run<float>(b, grid.get(), vrt::context) : run<double>(b, grid.get(), vrt::context);
#else
        b.cplx ? run<std::complex<double>>(b, grid.get(), vrt::context) : run<double>(b, grid.get(), vrt::context);
#endif
      });
    }
  });
  R.extra["runs"] = runs;
  R.extra["tasks"] = vrt::stats.tasks;
  R.extra["messages"] = vrt::stats.messages + vrt::stats.collectives;
  return R.done();
}
