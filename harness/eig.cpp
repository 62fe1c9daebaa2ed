// Replays the behaviours of EigenProblems.tla into the eigensolver and its stages, on local matrices or on matrices
// distributed over a simulated process grid, under random schedules.
// Usage: eig <behaviours> <seed> <schedules per behaviour>
#include <cmath>
#include <complex>
#include <limits>
#include <memory>

#include <dlaf/communication/communicator_grid.h>
#include <dlaf/eigensolver/band_to_tridiag.h>
#include <dlaf/eigensolver/bt_band_to_tridiag.h>
#include <dlaf/eigensolver/bt_reduction_to_band.h>
#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/eigensolver/gen_eigensolver.h>
#include <dlaf/eigensolver/internal/get_band_size.h>
#include <dlaf/eigensolver/reduction_to_band.h>
#include <dlaf/eigensolver/tridiag_solver.h>
#include <dlaf/matrix/distribution.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/tune.h>
#include <dlaf/util_matrix.h>

#include "common.h"
#include "full.h"

using namespace dlaf;
constexpr auto MC = Backend::MC;
constexpr auto D = Device::CPU;
using namespace eigensolver::internal;
using matrix::internal::MatrixRef;
vf::Report R;

struct Behaviour {
  SizeType seed, mode, n, nb, dist, P, Q, sr, sc, cplx, var, ke, m, mb, minb, hhg, b1d, thr, e, nops;
  std::vector<double> lam, d, off;
  Full a, u, l;
  std::string text;
};
Behaviour parse(const vf::Line& l) {
  Behaviour b;
  std::size_t k = 0;
  auto next = [&] { return l.v.at(k++); };
  for (SizeType* p : {&b.seed, &b.mode, &b.n, &b.nb, &b.dist, &b.P, &b.Q, &b.sr, &b.sc, &b.cplx, &b.var, &b.ke, &b.m, &b.mb, &b.minb, &b.hhg, &b.b1d, &b.thr, &b.e, &b.nops})
    *p = next();
  for (auto* v : {&b.lam, &b.d, &b.off}) {
    const long long s = next();
    for (long long i = 0; i < s; ++i)
      v->push_back(double(next()));
  }
  for (auto& x : b.off)
    x = x <= -2000 ? std::sqrt(-x - 2000) : x == 1000 ? std::ldexp(1., -40) : x;
  auto some = [&](SizeType count, SizeType e) {
    std::vector<C> v;
    for (SizeType i = 0; i < count; ++i) {
      const double re = double(next()), im = double(next());
      v.emplace_back(std::ldexp(re, -int(e)), std::ldexp(im, -int(e)));
    }
    return v;
  };
  if (b.mode != 5) {
    b.a = lower(some(b.n * (b.n + 1) / 2, 2 * b.e), b.n, true);
    b.u = Full(b.n, b.n);
    b.u.v = some(b.n * b.n, b.e);
    b.l = b.mode == 2 ? lower(some(b.n * (b.n + 1) / 2, 0), b.n, false) : identity(b.n);
  }
  if (k != l.v.size()) {
    std::fprintf(stderr, "bad behaviour: %zu of %zu\n", k, l.v.size());
    std::exit(3);
  }
  static const char* names[] = {"", "eigensolver", "generalised eigensolver", "reduction to band", "band to tridiagonal", "tridiagonal eigensolver", "stage by stage"};
  b.text = vf::cat("behaviour", b.seed, names[b.mode], "n", b.n, "tile", b.nb, b.dist ? "grid" : "local", b.P, b.Q, "source", b.sr, b.sc, b.cplx ? "complex" : "real", "variant", b.var, "up to", b.ke, "columns",
                   b.m, b.mb, "min band", b.minb, "group", b.hhg, "1d block", b.b1d, "threads", b.thr);
  return b;
}

// What one run produced (shared by the ranks of the run, each writing what it owns).
struct Out {
  std::vector<std::vector<double>> evals, tri;  // by rank
  Full v, band, q, c;
};
template <class T>
Matrix<T, D> make(const Behaviour& b, SizeType r, SizeType c, SizeType tr, SizeType tc, comm::CommunicatorGrid* grid) {
  if (!grid)
    return Matrix<T, D>(matrix::Distribution(LocalElementSize(r, c), TileElementSize(tr, tc)));
  return Matrix<T, D>(matrix::Distribution(GlobalElementSize(r, c), TileElementSize(tr, tc), grid->size(), grid->rank(), comm::Index2D(int(b.sr), int(b.sc))));
}
template <class T, class F>
void fill(Matrix<T, D>& a, F&& f) {
  const auto& d = a.distribution();
  for (auto ij : common::iterate_range2d(d.local_nr_tiles())) {
    auto t = pika::this_thread::experimental::sync_wait(a.readwrite(ij));
    for (SizeType j = 0; j < t.size().cols(); ++j)
      for (SizeType i = 0; i < t.size().rows(); ++i) {
        const auto g = d.global_element_index(d.global_tile_index(ij), {i, j});
        t({i, j}) = val<T>(f(g.row(), g.col()));
      }
  }
}
template <class T>
void collect(Matrix<T, D>& a, Full& x) {
  const auto& d = a.distribution();
  for (auto ij : common::iterate_range2d(d.local_nr_tiles())) {
    auto w = pika::this_thread::experimental::sync_wait(a.read(ij));
    const auto& t = w.get();
    for (SizeType j = 0; j < t.size().cols(); ++j)
      for (SizeType i = 0; i < t.size().rows(); ++i) {
        const auto g = d.global_element_index(d.global_tile_index(ij), {i, j});
        x(g.row(), g.col()) = C(t({i, j}));
      }
  }
}
std::vector<double> local_values(Matrix<double, D>& a) {
  Full x(a.size().rows(), a.size().cols());
  collect(a, x);
  std::vector<double> v;
  for (auto& z : x.v)
    v.push_back(z.real());
  return v;
}

C filler(SizeType i, SizeType j) {
  return C(double((i * 7 + j * 3) % 11) - 5, double((i + 2 * j) % 5) - 2);
}

template <class T>
void run(const Behaviour& b, comm::CommunicatorGrid* grid, Out& out, int rank) {
  const SizeType n = b.n;
  // only the lower triangle is given
  auto in = [&](const Full& x) {
    return [&x](SizeType i, SizeType j) { return j > i ? C(NaN, NaN) : x(i, j); };
  };
  auto junk = [](SizeType i, SizeType j) { return filler(i, j) * 1e3; };
  auto square = [&] { return make<T>(b, n, n, b.nb, b.nb, grid); };
  auto values = [&] { return Matrix<double, D>(LocalElementSize(n, 1), TileElementSize(b.nb, 1)); };
  auto keep = [&](Matrix<double, D>& w, Matrix<T, D>& v) {
    out.evals[std::size_t(rank)] = local_values(w);
    collect(v, out.v);
  };
  const SizeType band = b.mode == 5 ? 0 : getBandSize(b.nb);
  auto wide = [&] { return make<T>(b, n, b.m, b.nb, b.mb, grid); };
  const auto L = blas::Uplo::Lower;

  if (b.mode == 1) {
    auto a = square();
    fill(a, in(b.a));
    if (b.var < 2) {
      auto w = values();
      auto v = square();
      fill(v, junk);
      if (b.var == 0)
        grid ? hermitian_eigensolver<MC, D, T>(*grid, L, a, w, v) : hermitian_eigensolver<MC, D, T>(L, a, w, v);
      else
        grid ? hermitian_eigensolver<MC, D, T>(*grid, L, a, w, v, 0, b.ke) : hermitian_eigensolver<MC, D, T>(L, a, w, v, 0, b.ke);
      keep(w, v);
    }
    else {
      auto r = b.var == 2 ? (grid ? hermitian_eigensolver<MC, D, T>(*grid, L, a) : hermitian_eigensolver<MC, D, T>(L, a))
                          : (grid ? hermitian_eigensolver<MC, D, T>(*grid, L, a, 0, b.ke) : hermitian_eigensolver<MC, D, T>(L, a, 0, b.ke));
      keep(r.eigenvalues, r.eigenvectors);
    }
  }
  else if (b.mode == 2) {
    auto a = square(), bb = square();
    fill(a, in(b.a));
    const bool given = b.hhg % 2;  // the factor of B is given
    const Full full_b = given ? b.l : mul(b.l, adj(b.l));
    fill(bb, in(full_b));
    if (b.var < 2) {
      auto w = values();
      auto v = square();
      fill(v, junk);
      if (given && b.var == 0)
        grid ? hermitian_generalized_eigensolver_factorized<MC, D, T>(*grid, L, a, bb, w, v) : hermitian_generalized_eigensolver_factorized<MC, D, T>(L, a, bb, w, v);
      else if (given)
        grid ? hermitian_generalized_eigensolver_factorized<MC, D, T>(*grid, L, a, bb, w, v, 0, b.ke) : hermitian_generalized_eigensolver_factorized<MC, D, T>(L, a, bb, w, v, 0, b.ke);
      else if (b.var == 0)
        grid ? hermitian_generalized_eigensolver<MC, D, T>(*grid, L, a, bb, w, v) : hermitian_generalized_eigensolver<MC, D, T>(L, a, bb, w, v);
      else
        grid ? hermitian_generalized_eigensolver<MC, D, T>(*grid, L, a, bb, w, v, 0, b.ke) : hermitian_generalized_eigensolver<MC, D, T>(L, a, bb, w, v, 0, b.ke);
      keep(w, v);
    }
    else {
      auto r = given ? (b.var == 2 ? (grid ? hermitian_generalized_eigensolver_factorized<MC, D, T>(*grid, L, a, bb) : hermitian_generalized_eigensolver_factorized<MC, D, T>(L, a, bb))
                                   : (grid ? hermitian_generalized_eigensolver_factorized<MC, D, T>(*grid, L, a, bb, 0, b.ke) : hermitian_generalized_eigensolver_factorized<MC, D, T>(L, a, bb, 0, b.ke)))
                     : (b.var == 2 ? (grid ? hermitian_generalized_eigensolver<MC, D, T>(*grid, L, a, bb) : hermitian_generalized_eigensolver<MC, D, T>(L, a, bb))
                                   : (grid ? hermitian_generalized_eigensolver<MC, D, T>(*grid, L, a, bb, 0, b.ke) : hermitian_generalized_eigensolver<MC, D, T>(L, a, bb, 0, b.ke)));
      keep(r.eigenvalues, r.eigenvectors);
    }
    // the factor is left in B
    collect(bb, out.band);
  }
  else if (b.mode == 3) {
    auto a = square(), q = square();
    auto c = wide();
    fill(a, in(b.a));
    fill(q, [](SizeType i, SizeType j) { return C(i == j); });
    fill(c, filler);
    auto taus = grid ? reduction_to_band<MC, D, T>(*grid, a, band) : reduction_to_band<MC, D, T>(a, band);
    // the order of the two applications is not important, part of the columns of the second one only
    MatrixRef<T, D> rc(c, {{0, 0}, {n, std::min(b.ke, b.m)}}), rq(q);
    for (auto* r : {b.var % 2 ? &rc : &rq, b.var % 2 ? &rq : &rc})
      grid ? bt_reduction_to_band<MC, D, T>(*grid, band, *r, a, taus) : bt_reduction_to_band<MC, D, T>(band, *r, a, taus);
    collect(a, out.band);
    collect(q, out.q);
    collect(c, out.c);
  }
  else if (b.mode == 4) {
    auto a = square(), q = square();
    auto c = wide();
    fill(a, [&](SizeType i, SizeType j) { return j > i || i > j + band ? C(NaN, NaN) : b.a(i, j); });
    fill(q, [](SizeType i, SizeType j) { return C(i == j); });
    fill(c, filler);
    auto r = grid ? band_to_tridiagonal<MC, D, T>(*grid, L, band, a) : band_to_tridiagonal<MC, D, T>(L, band, a);
    MatrixRef<T, D> rc(c, {{0, 0}, {n, std::min(b.ke, b.m)}}), rq(q);
    for (auto* x : {b.var % 2 ? &rc : &rq, b.var % 2 ? &rq : &rc})
      grid ? bt_band_to_tridiagonal<MC, D, T>(*grid, band, *x, r.hh_reflectors) : bt_band_to_tridiagonal<MC, D, T>(band, *x, r.hh_reflectors);
    out.tri[std::size_t(rank)] = local_values(r.tridiagonal);
    collect(q, out.q);
    collect(c, out.c);
  }
  else if (b.mode == 5) {
    Matrix<double, D> t(LocalElementSize(n, 2), TileElementSize(b.nb, 2));
    fill(t, [&](SizeType i, SizeType j) { return C(j == 0 ? b.d[std::size_t(i)] : i + 1 < n ? b.off[std::size_t(i)] : NaN); });
    auto w = values();
    auto v = square();
    fill(v, junk);
    grid ? tridiagonal_eigensolver<MC, D, T>(*grid, t, w, v) : tridiagonal_eigensolver<MC, D, T>(t, w, v);
    keep(w, v);
  }
  else {
    // the stages of two independent decompositions, interleaved
    auto a = square(), a2 = square(), v = square(), v2 = square();
    auto w = values(), w2 = values();
    fill(a, in(b.a));
    fill(a2, in(b.a));
    fill(v, junk);
    fill(v2, junk);
    auto r2b = [&](auto& x) { return grid ? reduction_to_band<MC, D, T>(*grid, x, band) : reduction_to_band<MC, D, T>(x, band); };
    auto b2t = [&](auto& x) { return grid ? band_to_tridiagonal<MC, D, T>(*grid, L, band, x) : band_to_tridiagonal<MC, D, T>(L, band, x); };
    auto tri = [&](auto& t, auto& ww, auto& vv) { grid ? tridiagonal_eigensolver<MC, D, T>(*grid, t, ww, vv) : tridiagonal_eigensolver<MC, D, T>(t, ww, vv); };
    auto bt1 = [&](auto& vv, auto& hh) {
      MatrixRef<T, D> ref(vv, {{0, 0}, {n, b.ke}});
      grid ? bt_band_to_tridiagonal<MC, D, T>(*grid, band, ref, hh) : bt_band_to_tridiagonal<MC, D, T>(band, ref, hh);
    };
    auto bt2 = [&](auto& vv, auto& x, auto& taus) {
      MatrixRef<T, D> ref(vv, {{0, 0}, {n, b.ke}});
      grid ? bt_reduction_to_band<MC, D, T>(*grid, band, ref, x, taus) : bt_reduction_to_band<MC, D, T>(band, ref, x, taus);
    };
    auto t1 = r2b(a);
    auto s1 = b2t(a);
    auto t2 = r2b(a2);
    tri(s1.tridiagonal, w, v);
    auto s2 = b2t(a2);
    bt1(v, s1.hh_reflectors);
    tri(s2.tridiagonal, w2, v2);
    bt2(v, a, t1);
    bt1(v2, s2.hh_reflectors);
    bt2(v2, a2, t2);
    if (b.var % 2)
      keep(w, v);
    else
      keep(w2, v2);
  }
}

// What is not right about the results of a run; with `compare` this is only recorded, to be compared between schedules.
static bool compare = false;
static std::string verdict;
void fault(const char* what, const std::string& text) {
  if (!compare)
    R.ok(false, text);
  else if (verdict.empty())
    verdict = what;
}

struct Checker {
  const Behaviour& b;
  std::string ctx;
  bool near(double x, double tol, const char* what) {
    ++R.comparisons;
    if (!(x <= tol)) {
      fault(what, vf::cat(what, "off by", x, "(tolerance", tol, ") :", ctx));
      return false;
    }
    return true;
  }
  bool same_everywhere(const std::vector<std::vector<double>>& v, const char* what) {
    for (auto& x : v)
      for (std::size_t i = 0; i < x.size(); ++i)
        // the last off-diagonal is not used
        if (!(std::abs(x[i] - v[0][i]) <= 1e-13 * std::max(1., std::abs(v[0][i]))) && !(i + 1 == x.size() && x.size() == std::size_t(2 * b.n))) {
          fault(what, vf::cat(what, "differ between the ranks:", ctx));
          return false;
        }
    return true;
  }
  Full tridiagonal(const std::vector<double>& d, const std::vector<double>& off) {
    Full t(b.n, b.n);
    for (SizeType i = 0; i < b.n; ++i) {
      t(i, i) = d[std::size_t(i)];
      if (i + 1 < b.n)
        t(i + 1, i) = t(i, i + 1) = off[std::size_t(i)];
    }
    return t;
  }

  void operator()(const Out& o) {
    const SizeType n = b.n;
    const double scale = std::max(1., std::max(largest(b.a), 100.));
    const double tol = 1e-11 * scale;
    if (b.mode == 1 || b.mode == 2 || b.mode == 5 || b.mode == 6) {
      if (!same_everywhere(o.evals, "eigenvalues"))
        return;
      const auto& w = o.evals[0];
      for (SizeType i = 0; i + 1 < n; ++i)
        if (!(w[std::size_t(i)] <= w[std::size_t(i + 1)])) {
          fault("order", vf::cat("eigenvalues not ascending at", i, ":", ctx));
          return;
        }
      for (SizeType i = 0; i < SizeType(b.lam.size()); ++i)
        if (!near(std::abs(w[std::size_t(i)] - b.lam[std::size_t(i)]), tol, "eigenvalue"))
          return;
      const SizeType ke = b.mode == 5 ? n : b.mode == 6 || b.var % 2 ? b.ke : n;
      const Full v = first_cols(o.v, ke);
      const Full x = b.mode == 2 ? mul(adj(b.l), v) : v;
      if (!near(distance(mul(adj(x), x), identity(ke)), 1e-11 * (b.mode == 2 ? 1000 : 1), "orthogonality"))
        return;
      if (b.mode == 5) {
        const Full t = tridiagonal(b.d, b.off);
        Full vw = v;
        for (SizeType i = 0; i < n; ++i)
          for (SizeType j = 0; j < n; ++j)
            vw(i, j) *= w[std::size_t(j)];
        near(distance(mul(t, v), vw), tol, "residual");
        return;
      }
      const Full k = mul(adj(b.u), x);
      for (SizeType i = 0; i < n; ++i)
        for (SizeType j = 0; j < ke; ++j)
          if (b.lam[std::size_t(i)] != b.lam[std::size_t(j)] && !near(std::abs(k(i, j)), tol * (b.mode == 2 ? 1000 : 1), "component of an eigenvector in the eigenspace of another eigenvalue"))
            return;
      if (b.mode == 2) {
        Full f(n, n);
        for (SizeType i = 0; i < n; ++i)
          for (SizeType j = 0; j <= i; ++j)
            f(i, j) = o.band(i, j);
        // a factor with another sign of a row is not what cholesky_factorization leaves: the diagonal is positive
        near(distance(f, b.l), 1e-9, "factor of B");
      }
      return;
    }
    // 3, 4
    const SizeType band = getBandSize(b.nb);
    auto clip = [&](const Full& s, SizeType w) {
      Full x(n, n);
      for (SizeType i = 0; i < n; ++i)
        for (SizeType j = std::max<SizeType>(0, i - w); j <= i; ++j) {
          x(i, j) = s(i, j);
          x(j, i) = std::conj(s(i, j));
        }
      return x;
    };
    Full from, to;
    if (b.mode == 3) {
      from = b.a;
      to = clip(o.band, band);
    }
    else {
      if (!same_everywhere(o.tri, "tridiagonal matrices"))
        return;
      from = clip(b.a, band);
      std::vector<double> d, off;
      for (SizeType i = 0; i < n; ++i) {
        d.push_back(o.tri[0][std::size_t(2 * i)]);
        off.push_back(o.tri[0][std::size_t(2 * i + 1)]);
      }
      to = tridiagonal(d, off);
    }
    for (SizeType i = 0; i < n; ++i)
      to(i, i) = to(i, i).real();
    if (!near(distance(mul(adj(o.q), o.q), identity(n)), 1e-11, "orthogonality of the transformation"))
      return;
    if (!near(distance(mul(from, o.q), mul(o.q, to)), tol, "similarity"))
      return;
    Full c(n, b.m);
    for (SizeType i = 0; i < n; ++i)
      for (SizeType j = 0; j < b.m; ++j)
        c(i, j) = b.cplx ? filler(i, j) : filler(i, j).real();
    const Full qc = mul(o.q, c);
    for (SizeType i = 0; i < n; ++i)
      for (SizeType j = 0; j < b.m; ++j) {
        if (j < std::min(b.ke, b.m)) {
          if (!near(std::abs(o.c(i, j) - qc(i, j)), 1e-10, "transformed column"))
            return;
        }
        else if (!near(std::abs(o.c(i, j) - c(i, j)), 0, "column which is not part of the call"))
          return;
      }
  }
};

int main(int argc, char** argv) {
  if (argc < 4)
    return 3;
  const long seed = std::atol(argv[2]), schedules = std::atol(argv[3]);
  compare = argc > 4 && std::string(argv[4]) == "schedules";
  long runs = 0;
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    if (l.kind != "E" || R.mismatches > 20)
      return;
    const Behaviour b = parse(l);
    ++R.cases;
    const long layout = argc > 4 && !compare ? std::atol(argv[4]) : b.seed % 3;  // of the matrices and workspaces allocated by the library
    Out first;
    std::string first_verdict;
    for (long k = 0; k < schedules; ++k) {
      vrt::Options o;
      o.seed = std::uint64_t(seed * 1000003 + b.seed * 101 + k);
      o.ranks = int(b.P * b.Q);
      if (compare && k % 2 == 0)
        o.workers = 1;
      vrt::context = vf::cat("schedule", o.seed, b.text);
      ++runs;
      auto& tune = getTuneParameters();
      tune.eigensolver_min_band = b.minb;
      tune.bt_band_to_tridiag_hh_apply_group_size = b.hhg;
      tune.band_to_tridiag_1d_block_size_base = b.b1d;
      tune.tfactor_num_threads = tune.red2band_panel_num_threads = tune.tridiag_rank1_num_threads = std::size_t(b.thr);
      tune.default_allocation_layout = layout == 1 ? matrix::AllocationLayout::Blocks : layout == 2 ? matrix::AllocationLayout::Tiles : matrix::AllocationLayout::ColMajor;
      Out out;
      out.evals.resize(std::size_t(o.ranks));
      out.tri.resize(std::size_t(o.ranks));
      out.v = out.band = out.q = Full(b.n, b.n);
      out.c = Full(b.n, b.m);
      // one worker is left to the rest of the program
      pika::vshim::state().threads = std::size_t(b.thr + (b.seed % 4 != 0));
      vrt::run(o, [&](int rank) {
        std::unique_ptr<comm::CommunicatorGrid> grid;
        if (b.dist)
          grid = std::make_unique<comm::CommunicatorGrid>(comm::Communicator(MPI_COMM_WORLD), int(b.P), int(b.Q), b.seed % 2 ? common::Ordering::RowMajor : common::Ordering::ColumnMajor);
        b.cplx ? run<std::complex<double>>(b, grid.get(), out, rank) : run<double>(b, grid.get(), out, rank);
      });
      verdict.clear();
      Checker{b, vrt::context}(out);
      if (!compare)
        continue;
      if (k == 0) {
        first = out;
        first_verdict = verdict;
        continue;
      }
      R.ok(verdict == first_verdict, vf::cat("the results depend on the schedule: first", first_verdict.empty() ? "right" : "wrong " + first_verdict,
                                             "then", verdict.empty() ? "right" : "wrong " + verdict, ":", vrt::context));
      for (std::size_t i = 0; i < out.evals.size() && verdict.empty(); ++i)
        for (std::size_t j = 0; j < out.evals[i].size(); ++j)
          if (!(std::abs(out.evals[i][j] - first.evals[i][j]) <= 1e-10 * std::max(1., std::abs(first.evals[i][j])))) {
            R.ok(false, vf::cat("eigenvalue", j, "depends on the schedule:", first.evals[i][j], "then", out.evals[i][j], ":", vrt::context));
            break;
          }
    }
  });
  R.extra["runs"] = runs;
  R.extra["tasks"] = vrt::stats.tasks;
  R.extra["messages"] = vrt::stats.messages + vrt::stats.collectives;
  return R.done();
}
