// Replays the programs of CInterface.tla through the C interface and its ScaLAPACK-like form on simulated processes.
// Usage: capi <programs> <seed> <schedules per program>
#ifndef DLAF_WITH_SCALAPACK
#define DLAF_WITH_SCALAPACK 1
#endif
#include <unordered_map>

#include <c_api/blacs.h>
#include <c_api/grid.h>
#include <c_api/utils.h>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/eigensolver/internal/get_band_size.h>
#include <dlaf/matrix/distribution.h>
#include <dlaf/tune.h>
#include <dlaf_c/eigensolver/eigensolver.h>
#include <dlaf_c/eigensolver/gen_eigensolver.h>
#include <dlaf_c/factorization/cholesky.h>
#include <dlaf_c/grid.h>
#include <dlaf_c/inverse/cholesky.h>
#include <pika/runtime.hpp>
#include <vrt.h>

#include "common.h"
#include "full.h"
using namespace dlaf;
static vf::Report R;

// every simulated process has its own table of grids and its own runtime
struct Runtime {
  int suspended = 1, resumes = 0, suspends = 0;
};
static Runtime runtimes[64];
#ifdef VF_TABLES
static std::decay_t<decltype(dlaf_grids)> tables[64];
#endif
static void exchange(int from, int to) {
  auto& s = pika::vshim::state();
  runtimes[from] = {s.suspended, s.resumes, s.suspends};
  s.suspended = runtimes[to].suspended;
  s.resumes = runtimes[to].resumes;
  s.suspends = runtimes[to].suspends;
#ifdef VF_TABLES
  std::swap(dlaf_grids, tables[from]);
  std::swap(dlaf_grids, tables[to]);
#endif
}

// BLACS: context 1 is row-major, context 2 column-major
static int np, nq;
extern "C" {
MPI_Comm Cblacs2sys_handle(int s) {
  if (s < 700)
    vrt::fail("asked BLACS for a system context that does not exist");
  return MPI_COMM_WORLD;
}
void Cblacs_get(int ctxt, int what, int* val) {
  if (what != 10)
    vrt::fail("asked BLACS for something else than the system context");
  *val = 700 + ctxt;
}
void Cblacs_gridinfo(int ctxt, int* r, int* c, int* pr, int* pc) {
  *r = np;
  *c = nq;
  const int me = vrt::rank();
  *pr = ctxt == 2 ? me % np : me / nq;
  *pc = ctxt == 2 ? me / np : me % nq;
}
}

// the routines of one type
template <class T>
struct Api;
#define VF_API(T_, t, sy, symmetric)                                                                                                       \
  template <>                                                                                                                              \
  struct Api<T_> {                                                                                                                         \
    static constexpr auto potrf = dlaf_cholesky_factorization_##t;                                                                         \
    static constexpr auto ppotrf = dlaf_p##t##potrf;                                                                                       \
    static constexpr auto potri = dlaf_inverse_from_cholesky_factor_##t;                                                                   \
    static constexpr auto ppotri = dlaf_p##t##potri;                                                                                       \
    static constexpr auto evd = dlaf_##symmetric##_eigensolver_##t;                                                                        \
    static constexpr auto evd_part = dlaf_##symmetric##_eigensolver_partial_spectrum_##t;                                                  \
    static constexpr auto pevd = dlaf_p##t##sy##evd;                                                                                       \
    static constexpr auto pevd_part = dlaf_p##t##sy##evd_partial_spectrum;                                                                 \
    static constexpr auto gvd = dlaf_##symmetric##_generalized_eigensolver_##t;                                                            \
    static constexpr auto gvd_part = dlaf_##symmetric##_generalized_eigensolver_partial_spectrum_##t;                                      \
    static constexpr auto pgvd = dlaf_p##t##sy##gvd;                                                                                       \
    static constexpr auto pgvd_part = dlaf_p##t##sy##gvd_partial_spectrum;                                                                 \
    static constexpr auto gvf = dlaf_##symmetric##_generalized_eigensolver_factorized_##t;                                                 \
    static constexpr auto gvf_part = dlaf_##symmetric##_generalized_eigensolver_partial_spectrum_factorized_##t;                           \
    static constexpr auto pgvf = dlaf_p##t##sy##gvd_factorized;                                                                            \
    static constexpr auto pgvf_part = dlaf_p##t##sy##gvd_partial_spectrum_factorized;                                                      \
  };
VF_API(float, s, sy, symmetric)
VF_API(double, d, sy, symmetric)
VF_API(dlaf_complex_c, c, he, hermitian)
VF_API(dlaf_complex_z, z, he, hermitian)

enum { None, Std, Gen, Junk, Spd, Factor, Inverse };
struct Op {
  int code, ticket, form, low, part, order, ke, tri, ca, cb;
};
struct Program {
  SizeType seed, n, nb, P, Q, sr, sc, cplx, ke, minb, hhg, b1d, thr, e;
  std::vector<double> lam;
  Full a, g, u, l, b, f[2];  // standard, generalised, eigenvectors, lower factor, B, factor by triangle
  std::vector<Op> ops;
  bool single() const { return seed % 3 == 0; }
  std::string text;
};
Program parse(const vf::Line& l) {
  Program b;
  std::size_t k = 0;
  auto next = [&] { return l.v.at(k++); };
  for (SizeType* p : {&b.seed, &b.n, &b.nb, &b.P, &b.Q, &b.sr, &b.sc, &b.cplx, &b.ke, &b.minb, &b.hhg, &b.b1d, &b.thr, &b.e})
    *p = next();
  for (long long i = next(); i > 0; --i)
    b.lam.push_back(double(next()));
  auto some = [&](SizeType count, SizeType e) {
    std::vector<C> v;
    for (SizeType i = 0; i < count; ++i) {
      const double re = double(next()), im = double(next());
      v.emplace_back(std::ldexp(re, -int(e)), std::ldexp(im, -int(e)));
    }
    return v;
  };
  const SizeType tri = b.n * (b.n + 1) / 2;
  b.a = lower(some(tri, 2 * b.e), b.n, true);
  b.g = lower(some(tri, 2 * b.e), b.n, true);
  b.u = Full(b.n, b.n);
  b.u.v = some(b.n * b.n, b.e);
  b.l = lower(some(tri, 0), b.n, false);
  b.b = mul(b.l, adj(b.l));
  b.f[0] = b.l;
  b.f[1] = adj(b.l);
  b.text = vf::cat("program", b.seed, "n", b.n, "tile", b.nb, "grid", b.P, b.Q, "source", b.sr, b.sc, b.single() ? "single" : "double", b.cplx ? "complex" : "real", "up to", b.ke, "min band", b.minb, "group", b.hhg, "1d block", b.b1d, "threads", b.thr, ":");
  static const char* names[] = {"", "grid", "blacs", "free", "fill", "potrf", "potri", "heevd", "hegvd", "hegvd factorized"};
  for (long long i = next(); i > 0; --i) {
    Op o;
    for (int* p : {&o.code, &o.ticket, &o.form, &o.low, &o.part, &o.order, &o.ke, &o.tri, &o.ca, &o.cb})
      *p = int(next());
    b.ops.push_back(o);
    b.text += vf::cat("", names[o.code], o.ticket, o.form, o.low, o.part, o.order, o.ke, o.tri) + ";";
  }
  if (k != l.v.size()) {
    std::fprintf(stderr, "bad program: %zu of %zu\n", k, l.v.size());
    std::exit(3);
  }
  return b;
}

const double pad = 4095.25;  // in the gaps of the arrays
C junk(SizeType i, SizeType j) { return C(double((i * 7 + j * 3) % 11) - 500, double((i + 2 * j) % 5) - 200); }

// The local part of a matrix in column-major storage with a leading dimension, and a gap at the end.
template <class T>
struct Local {
  SizeType n = 0, lr = 0, lc = 0, ld = 1;
  std::vector<SizeType> rows, cols;  // global indices
  std::vector<T> v, seen;
  Local() = default;
  Local(const Program& b, comm::Index2D me, int slack) : n(b.n) {
    for (SizeType i = 0; i < n; ++i) {
      if ((i / b.nb + b.sr) % b.P == me.row())
        rows.push_back(i);
      if ((i / b.nb + b.sc) % b.Q == me.col())
        cols.push_back(i);
    }
    lr = SizeType(rows.size());
    lc = SizeType(cols.size());
    ld = std::max<SizeType>(1, lr + slack);
    v.assign(std::size_t(ld * lc + 5), val<T>(C(pad, pad)));
    seen = v;
  }
  template <class F>
  void fill(F&& f) {
    for (SizeType j = 0; j < lc; ++j)
      for (SizeType i = 0; i < lr; ++i)
        v[std::size_t(i + j * ld)] = val<T>(f(rows[std::size_t(i)], cols[std::size_t(j)]));
    seen = v;
  }
  void collect(Full& x) const {
    for (SizeType j = 0; j < lc; ++j)
      for (SizeType i = 0; i < lr; ++i)
        x(rows[std::size_t(i)], cols[std::size_t(j)]) = C(v[std::size_t(i + j * ld)]);
  }
  bool gaps() const {
    const T p = val<T>(C(pad, pad));
    for (SizeType k = 0; k < SizeType(v.size()); ++k)
      if ((k >= ld * lc || k % ld >= lr) && v[std::size_t(k)] != p)
        return false;
    return true;
  }
  // bit for bit what it was when the last call returned
  bool unchanged() const { return v.size() == seen.size() && (v.empty() || std::memcmp(v.data(), seen.data(), v.size() * sizeof(T)) == 0); }
};

// What one call produced, put together from all processes.
struct Result {
  Full a, b, z;
  std::vector<std::vector<double>> w;
};

template <class T>
void run(const Program& b, std::vector<Result>& out, int me, const std::string& ctx) {
  using A = Api<T>;
  using S = BaseType<T>;
  std::map<int, int> ids;  // contexts of the living grids
  Local<T> la, lb, lz;
  std::vector<S> w;
  int home = 0, tri = 0;
  const int n = int(b.n), nb = int(b.nb);
  auto position = [&](int order) { return order == 2 ? comm::Index2D(int(me % b.P), int(me / b.P)) : comm::Index2D(int(me / b.Q), int(me % b.Q)); };
  auto quiet = [&](const char* when) {
    R.ok(la.unchanged() && lb.unchanged() && lz.unchanged(), vf::cat("an array of the program changes", when, ":", ctx));
  };
  for (std::size_t k = 0; k < b.ops.size(); ++k) {
    const Op& o = b.ops[k];
    quiet("between two calls");
    if (o.code == 1)
      ids[o.ticket] = dlaf_create_grid(MPI_COMM_WORLD, int(b.P), int(b.Q), o.order == 2 ? (b.seed % 2 ? 'C' : 'c') : (b.seed % 2 ? 'R' : 'r'));
    else if (o.code == 2) {
      dlaf_create_grid_from_blacs(o.order);
      ids[o.ticket] = o.order;
    }
    else if (o.code == 3) {
      dlaf_free_grid(ids.at(o.ticket));
      ids.erase(o.ticket);
    }
    else if (o.code == 4) {
      home = o.order;
      tri = o.tri;
      const comm::Index2D pos = position(home);
      const int s = int((b.seed + SizeType(k)) % 7);
      la = Local<T>(b, pos, s % 3);
      lb = Local<T>(b, pos, (s + 1) % 4);
      lz = Local<T>(b, pos, s / 3);
      la.fill([&](SizeType i, SizeType j) { return j > i ? C(NaN, NaN) : o.ca == Std ? b.a(i, j) : b.g(i, j); });
      // the triangle that is not used has junk
      lb.fill([&](SizeType i, SizeType j) { return (tri ? j < i : j > i) ? junk(i, j) : o.cb == Spd ? b.b(i, j) : b.f[tri](i, j); });
      lz.fill(junk);
      w.assign(std::size_t(n + 3), S(pad));
    }
    else {
      const int c = ids.at(o.ticket);
      const char uplo = (o.code <= 6 && tri) ? (o.low ? 'u' : 'U') : (o.low ? 'l' : 'L');
      auto desc = [&](const Local<T>& x) { return DLAF_descriptor{n, n, nb, nb, int(b.sr), int(b.sc), 0, 0, int(x.ld)}; };
      struct Desc9 {
        int d[9];
      };
      auto desc9 = [&](const Local<T>& x) { return Desc9{{1, c, n, n, nb, nb, int(b.sr), int(b.sc), int(x.ld)}}; };
      const auto da = desc(la), db = desc(lb), dz = desc(lz);
      const auto pa = desc9(la), pb = desc9(lb), pz = desc9(lz);
      int info = -77;
      const Runtime before{pika::vshim::state().suspended, pika::vshim::state().resumes, pika::vshim::state().suspends};
      T *xa = la.v.data(), *xb = lb.v.data(), *xz = lz.v.data();
      S* xw = w.data();
      const SizeType ke = o.ke;
      // the ScaLAPACK form counts from one; an empty problem has the range [1, 0]
      switch (o.code) {
        case 5:
          if (o.form)
            A::ppotrf(uplo, n, xb, 1, 1, pb.d, &info);
          else
            info = A::potrf(c, uplo, xb, db);
          break;
        case 6:
          if (o.form)
            A::ppotri(uplo, n, xb, 1, 1, pb.d, &info);
          else
            info = A::potri(c, uplo, xb, db);
          break;
        case 7:
          if (o.form && o.part)
            A::pevd_part(uplo, n, xa, 1, 1, pa.d, xw, xz, 1, 1, pz.d, 1, ke, &info);
          else if (o.form)
            A::pevd(uplo, n, xa, 1, 1, pa.d, xw, xz, 1, 1, pz.d, &info);
          else
            info = o.part ? A::evd_part(c, uplo, xa, da, xw, xz, dz, 0, ke) : A::evd(c, uplo, xa, da, xw, xz, dz);
          break;
        case 8:
          if (o.form && o.part)
            A::pgvd_part(uplo, n, xa, 1, 1, pa.d, xb, 1, 1, pb.d, xw, xz, 1, 1, pz.d, 1, ke, &info);
          else if (o.form)
            A::pgvd(uplo, n, xa, 1, 1, pa.d, xb, 1, 1, pb.d, xw, xz, 1, 1, pz.d, &info);
          else
            info = o.part ? A::gvd_part(c, uplo, xa, da, xb, db, xw, xz, dz, 0, ke) : A::gvd(c, uplo, xa, da, xb, db, xw, xz, dz);
          break;
        case 9:
          if (o.form && o.part)
            A::pgvf_part(uplo, n, xa, 1, 1, pa.d, xb, 1, 1, pb.d, xw, xz, 1, 1, pz.d, 1, ke, &info);
          else if (o.form)
            A::pgvf(uplo, n, xa, 1, 1, pa.d, xb, 1, 1, pb.d, xw, xz, 1, 1, pz.d, &info);
          else
            info = o.part ? A::gvf_part(c, uplo, xa, da, xb, db, xw, xz, dz, 0, ke) : A::gvf(c, uplo, xa, da, xb, db, xw, xz, dz);
          break;
        default: std::exit(3);
      }
      // what is there when the call returns
      auto& st = pika::vshim::state();
      R.ok(st.suspended == 1 && st.resumes > before.resumes && st.resumes - before.resumes == st.suspends - before.suspends, vf::cat("call", k, ": the runtime is not resumed for the call and suspended after it:", ctx));
      R.eq(info, 0, vf::cat("call", k, "returned:", ctx));
      R.ok(la.gaps() && lb.gaps() && lz.gaps(), vf::cat("call", k, "wrote between the columns or behind the end of an array:", ctx));
      for (std::size_t i = std::size_t(n); i < w.size(); ++i)
        R.ok(w[i] == S(pad), vf::cat("call", k, "wrote behind the eigenvalues:", ctx));
      // arrays that are not part of the call
      if (o.code <= 6)
        R.ok(la.unchanged() && lz.unchanged(), vf::cat("call", k, "changed arrays it was not given:", ctx));
      if (o.code == 7)
        R.ok(lb.unchanged(), vf::cat("call", k, "changed an array it was not given:", ctx));
      if (o.code == 5 || o.code == 6)  // the other triangle
        for (SizeType j = 0; j < lb.lc; ++j)
          for (SizeType i = 0; i < lb.lr; ++i) {
            const SizeType gi = lb.rows[std::size_t(i)], gj = lb.cols[std::size_t(j)];
            if ((tri ? gj < gi : gj > gi) && lb.v[std::size_t(i + j * lb.ld)] != lb.seen[std::size_t(i + j * lb.ld)])
              R.ok(false, vf::cat("call", k, "changed the triangle that is not referenced:", ctx));
          }
      la.seen = la.v;
      lb.seen = lb.v;
      lz.seen = lz.v;
      lb.collect(out[k].b);
      lz.collect(out[k].z);
      if (o.code >= 7)
        out[k].w[std::size_t(me)] = std::vector<double>(w.begin(), w.begin() + n);
    }
  }
  vrt::wait_idle();
  quiet("after the last call");
  dlaf_free_all_grids();
}

struct Checker {
  const Program& b;
  std::string ctx;
  double f = b.single() ? 5e6 : 1;  // precision
  bool near(double x, double tol, const std::string& what) {
    return R.ok(x <= tol, vf::cat(what, "off by", x, "(tolerance", tol, ") :", ctx));
  }
  Full half(const Full& x, int tri) {
    Full y(b.n, b.n);
    for (SizeType i = 0; i < b.n; ++i)
      for (SizeType j = 0; j < b.n; ++j)
        if (tri ? j >= i : j <= i)
          y(i, j) = x(i, j);
    return y;
  }
  void operator()(const std::vector<Result>& rs) {
    int tri = 0;
    for (std::size_t k = 0; k < b.ops.size(); ++k) {
      const Op& o = b.ops[k];
      const Result& r = rs[k];
      if (o.code == 4)
        tri = o.tri;
      if (o.code < 5)
        continue;
      const std::string at = vf::cat("call", k);
      const double scale = std::max(100., largest(o.code == 7 ? b.a : b.g));
      if (o.code != 7 && o.cb == Factor && !near(distance(half(r.b, tri), b.f[tri]), 1e-9 * f, at + ": factor"))
        return;
      if (o.code == 6) {
        Full x(b.n, b.n);
        for (SizeType i = 0; i < b.n; ++i)
          for (SizeType j = 0; j <= i; ++j) {
            const C z = tri ? std::conj(r.b(j, i)) : r.b(i, j);
            x(i, j) = z;
            x(j, i) = std::conj(z);
          }
        if (!near(distance(mul(x, b.b), identity(b.n)), 1e-8 * f, at + ": inverse"))
          return;
      }
      if (o.code < 7)
        continue;
      const bool gen = o.code > 7;
      for (auto& w : r.w)
        for (SizeType i = 0; i < b.n; ++i) {
          if (!near(std::abs(w[std::size_t(i)] - b.lam[std::size_t(i)]), 1e-11 * scale * f, at + ": eigenvalue"))
            return;
          if (i && !R.ok(w[std::size_t(i - 1)] <= w[std::size_t(i)], at + ": eigenvalues are not ascending: " + ctx))
            return;
        }
      const SizeType ke = o.part ? o.ke : b.n;
      const Full v = first_cols(r.z, ke);
      const Full x = gen ? mul(adj(b.l), v) : v;
      if (!near(distance(mul(adj(x), x), identity(ke)), 1e-11 * f * (gen ? 1000 : 1), at + ": orthogonality"))
        return;
      const Full m = mul(adj(b.u), x);
      for (SizeType i = 0; i < b.n; ++i)
        for (SizeType j = 0; j < ke; ++j)
          if (b.lam[std::size_t(i)] != b.lam[std::size_t(j)] && !near(std::abs(m(i, j)), 1e-11 * scale * f * (gen ? 1000 : 1), at + ": component of an eigenvector in the eigenspace of another eigenvalue"))
            return;
    }
  }
};

int main(int argc, char** argv) {
  if (argc < 4)
    return 3;
  const long seed = std::atol(argv[2]), schedules = std::atol(argv[3]);
  vrt::on_rank = exchange;
  long runs = 0;
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    if (l.kind != "P" || R.mismatches > 20)
      return;
    Program b = parse(l);
#ifndef VF_TABLES
    if (b.P * b.Q > 1)
      return;
#endif
    ++R.cases;
    np = int(b.P);
    nq = int(b.Q);
    for (long k = 0; k < schedules; ++k) {
      vrt::Options o;
      o.seed = std::uint64_t(seed * 1000003 + b.seed * 101 + k);
      o.ranks = int(b.P * b.Q);
      vrt::context = vf::cat("schedule", o.seed, b.text);
      ++runs;
      auto& tune = getTuneParameters();
      tune.eigensolver_min_band = b.minb;
      tune.bt_band_to_tridiag_hh_apply_group_size = b.hhg;
      tune.band_to_tridiag_1d_block_size_base = b.b1d;
      tune.tfactor_num_threads = tune.red2band_panel_num_threads = tune.tridiag_rank1_num_threads = std::size_t(b.thr);
      for (auto& r : runtimes)
        r = Runtime();
      auto& st = pika::vshim::state();
      st.threads = std::size_t(b.thr + (b.seed % 4 != 0));
      st.suspended = 1;
      st.resumes = st.suspends = 0;
      std::vector<Result> out(b.ops.size());
      for (auto& r : out) {
        r.b = r.z = Full(b.n, b.n);
        r.w.resize(std::size_t(o.ranks));
      }
      vrt::run(o, [&](int me) {
        if (b.single())
          b.cplx ? run<dlaf_complex_c>(b, out, me, vrt::context) : run<float>(b, out, me, vrt::context);
        else
          b.cplx ? run<dlaf_complex_z>(b, out, me, vrt::context) : run<double>(b, out, me, vrt::context);
      });
      Checker{b, vrt::context}(out);
    }
  });
  R.extra["runs"] = runs;
  R.extra["tasks"] = vrt::stats.tasks;
  R.extra["messages"] = vrt::stats.messages + vrt::stats.collectives;
  return R.done();
}
