// Replays behaviours of spec/MatrixIO.tla: matrices written to (simulated) HDF5 files, read back on other distributions, printed.
// Usage: p39 <behaviours> <seed> <schedules per behaviour> <file for the printed texts>
#include <cmath>
#include <complex>
#include <cstdlib>
#include <memory>
#include <optional>

#include <dlaf/communication/communicator_grid.h>
#include <dlaf/factorization/cholesky.h>
#include <dlaf/init.h>
#include <dlaf/inverse/cholesky.h>
#include <dlaf/inverse/triangular.h>
#include <dlaf/matrix/hdf5.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/matrix/print_csv.h>
#include <dlaf/matrix/print_numpy.h>
#include <dlaf/util_matrix.h>
#include <vrt.h>

#include "common.h"
using namespace dlaf;
using matrix::internal::FileHDF5;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
constexpr auto D = Device::CPU;
vf::Report R;
std::FILE* texts = nullptr;

struct Behaviour {
  long long seed, P, Q, type;
  std::vector<std::vector<long long>> calls;
  std::string text;
};
Behaviour parse(const vf::Line& l) {
  Behaviour b;
  std::size_t k = 0;
  for (auto* p : {&b.seed, &b.P, &b.Q, &b.type})
    *p = l.v.at(k++);
  b.text = vf::cat("behaviour", b.seed, "grid", b.P, b.Q, "type", "sdcz"[b.type], "calls");
  const auto n = l.v.at(k++);
  for (long long i = 0; i < n; ++i) {
    const auto len = std::size_t(l.v.at(k++));
    b.calls.emplace_back(l.v.begin() + long(k), l.v.begin() + long(k + len));
    k += len;
    b.text += " |";
    for (std::size_t j = 0; j < std::min<std::size_t>(len, 13); ++j)
      b.text += " " + std::to_string(b.calls.back()[j]);
  }
  if (k != l.v.size()) {
    std::fprintf(stderr, "bad behaviour: %zu of %zu\n", k, l.v.size());
    std::exit(3);
  }
  return b;
}

template <class T>
T part(long long c) {
  switch (c) {
    case 10001:
      return std::numeric_limits<T>::quiet_NaN();
    case 10002:
      return std::numeric_limits<T>::infinity();
    case 10003:
      return -std::numeric_limits<T>::infinity();
    default:
      return T(c);
  }
}
template <class T>
T value(const long long* c) {
  if constexpr (isComplex_v<T>)
    return T(part<BaseType<T>>(c[0]), part<BaseType<T>>(c[1]));
  else
    return part<T>(c[0]);
}
template <class T>
bool alike(T a, T b) {
  if constexpr (isComplex_v<T>)
    return alike(a.real(), b.real()) && alike(a.imag(), b.imag());
  else
    return std::isnan(a) ? std::isnan(b) : a == b;
}
struct Slab {
  long long who, r, c, h, w;
};
struct Reader {
  const std::vector<long long>& v;
  std::size_t k;
  long long next() { return v.at(k++); }
  matrix::Distribution dist(comm::CommunicatorGrid& g) {
    long long a[11];
    for (auto& x : a)
      x = next();
    const GlobalElementSize sz(a[0], a[1]);
    const TileElementSize t(a[2], a[3]);
    const GlobalElementSize b(a[2] * a[4], a[3] * a[5]);
    const bool d = a[10];
    return matrix::Distribution(sz, b, t, d ? g.size() : comm::Size2D(1, 1), d ? g.rank() : comm::Index2D(0, 0), comm::Index2D(int(a[6]), int(a[7])), GlobalElementIndex(a[8], a[9]));
  }
  std::vector<Slab> slabs() {
    const auto n = std::size_t(next());
    std::vector<Slab> s(n);
    for (auto& x : s) {
      x.who = next();
      x.r = next();
      x.c = next();
      x.h = next();
      x.w = next();
    }
    return s;
  }
};

// the transfers of a process are the rectangles of its tiles, each once
void same_slabs(const std::vector<H5::shim::Transfer>& log, std::size_t from, int rank, bool write, long long me, const std::vector<Slab>& want, int comps, const std::string& ctx) {
  std::multiset<std::vector<long long>> got, spec;
  for (std::size_t i = from; i < log.size(); ++i)
    if (log[i].rank == rank && log[i].write == write) {
      const auto &o = log[i].offset, &c = log[i].count;
      R.ok(o.size() == 3 && o[2] == 0 && c[2] == hsize_t(comps), "components of a transfer: " + ctx);
      got.insert({(long long) o[1], (long long) o[0], (long long) c[1], (long long) c[0]});
    }
  for (const auto& s : want)
    if (s.who == me)
      spec.insert({s.r, s.c, s.h, s.w});
  R.ok(got == spec, vf::cat(write ? "written" : "read", "rectangles of process", me, "differ from the spec:", got.size(), "and", spec.size(), ctx));
}

template <class T>
void content(Matrix<T, D>& a, const std::vector<long long>& v, std::size_t k, const char* what, const std::string& ctx) {
  const auto& d = a.distribution();
  for (auto ij : common::iterate_range2d(d.local_nr_tiles())) {
    auto t = tt::sync_wait(a.read(ij));
    for (SizeType j = 0; j < t.get().size().cols(); ++j)
      for (SizeType i = 0; i < t.get().size().rows(); ++i) {
        const auto g = d.global_element_index(d.global_tile_index(ij), {i, j});
        const T w = value<T>(&v.at(k + std::size_t(2 * (g.row() + g.col() * d.size().rows()))));
        ++R.comparisons;
        if (!alike(t.get()({i, j}), w)) {
          std::ostringstream os;
          os << what << " holds " << t.get()({i, j}) << " at (" << g.row() << ", " << g.col() << ") and should hold " << w << " : " << ctx;
          R.ok(false, os.str());
          return;
        }
      }
  }
}

std::string quoted(const std::string& s) {
  std::string q = "\"";
  for (char c : s)
    q += c == '\n' ? std::string("\\n") : c == '"' ? std::string("\\\"") : std::string(1, c);
  return q + "\"";
}

template <class T>
void run(const Behaviour& b, comm::CommunicatorGrid& g, const std::string& tag, bool printing, const std::string& ctx) {
  constexpr int comps = isComplex_v<T> ? 2 : 1;
  const int rank = vrt::rank();
  const long long me = g.rank().row() * b.Q + g.rank().col();
  std::vector<Matrix<T, D>> mats;
  std::vector<std::pair<int, std::string>> sets;
  const std::string path[3] = {"", tag + "-all.h5", tag + "-one.h5"};
  std::optional<FileHDF5> file[3];
  for (const auto& c : b.calls) {
    Reader in{c, 1};
    switch (c[0]) {
      case 20: {
        const auto d = in.dist(g);
        mats.emplace_back(d);
        const auto k = in.k;
        matrix::util::set(mats.back(), [&c, k, m = d.size().rows()](const GlobalElementIndex& ij) { return value<T>(&c.at(k + std::size_t(2 * (ij.row() + ij.col() * m)))); });
        break;
      }
      case 21: {
        auto& a = mats[std::size_t(c[1] - 1)];
        const auto& d = a.distribution();
        const GlobalElementIndex ij(c[2], c[3]);
        const auto t = d.global_tile_index(ij);
        if (d.rank_global_tile(t) == d.rank_index())
          ex::start_detached(a.readwrite(t) | dlaf::internal::transform(dlaf::internal::Policy<Backend::MC>(), [e = d.tile_element_index(ij), v = value<T>(&c[4])](const auto& tile) { tile(e) = v; }));
        break;
      }
      case 22: {
        auto& a = mats[std::size_t(c[1] - 1)];
        const int f = int(c[2]);
        in.k = 3;
        const auto want = in.slabs();
        const std::string name = "/set" + std::to_string(sets.size());
        sets.emplace_back(f, name);
        if (f == 1 || rank == 0) {
          if (!file[f])
            f == 1 ? file[f].emplace(comm::Communicator(MPI_COMM_WORLD), path[f]) : file[f].emplace(path[f], FileHDF5::FileMode::readwrite);
          file[f]->write(a, name);
          file[f]->flush();
        }
        MPI_Barrier(MPI_COMM_WORLD);
        const auto& data = H5::shim::disk().files.at(path[f])->sets.at(name);
        // (a local matrix in the file of all processes is written by the first one of the communicator of the file)
        const bool local = matrix::local_matrix(a);
        same_slabs(data.log, 0, rank, true, local && rank == 0 ? 0 : local ? -1 : me, want, comps, ctx);
        if (rank == 0) {
          R.ok(long(data.creators.size()) == (f == 1 ? b.P * b.Q : 1), "processes that created the data set: " + ctx);
          const std::size_t m = std::size_t(a.size().rows()), n = std::size_t(a.size().cols());
          R.ok(data.dims == std::vector<hsize_t>{n, m, hsize_t(comps)}, "extent of the data set: " + ctx);
          R.ok(data.bytes.size() == m * n * sizeof(T), "size of the data set: " + ctx);
          const T* p = reinterpret_cast<const T*>(data.bytes.data());
          for (std::size_t e = 0; e < m * n && data.bytes.size() == m * n * sizeof(T); ++e)
            if (!R.ok(alike(p[e], value<T>(&c.at(in.k + 2 * e))), vf::cat("element", e % m, e / m, "of the data set is", p[e], "and should be", value<T>(&c.at(in.k + 2 * e)), ctx)))
              break;
        }
        break;
      }
      case 23: {
        MPI_Barrier(MPI_COMM_WORLD);
        const auto& [f, name] = sets[std::size_t(c[1] - 1)];
        auto& log = H5::shim::disk().files.at(path[f])->sets.at(name).log;
        in.k = 3;
        const bool dist = c[13];
        const auto d = in.dist(g);
        const auto want = in.slabs();
        const std::size_t from = log.size();
        std::optional<FileHDF5> fresh;
        if (c[2])
          fresh.emplace(path[f], FileHDF5::FileMode::readonly);
        const FileHDF5& src = c[2] ? *fresh : *file[f];
        mats.push_back(dist ? src.template read<T, D>(name, d.tile_size(), g, d.source_rank_index()) : src.template read<T, D>(name, d.tile_size()));
        R.ok(mats.back().distribution() == d, "distribution of the matrix that was read: " + ctx);
        same_slabs(log, from, rank, false, dist ? me : 0, want, comps, ctx);
        content(mats.back(), c, in.k, "the matrix that was read", ctx);
        break;
      }
      case 24: {
        auto& a = mats[std::size_t(c[1] - 1)];
        const GlobalElementIndex origin(c[2], c[3]);
        const GlobalElementSize size(c[4], c[5]);
        in.k = 6;
        const auto want = in.slabs();
        std::ostringstream np, csv;
        Matrix<const T, D>& ca = a;
        const bool whole = size == a.size();
        if (whole) {
          matrix::print(format::numpy{}, "a", ca, np);
          matrix::print(format::csv{}, "name", ca, csv);
        }
        else {
          matrix::internal::MatrixRef<const T, D> sub(ca, {origin, size});
          matrix::print(format::numpy{}, "a", sub, np);
        }
        if (printing) {
          std::string s = vf::cat("{\"seed\":", b.seed, ", \"m\":", size.rows(), ", \"n\":", size.cols(), ", \"complex\":", comps - 1, ", \"local\":", int(whole && matrix::local_matrix(a)));
          s += ", \"mine\": [";
          bool first = true;
          for (const auto& x : want)
            if (x.who == (matrix::local_matrix(a) ? 0 : me)) {
              s += vf::cat(first ? "" : ",", "[", x.r, ",", x.c, ",", x.h, ",", x.w, "]");
              first = false;
            }
          s += "], \"values\": [";
          for (std::size_t k = in.k; k < c.size(); ++k)
            s += (k > in.k ? "," : "") + std::to_string(c[k]);
          s += "], \"numpy\": " + quoted(np.str()) + ", \"csv\": " + quoted(csv.str()) + "}\n";
          std::fputs(s.c_str(), texts);
        }
        break;
      }
      default:
        std::fprintf(stderr, "unknown call %lld\n", c[0]);
        std::exit(3);
    }
  }
  MPI_Barrier(MPI_COMM_WORLD);
}

// what a routine writes when asked to keep a record of its work: what it was given, and what it gave
template <class T>
void record(int which, blas::Uplo uplo, SizeType n, SizeType nb) {
  H5::shim::disk().files.clear();
  comm::CommunicatorGrid g(comm::Communicator(MPI_COMM_WORLD), 1, 1, common::Ordering::RowMajor);
  Matrix<T, D> a(matrix::Distribution(GlobalElementSize(n, n), TileElementSize(nb, nb), g.size(), g.rank(), comm::Index2D(0, 0)));
  const auto at = [n](const GlobalElementIndex& ij) { return ij.row() == ij.col() ? T(BaseType<T>(2 * n + 1)) : T(BaseType<T>((ij.row() * ij.col()) % 3) - 1); };
  matrix::util::set(a, at);
  auto& p = getTuneParameters();
  p.debug_dump_cholesky_factorization_data = p.debug_dump_triangular_inverse_data = p.debug_dump_inverse_from_cholesky_factor_data = true;
  const char* out[3] = {"/cholesky", "/triangular_inverse", "/inverse_from_cholesky_factor"};
  switch (which) {
    case 0:
      cholesky_factorization<Backend::MC, D, T>(g, uplo, a);
      break;
    case 1:
      triangular_inverse<Backend::MC, D, T>(g, uplo, blas::Diag::NonUnit, a);
      break;
    default:
      inverse_from_cholesky_factor<Backend::MC, D, T>(g, uplo, a);
  }
  p.debug_dump_cholesky_factorization_data = p.debug_dump_triangular_inverse_data = p.debug_dump_inverse_from_cholesky_factor_data = false;
  const std::string ctx = vf::cat("record of routine", which, "triangle", char(uplo), "order", n, "tiles", nb, "type", matrix::internal::TypeToString_v<T>);
  // (the upper factorisation keeps no record)
  if (which == 0 && uplo == blas::Uplo::Upper) {
    R.ok(H5::shim::disk().files.size() <= 1, "files: " + ctx);
    return;
  }
  // (the inverse from the factor inverts the factor first, which keeps a record of its own)
  auto& files = H5::shim::disk().files;
  if (!R.ok(files.size() == (which == 2 ? 2u : 1u), "files: " + ctx))
    return;
  const auto values = [n](const auto& set) {
    const T* p = reinterpret_cast<const T*>(set.bytes.data());
    return std::vector<T>(p, p + std::min<std::size_t>(std::size_t(n * n), set.bytes.size() / sizeof(T)));
  };
  std::vector<T> given, result, previous;
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < n; ++i) {
      given.push_back(at({i, j}));
      auto t = tt::sync_wait(a.read(GlobalTileIndex(i / nb, j / nb)));
      result.push_back(t.get()({i % nb, j % nb}));
    }
  for (int step = which == 2 ? 1 : which; step <= which; ++step) {
    decltype(files.begin()->second) file;
    for (auto& [name, f] : files)
      if (f->sets.count(out[step]))
        file = f;
    if (!R.ok(file && file->sets.size() == 2 && file->sets.count("/input"), "data sets: " + ctx))
      return;
    const auto before = values(file->sets.at("/input")), after = values(file->sets.at(out[step]));
    R.ok(before == (previous.empty() ? given : previous), "recorded input: " + ctx);
    R.ok(step < which || after == result, "recorded result: " + ctx);
    previous = after;
  }
}

template <class T>
bool refused(const std::function<void(Matrix<T, D>&, comm::CommunicatorGrid&)>& f, bool dist) {
  return vf::dies([&] {
    vrt::Options o;
    o.ranks = dist ? 2 : 1;
    vrt::run(o, [&](int) {
      comm::CommunicatorGrid g(comm::Communicator(MPI_COMM_WORLD), dist ? 2 : 1, 1, common::Ordering::RowMajor);
      Matrix<T, D> a(matrix::Distribution(GlobalElementSize(4, 3), TileElementSize(2, 2), g.size(), g.rank(), comm::Index2D(0, 0)));
      matrix::util::set(a, [](const GlobalElementIndex& ij) { return T(BaseType<T>(ij.row() + ij.col())); });
      f(a, g);
      MPI_Barrier(MPI_COMM_WORLD);
    });
  });
}
// a data set of S is not taken for one of T
template <class S, class T>
void mismatch(bool dist) {
  const auto go = [dist](Matrix<S, D>& a, comm::CommunicatorGrid& g) {
    FileHDF5 f(comm::Communicator(MPI_COMM_WORLD), "types.h5");
    f.write(a, "/a");
    MPI_Barrier(MPI_COMM_WORLD);
    if (dist)
      f.read<T, D>("/a", TileElementSize(2, 2), g, comm::Index2D(0, 0));
    else
      f.read<T, D>("/a", TileElementSize(2, 2));
  };
  const bool same = std::is_same_v<S, T>;
  R.ok(refused<S>(go, dist) != same, vf::cat("a data set of type", matrix::internal::TypeToString_v<S>, same ? "refused" : "accepted", "as one of type", matrix::internal::TypeToString_v<T>));
}

int main(int argc, char** argv) {
  if (argc < 5)
    return 3;
  const long seed = std::atol(argv[2]), schedules = std::atol(argv[3]);
  texts = std::fopen(argv[4], "w");
  const char* av[] = {"p39"};
  dlaf::initialize(1, av);
  long runs = 0;
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    if (l.kind != "I" || R.mismatches > 20)
      return;
    const Behaviour b = parse(l);
    ++R.cases;
    for (long k = 0; k < schedules; ++k) {
      vrt::Options o;
      o.seed = std::uint64_t(seed * 1000003 + b.seed * 101 + k);
      o.ranks = int(b.P * b.Q);
      vrt::context = vf::cat("schedule", o.seed, b.text);
      ++runs;
      H5::shim::disk() = {};
      vrt::run(o, [&](int) {
        comm::CommunicatorGrid g(comm::Communicator(MPI_COMM_WORLD), int(b.P), int(b.Q), b.seed % 2 ? common::Ordering::RowMajor : common::Ordering::ColumnMajor);
        const std::string tag = std::to_string(o.seed);
        switch (b.type) {
          case 0: return run<float>(b, g, tag, k == 0, vrt::context);
          case 1: return run<double>(b, g, tag, k == 0, vrt::context);
          case 2: return run<std::complex<float>>(b, g, tag, k == 0, vrt::context);
          default: return run<std::complex<double>>(b, g, tag, k == 0, vrt::context);
        }
      });
    }
  });
  std::fclose(texts);
  vrt::context = "refusals and records";
  H5::shim::disk() = {};
  if (seed >= 0) {
    using C = std::complex<float>;
    using Z = std::complex<double>;
    for (bool dist : {false, true}) {
      mismatch<float, float>(dist), mismatch<double, double>(dist), mismatch<C, C>(dist), mismatch<Z, Z>(dist);
      mismatch<float, double>(dist), mismatch<double, float>(dist), mismatch<C, Z>(dist), mismatch<Z, C>(dist);
      mismatch<float, C>(dist), mismatch<double, Z>(dist), mismatch<C, float>(dist), mismatch<Z, double>(dist);
    }
    for (bool dist : {false, true})
      R.ok(refused<double>([](Matrix<double, D>& a, comm::CommunicatorGrid& g) {
             FileHDF5 f("one" + std::to_string(g.rank().row()) + ".h5", FileHDF5::FileMode::readwrite);
             f.write(a, "/a");
           }, dist) == dist, dist ? "distributed matrix accepted by the file of one process" : "local matrix refused by the file of one process");
    for (int which = 0; which < 3; ++which)
      for (auto uplo : {blas::Uplo::Lower, blas::Uplo::Upper})
        for (SizeType n : {1, 4, 7})
          for (long s = 0; s < 4; ++s) {
            vrt::Options o;
            o.seed = std::uint64_t(seed * 31 + s);
            vrt::run(o, [&](int) { s % 2 ? record<double>(which, uplo, n, 2 + s / 2) : record<Z>(which, uplo, n, 2 + s / 2); });
          }
  }
  dlaf::finalize();
  R.extra["runs"] = runs;
  return R.done();
}
