// Replays behaviours of spec/TileKernels.tla into the kernels on tiles.
// Usage: p40 <behaviours> <seed> <schedules per behaviour>
#include <sys/mman.h>

#include <complex>
#include <cstdlib>

#include <dlaf/blas/tile.h>
#include <dlaf/blas/tile_extensions.h>
#include <dlaf/init.h>
#include <dlaf/lapack/tile.h>
#include <dlaf/lapack/tile_extensions.h>
#include <dlaf/matrix/tile.h>
#include <dlaf/memory/memory_view.h>
#include <dlaf/sender/policy.h>
#include <vrt.h>

#include "common.h"
using namespace dlaf;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
constexpr auto D = Device::CPU;
vf::Report R;
long runs = 0;

struct Cell {
  long long re, im;
};
struct Rect {
  long long r, c, h, w;
};
struct Patch {
  Rect at;
  std::vector<Cell> v;  // column by column
};
struct Call {
  long long op;
  std::vector<Patch> plants, outs;
  std::vector<long long> flags, scal;
  std::vector<Rect> rects, loose;
  bool fits;
};
struct Behaviour {
  long long seed, type, rows, cols;
  std::vector<Call> calls;
};

Behaviour parse(const vf::Line& l) {
  std::size_t k = 0;
  auto next = [&] { return l.v.at(k++); };
  auto rect = [&] {
    Rect r;
    r.r = next();
    r.c = next();
    r.h = next();
    r.w = next();
    return r;
  };
  auto patches = [&](std::vector<Patch>& ps) {
    ps.resize(std::size_t(next()));
    for (auto& p : ps) {
      p.at = rect();
      p.v.resize(std::size_t(p.at.h * p.at.w));
      for (auto& x : p.v) {
        x.re = next();
        x.im = next();
      }
    }
  };
  auto numbers = [&](std::vector<long long>& v) {
    v.resize(std::size_t(next()));
    for (auto& x : v)
      x = next();
  };
  auto rects = [&](std::vector<Rect>& v) {
    v.resize(std::size_t(next()));
    for (auto& x : v)
      x = rect();
  };
  Behaviour b;
  b.seed = next();
  b.type = next();
  b.rows = next();
  b.cols = next();
  b.calls.resize(std::size_t(next()));
  for (auto& c : b.calls) {
    const auto len = std::size_t(next());
    const auto end = k + len;
    c.op = next();
    patches(c.plants);
    numbers(c.flags);
    rects(c.rects);
    c.fits = next();
    patches(c.outs);
    numbers(c.scal);
    rects(c.loose);
    if (k != end) {
      std::fprintf(stderr, "bad call %lld of behaviour %lld\n", c.op, b.seed);
      std::exit(3);
    }
  }
  return b;
}

template <class T>
T number(long long re, long long im) {
  if constexpr (isComplex_v<T>)
    return T(BaseType<T>(re), BaseType<T>(im));
  else
    return T(re);
}

const char* NAMES[] = {"", "gemm", "hemm", "her2k", "herk", "trmm", "trmm3", "trsm", "add", "scal", "lacpy", "lacpy of a region", "lange", "lantr", "laset", "set0", "lauum", "lauum_workspace", "trtri", "trtri_workspace", "trtri_info", "potrf", "potrfInfo", "hegst", "scaleCol", "stedc"};

template <class T>
void run(const Behaviour& b, std::uint64_t salt) {
  using B = BaseType<T>;
  const long long ld = b.rows + (long long) (salt % 3);
  const std::size_t count = std::size_t(ld * b.cols);
  // memory seen by both, so that what a refused call did can be told as well
  T* mem = static_cast<T*>(mmap(nullptr, count * sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<T> want(count);
  for (std::size_t i = 0; i < count; ++i)
    want[i] = mem[i] = long(i) % ld < b.rows ? T(0) : T(B(77));
  const TileElementSize whole(b.rows, b.cols);
  const matrix::Tile<T, D> rw(whole, memory::MemoryView<T, D>(mem, SizeType(count)), ld);
  const matrix::Tile<const T, D> ro(whole, memory::MemoryView<T, D>(mem, SizeType(count)), ld);
  const auto spec = [](const Rect& r) { return matrix::SubTileSpec{{r.r, r.c}, {r.h, r.w}}; };
  const auto put = [&](T* m, const Patch& p) {
    std::size_t k = 0;
    for (long long j = 0; j < p.at.w; ++j)
      for (long long i = 0; i < p.at.h; ++i, ++k)
        m[std::size_t(p.at.r + i + (p.at.c + j) * ld)] = number<T>(p.v[k].re, p.v[k].im);
  };
  const dlaf::internal::Policy<Backend::MC> policy;
  std::uint64_t r = salt;
  for (std::size_t n = 0; n < b.calls.size(); ++n) {
    const Call& c = b.calls[n];
    r = r * 6364136223846793005ull + 1442695040888963407ull;
    int mode = c.fits ? int((r >> 33) % 3) : 0;
    for (const auto& p : c.plants) {
      put(mem, p);
      put(want.data(), p);
    }
    const auto& f = c.flags;
    auto in = [&](std::size_t i) { return ro.subTileReference(spec(c.rects.at(i))); };
    auto out = [&](std::size_t i) { return rw.subTileReference(spec(c.rects.at(i))); };
    const auto op = [](long long o) { return o == 0 ? blas::Op::NoTrans : o == 1 ? blas::Op::Trans : blas::Op::ConjTrans; };
    const auto side = [](long long o) { return o == 0 ? blas::Side::Left : blas::Side::Right; };
    const auto uplo = [](long long o) { return o == 0 ? blas::Uplo::Lower : o == 1 ? blas::Uplo::Upper : blas::Uplo::General; };
    const auto diag = [](long long o) { return o == 0 ? blas::Diag::NonUnit : blas::Diag::Unit; };
    const auto norm = [](long long o) { return o == 0 ? lapack::Norm::Max : o == 1 ? lapack::Norm::One : o == 2 ? lapack::Norm::Inf : lapack::Norm::Fro; };
    const auto x = [&](std::size_t i) { return number<T>(f.at(i), f.at(i + 1)); };
    std::vector<double> scal;
#define KERNEL(name, ...)                                               \
  do {                                                                  \
    if (mode == 0)                                                      \
      tile::internal::name(__VA_ARGS__);                                \
    else if (mode == 1)                                                 \
      tt::sync_wait(ex::just(__VA_ARGS__) | tile::name(policy));        \
    else                                                                \
      tile::name(policy, __VA_ARGS__);                                  \
  } while (0)
#define VALUE(name, ...)                                                             \
  do {                                                                               \
    if (mode == 0)                                                                   \
      scal.push_back(double(tile::internal::name(__VA_ARGS__)));                     \
    else                                                                             \
      scal.push_back(double(tt::sync_wait(tile::name(policy, ex::just(__VA_ARGS__))))); \
  } while (0)
    auto go = [&] {
      switch (c.op) {
        case 1: KERNEL(gemm, op(f[0]), op(f[1]), x(2), in(0), in(1), x(4), out(2)); break;
        case 2: KERNEL(hemm, side(f[0]), uplo(f[1]), x(2), in(0), in(1), x(4), out(2)); break;
        case 3: KERNEL(her2k, uplo(f[0]), op(f[1]), x(2), in(0), in(1), B(f[4]), out(2)); break;
        case 4: KERNEL(herk, uplo(f[0]), op(f[1]), B(f[2]), in(0), B(f[4]), out(1)); break;
        case 5: KERNEL(trmm, side(f[0]), uplo(f[1]), op(f[2]), diag(f[3]), x(4), in(0), out(1)); break;
        case 6: KERNEL(trmm3, side(f[0]), uplo(f[1]), op(f[2]), diag(f[3]), x(4), in(0), in(1), out(2)); break;
        case 7: KERNEL(trsm, side(f[0]), uplo(f[1]), op(f[2]), diag(f[3]), x(4), in(0), out(1)); break;
        case 8: KERNEL(add, x(0), in(0), out(1)); break;
        case 9: KERNEL(scal, x(0), out(0)); break;
        case 10: tile::lacpy(in(0), out(1)); break;
        case 11: tile::lacpy(TileElementSize(f[0], f[1]), TileElementIndex(f[2], f[3]), in(0), TileElementIndex(f[4], f[5]), out(1)); break;
        case 12: VALUE(lange, norm(f[0]), out(0)); break;
        case 13: VALUE(lantr, norm(f[0]), uplo(f[1]), diag(f[2]), out(0)); break;
        case 14: KERNEL(laset, uplo(f[0]), x(1), x(3), out(0)); break;
        case 15:
          if (mode == 0)
            tile::internal::set0(out(0));
          else
            tt::sync_wait(ex::just(out(0)) | tile::set0(policy));
          break;
        case 16: KERNEL(lauum, uplo(f[0]), out(0)); break;
        case 17: KERNEL(lauum_workspace, uplo(f[0]), out(0), out(1)); break;
        case 18: KERNEL(trtri, uplo(f[0]), diag(f[1]), out(0)); break;
        case 19: KERNEL(trtri_workspace, uplo(f[0]), diag(f[1]), out(0), out(1)); break;
        case 20: VALUE(trtri_info, uplo(f[0]), diag(f[1]), out(0)); break;
        case 21: KERNEL(potrf, uplo(f[0]), out(0)); break;
        case 22: VALUE(potrfInfo, uplo(f[0]), out(0)); break;
        case 23: KERNEL(hegst, int(f[0]), uplo(f[1]), out(0), out(1)); break;
        case 24: KERNEL(scaleCol, x(1), SizeType(f[0]), out(0)); break;
        case 25:
          if constexpr (!isComplex_v<T>)
            KERNEL(stedc, out(0), out(1));
          break;
        default:
          std::fprintf(stderr, "unknown kernel %lld\n", c.op);
          std::exit(3);
      }
    };
    std::string ctx = vf::cat(NAMES[c.op], "(call", n, "of behaviour", b.seed, "type", "sdcz"[b.type], mode == 0 ? "called directly" : mode == 1 ? "after a sender" : "with a policy", ") flags");
    for (auto v : f)
      ctx += std::to_string(v) + " ";
    for (const auto& q : c.rects)
      ctx += vf::cat("tile", q.h, "x", q.w);
    if (!c.fits) {
      if (!R.ok(vf::dies(go), "accepted operands that do not fit: " + ctx))
        break;
    }
    else {
      vrt::context = ctx;
      go();
      for (const auto& p : c.outs)
        put(want.data(), p);
      for (const auto& q : c.loose)
        for (long long j = 0; j < q.w; ++j)
          for (long long i = 0; i < q.h; ++i)
            mem[std::size_t(q.r + i + (q.c + j) * ld)] = want[std::size_t(q.r + i + (q.c + j) * ld)] = T(0);
      R.ok(scal.size() == c.scal.size(), "number of results: " + ctx);
      for (std::size_t i = 0; i < scal.size() && i < c.scal.size(); ++i)
        R.eq(scal[i], double(c.scal[i]), "result of " + ctx);
    }
    bool good = true;
    for (std::size_t i = 0; i < count && good; ++i) {
      ++R.comparisons;
      if (mem[i] != want[i]) {
        std::ostringstream os;
        os << ctx << "left " << mem[i] << " at (" << long(i) % ld << ", " << long(i) / ld << ") of the memory, and should have left " << want[i];
        good = R.ok(false, os.str());
      }
    }
    if (!good)
      break;
  }
  munmap(mem, count * sizeof(T));
}

int main(int argc, char** argv) {
  if (argc < 4)
    return 3;
  const long seed = std::atol(argv[2]), schedules = std::atol(argv[3]);
  const char* av[] = {"p40"};
  dlaf::initialize(1, av);
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    if (l.kind != "K" || R.mismatches > 20)
      return;
    const Behaviour b = parse(l);
    ++R.cases;
    for (long k = 0; k < schedules; ++k) {
      vrt::Options o;
      o.seed = std::uint64_t(seed * 1000003 + b.seed * 101 + k);
      o.ranks = 1;
      ++runs;
      vrt::run(o, [&](int) {
        const auto salt = o.seed * 2654435761u + 12345;
        switch (b.type) {
          case 0: return run<float>(b, salt);
          case 1: return run<double>(b, salt);
          case 2: return run<std::complex<float>>(b, salt);
          default: return run<std::complex<double>>(b, salt);
        }
      });
    }
  });
  dlaf::finalize();
  R.extra["runs"] = runs;
  return R.done();
}
