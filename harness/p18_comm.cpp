// Replays the programs of spec/Communications.tla on tiles of simulated processes under random schedules.
// Usage: p18 <programs> <seed> <schedules per program>
#include <complex>
#include <memory>
#include <optional>

#include <dlaf/communication/communicator_grid.h>
#include <dlaf/communication/kernels/all_reduce.h>
#include <dlaf/communication/kernels/broadcast.h>
#include <dlaf/communication/kernels/p2p.h>
#include <dlaf/communication/kernels/p2p_allsum.h>
#include <dlaf/communication/kernels/reduce.h>
#include <dlaf/matrix/allocation.h>
#include <dlaf/matrix/matrix.h>
#include <vrt.h>

#include "common.h"
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
using namespace dlaf;
using namespace dlaf::matrix;
static vf::Report R;
constexpr Device D = Device::CPU;

struct Op {
  long kind, comm, group, a, b, x, y, op, chain, v;
};
struct Program {
  long seed, P, Q, cplx, n;
  std::vector<Op> ops;
  std::vector<long> first, last, looks;
  std::string text;
};
static Program parse(const vf::Line& l) {
  Program p{};
  std::size_t k = 0;
  auto next = [&] { return long(l.v.at(k++)); };
  for (long* q : {&p.seed, &p.P, &p.Q, &p.cplx, &p.n})
    *q = next();
  p.text = vf::cat("program", p.seed, "grid", p.P, p.Q, p.cplx ? "complex" : "real");
  for (long i = 0; i < p.n; ++i) {
    Op o{};
    for (long* q : {&o.kind, &o.comm, &o.group, &o.a, &o.b, &o.x, &o.y, &o.op, &o.chain, &o.v})
      *q = next();
    p.text += vf::cat(" |", o.kind, "comm", o.comm, o.group, "members", o.a, o.b, "tiles", o.x, o.y, "op", o.op, "chain", o.chain, o.v);
    p.ops.push_back(o);
  }
  for (auto* t : {&p.first, &p.last})
    for (long i = 0; i < 4 * p.P * p.Q; ++i)
      t->push_back(next());
  const long nl = next();
  for (long i = 0; i < nl; ++i)
    p.looks.push_back(next());
  if (k != l.v.size()) {
    std::fprintf(stderr, "bad program: %zu of %zu\n", k, l.v.size());
    std::exit(3);
  }
  return p;
}

template <class T>
struct World {
  const Program& p;
  const std::string& ctx;
  std::uint64_t rng;
  unsigned rnd() {
    rng = rng * 6364136223846793005ull + 1442695040888963407ull;
    return unsigned(rng >> 33);
  }
  static T el(long v, SizeType i, SizeType j, SizeType rows) {
    const long k = 1 + i + rows * j;
    if constexpr (isComplex_v<T>)
      return T(BaseType<T>(v * k), BaseType<T>(-v * (k + 1)));
    else
      return T(v * k);
  }
  static void set(const Tile<T, D>& t, long v) {
    for (SizeType j = 0; j < t.size().cols(); ++j)
      for (SizeType i = 0; i < t.size().rows(); ++i)
        t({i, j}) = el(v, i, j, t.size().rows());
  }
  static void add(const Tile<T, D>& t, long v) {
    for (SizeType j = 0; j < t.size().cols(); ++j)
      for (SizeType i = 0; i < t.size().rows(); ++i)
        t({i, j}) += el(v, i, j, t.size().rows());
  }
  void check(const Tile<const T, D>& t, long v, const std::string& what) {
    for (SizeType j = 0; j < t.size().cols(); ++j)
      for (SizeType i = 0; i < t.size().rows(); ++i)
        if (!R.ok(t({i, j}) == el(v, i, j, t.size().rows()), vf::cat(what, "element", i, j, "is", t({i, j}), "and should be", el(v, i, j, t.size().rows()), ctx)))
          return;
  }
  // pipelines of one kind, with sub-pipelines opened and closed at will
  template <class P>
  struct Line {
    P base;
    std::optional<P> sub;
    P& get(unsigned r) {
      if (sub && r % 3 == 0)
        sub.reset();
      if (!sub && (r / 3) % 4 == 0)
        sub.emplace(base.sub_pipeline());
      return sub ? *sub : base;
    }
  };
  template <class S>
  static void follow(S s, long chain) {
    if (chain)
      ex::start_detached(std::move(s) | ex::then([](Tile<T, D> t) { add(t, 1); }));
    else
      ex::start_detached(std::move(s));
  }

  template <class Pipe, class At>
  void remote(const Op& o, Pipe& pipe, At at, long k) {
    const MPI_Op ops[] = {MPI_SUM, MPI_MAX, MPI_MIN};
    const MPI_Op op = ops[o.op];
    const long me = pipe.rank();
    switch (o.kind) {
      case 1:
        if (me == o.a)
          ex::start_detached(comm::schedule_bcast_send(pipe.exclusive(), at(o.x).first->read(at(o.x).second)));
        else
          follow(comm::schedule_bcast_recv(pipe.exclusive(), comm::IndexT_MPI(o.a), at(o.y).first->readwrite(at(o.y).second)), o.chain);
        break;
      case 2:
        if (me == o.a)
          follow(comm::schedule_reduce_recv_in_place(pipe.exclusive(), op, at(o.x).first->readwrite(at(o.x).second)), o.chain);
        else
          ex::start_detached(comm::schedule_reduce_send(pipe.exclusive(), comm::IndexT_MPI(o.a), op, at(o.y).first->read(at(o.y).second)));
        break;
      case 3:
        follow(comm::scheduleAllReduce(pipe.exclusive(), op, at(o.x).first->read(at(o.x).second), at(o.y).first->readwrite(at(o.y).second)), o.chain);
        break;
      case 4:
        follow(comm::schedule_all_reduce_in_place(pipe.exclusive(), op, at(o.x).first->readwrite(at(o.x).second)), o.chain);
        break;
      case 5: {
        const auto tag = comm::IndexT_MPI(o.v ? k + 1 : 0);
        if (me == o.a) {
          if (o.v)
            ex::start_detached(comm::schedule_send(pipe.shared(), comm::IndexT_MPI(o.b), tag, at(o.x).first->read(at(o.x).second)));
          else
            ex::start_detached(comm::schedule_send(pipe.exclusive(), comm::IndexT_MPI(o.b), tag, at(o.x).first->read(at(o.x).second)));
        }
        else if (me == o.b) {
          if (o.v)
            follow(comm::schedule_recv(pipe.shared(), comm::IndexT_MPI(o.a), tag, at(o.y).first->readwrite(at(o.y).second)), o.chain);
          else
            follow(comm::schedule_recv(pipe.exclusive(), comm::IndexT_MPI(o.a), tag, at(o.y).first->readwrite(at(o.y).second)), o.chain);
        }
        break;
      }
      case 6:
        if (me == o.a || me == o.b)
          ex::start_detached(comm::schedule_sum_p2p<Backend::MC>(pipe.shared(), comm::IndexT_MPI(me == o.a ? o.b : o.a), comm::IndexT_MPI(k + 1), at(o.x).first->read(at(o.x).second), at(o.y).first->readwrite(at(o.y).second)));
        break;
    }
  }

  void go(comm::CommunicatorGrid& grid) {
    using CT = comm::CommunicatorType;
    const long i = grid.rank().row(), j = grid.rank().col(), me = i * p.Q + j;
    const long lay = (p.seed + me) % 3;
    const auto layout = lay == 0 ? AllocationLayout::ColMajor : lay == 1 ? AllocationLayout::Blocks : AllocationLayout::Tiles;
    // two matrices of two tiles each; another row or column of tiles makes the tiles non-contiguous in column major storage
    const TileElementSize s12(1 + p.seed % 3, 1 + (p.seed / 3) % 4), s34(1 + (p.seed / 7) % 3, 1 + (p.seed / 11) % 3);
    auto make = [&](TileElementSize s) { return std::make_unique<Matrix<T, D>>(Distribution(LocalElementSize(2 * s.rows(), s.cols()), s), AllocationSpec(layout, Ld::Compact)); };
    auto m12 = make(s12), m34 = make(s34);
    auto at = [&](long x) { return std::pair(x <= 2 ? m12.get() : m34.get(), LocalTileIndex((x - 1) % 2, 0)); };
    for (long x = 1; x <= 4; ++x)
      ex::start_detached(at(x).first->readwrite(at(x).second) | ex::then([v = p.first[std::size_t(4 * me + x - 1)]](Tile<T, D> t) { set(t, v); }));
    Line<comm::CommunicatorPipeline<CT::Full>> full[2]{{grid.full_communicator_pipeline(), {}}, {grid.full_communicator_pipeline(), {}}};
    Line<comm::CommunicatorPipeline<CT::Row>> row[2]{{grid.row_communicator_pipeline(), {}}, {grid.row_communicator_pipeline(), {}}};
    Line<comm::CommunicatorPipeline<CT::Col>> col[2]{{grid.col_communicator_pipeline(), {}}, {grid.col_communicator_pipeline(), {}}};
    long k = 0;
    std::size_t look = 0;
    long looked = 0, due = 0;
    for (const auto& o : p.ops) {
      ++k;
      const long v9 = o.kind == 9 ? p.looks.at(look++) : 0;
      if (o.kind <= 6) {
        if (o.comm <= 1)
          remote(o, full[o.comm].get(rnd()), at, k);
        else if (o.comm <= 3 && o.group == i)
          remote(o, row[o.comm - 2].get(rnd()), at, k);
        else if (o.comm >= 4 && o.group == j)
          remote(o, col[o.comm - 4].get(rnd()), at, k);
        continue;
      }
      if (o.a != me)
        continue;
      auto [m, ij] = at(o.x);
      if (o.kind == 7)
        ex::start_detached(m->readwrite(ij) | ex::then([v = o.v](Tile<T, D> t) { add(t, v); }));
      else if (o.kind == 10)
        ex::start_detached(m->readwrite(ij) | ex::then([v = o.v](Tile<T, D> t) { set(t, v); }));
      else if (o.kind == 8)
        ex::start_detached(ex::when_all(m->read(ij), at(o.y).first->readwrite(at(o.y).second)) | ex::then([](auto a, Tile<T, D> t) {
                             for (SizeType c = 0; c < t.size().cols(); ++c)
                               for (SizeType r = 0; r < t.size().rows(); ++r)
                                 t({r, c}) = a.get()({r, c});
                           }));
      else {
        ++due;
        ex::start_detached(m->read(ij) | ex::then([&, v9, k](auto a) {
                             ++looked;
                             check(a.get(), v9, vf::cat("seen in step", k, ":"));
                           }));
      }
    }
    for (auto& l : full)
      l.sub.reset();
    for (auto& l : row)
      l.sub.reset();
    for (auto& l : col)
      l.sub.reset();
    for (long x = 1; x <= 4; ++x)
      check(tt::sync_wait(at(x).first->read(at(x).second)).get(), p.last[std::size_t(4 * me + x - 1)], vf::cat("tile", x, "of process", i, j, "in the end:"));
    vrt::wait_idle();
    R.eq(looked, due, "looks " + ctx);
  }
};

int main(int argc, char** argv) {
  if (argc < 4)
    return 3;
  const long seed = std::atol(argv[2]), schedules = std::atol(argv[3]);
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    if (l.kind != "C" || R.mismatches > 20)
      return;
    const Program p = parse(l);
    ++R.cases;
    for (long k = 0; k < schedules; ++k) {
      vrt::Options o;
      o.seed = std::uint64_t(seed * 1000003 + p.seed * 101 + k);
      o.ranks = int(p.P * p.Q);
      vrt::context = vf::cat("schedule", o.seed, p.text);
      const auto live0 = umpire::vshim::get().live.size();
      vrt::run(o, [&](int r) {
        comm::CommunicatorGrid grid(comm::Communicator(MPI_COMM_WORLD), int(p.P), int(p.Q), p.seed % 2 ? common::Ordering::RowMajor : common::Ordering::ColumnMajor, 2);
        const auto s = o.seed * 64 + unsigned(r);
        if (p.cplx)
          World<std::complex<double>>{p, vrt::context, s}.go(grid);
        else if ((p.seed + k) % 2)
          World<float>{p, vrt::context, s}.go(grid);
        else
          World<double>{p, vrt::context, s}.go(grid);
      });
      R.eq(umpire::vshim::get().live.size(), live0, "allocations left: " + vrt::context);
    }
  });
  R.extra["runs"] = vrt::stats.runs;
  R.extra["tasks"] = vrt::stats.tasks;
  R.extra["messages"] = vrt::stats.messages + vrt::stats.collectives;
  return R.done();
}
