// Replays the rounds of spec/PanelBroadcast.tla on panels of simulated processes under random schedules.
// Usage: p20 <behaviours> <seed> <schedules per behaviour>
#include <complex>
#include <memory>

#include <dlaf/communication/broadcast_panel.h>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/panel.h>
#include <vrt.h>

#include "common.h"
namespace ex = pika::execution::experimental;
using namespace dlaf;
using namespace dlaf::matrix;
static vf::Report R;
constexpr Device D = Device::CPU;

struct Seen {
  SizeType local;
  long id;
  SizeType size;
};
struct Round {
  long ws, a, cut, b, two, aT, bT, root, dim, ext;
  std::vector<std::vector<Seen>> panel, panelT;  // by seat
};
struct Behaviour {
  long seed, axis, n, B, P, Q, S, ST, bias;
  std::vector<Round> rounds;
  std::string text;
};
static Behaviour parse(const vf::Line& l) {
  Behaviour b{};
  std::size_t k = 0;
  auto next = [&] { return long(l.v.at(k++)); };
  for (long* p : {&b.seed, &b.axis, &b.n, &b.B, &b.P, &b.Q, &b.S, &b.ST, &b.bias})
    *p = next();
  b.text = vf::cat("behaviour", b.seed, b.axis ? "row panel" : "column panel", "n", b.n, "B", b.B, "hands", b.P, b.Q, "first", b.S, b.ST, "from", b.bias);
  const long nr = next();
  for (long r = 0; r < nr; ++r) {
    Round d{};
    for (long* p : {&d.ws, &d.a, &d.cut, &d.b, &d.two, &d.aT, &d.bT, &d.root, &d.dim, &d.ext})
      *p = next();
    b.text += vf::cat(" | workspace", d.ws, "range", d.a, "+", d.cut, d.b, d.two ? "transposed" : "only", d.aT, d.bT, "root", d.root, "width", d.dim, "linked", d.ext);
    for (long z = 0; z < b.P * b.Q; ++z)
      for (auto* t : {&d.panel, &d.panelT}) {
        t->emplace_back();
        const long m = next();
        for (long i = 0; i < m; ++i) {
          Seen s;
          s.local = next();
          s.id = next();
          s.size = next();
          t->back().push_back(s);
        }
      }
    b.rounds.push_back(std::move(d));
  }
  if (k != l.v.size()) {
    std::fprintf(stderr, "bad behaviour: %zu of %zu\n", k, l.v.size());
    std::exit(3);
  }
  return b;
}
template <class T>
T value(long id, SizeType i, SizeType j) {
  if constexpr (isComplex_v<T>)
    return T(BaseType<T>(id * 64 + i), BaseType<T>(j + 1));
  else
    return T(id * 64 + i + 8 * j);
}
template <class T>
void fill(const Tile<T, D>& t, long id) {
  for (SizeType j = 0; j < t.size().cols(); ++j)
    for (SizeType i = 0; i < t.size().rows(); ++i)
      t({i, j}) = value<T>(id, i, j);
}

template <Coord axis, StoreTransposed ST, class T>
struct World {
  static constexpr Coord crd = orthogonal(axis);
  static constexpr StoreTransposed STT = ST == StoreTransposed::Yes ? StoreTransposed::No : StoreTransposed::Yes;
  using P1 = Panel<axis, T, D, ST>;
  using P2 = Panel<orthogonal(axis), T, D, STT>;
  const Behaviour& b;
  const std::string& ctx;

  // the shape of tiles of both panels
  static TileElementSize shape(SizeType along, SizeType across) {
    return ST == StoreTransposed::No ? TileElementSize(crd, along, across) : TileElementSize(axis, along, across);
  }
  template <class Pn>
  static void width(Pn& p, SizeType w) {
    if constexpr (Pn::coord == Coord::Row)
      p.setWidth(w);
    else
      p.setHeight(w);
  }
  template <Coord c, class Pn>
  static void range(Pn& p, long a, long cut, long e, SizeType B, bool fresh, bool whole, unsigned how) {
    const GlobalTileIndex A(c, a), E(c, e);
    if (cut > 0) {
      if (fresh && how % 2) {
        p.setRangeStart(GlobalElementIndex(c, a * B + cut));
        p.setRangeEnd(E);
      }
      else {
        p.setRange(A, E);
        p.setRangeStart(GlobalElementIndex(c, a * B + cut));
      }
      return;
    }
    if (fresh && whole && how % 3 == 0)
      p.setRangeStart(A);
    else
      p.setRange(A, E);
  }

  void go(comm::CommunicatorGrid& grid, bool late_reset) {
    const bool col = crd == Coord::Row;
    auto pr = [&](auto x, auto y) { return std::pair(col ? x : y, col ? y : x); };
    const auto [sm, sn] = pr(int(b.S), int(b.ST));
    Distribution dist(GlobalElementSize(b.n, b.n), TileElementSize(b.B, b.B), grid.size(), grid.rank(), comm::Index2D(sm, sn));
    auto row = grid.row_communicator_pipeline();
    auto colp = grid.col_communicator_pipeline();
    std::vector<std::unique_ptr<P1>> p;
    std::vector<std::unique_ptr<P2>> pT;
    for (int i = 0; i < 2; ++i) {
      p.push_back(std::make_unique<P1>(dist, GlobalTileIndex(crd, b.bias)));
      pT.push_back(std::make_unique<P2>(dist, GlobalTileIndex(axis, b.bias)));
    }
    const SizeType nt = (b.n + b.B - 1) / b.B;
    const long me = (col ? grid.rank().row() : grid.rank().col()) * b.Q + (col ? grid.rank().col() : grid.rank().row());
    const long mine = me % b.Q;
    long expected = 0, seen = 0;
    std::vector<std::unique_ptr<Matrix<T, D>>> ext;
    bool used[2] = {false, false}, seen_ws[2] = {false, false}, seenT[2] = {false, false};
    long k = 0;
    for (const auto& r : b.rounds) {
      ++k;
      auto& q = *p[std::size_t(r.ws)];
      auto& qT = *pT[std::size_t(r.ws)];
      if (used[r.ws]) {
        q.reset();
        qT.reset();
      }
      used[r.ws] = late_reset;
      const bool fresh = !seen_ws[r.ws], freshT = !seenT[r.ws];
      seen_ws[r.ws] = true;
      seenT[r.ws] |= r.two;
      range<crd>(q, r.a, r.cut, r.b, b.B, fresh, r.b == nt, unsigned(r.ext));
      if (r.dim > 0)
        width(q, r.dim);
      const SizeType across = r.dim > 0 ? r.dim : b.B;
      const auto& list = r.panel[std::size_t(me)];
      if (mine == r.root)
        for (const auto& s : list) {
          const TileElementSize ts = shape(s.size, across);
          if ((r.ext >> (s.local % 10)) & 1) {
            ext.push_back(std::make_unique<Matrix<T, D>>(LocalElementSize(ts.rows(), ts.cols()), ts));
            auto& m = *ext.back();
            ex::start_detached(m.readwrite(LocalTileIndex(0, 0)) | ex::then([id = s.id](Tile<T, D> t) { fill(t, id); }));
            q.setTile(LocalTileIndex(crd, s.local), m.read(LocalTileIndex(0, 0)));
            // whoever owns the tile goes on using it
            ex::start_detached(m.readwrite(LocalTileIndex(0, 0)) | ex::then([](Tile<T, D> t) { fill(t, 99999); }));
          }
          else
            ex::start_detached(q.readwrite(LocalTileIndex(crd, s.local)) | ex::then([id = s.id](Tile<T, D> t) { fill(t, id); }));
        }
      if (r.two) {
        range<axis>(qT, r.aT, r.aT == r.a ? r.cut : 0, r.bT, b.B, freshT, r.bT == nt, unsigned(r.ext / 2));
        if (r.dim > 0)
          width(qT, r.dim);
        comm::broadcast(comm::IndexT_MPI(r.root), q, qT, row, colp);
      }
      else if constexpr (axis == Coord::Col)
        comm::broadcast(comm::IndexT_MPI(r.root), q, row);
      else
        comm::broadcast(comm::IndexT_MPI(r.root), q, colp);
      auto look = [&](auto& pn, Coord c, const Seen& s, const char* what) {
        ++expected;
        ex::start_detached(pn.read(LocalTileIndex(c, s.local)) | ex::then([&, s, what, k, ts = shape(s.size, across)](auto w) {
                             ++seen;
                             const auto& t = w.get();
                             if (!R.eq(t.size(), ts, vf::cat("size of tile", s.local, "of the", what, "in round", k, ctx)))
                               return;
                             for (SizeType j = 0; j < t.size().cols(); ++j)
                               for (SizeType i = 0; i < t.size().rows(); ++i)
                                 if (!R.ok(t({i, j}) == value<T>(s.id, i, j), vf::cat("tile", s.local, "of the", what, "in round", k, "on process", grid.rank(), "element", i, j, "is", t({i, j}), "and should be", value<T>(s.id, i, j), ctx)))
                                   return;
                           }));
      };
      for (const auto& s : list)
        look(q, crd, s, "panel");
      for (const auto& s : r.panelT[std::size_t(me)])
        look(qT, axis, s, "transposed panel");
      R.eq(long(q.rangeEndLocal() - q.rangeStartLocal()), std::max(0L, long(list.size())), vf::cat("tiles of the panel in round", k, ctx));
      if (!late_reset) {
        q.reset();
        qT.reset();
      }
    }
    for (auto& x : p)
      x.reset();
    for (auto& x : pT)
      x.reset();
    vrt::wait_idle();
    R.eq(seen, expected, "reads that took place " + ctx);
  }
};

template <class T>
static void dispatch(const Behaviour& b, comm::CommunicatorGrid& grid, unsigned how) {
  const bool late = how % 2;
  switch (b.axis * 2 + (how / 2) % 2) {
    case 0: World<Coord::Col, StoreTransposed::No, T>{b, vrt::context}.go(grid, late); break;
    case 1: World<Coord::Col, StoreTransposed::Yes, T>{b, vrt::context}.go(grid, late); break;
    case 2: World<Coord::Row, StoreTransposed::No, T>{b, vrt::context}.go(grid, late); break;
    default: World<Coord::Row, StoreTransposed::Yes, T>{b, vrt::context}.go(grid, late); break;
  }
}
int main(int argc, char** argv) {
  if (argc < 4)
    return 3;
  const long seed = std::atol(argv[2]), schedules = std::atol(argv[3]);
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    if (l.kind != "B" || R.mismatches > 20)
      return;
    const Behaviour b = parse(l);
    ++R.cases;
    for (long k = 0; k < schedules; ++k) {
      vrt::Options o;
      o.seed = std::uint64_t(seed * 1000003 + b.seed * 101 + k);
      o.ranks = int(b.P * b.Q);
      vrt::context = vf::cat("schedule", o.seed, b.text);
      const auto live0 = umpire::vshim::get().live.size();
      vrt::run(o, [&](int) {
        comm::CommunicatorGrid grid(comm::Communicator(MPI_COMM_WORLD), int(b.axis ? b.Q : b.P), int(b.axis ? b.P : b.Q), b.seed % 2 ? common::Ordering::RowMajor : common::Ordering::ColumnMajor);
        (b.seed / 2) % 2 ? dispatch<double>(b, grid, unsigned(b.seed + k)) : dispatch<std::complex<double>>(b, grid, unsigned(b.seed + k));
      });
      R.eq(umpire::vshim::get().live.size(), live0, "allocations left: " + vrt::context);
    }
  });
  R.extra["runs"] = vrt::stats.runs;
  R.extra["tasks"] = vrt::stats.tasks;
  R.extra["messages"] = vrt::stats.messages + vrt::stats.collectives;
  return R.done();
}
