// Replays histories of spec/Panels.tla into the four kinds of panels on the deterministic runtime.
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/panel.h>
#include <umpire/ResourceManager.hpp>
#include <vrt.h>

#include <random>

#include "common.h"
namespace ex = pika::execution::experimental;
using namespace dlaf;
using namespace dlaf::matrix;
static vf::Report R;
using T = double;
constexpr Device D = Device::CPU;

struct Step {
  long op, a, b;
  std::vector<long> obs;
};
struct Case {
  long N, B, P, Rk, S, bias, off, nloc, W;
  std::vector<Step> steps;
  std::vector<std::pair<long, long>> refused;
  std::string text;
};
static Case parse(const std::vector<long long>& v) {
  Case c{long(v[0]), long(v[1]), long(v[2]), long(v[3]), long(v[4]), long(v[5]), long(v[6]), long(v[7]), long(v[8]), {}, {}, ""};
  c.text = vf::cat("N", c.N, "B", c.B, "P", c.P, "rank", c.Rk, "src", c.S, "from", c.bias, "offset", c.off, "W", c.W, ":");
  std::size_t i = 9;
  while (v[i] != -7) {
    Step s{long(v[i]), long(v[i + 1]), long(v[i + 2]), {}};
    i += 3;
    const std::size_t n = 7 + std::size_t(v[i + 6]);
    for (std::size_t j = 0; j < n; ++j)
      s.obs.push_back(long(v[i + j]));
    i += n;
    c.text += vf::cat(s.op, s.a, s.b) + "; ";
    c.steps.push_back(s);
  }
  for (++i; i + 1 < v.size(); i += 2)
    c.refused.emplace_back(v[i], v[i + 1]);
  return c;
}
static void fill(const Tile<T, D>& t, long id) {
  for (SizeType j = 0; j < t.size().cols(); ++j)
    for (SizeType i = 0; i < t.size().rows(); ++i)
      t({i, j}) = T(id * 4096 + i + 64 * j);
}

template <Coord axis, StoreTransposed ST>
struct World {
  using P = Panel<axis, T, D, ST>;
  using CP = Panel<axis, const T, D, ST>;
  static constexpr Coord crd = orthogonal(axis);
  const Case& c;
  std::mt19937 rng;
  std::string ctx;
  std::unique_ptr<P> p;
  std::map<long, std::unique_ptr<Matrix<T, D>>> ext;
  std::map<long, bool> freed;
  std::vector<long> linked;

  World(const Case& cc, unsigned seed) : c(cc), rng(seed) {
    ctx = vf::cat(axis == Coord::Col ? "column" : "row", ST == StoreTransposed::Yes ? "transposed" : "plain", "seed", seed, c.text);
  }
  template <class I>
  static I idx(SizeType x) { return I(crd, x); }
  TileElementSize size_of(SizeType along, SizeType across) const {
    // a transposed panel stores its tiles transposed
    return ST == StoreTransposed::No ? TileElementSize(crd, along, across) : TileElementSize(axis, along, across);
  }
  void width(SizeType w) {
    if constexpr (axis == Coord::Col)
      p->setWidth(w);
    else
      p->setHeight(w);
  }
  SizeType width() const {
    if constexpr (axis == Coord::Col)
      return p->getWidth();
    else
      return p->getHeight();
  }
  void see(const Tile<const T, D>& t, long id, const char* what, long l) {
    for (SizeType j = 0; id && j < t.size().cols(); ++j)
      for (SizeType i = 0; i < t.size().rows(); ++i)
        if (!R.ok(t({i, j}) == T(id * 4096 + i + 64 * j), vf::cat(what, "of tile", l, "shows", long(t({i, j})), "at", i, j, "instead of the contents given in step", id, ":", ctx)))
          return;
  }
  SizeType along(long l, const std::vector<long>& o) const { return o[7 + std::size_t(l - o[2])]; }
  void act(const Step& s, const std::vector<long>& o) {
    switch (s.op) {
      case 1: p->setRange(idx<GlobalTileIndex>(s.a), idx<GlobalTileIndex>(s.b)); break;
      case 2: p->setRangeStart(idx<GlobalTileIndex>(s.a)); break;
      case 3: p->setRangeStart(idx<GlobalElementIndex>(s.a)); break;
      case 4: p->setRangeEnd(idx<GlobalTileIndex>(s.a)); break;
      case 5: width(s.a); break;
      case 6: {
        const TileElementSize ts = size_of(along(s.a, o), o[5]);
        auto m = std::make_unique<Matrix<T, D>>(LocalElementSize(ts.rows(), ts.cols()), ts);
        ex::start_detached(m->readwrite(LocalTileIndex(0, 0)) | ex::then([&](Tile<T, D> t) { fill(t, s.b); }));
        p->setTile(idx<LocalTileIndex>(s.a), m->read(LocalTileIndex(0, 0)));
        ex::start_detached(m->readwrite(LocalTileIndex(0, 0)) | ex::then([this, id = s.b](Tile<T, D> t) {
                             freed[id] = true;
                             fill(t, 999);
                           }));
        ext[s.b] = std::move(m);
        linked.push_back(s.b);
        break;
      }
      case 7: {
        bool ran = false;
        ex::start_detached(p->readwrite(idx<LocalTileIndex>(s.a)) | ex::then([&](Tile<T, D> t) {
                             ran = true;
                             R.eq(t.size(), size_of(along(s.a, o), o[5]), vf::cat("size of tile", s.a, "for writing:", ctx));
                             fill(t, s.b);
                           }));
        vrt::wait_idle();
        R.ok(ran, vf::cat("tile", s.a, "was not given out for writing:", ctx));
        break;
      }
      case 8: {
        bool ran = false;
        auto body = [&](auto w) {
          ran = true;
          if (R.eq(w.get().size(), size_of(along(s.a, o), o[5]), vf::cat("size of tile", s.a, "for reading:", ctx)))
            see(w.get(), s.b, "reading", s.a);
        };
        if (rng() % 2)
          ex::start_detached(p->read(idx<LocalTileIndex>(s.a)) | ex::then(body));
        else
          ex::start_detached(static_cast<CP&>(*p).read(idx<LocalTileIndex>(s.a)) | ex::then(body));
        vrt::wait_idle();
        R.ok(ran, vf::cat("tile", s.a, "was not given out for reading:", ctx));
        break;
      }
      case 9:
        p->reset();
        linked.clear();
        break;
      case 10: p = std::make_unique<P>(std::move(*p)); break;
      default: std::exit(3);
    }
    vrt::wait_idle();
  }
  void check(const Step& s) {
    const auto& o = s.obs;
    const std::string x = vf::cat("after step", s.op, s.a, s.b, ":", ctx);
    R.eq(p->rangeStart(), o[0], "start " + x);
    R.eq(p->rangeEnd(), o[1], "end " + x);
    R.eq(p->rangeStartLocal(), o[2], "local start " + x);
    R.eq(p->rangeEndLocal(), o[3], "local end " + x);
    R.eq(p->offsetElement(), o[4], "first element " + x);
    R.eq(width(), o[5], "width " + x);
    long l = o[2];
    for (const auto& ij : p->iteratorLocal()) {
      R.ok(ij == idx<LocalTileIndex>(l), "tiles of the range " + x);
      ++l;
    }
    R.eq(l, std::max(o[3], o[2]), "number of tiles of the range " + x);
    R.eq(long(o[6]), std::max(0L, o[3] - o[2]), "specification");
    for (auto& [id, m] : ext) {
      bool is = false;
      for (long q : linked)
        is |= q == id;
      R.ok(freed.count(id) == (is ? 0u : 1u), vf::cat("the tile linked in step", id, is ? "may be overwritten while linked" : "is still kept", x));
    }
  }
  void go() {
    // the other axis: anything
    const int q = 1 + int(rng() % 2);
    const SizeType m2 = SizeType(rng() % 7) + 1;
    const int r2 = int(rng() % unsigned(q)), s2 = int(rng() % unsigned(q));
    const bool colp = crd == Coord::Row;  // coordinate first
    auto pr = [&](auto a, auto b) { return std::pair(colp ? a : b, colp ? b : a); };
    auto [gm, gn] = pr(SizeType(c.N), m2);
    auto [bm, bn] = pr(SizeType(c.B), SizeType(c.W));
    auto [Pm, Pn] = pr(int(c.P), q);
    auto [rm, rn] = pr(int(c.Rk), r2);
    auto [sm, sn] = pr(int(c.S), s2);
    auto [om, on] = pr(SizeType(c.off), SizeType(0));
    Distribution dist(GlobalElementSize(gm, gn), TileElementSize(bm, bn), comm::Size2D(Pm, Pn), comm::Index2D(rm, rn), comm::Index2D(sm, sn),
                      GlobalElementIndex(om, on));
    p = std::make_unique<P>(dist, idx<GlobalTileIndex>(c.bias));
    R.ok(p->parentDistribution() == dist, "parent distribution: " + ctx);
    std::vector<long> prev = c.steps[0].obs;
    for (auto& s : c.steps) {
      act(s, s.obs);
      if (R.mismatches)
        return;
      check(s);
      if (R.mismatches)
        return;
      prev = s.obs;
    }
    if (rng() % 5 == 0 && !c.refused.empty()) {
      const auto [op, a] = c.refused[rng() % c.refused.size()];
      R.ok(vf::dies([&, op = op, a = a] {
             if (op == 6) {
               const TileElementSize ts = size_of(along(a, prev), prev[5]);
               Matrix<T, D> m(LocalElementSize(ts.rows(), ts.cols()), ts);
               p->setTile(idx<LocalTileIndex>(a), m.read(LocalTileIndex(0, 0)));
             }
             else if (op == 7)
               ex::start_detached(p->readwrite(idx<LocalTileIndex>(a)) | ex::then([](auto) {}));
             else if (op == 8)
               ex::start_detached(p->read(idx<LocalTileIndex>(a)) | ex::then([](auto) {}));
             else
               act(Step{op, a, op == 1 ? prev[1] : 0, {}}, prev);
           }) == 1,
           vf::cat("operation", op, a, "was not refused after", ctx));
      R.extra["probes"]++;
    }
    p.reset();
    linked.clear();
    vrt::wait_idle();
    for (auto& [id, m] : ext)
      R.ok(freed.count(id) == 1, vf::cat("the tile linked in step", id, "is kept after the end of the panel:", ctx));
    ext.clear();
    vrt::wait_idle();
  }
};
template <Coord axis, StoreTransposed ST>
static void one(const Case& c, unsigned seed) {
  World<axis, ST> w(c, seed);
  vrt::context = w.ctx;
  vrt::Options o;
  o.seed = seed;
  o.ranks = 1;
  const auto live0 = umpire::vshim::get().live.size();
  vrt::run(o, [&](int) { w.go(); });
  if (R.mismatches > 0) {
    R.done();
    std::_Exit(1);
  }
  R.eq(umpire::vshim::get().live.size(), live0, "allocations left: " + w.ctx);
  ++R.cases;
}

int main(int argc, char** argv) {
  if (argc < 3)
    return 3;
  unsigned seed = unsigned(std::atoi(argv[2]));
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    const Case c = parse(l.v);
    ++seed;
    one<Coord::Col, StoreTransposed::No>(c, seed);
    one<Coord::Row, StoreTransposed::No>(c, seed);
    one<Coord::Col, StoreTransposed::Yes>(c, seed);
    one<Coord::Row, StoreTransposed::Yes>(c, seed);
  });
  R.extra["runs"] = vrt::stats.runs;
  return R.done();
}
