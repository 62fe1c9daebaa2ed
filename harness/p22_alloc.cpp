// Replays the placements of spec/Allocation.tla: matrices the library allocates, matrices over storage of the caller,
// and the functions that recognise layouts.
#include <set>
#include <dlaf/matrix/allocation_io.h>
#include <dlaf/matrix/check_allocation.h>
#include <dlaf/matrix/create_matrix.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/tune.h>
#include <vrt.h>
#include "common.h"
using namespace dlaf;
using namespace dlaf::matrix;
namespace tt = pika::this_thread::experimental;
static vf::Report R;
struct Place {
  SizeType rows, cols, piece_r, piece_c, pos, ld, need;
};
struct Case {
  long long r[7], c[7];
  int layout, pad, nr, nc;
  std::vector<Place> t;
  std::string name() const {
    std::ostringstream os;
    os << "rows";
    for (auto x : r)
      os << ' ' << x;
    os << " cols";
    for (auto x : c)
      os << ' ' << x;
    os << " layout " << layout << " pad " << pad << ": ";
    return os.str();
  }
  Distribution dist() const {
    return Distribution(GlobalElementSize(r[0], c[0]), GlobalElementSize(r[1], c[1]), TileElementSize(r[2], c[2]),
                        comm::Size2D(r[3], c[3]), comm::Index2D(r[5], c[5]), comm::Index2D(r[4], c[4]), GlobalElementIndex(r[6], c[6]));
  }
  const Place& at(SizeType i, SizeType j) const { return t[i + j * nr]; }
};
static const AllocationLayout layouts[] = {AllocationLayout::ColMajor, AllocationLayout::Blocks, AllocationLayout::Tiles};

// Places given by the caller
template <class T>
struct Mapper {
  const Case& c;
  Distribution d;
  std::map<std::pair<SizeType, SizeType>, SizeType> base;
  SizeType total = 0;
  int wrong = -1, how = 0;  // a tile that is stored elsewhere
  Mapper(const Case& c_, SizeType gap) : c(c_), d(c_.dist()) {
    std::map<std::pair<SizeType, SizeType>, SizeType> len;
    for (auto& p : c.t)
      len[{p.piece_r, p.piece_c}] = std::max(len[{p.piece_r, p.piece_c}], p.need);
    for (auto& kv : len) {
      total += gap;
      base[kv.first] = total;
      total += kv.second;
    }
    total += 40;
  }
  Distribution distribution() const { return d; }
  AllocationLayout allocation_layout() const { return layouts[c.layout]; }
  SizeType min_mem_size() const { return total; }
  LocalTileSize nr_tiles() const { return d.local_nr_tiles(); }
  TileElementSize tile_size_of(LocalTileIndex ij) const { return {c.at(ij.row(), ij.col()).rows, c.at(ij.row(), ij.col()).cols}; }
  bool is_wrong(LocalTileIndex ij) const { return ij.row() + ij.col() * c.nr == wrong; }
  SizeType tile_offset(LocalTileIndex ij) const {
    auto& p = c.at(ij.row(), ij.col());
    return base.at({p.piece_r, p.piece_c}) + p.pos + (is_wrong(ij) && how == 0 ? 1 : 0);
  }
  SizeType ld_tile(LocalTileIndex ij) const { return c.at(ij.row(), ij.col()).ld + (is_wrong(ij) && how == 1 ? 1 : 0); }
  SizeType min_tile_mem_size(LocalTileIndex ij) const {
    auto& p = c.at(ij.row(), ij.col());
    return (p.cols - 1) * ld_tile(ij) + p.rows;
  }
};
template <class T>
T value(SizeType i, SizeType j) {
  return T(1000 * i + j + 1);
}
// every element holds its own value, and nothing else of the storage changes
template <class T, class M>
void elements(M& m, const std::string& w) {
  const auto& d = m.distribution();
  for (auto ij : common::iterate_range2d(d.local_nr_tiles())) {
    auto tile = tt::sync_wait(m.readwrite(ij));
    for (auto e : common::iterate_range2d(tile.size()))
      tile(e) = value<T>(d.template local_element_from_local_tile_and_tile_element<Coord::Row>(ij.row(), e.row()),
                         d.template local_element_from_local_tile_and_tile_element<Coord::Col>(ij.col(), e.col()));
  }
  bool ok = true;
  for (auto ij : common::iterate_range2d(d.local_nr_tiles())) {
    auto tile = tt::sync_wait(m.read(ij));
    for (auto e : common::iterate_range2d(tile.get().size()))
      ok = ok && tile.get()(e) == value<T>(d.template local_element_from_local_tile_and_tile_element<Coord::Row>(ij.row(), e.row()),
                                           d.template local_element_from_local_tile_and_tile_element<Coord::Col>(ij.col(), e.col()));
  }
  R.ok(ok, w + "an element was overwritten through another one");
}
template <class T>
void placed(Matrix<T, Device::CPU>& m, const Case& c, const std::string& w, Mapper<T>* user, const T* base, SizeType free_ld) {
  std::map<std::pair<SizeType, SizeType>, const T*> piece;
  std::map<const T*, std::pair<SizeType, SizeType>> owner;
  auto& live = umpire::vshim::get().live;
  R.eq(m.distribution().local_nr_tiles(), LocalTileSize(c.nr, c.nc), w + "tiles");
  for (SizeType j = 0; j < c.nc; ++j)
    for (SizeType i = 0; i < c.nr; ++i) {
      auto tile = tt::sync_wait(m.read(LocalTileIndex(i, j)));
      const auto& t = tile.get();
      Place p = c.at(i, j);
      const std::string wt = w + vf::cat("tile", i, j);
      if (free_ld >= 0) {  // the library chose the distance: the same for the whole piece
        const SizeType was = p.ld - c.pad;
        R.ok(t.ld() >= was, wt + "distance below the number of rows");
        p.pos = p.pos % p.ld + p.pos / p.ld * t.ld();
        p.need = (p.pos + (p.cols - 1) * t.ld() + p.rows);
        p.ld = t.ld();
        if (c.layout == 0 && free_ld > 0)
          R.eq(t.ld(), free_ld, wt + "distance differs from the one of the first tile");
        if (c.layout == 0)
          free_ld = t.ld();
      }
      R.eq(t.size(), TileElementSize(p.rows, p.cols), wt + "size");
      R.eq(t.ld(), p.ld, wt + "ld");
      if (user) {
        R.eq(t.ptr() - base, user->tile_offset({i, j}), wt + "position");
        continue;
      }
      const T* b = t.ptr() - p.pos;
      auto key = std::make_pair(p.piece_r, p.piece_c);
      auto it = piece.emplace(key, b).first;
      R.ok(it->second == b, wt + "position within its piece");
      R.ok(owner.emplace(b, key).first->second == key, wt + "two pieces at the same place");
      auto a = live.upper_bound(const_cast<T*>(t.ptr()));
      const bool in = a != live.begin() && (--a, (const char*) t.ptr() >= (const char*) a->first && (const char*) (b + p.need) <= (const char*) a->first + a->second && (const char*) b >= (const char*) a->first);
      R.ok(in, wt + "not within allocated storage");
    }
}
template <class T>
void run(const Case& c) {
  const std::string w = c.name();
  const bool whole = c.r[6] == 0 && c.c[6] == 0;
  const Distribution d = c.dist();
  const AllocationLayout lay = layouts[c.layout];
  const bool empty = c.t.empty();
  auto& pools = umpire::vshim::get();
  if (whole) {
    const std::size_t before = pools.live.size();
    {
      // the smallest distance, chosen by the library
      AllocationSpec spec = c.pad == 0 ? AllocationSpec(lay, Ld::Compact) : AllocationSpec(lay, Ld::Padded);
      Matrix<T, Device::CPU> m(d, spec);
      R.ok(m.allocation_layout() == lay, w + "layout");
      placed(m, c, w + "spec: ", static_cast<Mapper<T>*>(nullptr), static_cast<const T*>(nullptr), c.pad == 0 ? -1 : 0);
      elements<T>(m, w);
      R.ok(matrix::test::is_allocated_as(m, lay), w + "not recognised");
      for (auto other : layouts)
        if (other != lay)
          R.ok(!matrix::test::is_allocated_as(m, other), w + "recognised as another layout");
      Matrix<T, Device::CPU> moved(std::move(m));
      R.ok(moved.allocation_layout() == lay, w + "layout after a move");
      placed(moved, c, w + "moved: ", static_cast<Mapper<T>*>(nullptr), static_cast<const T*>(nullptr), c.pad == 0 ? -1 : 0);
      auto sub = moved.sub_pipeline();
      R.ok(sub.allocation_layout() == lay, w + "layout of a sub-pipeline");
      placed(sub, c, w + "sub-pipeline: ", static_cast<Mapper<T>*>(nullptr), static_cast<const T*>(nullptr), c.pad == 0 ? -1 : 0);
      // regions of the matrix keep the layout
      for (int k = 0; k < 3 && c.pad == 0; ++k) {
        const SizeType i0 = k == 0 ? 0 : c.r[0] * k / 3, j0 = k == 0 ? 0 : c.c[0] * k / 4;
        matrix::internal::MatrixRef<T, Device::CPU> ref(sub, {{i0, j0}, {c.r[0] - i0 - (k == 1 && c.r[0] - i0 > 1), c.c[0] - j0 - (k == 1 && c.c[0] - j0 > 1)}});
        R.ok(matrix::test::is_allocated_as(ref, lay), w + vf::cat("region not recognised", i0, j0));
      }
    }
    R.eq(pools.live.size(), before, w + "storage that was not given back");
    // the default of the spec
    {
      auto& tp = getTuneParameters();
      tp.default_allocation_layout = lay;
      Matrix<T, Device::CPU> m(d);
      AllocationSpec s;
      R.ok(m.allocation_layout() == lay && s.layout() == lay, w + "default layout");
      R.ok(s.ld() == (c.layout == 0 ? LdSpec(Ld::Padded) : LdSpec(Ld::Compact)), w + "default distance");
      placed(m, c, w + "default: ", static_cast<Mapper<T>*>(nullptr), static_cast<const T*>(nullptr), 0);
      if (c.layout) {
        tp.default_allocation_layout = AllocationLayout::ColMajor;
        R.ok(m.allocation_layout() == lay, w + "layout changed with the default");
      }
    }
    // an explicit distance between columns
    SizeType least = 1, most = 1;
    for (auto& p : c.t) {
      least = std::max(least, p.ld - c.pad);
      most = std::max(most, p.ld);
    }
    bool same = true;
    for (auto& p : c.t)
      same = same && p.ld == most;
    {
      Matrix<T, Device::CPU> m(d, AllocationSpec(lay, LdSpec(SizeType(most))));
      placed(m, c, w + "explicit: ", static_cast<Mapper<T>*>(nullptr), static_cast<const T*>(nullptr), same ? -1 : 0);
      for (auto ij : common::iterate_range2d(d.local_nr_tiles()))
        R.eq(tt::sync_wait(m.read(ij)).get().ld(), most, w + "explicit distance");
      elements<T>(m, w);
    }
    static long n = 0;
    if (!empty && c.pad == 0 && least > 1 && n++ % 23 == 0)
      R.ok(vf::dies([&] { Matrix<T, Device::CPU> m(d, AllocationSpec(lay, LdSpec(SizeType(least - 1)))); }), w + "too small a distance accepted");
    if (empty && c.pad == 0 && n++ % 23 == 0)
      R.ok(vf::dies([&] { Matrix<T, Device::CPU> m(d, AllocationSpec(lay, LdSpec(SizeType(0)))); }), w + "distance 0 accepted");
    // storage of the caller
    if (c.layout == 0) {
      const SizeType ld = empty ? std::max<SizeType>(1, d.local_size().rows() + c.pad) : c.t[0].ld;
      ColMajorLayout l(d, ld);
      SizeType need = 0;
      for (auto& p : c.t)
        need = std::max(need, p.need);
      R.eq(l.min_mem_size(), need, w + "storage needed");
      R.eq(l.size(), d.local_size(), w + "size");
      R.ok(l == ColMajorLayout(d, ld) && l != ColMajorLayout(d, ld + 1), w + "comparison");
      std::vector<T> buf(need + 8, T(-5));
      for (SizeType j = 0; j < c.nc; ++j)
        for (SizeType i = 0; i < c.nr; ++i) {
          auto& p = c.at(i, j);
          const std::string wt = w + vf::cat("tile", i, j);
          R.eq(l.tile_offset({i, j}), p.pos, wt + "position");
          R.eq(l.ld_tile({i, j}), p.ld, wt + "ld");
          R.eq(l.tile_size_of({i, j}), TileElementSize(p.rows, p.cols), wt + "size");
          R.eq(l.min_tile_mem_size(LocalTileIndex{i, j}), (p.cols - 1) * p.ld + p.rows, wt + "storage");
        }
      auto check = [&](Matrix<T, Device::CPU>& m, const std::string& v) {
        std::fill(buf.begin(), buf.end(), T(-5));
        elements<T>(m, w + v);
        std::vector<T> want(buf.size(), T(-5));
        for (SizeType j = 0; j < d.local_size().cols(); ++j)
          for (SizeType i = 0; i < d.local_size().rows(); ++i)
            want[4 + i + ld * j] = value<T>(i, j);
        R.ok(buf == want, w + v + "elements not at their documented places");
        R.ok(matrix::test::is_allocated_as_col_major(m), w + v + "not recognised");
      };
      if (need) {
        Matrix<T, Device::CPU> m(l, buf.data() + 4);
        check(m, "over user storage: ");
        if (d.grid_size() == comm::Size2D(1, 1) && d.single_tile_per_block()) {
          auto m2 = create_matrix_from_col_major<Device::CPU>(GlobalElementSize(c.r[0], c.c[0]), TileElementSize(c.r[2], c.c[2]), ld, buf.data() + 4);
          check(m2, "local function: ");
          R.ok(m2.distribution() == d, w + "distribution");
        }
      }
      static long k = 0;
      if (!empty && k++ % 23 == 0)
        R.ok(vf::dies([&] { ColMajorLayout bad(d, d.local_size().rows() - 1); }), w + "too small a distance accepted");
    }
  }
  else {
    static long k = 0;
    if (k++ % 29 == 0) {
      R.ok(vf::dies([&] { Matrix<T, Device::CPU> m(d, AllocationSpec(lay, Ld::Compact)); }), w + "matrix with an offset accepted");
      R.ok(vf::dies([&] { ColMajorLayout bad(d, 1000); }), w + "layout with an offset accepted");
    }
  }
  // places given by the caller in any of the layouts
  if (!empty) {
    Mapper<T> mp(c, c.layout * 3 + 2);
    std::vector<T> buf(mp.total, T(-5));
    {
      Matrix<T, Device::CPU> m(mp, buf.data());
      R.ok(m.allocation_layout() == lay, w + "layout of user storage");
      placed(m, c, w + "user mapping: ", &mp, static_cast<const T*>(buf.data()), -1);
      elements<T>(m, w + "user mapping: ");
      R.ok(matrix::test::is_allocated_as(m, lay), w + "user storage not recognised");
      for (auto other : layouts)
        if (other != lay)
          R.ok(!matrix::test::is_allocated_as(m, other), w + "user storage recognised as another layout");
    }
    {
      Matrix<const T, Device::CPU> m(mp, static_cast<const T*>(buf.data()));
      for (SizeType j = 0; j < c.nc; ++j)
        for (SizeType i = 0; i < c.nr; ++i)
          R.eq(tt::sync_wait(m.read(LocalTileIndex(i, j))).get().ptr() - buf.data(), mp.tile_offset({i, j}), w + "read-only user storage");
      R.ok(matrix::test::is_allocated_as(m, lay), w + "read-only user storage not recognised");
    }
    // one tile elsewhere: not that layout
    if (c.layout < 2 && c.pad == 0)
      for (int k = 0; k < (int) c.t.size(); ++k) {
        if (c.t[k].pos == 0)
          continue;
        for (mp.how = 0; mp.how < 2; ++mp.how) {
          mp.wrong = k;
          std::vector<T> b2(mp.total + 64);
          Matrix<T, Device::CPU> m(mp, b2.data());
          R.ok(!matrix::test::is_allocated_as(m, lay), w + vf::cat("tile", k, "elsewhere, still recognised", mp.how));
        }
      }
  }
}

int main(int argc, char** argv) {
  std::vector<Case> cases;
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    Case c;
    for (int i = 0; i < 7; ++i)
      c.r[i] = l.v[i], c.c[i] = l.v[7 + i];
    c.layout = (int) l.v[14];
    c.pad = (int) l.v[15];
    c.nr = (int) l.v[16];
    c.nc = (int) l.v[17];
    for (std::size_t p = 18; p + 7 <= l.v.size(); p += 7)
      c.t.push_back({l.v[p], l.v[p + 1], l.v[p + 2], l.v[p + 3], l.v[p + 4], l.v[p + 5], l.v[p + 6]});
    cases.push_back(std::move(c));
  });
  vrt::Options o;
  vrt::run(o, [&](int) {
    long k = 0;
    for (auto& c : cases) {
      ++R.cases;
      if (k++ % 3 == 0)
        run<float>(c);
      else
        run<double>(c);
      if (R.mismatches > 50)
        break;
    }
  });
  return R.done();
}
