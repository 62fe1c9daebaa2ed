// Replays the tables of spec/Distribution.tla (D lines) and spec/SubDistribution.tla (S lines) into
// dlaf::matrix::Distribution on every rank of the grid.
#include <dlaf/matrix/distribution.h>
#include <dlaf/matrix/distribution_extensions.h>

#include "common.h"

using namespace dlaf;
using dlaf::matrix::Distribution;
using dlaf::matrix::SubDistributionSpec;
using ll = long long;
namespace ext = dlaf::matrix::internal::distribution;
static vf::Report R;

struct TileRec {
  ll owner, first, size, lt, le, gb = 0, lb = 0, parent = 0, poff = 0;
};
struct Dim {
  ll n, ts, tpb, np, src, off;
  ll o = 0, len = 0;  // region (S lines)
  ll start_owner, start_off;
  std::vector<TileRec> t;
  std::vector<ll> ltiles, lelems, lblocks;
  ll size() const { return t.empty() ? 0 : t.back().first + t.back().size; }
  ll tile_of(ll e) const {
    for (std::size_t i = 0; i < t.size(); ++i)
      if (e < t[i].first + t[i].size)
        return ll(i);
    return -1;
  }
  ll blocks() const { return t.empty() ? 0 : t.back().gb + 1; }
};
static Dim parse(const std::vector<long long>& v, std::size_t& p, bool sub) {
  Dim d;
  d.n = v[p++], d.ts = v[p++], d.tpb = v[p++], d.np = v[p++], d.src = v[p++], d.off = v[p++];
  if (sub)
    d.o = v[p++], d.len = v[p++];
  d.start_owner = v[p++], d.start_off = v[p++];
  ll nt = v[p++];
  for (ll i = 0; i < nt; ++i) {
    TileRec r;
    r.owner = v[p++], r.first = v[p++], r.size = v[p++], r.lt = v[p++], r.le = v[p++];
    if (sub)
      r.parent = v[p++], r.poff = v[p++];
    else
      r.gb = v[p++], r.lb = v[p++];
    d.t.push_back(r);
  }
  for (ll r = 0; r < d.np; ++r) {
    d.ltiles.push_back(v[p++]);
    d.lelems.push_back(v[p++]);
    d.lblocks.push_back(sub ? -1 : v[p++]);
  }
  return d;
}
// the table with every length multiplied by K
static Dim scaled(Dim d, ll K) {
  d.n *= K, d.ts *= K, d.off *= K, d.start_off *= K, d.o *= K, d.len *= K;
  for (auto& t : d.t)
    t.first *= K, t.size *= K, t.le *= K, t.poff *= K;
  for (auto& x : d.lelems)
    x *= K;
  return d;
}

static std::string ctx;
template <class A, class B>
static void eq(A a, B b, const char* what, ll i = -1, ll j = -1) {
  ++R.comparisons;
  if (ll(a) == ll(b))
    return;
  --R.comparisons;
  R.eq(ll(a), ll(b), vf::cat(what, i, j, "in", ctx));
}

// all one-dimensional queries; `pts`: elements to probe
template <Coord rc>
static void check_dim(const Distribution& D, const Dim& d, ll me, bool blocks) {
  const ll nt = ll(d.t.size());
  eq(D.size().get<rc>(), d.size(), "size");
  eq(D.nr_tiles().get<rc>(), nt, "nr_tiles");
  eq(D.nrTiles().get<rc>(), nt, "nrTiles");
  eq(D.local_nr_tiles().get<rc>(), d.ltiles[me], "local_nr_tiles");
  eq(D.localNrTiles().get<rc>(), d.ltiles[me], "localNrTiles");
  eq(D.local_size().get<rc>(), d.lelems[me], "local_size");
  eq(D.localSize().get<rc>(), d.lelems[me], "localSize");
  eq(D.tile_size().get<rc>(), d.ts, "tile_size");
  eq(D.block_size().get<rc>(), d.ts * d.tpb, "block_size");
  eq(D.grid_size().get<rc>(), d.np, "grid_size");
  eq(D.rank_index().get<rc>(), me, "rank_index");
  eq(D.source_rank_index().get<rc>(), d.start_owner, "source_rank_index");
  eq(D.offset().get<rc>(), d.start_off, "offset");
  if (blocks) {
    eq(D.nr_blocks().get<rc>(), d.blocks(), "nr_blocks");
    eq(D.local_nr_blocks().get<rc>(), d.lblocks[me], "local_nr_blocks");
  }
  auto next_local = [&](ll g) {
    ll c = 0;
    for (ll i = 0; i < g; ++i)
      c += d.t[i].owner == me;
    return c;
  };
  for (ll g = 0; g < nt; ++g) {
    const auto& t = d.t[g];
    const bool mine = t.owner == me;
    eq(D.rank_global_tile<rc>(g), t.owner, "rank_global_tile", g);
    eq(D.local_tile_from_global_tile<rc>(g), mine ? t.lt : -1, "local_tile_from_global_tile", g);
    eq(D.next_local_tile_from_global_tile<rc>(g), next_local(g), "next_local_tile_from_global_tile", g);
    eq(D.global_tile_size_of<rc>(g), t.size, "global_tile_size_of", g);
    eq(ext::local_tile_from_global_tile_any_rank<rc>(D, g), t.lt, "local_tile_from_global_tile_any_rank", g);
    eq(ext::global_tile_from_local_tile_on_rank<rc>(D, int(t.owner), t.lt), g, "global_tile_from_local_tile_on_rank", g);
    if (mine) {
      eq(D.global_tile_from_local_tile<rc>(t.lt), g, "global_tile_from_local_tile", t.lt);
      eq(D.local_tile_size_of<rc>(t.lt), t.size, "local_tile_size_of", t.lt);
    }
    for (ll h = g; h <= nt; ++h) {
      ll span = (h == nt ? d.size() : d.t[h].first) - t.first;
      eq(ext::global_tile_element_distance<rc>(D, g, h), span, "global_tile_element_distance", g, h);
      ll loc = 0;
      for (ll k = g; k < h; ++k)
        loc += d.t[k].owner == me ? d.t[k].size : 0;
      eq(ext::local_element_distance_from_global_tile<rc>(D, g, h), loc, "local_element_distance_from_global_tile", g, h);
    }
    for (ll x : std::vector<ll>{0, 1, t.size / 2, t.size - 2, t.size - 1}) {
      if (x < 0 || x >= t.size)
        continue;
      const ll e = t.first + x;
      eq(D.global_element_from_global_tile_and_tile_element<rc>(g, x), e, "global_element_from_global_tile_and_tile_element", g, x);
      eq(D.global_tile_from_global_element<rc>(e), g, "global_tile_from_global_element", e);
      eq(D.tile_element_from_global_element<rc>(e), x, "tile_element_from_global_element", e);
      eq(D.rank_global_element<rc>(e), t.owner, "rank_global_element", e);
      eq(D.local_tile_from_global_element<rc>(e), mine ? t.lt : -1, "local_tile_from_global_element", e);
      eq(D.next_local_tile_from_global_element<rc>(e), next_local(g), "next_local_tile_from_global_element", e);
      eq(D.local_element_from_global_element<rc>(e), mine ? t.le + x : -1, "local_element_from_global_element", e);
      eq(ext::distance_to_adjacent_tile<rc>(D, e), t.size - x, "distance_to_adjacent_tile", e);
      const ll l = t.le + x;
      const int ow = int(t.owner);
      eq(ext::local_tile_from_local_element_on_rank<rc>(D, ow, l), t.lt, "local_tile_from_local_element_on_rank", l);
      eq(ext::tile_element_from_local_element_on_rank<rc>(D, ow, l), x, "tile_element_from_local_element_on_rank", l);
      eq(ext::global_element_from_local_element_on_rank<rc>(D, ow, l), e, "global_element_from_local_element_on_rank", l);
      if (mine) {
        eq(D.global_element_from_local_tile_and_tile_element<rc>(t.lt, x), e, "global_element_from_local_tile_and_tile_element", t.lt, x);
        eq(D.global_element_from_local_element<rc>(l), e, "global_element_from_local_element", l);
        eq(D.local_element_from_local_tile_and_tile_element<rc>(t.lt, x), l, "local_element_from_local_tile_and_tile_element", t.lt, x);
        eq(D.local_tile_from_local_element<rc>(l), t.lt, "local_tile_from_local_element", l);
        eq(D.tile_element_from_local_element<rc>(l), x, "tile_element_from_local_element", l);
      }
    }
  }
  eq(D.next_local_tile_from_global_tile<rc>(nt), d.ltiles[me], "next_local_tile_from_global_tile", nt);
  std::vector<const TileRec*> mine;
  for (auto& t : d.t)
    if (t.owner == me)
      mine.push_back(&t);
  for (std::size_t a = 0; a <= mine.size(); ++a) {
    ll s = 0;
    for (std::size_t b = a; b <= mine.size(); ++b) {
      eq(ext::local_element_distance_from_local_tile<rc>(D, ll(a), ll(b)), s, "local_element_distance_from_local_tile", ll(a), ll(b));
      if (b < mine.size())
        s += mine[b]->size;
    }
  }
}

// the two-dimensional queries on all pairs of tiles
static void check_2d(const Distribution& D, const Dim& r, const Dim& c, ll pr, ll pc) {
  const ll lr = r.ltiles[pr];
  for (std::size_t i = 0; i < r.t.size(); ++i)
    for (std::size_t j = 0; j < c.t.size(); ++j) {
      const auto &a = r.t[i], &b = c.t[j];
      const GlobalTileIndex g{ll(i), ll(j)};
      auto rk = D.rank_global_tile(g);
      eq(rk.row(), a.owner, "rank_global_tile.row", i, j);
      eq(rk.col(), b.owner, "rank_global_tile.col", i, j);
      auto sz = D.tile_size_of(g);
      eq(sz.rows(), a.size, "tile_size_of.rows", i, j);
      eq(sz.cols(), b.size, "tile_size_of.cols", i, j);
      const GlobalElementIndex e(a.first + a.size - 1, b.first + b.size - 1);
      auto gt = D.global_tile_index(e);
      eq(gt.row(), i, "global_tile_index.row", e.row());
      eq(gt.col(), j, "global_tile_index.col", e.col());
      auto te = D.tile_element_index(e);
      eq(te.row(), a.size - 1, "tile_element_index.row", e.row());
      eq(te.col(), b.size - 1, "tile_element_index.col", e.col());
      auto ge = D.global_element_index(g, te);
      eq(ge.row(), e.row(), "global_element_index.row", i);
      eq(ge.col(), e.col(), "global_element_index.col", j);
      eq(ext::global_tile_linear_index(D, e), ll(i) + ll(j) * ll(r.t.size()), "global_tile_linear_index", i, j);
      if (a.owner == pr && b.owner == pc) {
        auto lt = D.local_tile_index(g);
        eq(lt.row(), a.lt, "local_tile_index.row", i, j);
        eq(lt.col(), b.lt, "local_tile_index.col", i, j);
        auto back = D.global_tile_index(lt);
        eq(back.row(), i, "global_tile_index(local).row", a.lt);
        eq(back.col(), j, "global_tile_index(local).col", b.lt);
        auto s2 = D.tile_size_of(lt);
        eq(s2.rows(), a.size, "tile_size_of(local).rows", a.lt);
        eq(s2.cols(), b.size, "tile_size_of(local).cols", b.lt);
        eq(ext::local_tile_linear_index(D, lt), a.lt + b.lt * lr, "local_tile_linear_index", a.lt, b.lt);
        auto ds = ext::local_element_distance_from_local_tile(D, LocalTileIndex(0, 0), LocalTileIndex(a.lt + 1, b.lt + 1));
        eq(ds.rows(), a.le + a.size, "local_element_distance_from_local_tile.rows", a.lt);
        eq(ds.cols(), b.le + b.size, "local_element_distance_from_local_tile.cols", b.lt);
      }
    }
}
static void check_all(const Distribution& D, const Dim& r, const Dim& c, ll pr, ll pc, bool blocks) {
  check_dim<Coord::Row>(D, r, pr, blocks);
  check_dim<Coord::Col>(D, c, pc, blocks);
  check_2d(D, r, c, pr, pc);
}

static GlobalElementSize gsz(ll a, ll b) { return {SizeType(a), SizeType(b)}; }
static Distribution make(const Dim& r, const Dim& c, ll pr, ll pc, ll shift_r, ll shift_c, int form) {
  const GlobalElementSize n = gsz(r.n, c.n), bs = gsz(r.ts * r.tpb, c.ts * c.tpb);
  const TileElementSize ts(r.ts, c.ts);
  const comm::Size2D g{int(r.np), int(c.np)};
  const comm::Index2D me{int(pr), int(pc)}, src{int(r.src), int(c.src)};
  const GlobalElementIndex off(r.off + shift_r, c.off + shift_c);
  switch (form) {
    case 0: return Distribution(n, bs, ts, g, me, src, off);
    case 1: {
      // the offset given as tiles and elements
      GlobalTileIndex to(off.row() / r.ts, off.col() / c.ts);
      return Distribution(n, bs, ts, g, me, src, to, GlobalElementIndex(off.row() % r.ts, off.col() % c.ts));
    }
    case 2: {
      // more elements than one tile in the element part
      GlobalTileIndex to(off.row() / r.ts / 2, off.col() / c.ts);
      return Distribution(n, bs, ts, g, me, src, to, GlobalElementIndex(off.row() - to.row() * r.ts, off.col() % c.ts));
    }
    case 3: return Distribution(n, ts, g, me, src, off);
    case 4: {
      GlobalTileIndex to(off.row() / r.ts, off.col() / c.ts);
      return Distribution(n, ts, g, me, src, to, GlobalElementIndex(off.row() % r.ts, off.col() % c.ts));
    }
    default: return Distribution(LocalElementSize(r.n, c.n), ts, off);
  }
}
static std::string describe(const Dim& r, const Dim& c, ll pr, ll pc) {
  return vf::cat("rows(n,ts,tpb,np,src,off)=", r.n, r.ts, r.tpb, r.np, r.src, r.off, "cols=", c.n, c.ts, c.tpb, c.np, c.src, c.off,
                 "rank", pr, pc);
}

static void full(const Dim& r, const Dim& c, long idx) {
  for (ll pr = 0; pr < r.np; ++pr)
    for (ll pc = 0; pc < c.np; ++pc) {
      ctx = describe(r, c, pr, pc);
      Distribution D = make(r, c, pr, pc, 0, 0, 0);
      check_all(D, r, c, pr, pc, true);
      Distribution E = make(r, c, pr, pc, 0, 0, 1 + int(idx % 2));
      R.ok(E == D && !(E != D), "tile-wise offset gives another distribution: " + ctx);
      if (r.tpb == 1 && c.tpb == 1) {
        R.ok(make(r, c, pr, pc, 0, 0, 3) == D, "constructor without block size: " + ctx);
        R.ok(make(r, c, pr, pc, 0, 0, 4) == D, "constructor without block size, tile offset: " + ctx);
        if (r.np == 1 && c.np == 1) {
          ctx += " (local constructor)";
          Distribution L = make(r, c, pr, pc, 0, 0, 5);
          check_all(L, r, c, pr, pc, true);
          R.ok(L == D, "local constructor: " + ctx);
        }
      }
      // copies and moves
      Distribution C(D);
      R.ok(C == D, "copy: " + ctx);
      Distribution M(std::move(C));
      R.ok(M == D, "move construction: " + ctx);
      R.ok(C == Distribution(), "moved-from distribution is not the empty one: " + ctx);
      Distribution A;
      A = std::move(M);
      R.ok(A == D && M == Distribution(), "move assignment: " + ctx);
      M = A;
      R.ok(M == D && A == D, "copy assignment: " + ctx);
      // one tile per block
      {
        Dim br = r, bc = c;
        for (Dim* d : {&br, &bc}) {
          std::vector<TileRec> nt;
          for (auto& t : d->t) {
            if (!nt.empty() && nt.back().gb == t.gb)
              nt.back().size += t.size;
            else {
              nt.push_back(t);
              nt.back().lt = t.lb;
            }
          }
          d->t = nt;
          d->ts *= d->tpb;
          d->tpb = 1;
          d->ltiles = d->lblocks;
        }
        ctx = "single tile per block of " + describe(r, c, pr, pc);
        Distribution S = matrix::internal::create_single_tile_per_block_distribution(D);
        R.ok(S.single_tile_per_block(), "not single tile per block: " + ctx);
        check_all(S, br, bc, pr, pc, true);
        ctx = describe(r, c, pr, pc);
        R.ok(D.single_tile_per_block() == (r.tpb == 1 && c.tpb == 1), "single_tile_per_block: " + ctx);
      }
      // whole cycles of ghosts, up to the largest offset that fits
      const ll cr = r.ts * r.tpb * r.np, cc = c.ts * c.tpb * c.np;
      for (ll m : {ll(1), ll(3), ll(2147483647), ll(2147483648), ll(1) << 40}) {
        ll k = std::min<ll>({m, ((ll(1) << 61) - r.off) / cr, ((ll(1) << 61) - c.off) / cc});
        ctx = describe(r, c, pr, pc) + vf::cat("offset increased by", k, "cycles");
        Distribution F = make(r, c, pr, pc, k * cr, (k / 2) * cc, int((idx + m) % 3));
        R.ok(F == D, "offset by whole cycles changes the distribution: " + ctx);
      }
      // scaling to large elements
      for (ll K : {ll(3), ll(1) << 31, (ll(1) << 31) + 1, ll(1) << 45}) {
        if (idx % 4 != K % 4 && idx % 3)
          continue;
        Dim sr = scaled(r, K), sc = idx % 5 ? scaled(c, K) : c;
        ctx = describe(sr, sc, pr, pc);
        Distribution F = make(sr, sc, pr, pc, 0, 0, 0);
        check_all(F, sr, sc, pr, pc, true);
      }
      ++R.cases;
    }
}

static void sub(const Dim& r, const Dim& c, long idx) {
  for (ll pr = 0; pr < r.np; ++pr)
    for (ll pc = 0; pc < c.np; ++pc) {
      ctx = describe(r, c, pr, pc) + vf::cat("region", r.o, c.o, "+", r.len, c.len);
      Distribution P = make(r, c, pr, pc, 0, 0, 0);
      const Distribution P0 = P;
      SubDistributionSpec spec{GlobalElementIndex(r.o, c.o), GlobalElementSize(r.len, c.len)};
      Distribution S(P, spec);
      R.ok(P == P0, "sub-distribution changed its parent: " + ctx);
      Dim a = r, b = c;
      a.n = r.len, b.n = c.len;
      check_all(S, a, b, pr, pc, false);
      // owners and tiles against the parent, element by element
      for (ll k = 0; k < 2; ++k) {
        const Dim& x = k ? c : r;
        for (ll e = 0; e < x.len; ++e)
          if (k) {
            eq(S.rank_global_element<Coord::Col>(e), P.rank_global_element<Coord::Col>(x.o + e), "owner of column", e);
            if (P.rank_global_element<Coord::Col>(x.o + e) == pc)
              eq(S.local_element_from_global_element<Coord::Col>(e) - S.local_element_from_global_element<Coord::Col>(x.t[std::size_t(x.tile_of(e))].first),
                 P.local_element_from_global_element<Coord::Col>(x.o + e) -
                     P.local_element_from_global_element<Coord::Col>(x.o + x.t[std::size_t(x.tile_of(e))].first),
                 "local position within the tile", e);
          }
          else
            eq(S.rank_global_element<Coord::Row>(e), P.rank_global_element<Coord::Row>(x.o + e), "owner of row", e);
      }
      // an empty region at the end of the parent has no parent tile: the translation helpers need one
      if (r.o < r.n && c.o < c.n) {
        R.ok(ext::is_compatible_sub_distribution(P, spec.origin, S), "sub-distribution reported incompatible: " + ctx);
        for (std::size_t i = 0; i < r.t.size(); ++i)
          for (std::size_t j = 0; j < c.t.size(); ++j) {
            const GlobalTileIndex s{ll(i), ll(j)};
            auto g = ext::global_tile_index_from_sub_distribution(P, spec.origin, S, s);
            auto t = ext::tile_element_offset_from_sub_distribution(P, spec.origin, S, s);
            eq(g.row(), r.t[i].parent, "parent tile.row", i);
            eq(g.col(), c.t[j].parent, "parent tile.col", j);
            eq(t.row(), r.t[i].poff, "offset in parent tile.row", i);
            eq(t.col(), c.t[j].poff, "offset in parent tile.col", j);
            auto g2 = P.globalTileIndexFromSubDistribution(spec.origin, S, s);
            auto t2 = P.tileElementOffsetFromSubDistribution(spec.origin, S, s);
            R.ok(g2 == g && t2 == t, "deprecated names disagree: " + ctx);
          }
      }
      // an equal region of the sub-distribution, and a region of a region
      R.ok(Distribution(S, SubDistributionSpec{{0, 0}, spec.size}) == S, "whole region of a region: " + ctx);
      if (r.len > 1 && c.len > 1) {
        const GlobalElementIndex o2(1 + idx % (r.len - 1), c.len / 2);
        const GlobalElementSize n2(r.len - o2.row(), (c.len - o2.col() + 1) / 2);
        Distribution a2(S, SubDistributionSpec{o2, n2});
        Distribution b2(P, SubDistributionSpec{{r.o + o2.row(), c.o + o2.col()}, n2});
        R.ok(a2 == b2, "region of a region is not the region of the parent: " + ctx);
      }
      {
        const ll K = (ll(1) << 40) + 7;
        Dim sr = scaled(r, K), sc = scaled(c, K);
        Dim pr_ = sr, pc_ = sc;
        Distribution Q = make(pr_, pc_, pr, pc, 0, 0, 0);
        Distribution T(Q, SubDistributionSpec{GlobalElementIndex(sr.o, sc.o), GlobalElementSize(sr.len, sc.len)});
        ctx += " scaled by 2^40+7";
        check_all(T, sr, sc, pr, pc, false);
      }
      ++R.cases;
    }
}

int main(int argc, char** argv) {
  if (argc < 2)
    return 3;
  long idx = 0, misuse = 0;
  std::vector<std::pair<Dim, Dim>> some;
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    std::size_t p = 0;
    const bool s = l.kind == "S";
    Dim r = parse(l.v, p, s);
    Dim c = parse(l.v, p, s);
    if (p != l.v.size())
      std::exit(3);
    ++idx;
    if (s)
      sub(r, c, idx);
    else
      full(r, c, idx);
    if (idx % 397 == 1 && some.size() < 12)
      some.push_back({r, c});
  });
  // arguments outside the documented domain stop the program
  for (auto& [r0, c0] : some) {
    const Dim r = r0, c = c0;
    auto probe = [&](const char* what, std::function<void()> f) {
      ++misuse;
      R.ok(vf::dies(f) == 1, std::string("accepted: ") + what + " " + describe(r, c, 0, 0));
    };
    auto D = [r, c] { return make(r, c, 0, 0, 0, 0, 0); };
    const comm::Size2D g{int(r.np), int(c.np)};
    const GlobalElementSize n = gsz(r.n, c.n), bs = gsz(r.ts * r.tpb, c.ts * c.tpb);
    const TileElementSize ts(r.ts, c.ts);
    if (r.len || c.len || r.o || c.o) {
      probe("region ending one element after the parent", [&] { Distribution(D(), SubDistributionSpec{{r.o, c.o}, {r.n - r.o, c.n - c.o + 1}}); });
      probe("region ending one element after the parent", [&] { Distribution(D(), SubDistributionSpec{{r.o + 1, c.o}, {r.n - r.o, 0}}); });
      probe("region beginning before the parent", [&] { Distribution(D(), SubDistributionSpec{{0, -1}, {r.len, 0}}); });
      probe("region of negative size", [&] { Distribution(D(), SubDistributionSpec{{r.o, c.o}, {-1, c.len}}); });
      continue;
    }
    probe("tile beyond the end", [&] { D().rank_global_tile(GlobalTileIndex(SizeType(r.t.size()), 0)); });
    probe("element beyond the end", [&] { D().global_tile_index(GlobalElementIndex(0, D().size().cols())); });
    probe("negative tile", [&] { D().rank_global_tile<Coord::Row>(-1); });
    probe("local tile beyond the end", [&] { D().global_tile_from_local_tile<Coord::Col>(D().local_nr_tiles().cols()); });
    probe("region too large", [&] { Distribution(D(), SubDistributionSpec{{1, 0}, D().size()}); });
    probe("negative region", [&] { Distribution(D(), SubDistributionSpec{{-1, 0}, {0, 0}}); });
    probe("negative size", [&] { Distribution(GlobalElementSize(-1, 1), bs, ts, g, comm::Index2D(0, 0), comm::Index2D(0, 0)); });
    probe("empty tile", [&] { Distribution(n, bs, TileElementSize(0, 1), g, comm::Index2D(0, 0), comm::Index2D(0, 0)); });
    probe("empty block", [&] { Distribution(n, GlobalElementSize(0, c.ts), ts, g, comm::Index2D(0, 0), comm::Index2D(0, 0)); });
    probe("block not a multiple of the tile", [&] { Distribution(n, GlobalElementSize(3, c.ts), TileElementSize(2, c.ts), g, comm::Index2D(0, 0), comm::Index2D(0, 0)); });
    probe("empty grid", [&] { Distribution(n, bs, ts, comm::Size2D(0, 1), comm::Index2D(0, 0), comm::Index2D(0, 0)); });
    probe("rank outside the grid", [&] { Distribution(n, bs, ts, g, comm::Index2D(int(r.np), 0), comm::Index2D(0, 0)); });
    probe("source rank outside the grid", [&] { Distribution(n, bs, ts, g, comm::Index2D(0, 0), comm::Index2D(0, int(c.np))); });
  }
  R.extra["misuse_probes"] = misuse;
  return R.done();
}
