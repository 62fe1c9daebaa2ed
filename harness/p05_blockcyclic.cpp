// Replays the states of spec/BlockCyclic.tla into dlaf::util::matrix index functions.
#include <cstdint>

#include <dlaf/matrix/util_distribution.h>
#include <dlaf/types.h>

#include "common.h"

using dlaf::SizeType;
using namespace dlaf::util::matrix;
using vf::cat;
vf::Report R;

static const SizeType BIG = SizeType(1) << 61;

static void element_state(SizeType ts, SizeType eoff, SizeType e, SizeType tile, SizeType telem) {
  for (SizeType K : {SizeType(1), SizeType(3), SizeType(1000003), SizeType(1) << 31, SizeType(3) << 36}) {
    if (K > BIG / (e + ts + 2))
      continue;
    for (SizeType r : {SizeType(0), SizeType(1), K / 2, K - 1}) {
      if (r >= K)
        continue;
      const SizeType ee = e * K + r, tt = ts * K, oo = eoff * K;
      R.eq(tile_from_element(ee, tt, oo), tile, cat("tile of element", ee, "tile_size", tt, "offset", oo));
      R.eq(tile_element_from_element(ee, tt, oo), telem * K + r,
           cat("element-in-tile of element", ee, "tile_size", tt, "offset", oo));
      R.eq(element_from_tile_and_tile_element(tile, telem * K + r, tt, oo), ee,
           cat("element of tile", tile, "+", telem * K + r, "tile_size", tt, "offset", oo));
      if (tile > 0)
        for (SizeType M : {SizeType(1) << 16, (SizeType(1) << 31) + 5}) {
          if (M > BIG / tt)
            continue;
          const SizeType e2 = ee + M * tt;
          R.eq(tile_from_element(e2, tt, oo), tile + M, cat("tile of element", e2, "tile_size", tt, "offset", oo));
          R.eq(tile_element_from_element(e2, tt, oo), telem * K + r,
               cat("element-in-tile of element", e2, "tile_size", tt, "offset", oo));
          R.eq(element_from_tile_and_tile_element(tile + M, telem * K + r, tt, oo), e2,
               cat("element of tile", tile + M, "+", telem * K + r, "tile_size", tt, "offset", oo));
        }
    }
  }
}

static void tile_state(SizeType tpb, int gs, int src, SizeType toff, SizeType tile, int owner,
                       const long long* cnt) {
  auto one = [&](SizeType b, SizeType o, SizeType t, SizeType mul, SizeType add, SizeType shift) {
    R.eq(rank_global_tile(t, b, gs, src, o), owner, cat("rank of tile", t, "tpb", b, "grid", gs, "src", src, "off", o));
    for (int r = 0; r < gs; ++r) {
      const SizeType next = cnt[r] * mul + (r == owner ? add : 0) + shift;
      R.eq(next_local_tile_from_global_tile(t, b, gs, r, src, o), next,
           cat("next local tile from tile", t, "rank", r, "tpb", b, "grid", gs, "src", src, "off", o));
      R.eq(local_tile_from_global_tile(t, b, gs, r, src, o), r == owner ? next : SizeType(-1),
           cat("local tile of tile", t, "rank", r, "tpb", b, "grid", gs, "src", src, "off", o));
      if (r == owner)
        R.eq(global_tile_from_local_tile(next, b, gs, r, src, o), t,
             cat("global tile of local", next, "rank", r, "tpb", b, "grid", gs, "src", src, "off", o));
    }
  };
  for (SizeType K : {SizeType(1), SizeType(5), SizeType(65537), (SizeType(1) << 31) + 1}) {
    if (gs > 64 && K != 1 && K != (SizeType(1) << 31) + 1)
      continue;
    for (SizeType r : {SizeType(0), K - 1}) {
      if (r == 0 || K > 1)
        one(tpb * K, toff * K, tile * K + r, K, r, 0);
      for (SizeType M : {SizeType(1) << 20, (SizeType(1) << 30) + 1, SizeType(715827883), (SizeType(1) << 32) + 3,
                         SizeType(3037000507)}) {
        if (K * tpb * gs > BIG / M)
          continue;
        one(tpb * K, toff * K, tile * K + r + M * gs * tpb * K, K, r, M * tpb * K);
      }
    }
  }
}

static void misuse() {
  volatile SizeType sink = 0;
  long n = 0;
  auto dead = [&](const char* what, const std::function<void()>& f) {
    ++n;
    R.ok(vf::dies(f) == 1, std::string("invalid arguments accepted: ") + what);
  };
  auto live = [&](const char* what, const std::function<void()>& f) {
    ++n;
    R.ok(vf::dies(f) == 0, std::string("valid arguments refused: ") + what);
  };
#define D(expr) dead(#expr, [&] { sink = expr; })
#define L(expr) live(#expr, [&] { sink = expr; })
  D(tile_from_element(-1, 4, 0));
  D(tile_from_element(3, 0, 0));
  D(tile_from_element(3, 4, 4));
  D(tile_from_element(3, 4, -1));
  L(tile_from_element(0, 4, 3));
  D(tile_element_from_element(-1, 4, 0));
  D(tile_element_from_element(3, 0, 0));
  D(tile_element_from_element(3, 4, 4));
  D(tile_element_from_element(3, 4, -1));
  L(tile_element_from_element(0, 1, 0));
  D(element_from_tile_and_tile_element(-1, 0, 4, 0));
  D(element_from_tile_and_tile_element(0, 4, 4, 0));
  D(element_from_tile_and_tile_element(1, -1, 4, 0));
  D(element_from_tile_and_tile_element(0, 2, 4, 2));
  D(element_from_tile_and_tile_element(1, 0, 4, 4));
  L(element_from_tile_and_tile_element(0, 1, 4, 2));
  L(element_from_tile_and_tile_element(1, 3, 4, 2));
  D(rank_global_tile(-1, 2, 3, 0, 0));
  D(rank_global_tile(1, 0, 3, 0, 0));
  D(rank_global_tile(1, 2, 0, 0, 0));
  D(rank_global_tile(1, 2, 3, 3, 0));
  D(rank_global_tile(1, 2, 3, -1, 0));
  D(rank_global_tile(1, 2, 3, 0, 2));
  D(rank_global_tile(1, 2, 3, 0, -1));
  L(rank_global_tile(0, 2, 3, 2, 1));
#define LOC(F)            \
  D(F(-1, 2, 3, 1, 0, 0)); \
  D(F(1, 0, 3, 1, 0, 0));  \
  D(F(1, 2, 0, 0, 0, 0));  \
  D(F(1, 2, 3, 3, 0, 0));  \
  D(F(1, 2, 3, -1, 0, 0)); \
  D(F(1, 2, 3, 1, 3, 0));  \
  D(F(1, 2, 3, 1, -1, 0)); \
  D(F(1, 2, 3, 1, 0, 2));  \
  D(F(1, 2, 3, 1, 0, -1)); \
  L(F(0, 2, 3, 2, 2, 1));  \
  L(F(0, 1, 1, 0, 0, 0));
  LOC(local_tile_from_global_tile)
  LOC(next_local_tile_from_global_tile)
  LOC(global_tile_from_local_tile)
  R.extra["misuse_probes"] = n;
}

int main(int, char** argv) {
  vf::for_each_line(argv[1], [](const vf::Line& l) {
    ++R.cases;
    const auto& v = l.v;
    if (l.kind == "E")
      element_state(v[0], v[1], v[2], v[3], v[4]);
    else if (l.kind == "T")
      tile_state(v[0], int(v[1]), int(v[2]), v[3], v[4], int(v[5]), v.data() + 6);
    else
      std::exit(3);
  });
  misuse();
  return R.done();
}
