// Replays behaviours of spec/TileAccess.tla into Matrix, MatrixRef and Tile on the deterministic runtime: step by step
// (which parts are held after every step) and all at once (what each part saw, what is left in memory).
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/matrix/col_major_layout.h>
#include <umpire/ResourceManager.hpp>
#include <vrt.h>

#include <random>

#include "common.h"
namespace ex = pika::execution::experimental;
using namespace dlaf;
using namespace dlaf::matrix;
using dlaf::matrix::internal::MatrixRef;
static vf::Report R;

static SizeType LR, LC, TR, TC;
static std::vector<std::array<SizeType, 4>> refs;

template <class T>
static T make(long writer, long elem) {
  if constexpr (std::is_same_v<T, std::complex<double>>)
    return {double(writer), double(elem)};
  else
    return T(writer * 4096 + elem);
}
template <class T>
static std::string show(T v) {
  std::ostringstream o;
  if constexpr (std::is_same_v<T, std::complex<double>>)
    o << "part " << v.real() << " element " << v.imag();
  else
    o << "part " << long(v) / 4096 << " element " << long(v) % 4096;
  return o.str();
}

struct PartWant {
  SizeType r, c, n, m;
  bool saw;
  std::vector<long> seen;
};
struct Case {
  std::vector<std::array<long, 5>> ops;
  std::vector<PartWant> parts;
  std::vector<long> final;
  std::string text;
};
static Case parse(const std::vector<long long>& v) {
  Case c;
  std::size_t i = 0;
  for (; v[i] != -1; i += 5) {
    c.ops.push_back({long(v[i]), long(v[i + 1]), long(v[i + 2]), long(v[i + 3]), long(v[i + 4])});
    c.text += vf::cat(v[i], v[i + 1], v[i + 2], v[i + 3]) + "; ";
  }
  for (++i; v[i] != -2;) {
    PartWant p{SizeType(v[i]), SizeType(v[i + 1]), SizeType(v[i + 2]), SizeType(v[i + 3]), v[i + 4] != 0, {}};
    i += 5;
    if (p.saw)
      for (SizeType k = 0; k < p.n * p.m; ++k)
        p.seen.push_back(long(v[i++]));
    c.parts.push_back(p);
  }
  for (++i; i < v.size(); ++i)
    c.final.push_back(long(v[i]));
  return c;
}
// the parts a cut makes (the specification's Cut), relative to the part
static std::vector<SubTileSpec> cut(const PartWant& g, int how) {
  const SizeType n = g.n, m = g.m, hn = n / 2, hm = m / 2;
  switch (how) {
    case 0: return {};
    case 1: return {{{hn, 0}, {n - hn, m}}, {{0, 0}, {hn, m}}};
    case 2: return {{{0, hm}, {n, m - hm}}, {{0, 0}, {n, hm}}};
    case 3: return {{{n - 1, m - 1}, {1, 1}}};
    case 4: return {{{hn, hm}, {n - hn, m - hm}}, {{0, 0}, {hn, hm}}, {{0, 0}, {0, m}}};
    case 5: return {{{0, 0}, {n, m}}};
    case 6: return {{{0, 0}, {hn, m}}, {{hn, 0}, {n - hn, hm}}, {{hn, hm}, {n - hn, m - hm}}};
    case 7: return {{{0, 0}, {n, m}}, {{hn, 0}, {n - hn, m}}};
  }
  std::exit(3);
}
template <class M>
static void drop(M& m, int k) {
  auto n = m.extract(k);
}

template <class T>
struct World {
  static constexpr Device D = Device::CPU;
  using Mat = Matrix<T, D>;
  using CMat = Matrix<const T, D>;
  using RS = ReadOnlyTileSender<T, D>;
  using WS = ReadWriteTileSender<T, D>;
  using RW = matrix::internal::TileAsyncRwMutexReadOnlyWrapper<T, D>;
  using Tl = Tile<T, D>;
  using CTl = Tile<const T, D>;

  const Case* cs;
  std::mt19937 rng;
  bool storm = false, transfer = false;
  std::map<int, std::unique_ptr<Mat>> mat;
  std::map<int, std::unique_ptr<CMat>> cmat;
  std::map<int, int> parent, part_mat;
  std::map<int, RS> rlazy;
  std::map<int, WS> wlazy;
  std::map<int, RW> rheld;
  std::map<int, Tl> wheld;
  std::map<int, bool> finished, begun;
  std::vector<int> use;  // per element: readers, -1 writer
  int nmat = 0, npart = 0;
  std::string ctx;
  unsigned pick(unsigned n) { return unsigned(rng() % n); }

  const PartWant& want(int l) const { return cs->parts.at(std::size_t(l - 1)); }
  static long elem(SizeType r, SizeType c) { return long(r + LR * c) + 1; }

  // contents as seen by part l at its start
  void look(int l, const CTl& t, bool first, bool written) {
    const PartWant& w = want(l);
    begun[l] = true;
    if (!R.ok(t.size() == TileElementSize(w.n, w.m), vf::cat("part", l, "has size", t.size(), "instead of", w.n, w.m, ":", ctx)))
      return;
    if (first && !w.saw) {
      R.ok(false, vf::cat("part", l, "must not be granted:", ctx));
      return;
    }
    for (SizeType j = 0; j < w.m; ++j)
      for (SizeType i = 0; i < w.n; ++i) {
        const T v = t({i, j});
        const T x = make<T>(written ? l : w.seen[std::size_t(i + j * w.n)], elem(w.r + i, w.c + j));
        if (!R.ok(v == x, vf::cat("part", l, "at", w.r + i, w.c + j, first ? "sees" : "keeps", show(v), "instead of", show(x), ":", ctx)))
          return;
        R.ok(t.ptr({i, j}) == &t({i, j}) && (i || j || t.ptr() == t.ptr({0, 0})), "pointers of a tile disagree: " + ctx);
      }
    if (w.n * w.m == 0)
      return;
    // untracked sub-tiles address the same elements
    const SizeType a = pick(unsigned(w.n)), b = pick(unsigned(w.m));
    const SubTileSpec sp{{a, b}, {SizeType(pick(unsigned(w.n - a)) + 1), SizeType(pick(unsigned(w.m - b)) + 1)}};
    auto s = t.subTileReference(sp);
    R.ok(s.size() == sp.size && s.ld() == t.ld() && s.ptr() == t.ptr({a, b}) &&
             s.ptr({sp.size.rows() - 1, sp.size.cols() - 1}) == t.ptr({a + sp.size.rows() - 1, b + sp.size.cols() - 1}),
         vf::cat("sub-tile reference", sp.origin, sp.size, "addresses other elements:", ctx));
    R.ok(t.is_contiguous() == (t.ld() == t.size().rows()), "is_contiguous: " + ctx);
  }
  void fill(int l, const Tl& t) {
    const PartWant& w = want(l);
    for (SizeType j = 0; j < t.size().cols(); ++j)
      for (SizeType i = 0; i < t.size().rows(); ++i)
        t({i, j}) = make<T>(l, elem(w.r + i, w.c + j));
  }
  void enter(int l, bool writer, int sign) {
    const PartWant& w = want(l);
    for (SizeType j = 0; j < w.m; ++j)
      for (SizeType i = 0; i < w.n; ++i) {
        int& u = use[std::size_t(w.r + i + LR * (w.c + j))];
        if (sign > 0) {
          if (!R.ok(writer ? u == 0 : u >= 0, vf::cat("part", l, writer ? "writes" : "reads", "an element in use:", ctx)))
            return;
          u = writer ? -1 : u + 1;
        }
        else
          u = writer ? 0 : u - 1;
      }
  }
  void start_read(int l, RS s) {
    auto body = [this, l](RW w) {
      if (R.mismatches > 0)
        return;
      look(l, w.get(), true, false);
      if (!storm) {
        rheld.insert_or_assign(l, std::move(w));
        return;
      }
      enter(l, false, 1);
      vrt::preempt();
      vrt::preempt();
      look(l, w.get(), false, false);
      enter(l, false, -1);
      finished[l] = true;
    };
    if (storm || transfer)
      ex::start_detached(std::move(s) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then(std::move(body)));
    else
      ex::start_detached(std::move(s) | ex::then(std::move(body)));
  }
  void start_write(int l, WS s) {
    auto body = [this, l](Tl t) {
      if (R.mismatches > 0)
        return;
      look(l, t, true, false);
      if (!storm) {
        fill(l, t);
        if (pick(2)) {
          Tl moved(std::move(t));
          R.ok(t.size() == TileElementSize(0, 0), "a moved-from tile is not empty: " + ctx);
          Tl again;
          again = std::move(moved);
          wheld.insert_or_assign(l, std::move(again));
        }
        else
          wheld.insert_or_assign(l, std::move(t));
        return;
      }
      enter(l, true, 1);
      vrt::preempt();
      fill(l, t);
      vrt::preempt();
      look(l, t, false, true);
      enter(l, true, -1);
      finished[l] = true;
    };
    if (storm || transfer)
      ex::start_detached(std::move(s) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then(std::move(body)));
    else
      ex::start_detached(std::move(s) | ex::then(std::move(body)));
  }
  void begin(int l) {
    if (rlazy.count(l)) {
      auto n = rlazy.extract(l);
      start_read(l, std::move(n.mapped()));
    }
    else if (wlazy.count(l)) {
      auto n = wlazy.extract(l);
      start_write(l, std::move(n.mapped()));
    }
  }
  void release(int l) {
    if (rheld.count(l)) {
      look(l, rheld.at(l).get(), false, false);
      drop(rheld, l);
    }
    if (wheld.count(l)) {
      look(l, wheld.at(l), false, true);
      drop(wheld, l);
    }
  }
  CMat& any(int m) { return mat.count(m) ? static_cast<CMat&>(*mat.at(m)) : *cmat.at(m); }
  LocalTileIndex tile_of(CMat& m, long k) {
    const SizeType nr = m.distribution().local_nr_tiles().rows();
    return {(k - 1) % nr, (k - 1) / nr};
  }
  template <class M, class F>
  auto call(M& m, LocalTileIndex ij, F f) {
    return pick(2) ? f(m, ij) : f(m, m.distribution().global_tile_index(ij));
  }
  void asked(int m, bool write, bool lazy, std::optional<RS> rs, std::optional<WS> ws) {
    const int l = ++npart;
    part_mat[l] = m;
    if (write)
      wlazy.emplace(l, std::move(*ws));
    else
      rlazy.emplace(l, std::move(*rs));
    if (!lazy)
      begin(l);
  }
  dlaf::matrix::internal::SubMatrixSpec spec_of(long n) const {
    const auto& g = refs.at(std::size_t(n - 1));
    return {{g[0], g[1]}, {g[2], g[3]}};
  }
  static constexpr auto rd = [](auto& m, auto i) { return RS(m.read(i)); };
  static constexpr auto wr = [](auto& m, auto i) { return WS(m.readwrite(i)); };
  template <class N>
  void view(int m, N&& n) {
    const int k = ++nmat;
    parent[k] = m;
    if constexpr (std::is_same_v<std::decay_t<N>, Mat>)
      mat.emplace(k, std::make_unique<Mat>(std::move(n)));
    else
      cmat.emplace(k, std::make_unique<CMat>(std::move(n)));
  }
  void step(const std::array<long, 5>& o) {
    const int a = int(o[1]);
    const long b = o[2], c = o[3];
    switch (o[0]) {
      case 1: {
        const bool write = c & 1, lazy = c & 2;
        const auto ij = tile_of(any(a), b);
        if (write)
          asked(a, true, lazy, {}, call(*mat.at(a), ij, wr));
        else if (mat.count(a))
          asked(a, false, lazy, call(*mat.at(a), ij, rd), {});
        else
          asked(a, false, lazy, call(*cmat.at(a), ij, rd), {});
        break;
      }
      case 2: {
        const bool write = c & 1, lazy = c & 2;
        const auto ij = tile_of(any(a), c / 4);
        const auto sp = spec_of(b);
        const auto ts = any(a).distribution().tile_size();
        const LocalTileIndex in(ij.row() - sp.origin.row() / ts.rows(), ij.col() - sp.origin.col() / ts.cols());
        if (write) {
          MatrixRef<T, D> ref(*mat.at(a), sp);
          asked(a, true, lazy, {}, call(ref, in, wr));
        }
        else if (mat.count(a) && pick(2)) {
          MatrixRef<T, D> ref(*mat.at(a), sp);
          asked(a, false, lazy, call(ref, in, rd), {});
        }
        else {
          MatrixRef<const T, D> ref(any(a), sp);
          asked(a, false, lazy, call(ref, in, rd), {});
        }
        break;
      }
      case 3: begin(a); break;
      case 4:
        drop(rlazy, a);
        drop(wlazy, a);
        break;
      case 5: release(a); break;
      case 6: {
        const auto specs = cut(want(a), int(b));
        if (wlazy.count(a)) {
          auto n = wlazy.extract(a);
          if (specs.size() == 1 && pick(2)) {
            part_mat[++npart] = part_mat[a];
            wlazy.emplace(npart, splitTile(std::move(n.mapped()), specs[0]));
          }
          else
            for (auto& s : splitTileDisjoint(std::move(n.mapped()), specs)) {
              part_mat[++npart] = part_mat[a];
              wlazy.emplace(npart, std::move(s));
            }
        }
        else if (pick(2)) {
          for (auto& s : splitTile(rlazy.at(a), specs)) {
            part_mat[++npart] = part_mat[a];
            rlazy.emplace(npart, std::move(s));
          }
        }
        else
          for (auto& sp : specs) {
            part_mat[++npart] = part_mat[a];
            rlazy.emplace(npart, splitTile(rlazy.at(a), sp));
          }
        break;
      }
      case 7: {
        auto n = wlazy.extract(a);
        rlazy.emplace(a, shareReadWriteTile(std::move(n.mapped())));
        break;
      }
      case 8:
        part_mat[++npart] = part_mat[a];
        if (rlazy.count(a))
          rlazy.emplace(npart, rlazy.at(a));
        else {
          begun[npart] = finished[npart] = true;
          if (rheld.count(a)) {
            auto w = rheld.at(a);
            rheld.insert_or_assign(npart, std::move(w));
          }
        }
        break;
      case 9:
        if (b)
          view(a, any(a).sub_pipeline_const());
        else
          view(a, mat.at(a)->sub_pipeline());
        break;
      case 10: {
        const LocalTileSize f(b / 100, b % 100);
        if (c)
          view(a, any(a).retiled_sub_pipeline_const(f));
        else
          view(a, mat.at(a)->retiled_sub_pipeline(f));
        break;
      }
      case 11: {
        const LocalTileSize f(c / 200, c % 200 / 2);
        const auto sp = spec_of(b);
        if (c % 2) {
          MatrixRef<const T, D> ref(any(a), sp);
          view(a, ref.retiled_sub_pipeline_const(f));
        }
        else {
          MatrixRef<T, D> ref(*mat.at(a), sp);
          view(a, ref.retiled_sub_pipeline(f));
        }
        break;
      }
      case 12: {
        const auto ij = tile_of(any(a), b);
        if (pick(2))
          any(a).done(ij);
        else
          any(a).done(any(a).distribution().global_tile_index(ij));
        break;
      }
      case 13:
        drop(mat, a);
        drop(cmat, a);
        break;
      case 14:
        if (mat.count(a))
          mat.at(a) = std::make_unique<Mat>(std::move(*mat.at(a)));
        else
          cmat.at(a) = std::make_unique<CMat>(std::move(*cmat.at(a)));
        break;
      case 15: {
        const int n = int(b);
        if (mat.count(a)) {
          *mat.at(n) = std::move(*mat.at(a));
          mat.at(a) = std::move(mat.at(n));
          drop(mat, n);
        }
        else {
          *cmat.at(n) = std::move(*cmat.at(a));
          cmat.at(a) = std::move(cmat.at(n));
          drop(cmat, n);
        }
        break;
      }
      case 16:
        any(a).wait_local_tiles();
        if (storm)
          for (auto& [l, m] : part_mat) {
            int q = m;
            while (q != a && q != 1)
              q = parent[q];
            if (q == a && begun.count(l))
              R.ok(finished[l], vf::cat("waiting for the tiles of matrix", a, "ended while part", l, "was running:", ctx));
          }
        break;
      default: std::exit(3);
    }
  }
  long mask() const {
    long m = 0;
    for (auto& k : rheld)
      m |= 1L << (k.first - 1);
    for (auto& k : wheld)
      m |= 1L << (k.first - 1);
    return m;
  }
};

// a distribution whose local part is LR x LC with tiles TR x TC
static Distribution pick_distribution(std::mt19937& rng, bool local) {
  auto one = [&](SizeType L, SizeType T, int& P, int& rank, int& src) -> SizeType {
    P = local ? 1 : 1 + int(rng() % 3);
    rank = int(rng() % unsigned(P));
    src = int(rng() % unsigned(P));
    const SizeType rel = (rank - src + P) % P, nt = (L + T - 1) / T;
    if (nt == 0)
      return rel == 0 ? 0 : rel * T;
    const SizeType before = ((nt - 1) * P + rel) * T;
    if (L % T || P == 1)
      return before + (L % T ? L % T : T);
    return before + T + SizeType(rng() % unsigned((P - 1) * T + 1));
  };
  int pr, pc, rr, rc, sr, sc;
  const SizeType m = one(LR, TR, pr, rr, sr), n = one(LC, TC, pc, rc, sc);
  return Distribution(GlobalElementSize(m, n), TileElementSize(TR, TC), comm::Size2D(pr, pc), comm::Index2D(rr, rc), comm::Index2D(sr, sc));
}

template <class T>
static void one(const Case& c, unsigned seed, bool storm) {
  std::mt19937 rng(seed);
  World<T> w;
  w.cs = &c;
  w.rng.seed(seed * 7 + 1);
  w.storm = storm;
  w.transfer = rng() % 3 == 0;
  w.ctx = vf::cat(storm ? "storm" : "steps", "seed", seed, c.text);
  vrt::context = w.ctx;
  w.use.assign(std::size_t(LR * LC), 0);
  vrt::Options o;
  o.seed = seed;
  o.ranks = 1;
  const auto live0 = umpire::vshim::get().live.size();
  const SizeType ld = LR + SizeType(rng() % 3);
  std::vector<T> memory;
  const bool user = rng() % 2;
  vrt::run(o, [&](int) {
    const Distribution dist = pick_distribution(rng, !refs.empty());
    if (dist.local_size() != LocalElementSize(LR, LC))
      std::exit(3);
    if (user) {
      ColMajorLayout lay(dist, std::max<SizeType>(1, ld));
      memory.assign(std::size_t(ld * LC + 2), T(-5));
      for (SizeType j = 0; j < LC; ++j)
        for (SizeType i = 0; i < LR; ++i)
          memory[std::size_t(1 + i + ld * j)] = make<T>(0, World<T>::elem(i, j));
      w.mat.emplace(1, std::make_unique<Matrix<T, Device::CPU>>(lay, memory.data() + 1));
    }
    else {
      const AllocationLayout ls[] = {AllocationLayout::ColMajor, AllocationLayout::Blocks, AllocationLayout::Tiles};
      auto m = std::make_unique<Matrix<T, Device::CPU>>(dist, AllocationSpec(ls[rng() % 3], rng() % 2 ? Ld::Compact : Ld::Padded));
      for (SizeType j = 0; j < dist.local_nr_tiles().cols(); ++j)
        for (SizeType i = 0; i < dist.local_nr_tiles().rows(); ++i)
          ex::start_detached(m->readwrite(LocalTileIndex(i, j)) | ex::then([i, j](Tile<T, Device::CPU> t) {
                               for (SizeType b = 0; b < t.size().cols(); ++b)
                                 for (SizeType a = 0; a < t.size().rows(); ++a)
                                   t({a, b}) = make<T>(0, World<T>::elem(i * TR + a, j * TC + b));
                             }));
      w.mat.emplace(1, std::move(m));
    }
    w.nmat = 1;
    for (auto& op : c.ops) {
      w.step(op);
      if (!storm) {
        vrt::wait_idle();
        if (!R.eq(w.mask(), op[4], "parts held after step " + std::to_string(&op - c.ops.data() + 1) + " of: " + w.ctx))
          break;
      }
      if (R.mismatches > 0)
        break;
    }
    if (R.mismatches == 0) {
      // everybody leaves, in some order
      std::vector<int> ms;
      for (auto& k : w.mat)
        ms.push_back(k.first);
      for (auto& k : w.cmat)
        ms.push_back(k.first);
      std::shuffle(ms.begin(), ms.end(), rng);
      for (int m : ms) {
        drop(w.mat, m);
        drop(w.cmat, m);
      }
      std::vector<int> ls;
      for (auto& k : w.rlazy)
        ls.push_back(k.first);
      for (auto& k : w.wlazy)
        ls.push_back(k.first);
      std::shuffle(ls.begin(), ls.end(), rng);
      for (int l : ls) {
        drop(w.rlazy, l);
        drop(w.wlazy, l);
      }
      vrt::wait_idle();
      while (R.mismatches == 0 && !(w.rheld.empty() && w.wheld.empty())) {
        ls.clear();
        for (auto& k : w.rheld)
          ls.push_back(k.first);
        for (auto& k : w.wheld)
          ls.push_back(k.first);
        w.release(ls[rng() % ls.size()]);
        vrt::wait_idle();
      }
    }
    vrt::wait_idle();
  });
  if (R.mismatches > 0) {
    R.done();
    std::_Exit(1);
  }
  for (std::size_t l = 0; l < c.parts.size(); ++l)
    if (c.parts[l].saw && c.parts[l].n * c.parts[l].m) {
      bool into_nothing = false;  // these are not observed
      for (auto& op : c.ops)
        into_nothing |= op[0] == 6 && op[2] == 0 && op[1] == long(l + 1);
      R.ok(into_nothing || w.begun.count(int(l + 1)), vf::cat("part", l + 1, "was never granted:", w.ctx));
    }
  if (user) {
    for (SizeType j = 0; j < LC; ++j)
      for (SizeType i = 0; i < ld; ++i) {
        const T v = memory[std::size_t(1 + i + ld * j)];
        if (i < LR)
          R.ok(v == make<T>(c.final[std::size_t(i + LR * j)], World<T>::elem(i, j)), vf::cat("in the end element", i, j, "holds", show(v), ":", w.ctx));
        else
          R.ok(v == T(-5), vf::cat("memory between the columns was written:", w.ctx));
      }
    R.ok(memory.front() == T(-5) && memory.back() == T(-5), "memory around the matrix was written: " + w.ctx);
  }
  R.eq(umpire::vshim::get().live.size(), live0, "allocations left: " + w.ctx);
  ++R.cases;
}

int main(int argc, char** argv) {
  if (argc < 9)
    return 3;
  LR = std::atoi(argv[2]);
  LC = std::atoi(argv[3]);
  TR = std::atoi(argv[4]);
  TC = std::atoi(argv[5]);
  unsigned seed = unsigned(std::atoi(argv[6]));
  const int steps = std::atoi(argv[7]), storms = std::atoi(argv[8]);
  for (int i = 9; i + 3 < argc; i += 4)
    refs.push_back({std::atoi(argv[i]), std::atoi(argv[i + 1]), std::atoi(argv[i + 2]), std::atoi(argv[i + 3])});
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    const Case c = parse(l.v);
    for (int k = 0; k < steps; ++k)
      ++seed % 4 ? one<double>(c, seed, false) : one<std::complex<double>>(c, seed, false);
    for (int k = 0; k < storms; ++k)
      ++seed % 4 ? one<double>(c, seed, true) : one<std::complex<double>>(c, seed, true);
  });
  R.extra["runs"] = vrt::stats.runs;
  R.extra["tasks"] = vrt::stats.tasks;
  return R.done();
}
