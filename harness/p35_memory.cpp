// Replays histories of spec/MemoryViews.tla into memory::MemoryView and memory::MemoryChunk.
#include <complex>
#include <memory>
#include <random>

#include <dlaf/memory/memory_chunk.h>
#include <dlaf/memory/memory_view.h>
#include <umpire/ResourceManager.hpp>
#include <vrt.h>

#include "common.h"
using namespace dlaf;
using namespace dlaf::memory;
static vf::Report R;
constexpr Device D = Device::CPU;

template <class T>
struct World {
  using V = MemoryView<T, D>;
  using CV = MemoryView<const T, D>;
  using Ch = MemoryChunk<T, D>;
  long M, C, K;
  std::string ctx;
  std::map<long, std::unique_ptr<V>> v;
  std::map<long, std::unique_ptr<CV>> cv;
  std::map<long, std::unique_ptr<Ch>> ch;
  std::map<long, T*> base;                        // of the pieces of memory
  std::map<long, std::unique_ptr<T[]>> mine;      // memory of the caller
  std::map<long, bool> lib;
  static T value(long x) { return T(float(x)); }
  bool mut(long s) const { return s <= M; }
  bool chunk(long s) const { return s > M + C; }
  T* user(long piece, long n, long tag) {
    auto p = std::make_unique<T[]>(std::size_t(n) + 2);
    p[0] = p[std::size_t(n) + 1] = value(12345);
    for (long i = 1; i <= n; ++i)
      p[std::size_t(i)] = value(tag * 16 + i);
    T* q = p.get() + 1;
    mine[piece] = std::move(p);
    return q;
  }
  void act(long step, const long* o, long pieces) {
    const long op = o[0], d = o[1], s = o[2], a = o[3], n = o[4];
    static T none[1];
    switch (op) {
      case 1:
        mut(d) ? void(v[d] = std::make_unique<V>()) : chunk(d) ? void(ch[d] = std::make_unique<Ch>()) : void(cv[d] = std::make_unique<CV>());
        break;
      case 2: {
        if (mut(d)) {
          v[d] = std::make_unique<V>(SizeType(a));
          if (a)
            base[pieces] = (*v[d])();
        }
        else {
          ch[d] = std::make_unique<Ch>(SizeType(a));
          if (a)
            base[pieces] = (*ch[d])();
        }
        if (a) {
          lib[pieces] = true;
        }
        break;
      }
      case 3: {
        T* p = a ? user(pieces, a, step) : none;
        if (a) {
          base[pieces] = p;
          lib[pieces] = false;
        }
        mut(d) ? void(v[d] = std::make_unique<V>(p, SizeType(a))) : chunk(d) ? void(ch[d] = std::make_unique<Ch>(p, SizeType(a))) : void(cv[d] = std::make_unique<CV>(p, SizeType(a)));
        break;
      }
      case 4:
        mut(d) ? void(v[d] = std::make_unique<V>(*v[s])) : mut(s) ? void(cv[d] = std::make_unique<CV>(*v[s])) : void(cv[d] = std::make_unique<CV>(*cv[s]));
        break;
      case 5:
        mut(d) ? void(v[d] = std::make_unique<V>(std::move(*v[s]))) : mut(s) ? void(cv[d] = std::make_unique<CV>(std::move(*v[s]))) : void(cv[d] = std::make_unique<CV>(std::move(*cv[s])));
        break;
      case 6:
        mut(d) ? void(v[d] = std::make_unique<V>(*v[s], SizeType(a), SizeType(n)))
               : mut(s) ? void(cv[d] = std::make_unique<CV>(*v[s], SizeType(a), SizeType(n))) : void(cv[d] = std::make_unique<CV>(*cv[s], SizeType(a), SizeType(n)));
        break;
      case 7: mut(d) ? void(*v[d] = *v[s]) : mut(s) ? void(*cv[d] = *v[s]) : void(*cv[d] = *cv[s]); break;
      case 8: mut(d) ? void(*v[d] = std::move(*v[s])) : mut(s) ? void(*cv[d] = std::move(*v[s])) : void(*cv[d] = std::move(*cv[s])); break;
      case 9: mut(d) ? v.erase(d) : chunk(d) ? ch.erase(d) : cv.erase(d); break;
      case 10: {
        T* p = mut(d) ? (*v[d])() : (*ch[d])();
        const SizeType len = mut(d) ? v[d]->size() : ch[d]->size();
        for (SizeType i = 0; i < len; ++i) {
          T* q = mut(d) ? (*v[d])(i) : (*ch[d])(i);
          R.ok(q == p + i, vf::cat("element", i, "of slot", d, "is elsewhere", ctx));
          *q = value(step * 16 + i + 1);
        }
        break;
      }
      case 11: mut(d) ? void(*v[d] = V(*v[d], SizeType(a), SizeType(n))) : void(*cv[d] = CV(*cv[d], SizeType(a), SizeType(n))); break;
      case 12: ch[d] = std::make_unique<Ch>(std::move(*ch[s])); break;
      case 13: *ch[d] = std::move(*ch[s]); break;
      default: std::exit(3);
    }
  }
  template <class X>
  void see(X& x, const long* o, const std::string& t) {
    R.eq(long(x.size()), o[2], "size " + t);
    if (o[2] == 0)
      R.ok(x() == nullptr, "an empty one shows something " + t);
    else {
      R.ok(x() == base[o[0]] + o[1], "first element " + t);
      for (long i = 0; i < o[2]; ++i)
        R.ok(x(i) == base[o[0]] + o[1] + i, vf::cat("element", i, t));
    }
  }
  // returns the number of values consumed
  std::size_t check(const std::vector<long long>& in, std::size_t k, long pieces, long op, long step) {
    const std::size_t k0 = k;
    for (long s = 1; s <= M + C + K; ++s, k += 3) {
      const long o[3] = {long(in[k]), long(in[k + 1]), long(in[k + 2])};
      const std::string t = vf::cat("of slot", s, "after step", step, ctx);
      const bool there = mut(s) ? v.count(s) : chunk(s) ? ch.count(s) : cv.count(s);
      R.ok(there == (o[2] >= 0), "specification " + t);
      if (!there)
        continue;
      if (mut(s))
        see(*v[s], o, t);
      else if (chunk(s)) {
        see(*ch[s], o, t);
        see(std::as_const(*ch[s]), o, t);
      }
      else
        see(*cv[s], o, t);
    }
    std::size_t live = 0;
    for (long p = 1; p <= pieces; ++p) {
      const bool is = in[k++];
      std::size_t n = 0;
      if (lib[p]) {
        auto& l = umpire::vshim::get().live;
        // the address may have been given out again: only one piece that lives has it
        if (is) {
          R.ok(l.count(base[p]) == 1, vf::cat("piece", p, "is released too early", ctx));
          if (R.mismatches)
            return 0;
          n = l[base[p]] / sizeof(T);
          ++live;
        }
      }
      if (!is)
        continue;
      if (!lib[p])
        R.ok(mine[p][0] == value(12345), vf::cat("memory before piece", p, "changed", ctx));
      for (long i = 0; k < in.size(); ++i) {
        // contents: as many as the piece has elements
        if (lib[p] && i == long(n))
          break;
        if (!lib[p] && base[p][i] == value(12345))
          break;
        const long want = long(in[k++]);
        if (want)
          R.ok(base[p][i] == value(want), vf::cat("element", i, "of piece", p, "after step", step, ctx));
      }
    }
    R.eq(umpire::vshim::get().live.size() - live0, live, vf::cat("pieces of the library that live after step", step, ctx));
    (void) op;
    return k - k0;
  }
  std::size_t live0 = 0;
  void go(const vf::Line& l, unsigned seed) {
    const auto& in = l.v;
    M = long(in[0]), C = long(in[1]), K = long(in[2]);
    live0 = umpire::vshim::get().live.size();
    std::size_t k = 3;
    long step = 0;
    ctx = ":";
    while (in[k] != -7) {
      long o[6];
      for (int i = 0; i < 6; ++i)
        o[i] = long(in[k + std::size_t(i)]);
      k += 6;
      ++step;
      ctx += vf::cat("", o[0], o[1], o[2], o[3], o[4], ";");
      vrt::context = ctx;
      act(step, o, o[5]);
      k += check(in, k, o[5], o[0], step);
      if (R.mismatches)
        return;
    }
    ++k;
    const std::size_t count = (in.size() - k) / 4;
    if (count && seed % 4 == 0) {
      const std::size_t q = k + 4 * (seed / 4 % count);
      const long s = long(in[q + 1]);
      const SizeType a = SizeType(in[q + 2]), n = SizeType(in[q + 3]);
      R.ok(vf::dies([&] { mut(s) ? void(V(*v[s], a, n)) : void(CV(*cv[s], a, n)); }) == 1, vf::cat("part", a, n, "of slot", s, "was not refused", ctx));
      if (mut(s))
        R.ok(vf::dies([&] { CV(*v[s], a, n); }) == 1, vf::cat("read-only part", a, n, "of slot", s, "was not refused", ctx));
      R.extra["probes"]++;
    }
    v.clear();
    cv.clear();
    ch.clear();
    R.eq(umpire::vshim::get().live.size(), live0, "pieces left at the end " + ctx);
    for (auto& [p, m] : mine)
      R.ok(m[0] == value(12345), vf::cat("memory before piece", p, "changed", ctx));
  }
};

int main(int argc, char** argv) {
  if (argc < 3)
    return 3;
  unsigned seed = unsigned(std::atoi(argv[2]));
  R.ok(vf::dies([] { MemoryView<double, D>(SizeType(-1)); }) == 1, "negative size of a view not refused");
  R.ok(vf::dies([] { MemoryChunk<double, D>(SizeType(-1)); }) == 1, "negative size of a chunk not refused");
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    if (R.mismatches)
      return;
    ++seed;
    ++R.cases;
    if (seed % 3 == 0)
      World<double>().go(l, seed);
    else if (seed % 3 == 1)
      World<std::complex<float>>().go(l, seed);
    else
      World<float>().go(l, seed);
  });
  return R.done();
}
