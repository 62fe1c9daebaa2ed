// Replays spec/Layouts.tla into DataDescriptor, Buffer and copy.
#include <sys/mman.h>

#include <complex>
#include <cstdint>

#include <dlaf/common/data.h>
#include <dlaf/common/data_descriptor.h>

#include "common.h"
using namespace dlaf;
using namespace dlaf::common;
using vf::cat;
vf::Report R;

struct Lay {
  SizeType n, s, t;
  SizeType span() const { return n * s == 0 ? 0 : (n - 1) * t + s; }
  std::string str() const { return cat("[", n, "x", s, "stride", t, "]"); }
};

// An implementation of the Data concept that is not a DataDescriptor.
template <class T>
struct Foreign {
  T* p;
  Lay l;
  T* data() const { return p; }
  SizeType nblocks() const { return l.n; }
  SizeType blocksize() const { return l.s; }
  SizeType stride() const { return l.t; }
  SizeType count() const { return l.n * l.s; }
  bool is_contiguous() const { return l.n == 1; }
};
namespace dlaf::common {
template <class T>
struct data_traits<Foreign<T>> {
  using element_t = T;
};
}

template <class T>
T val(long k) {
  return T(k % 120 + 1);
}
template <>
std::complex<double> val(long k) {
  return {double(k + 1), -double(k)};
}
template <>
std::string val(long k) {
  return "element number " + std::to_string(k);
}

constexpr SizeType guard = 7;
template <class T>
std::vector<T> memory(SizeType span, bool source) {
  std::vector<T> m(size_t(span + 2 * guard));
  for (size_t i = 0; i < m.size(); ++i)
    m[i] = source ? val<T>(long(i)) : val<T>(long(i) + 60);
  return m;
}

template <class T, class S, class D>
void do_copy(const Lay& a, const Lay& b, const long long* from, const long long* to, long cnt, S mk_src, D mk_dst, const std::string& w) {
  auto ms = memory<T>(a.span(), true), md = memory<T>(b.span(), false);
  auto want_s = ms, want_d = md;
  for (long i = 0; i < cnt; ++i)
    want_d[size_t(guard + to[i])] = ms[size_t(guard + from[i])];
  {
    auto src = mk_src(ms.data() + guard);
    auto dst = mk_dst(md.data() + guard);
    copy(src, dst);
  }
  R.ok(md == want_d, cat("destination memory after copy", w, a.str(), "->", b.str()));
  R.ok(ms == want_s, cat("source memory after copy", w, a.str(), "->", b.str()));
}

template <class T>
void pair_case(const Lay& a, const Lay& b, const long long* from, const long long* to, long cnt, const char* tn) {
  auto cs = [&](T* p) { return DataDescriptor<const T>(p, a.n, a.s, a.t); };
  auto ms = [&](T* p) { return make_data(p, a.n, a.s, a.t); };
  auto fs = [&](T* p) { return Foreign<const T>{p, a}; };
  auto cf = [&](T* p) { return DataDescriptor<const T>(Foreign<T>{p, a}); };
  auto dd = [&](T* p) { return DataDescriptor<T>(p, b.n, b.s, b.t); };
  auto md = [&](T* p) { return make_data(p, b.n, b.s, b.t); };
  auto fd = [&](T* p) { return Foreign<T>{p, b}; };
  std::string w = tn;
  do_copy<T>(a, b, from, to, cnt, cs, dd, w + " descriptor->descriptor");
  do_copy<T>(a, b, from, to, cnt, ms, md, w + " make_data->make_data");
  do_copy<T>(a, b, from, to, cnt, fs, dd, w + " foreign->descriptor");
  do_copy<T>(a, b, from, to, cnt, cs, fd, w + " descriptor->foreign");
  do_copy<T>(a, b, from, to, cnt, fs, fd, w + " foreign->foreign");
  do_copy<T>(a, b, from, to, cnt, cf, dd, w + " converted->descriptor");
  if (a.n == 1)
    do_copy<T>(a, b, from, to, cnt, [&](T* p) { return make_data(static_cast<const T*>(p), a.s); }, dd, w + " contiguous make_data->descriptor");
  if (b.n == 1)
    do_copy<T>(a, b, from, to, cnt, cs, [&](T* p) { return make_data(p, b.s); }, w + " descriptor->contiguous make_data");
  // through an owning buffer: strided -> buffer -> strided
  if (cnt > 0) {
    auto m = memory<T>(a.span(), true), n = memory<T>(b.span(), false), want = n;
    for (long i = 0; i < cnt; ++i)
      want[size_t(guard + to[i])] = m[size_t(guard + from[i])];
    auto src = cs(m.data() + guard);
    auto buf = create_temporary_buffer(src);
    copy(src, buf);
    for (long i = 0; i < cnt; ++i)
      R.ok(data_pointer(buf)[i] == m[size_t(guard + from[i])], cat("temporary buffer element", i, w, a.str()));
    Buffer<T> moved(std::move(buf));
    Buffer<T> third;
    R.ok(!third && moved, "buffer validity " + w);
    third = std::move(moved);
    copy(third, dd(n.data() + guard));
    R.ok(n == want, cat("through a temporary buffer", w, a.str(), b.str()));
  }
}

template <class D>
bool walks(const D& d, const typename data_traits<D>::element_t* base, const std::vector<long long>& pos) {
  size_t k = 0;
  for (SizeType b = 0; b < data_nblocks(d); ++b)
    for (SizeType e = 0; e < data_blocksize(d); ++e, ++k)
      if (k >= pos.size() || data_pointer(d) + b * data_stride(d) + e != base + pos[k])
        return false;
  return k == pos.size();
}

static void single(const std::vector<long long>& v) {
  const Lay a{v[0], v[1], v[2]};
  const long cnt = long(v[3]);
  const bool contig = v[4];
  const std::vector<long long> pos(v.begin() + 5, v.end());
  std::vector<double> m(size_t(a.span() + 20));
  for (size_t i = 0; i < m.size(); ++i)
    m[i] = double(i);
  double* p = m.data() + 5;
  DataDescriptor<double> d(p, a.n, a.s, a.t);
  DataDescriptor<const double> cd(p, a.n, a.s, a.t);
  DataDescriptor<const double> conv(d);
  DataDescriptor<const double> fconv(Foreign<double>{p, a});
  auto copyd = d;
  DataDescriptor<double> assigned;
  R.ok(assigned.data() == nullptr && assigned.count() == 0, "null description");
  assigned = d;
  auto chk = [&](auto& x, const char* n) {
    const std::string w = cat(n, a.str());
    R.eq((long) data_count(x), cnt, "count " + w);
    R.ok(data_pointer(x) == p, "pointer " + w);
    R.ok(walks(x, p, pos), "described positions " + w);
    if (contig) {
      // a contiguous description must be usable as pointer + count
      R.ok(data_iscontiguous(x) ? data_blocksize(x) == cnt : true, "contiguous block size " + w);
      if (cnt > 0 && a.s > 0)
        R.ok(data_iscontiguous(x) || a.n > 1, "single block must be contiguous " + w);
    }
    else
      R.ok(!data_iscontiguous(x), "gaps but reported contiguous " + w);
  };
  chk(d, "descriptor");
  chk(cd, "const descriptor");
  chk(conv, "converted");
  chk(fconv, "converted foreign");
  chk(copyd, "copied");
  chk(assigned, "assigned");
  R.ok(d == copyd && !(d != copyd), "equality " + a.str());
  if (contig && cnt > 0 && (a.n == 1 || a.s == a.t))
    R.ok(data_iscontiguous(d), "contiguous " + a.str());
  DataDescriptor<double> other(p + 1, a.n, a.s, a.t);
  R.ok(other != d, "inequality of the pointer " + a.str());
  // a description of one block has no stride, whichever one was given
  if (d.nblocks() == 1)
    R.eq((long) d.stride(), 0L, "stride of a single block " + a.str());
  if (contig && cnt > 0 && (a.n == 1 || a.s == a.t))
    R.ok(d.nblocks() == 1 && (long) d.blocksize() == cnt, "single block " + a.str());
  // two descriptions are equal exactly if they describe the same blocks
  for (const Lay& o : {Lay{a.n + 1, a.s, a.t}, Lay{a.n, a.s + 1, a.t}, Lay{a.n, a.s, a.t + 1}, Lay{a.n, a.s, a.t + 2}}) {
    DataDescriptor<double> e(p, o.n, o.s, o.t);
    const bool same = e.nblocks() == d.nblocks() && e.blocksize() == d.blocksize() && e.stride() == d.stride();
    R.ok((e == d) == same && (e != d) == !same, cat("equality with", o.str(), a.str()));
  }
  // the null description, in memory which was used before
  alignas(DataDescriptor<double>) unsigned char raw[sizeof(DataDescriptor<double>)];
  std::memset(raw, 0x5a, sizeof raw);
  auto* null = new (raw) DataDescriptor<double>();
  R.ok(null->data() == nullptr && null->nblocks() == 0 && null->blocksize() == 0 && null->stride() == 0 && null->count() == 0, "null description in used memory");
  // temporary contiguous stand-ins
  if (cnt > 0) {
    Buffer<double> support;
    auto c = make_contiguous(d, support);
    R.ok(data_iscontiguous(c) && data_count(c) == cnt && data_blocksize(c) == cnt, "make_contiguous " + a.str());
    R.eq(data_pointer(c) == p, contig && data_iscontiguous(d), "make_contiguous aliases the original only if contiguous " + a.str());
    R.eq(bool(support), !data_iscontiguous(d), "support buffer used only if needed " + a.str());
    if (support) {
      R.ok(data_pointer(c) == data_pointer(support) && data_count(support) == cnt, "support buffer size " + a.str());
      for (long i = 0; i < cnt; ++i)  // the whole of it must be writable (checked by the sanitiser build)
        data_pointer(c)[i] = double(i);
    }
    for (size_t i = 0; i < m.size(); ++i)
      R.ok(m[i] == double(i), cat("original untouched", i, a.str()));
    Buffer<double> support2;
    auto cc = make_contiguous(cd, support2);
    R.ok(data_count(cc) == cnt && data_iscontiguous(cc), "make_contiguous const " + a.str());
    auto t = create_temporary_buffer(cd);
    R.ok(t && data_count(t) == cnt && data_iscontiguous(t) && data_pointer(t) != p, "temporary buffer " + a.str());
  }
  else {
    static int budget = 12;
    if (budget-- > 0)
      R.ok(vf::dies([&] { auto b = create_temporary_buffer(cd); (void) b; }) == 1, "temporary buffer of nothing " + a.str());
  }
}

// Layouts whose strides exceed 32 bits, in a sparse mapping (law ScaleLaw of the model)
static void huge() {
  const size_t len = size_t(5) << 31;
  auto map = [&] { return static_cast<char*>(mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); };
  char *A = map(), *B = map();
  if (A == MAP_FAILED || B == MAP_FAILED) {
    R.extra["no_sparse_map"] = 1;
    return;
  }
  for (auto [a, b] : {std::pair<Lay, Lay>{{3, 2, (SizeType(1) << 31) + 5}, {2, 3, (SizeType(1) << 32) + 9}},
                      {{1, 6, 0}, {3, 2, (SizeType(1) << 32) - 3}},
                      {{3, 2, (SizeType(1) << 32) + 1}, {1, 6, 0}},
                      {{2, 3, 3000000000}, {3, 2, 2147483649}}}) {
    auto at = [](const Lay& l, SizeType i) { return i / l.s * l.t + i % l.s; };
    for (SizeType i = 0; i < 6; ++i) {
      A[16 + at(a, i)] = char(10 + i);
      for (int o = -4; o <= 4; ++o)
        B[16 + at(b, i) + o] = 99;
    }
    copy(DataDescriptor<const char>(A + 16, a.n, a.s, a.t), DataDescriptor<char>(B + 16, b.n, b.s, b.t));
    for (SizeType i = 0; i < 6; ++i) {
      R.eq(int(B[16 + at(b, i)]), int(10 + i), cat("huge stride element", i, a.str(), b.str()));
      R.eq(int(A[16 + at(a, i)]), int(10 + i), cat("huge stride source", i, a.str(), b.str()));
    }
    for (SizeType blk = 0; blk < b.n; ++blk)
      R.ok(B[16 + blk * b.t - 1] == 99 && B[16 + blk * b.t + b.s] == 99, cat("huge stride gaps", a.str(), b.str()));
  }
  munmap(A, len);
  munmap(B, len);
}

int main(int argc, char** argv) {
  const bool sanitised = argc > 2;
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    ++R.cases;
    const auto& v = l.v;
    if (l.kind == "Y")
      single(v);
    else if (l.kind == "C") {
      const Lay a{v[0], v[1], v[2]}, b{v[3], v[4], v[5]};
      const long c = long(v[6]);
      const long long *f = v.data() + 7, *t = f + c;
      pair_case<double>(a, b, f, t, c, "double");
      pair_case<std::int8_t>(a, b, f, t, c, "int8");
      pair_case<std::complex<double>>(a, b, f, t, c, "complex");
      if (!sanitised || R.cases % 7 == 0)
        pair_case<std::string>(a, b, f, t, c, "string");
    }
    else if (l.kind == "X") {
      static std::map<std::pair<bool, bool>, int> budget;
      const Lay a{v[0], v[1], v[2]}, b{v[3], v[4], v[5]};
      if (!sanitised && budget[{a.n == 1, b.n == 1}]++ % 40 == 0) {
        std::vector<double> m(500), n(500);
        ++R.extra["death_probes"];
        R.ok(vf::dies([&] { copy(DataDescriptor<double>(m.data(), a.n, a.s, a.t), DataDescriptor<double>(n.data(), b.n, b.s, b.t)); }) == 1,
             cat("copy between descriptions of different element counts accepted", a.str(), b.str()));
      }
    }
    else
      exit(3);
  });
  double arr[5] = {1, 2, 3, 4, 5}, out[5] = {};
  DataDescriptor<double[5]> whole(arr);
  R.ok(whole.count() == 5 && whole.data() == arr && whole.is_contiguous(), "C array");
  copy(whole, DataDescriptor<double>(out, 5));
  R.ok(std::equal(arr, arr + 5, out), "C array copy");
  auto mem = std::make_unique<int[]>(4);
  int* raw = mem.get();
  Buffer<int> ext(std::move(mem), 4);
  R.ok(ext && ext.data() == raw && ext.count() == 4, "buffer around external memory");
  if (!sanitised)
    huge();
  return R.done();
}
