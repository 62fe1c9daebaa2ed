// Replays spec/WideInt.tla into the checked conversions of dlaf/types.h and dlaf/util_math.h.
#include <cstdint>
#include <type_traits>

#include <dlaf/types.h>
#include <dlaf/util_math.h>

#include "common.h"
using vf::cat;
vf::Report R;
using i128 = __int128;
static std::string str(i128 x) {
  if (x == 0)
    return "0";
  std::string s;
  bool n = x < 0;
  unsigned __int128 u = n ? -(unsigned __int128) x : (unsigned __int128) x;
  for (; u; u /= 10)
    s.insert(s.begin(), char('0' + int(u % 10)));
  return n ? "-" + s : s;
}
struct Num {
  i128 v;
  int fits[8];
};
static Num get(const std::vector<long long>& v, size_t& k) {
  Num n{0, {}};
  const bool neg = v[k++];
  unsigned __int128 m = 0;
  for (int d = 0; d < 18; ++d) {
    if (d < 16)
      m += (unsigned __int128)(v[k]) << (8 * d);
    ++k;
  }
  n.v = neg ? -(i128) m : (i128) m;
  for (int t = 0; t < 8; ++t)
    n.fits[t] = int(v[k++]);
  return n;
}
template <int t>
struct Ty;
#define TY(n, T) template <> struct Ty<n> { using type = T; };
TY(0, std::int8_t) TY(1, std::uint8_t) TY(2, std::int16_t) TY(3, std::uint16_t) TY(4, std::int32_t) TY(5, std::uint32_t)
TY(6, std::int64_t) TY(7, std::uint64_t)
// equally wide but different C++ types
template <int t>
struct Alt : Ty<t> {};
template <> struct Alt<0> { using type = char; };
template <> struct Alt<6> { using type = long long; };
template <> struct Alt<7> { using type = unsigned long long; };

static std::map<std::string, int> probes;
static int probe_limit = 8;
template <class F>
void must_die(const std::string& key, F f, const std::string& what) {
  if (probes[key]++ >= probe_limit)
    return;
  ++R.extra["death_probes"];
  R.ok(vf::dies(f) == 1, "accepted a value the target type cannot hold: " + what);
}

template <class To, class From, class F>
void one(const char* api, const Num& n, bool fits, F f) {
  const From x = From(n.v);
  const std::string w = cat(api, "from", sizeof(From) * 8, std::is_signed_v<From> ? "signed" : "unsigned", "to", sizeof(To) * 8,
                            std::is_signed_v<To> ? "signed" : "unsigned", "value", str(n.v));
  if (fits) {
    auto y = f(x);
    static_assert(std::is_same_v<decltype(y), To>);
    ++R.comparisons;
    if (i128(y) != n.v)
      R.ok(false, cat(w, "returned", str(i128(y))));
  }
  else
    must_die(cat(api, sizeof(From), std::is_signed_v<From>, sizeof(To), std::is_signed_v<To>, n.v < 0, sizeof(x), typeid(From).name()), [=] { volatile auto y = f(x); (void) y; }, w);
}

template <class From, int t>
void to(const Num& n) {
  using To = typename Ty<t>::type;
  const bool fits = n.fits[t];
  if constexpr (std::is_signed_v<To>)
    one<To, From>("to_signed", n, fits, [](From x) { return dlaf::to_signed<To>(x); });
  else
    one<To, From>("to_unsigned", n, fits, [](From x) { return dlaf::to_unsigned<To>(x); });
  one<To, From>("integral_cast", n, fits, [](From x) { return dlaf::integral_cast<To>(x); });
  if constexpr (t == 4)
    one<To, From>("to_int", n, fits, [](From x) { return dlaf::to_int(x); });
  if constexpr (t == 5)
    one<To, From>("to_uint", n, fits, [](From x) { return dlaf::to_uint(x); });
  if constexpr (t == 7)
    one<To, From>("to_sizet", n, fits, [](From x) { return dlaf::to_sizet(x); });
  if constexpr (t == 6)
    one<To, From>("to_SizeType", n, fits, [](From x) { return dlaf::to_SizeType(x); });
}
template <int s, int t = 0>
void from(const Num& n) {
  if constexpr (t < 8) {
    if (n.fits[s]) {
      to<typename Ty<s>::type, t>(n);
      if constexpr (!std::is_same_v<typename Ty<s>::type, typename Alt<s>::type>)
        to<typename Alt<s>::type, t>(n);
    }
    from<s, t + 1>(n);
  }
}
template <int s = 0>
void all_from(const Num& n) {
  if constexpr (s < 8) {
    from<s>(n);
    all_from<s + 1>(n);
  }
}

// combine: K = 7 for size_t arithmetic, 6 for ptrdiff_t
template <class TA, class TB, int K, class F>
void comb(const char* name, const Num& a, const Num& b, const Num& r, F f) {
  const std::string w = cat(name, str(a.v), str(b.v), "types", sizeof(TA), std::is_signed_v<TA>, sizeof(TB), std::is_signed_v<TB>);
  const TA x = TA(a.v);
  const TB y = TB(b.v);
  if (!a.fits[K] || !b.fits[K])
    must_die(cat(name, typeid(TA).name(), typeid(TB).name(), a.fits[K], b.fits[K]), [=] { volatile auto z = f(x, y); (void) z; }, w);
  else if (r.fits[K]) {
    auto z = f(x, y);
    ++R.comparisons;
    if (i128(z) != r.v)
      R.ok(false, cat(w, "returned", str(i128(z)), "expected", str(r.v)));
  }
}
template <int s, int t>
void pair_(const Num& a, const Num& b, const Num& sum, const Num& prod) {
  using TA = typename Ty<s>::type;
  using TB = typename Ty<t>::type;
  if (!a.fits[s] || !b.fits[t])
    return;
  comb<TA, TB, 7>("size_t::sum", a, b, sum, [](TA x, TB y) { return dlaf::util::size_t::sum(x, y); });
  comb<TA, TB, 7>("size_t::mul", a, b, prod, [](TA x, TB y) { return dlaf::util::size_t::mul(x, y); });
  comb<TA, TB, 6>("ptrdiff_t::sum", a, b, sum, [](TA x, TB y) { return dlaf::util::ptrdiff_t::sum(x, y); });
  comb<TA, TB, 6>("ptrdiff_t::mul", a, b, prod, [](TA x, TB y) { return dlaf::util::ptrdiff_t::mul(x, y); });
}
template <int s, int t>
void pairs(const Num& a, const Num& b, const Num& sum, const Num& prod) {
  pair_<s, t>(a, b, sum, prod);
  if constexpr (t + 1 < 8)
    pairs<s, t + 1>(a, b, sum, prod);
  else if constexpr (s + 1 < 8)
    pairs<s + 1, 0>(a, b, sum, prod);
}

int main(int argc, char** argv) {
  if (argc > 2)
    probe_limit = atoi(argv[2]);
  vf::for_each_line(argv[1], [](const vf::Line& l) {
    ++R.cases;
    size_t k = 0;
    Num a = get(l.v, k);
    if (l.kind == "V")
      all_from(a);
    else if (l.kind == "P") {
      Num b = get(l.v, k);
      Num s = get(l.v, k);
      Num p = get(l.v, k);
      pairs<0, 0>(a, b, s, p);
    }
    else
      exit(3);
  });
  return R.done();
}
