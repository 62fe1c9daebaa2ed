// Replays spec/Splits.tla, spec/Dealer.tla and spec/RoundRobin.tla.
#include <cstdint>
#include <limits>
#include <memory>
#include <optional>

#include <dlaf/common/round_robin.h>
#include <dlaf/util_math.h>

#include "common.h"
using namespace dlaf;
using vf::cat;
vf::Report R;

static void splits(const std::vector<long long>& v, long long K) {
  const auto got = util::interleaveSplits(K * v[0], K * v[1], K * v[2], K * v[3]);
  bool same = got.size() == v.size() - 4;
  for (size_t i = 0; same && i < got.size(); ++i)
    same = got[i] == K * v[4 + i];
  std::string g;
  for (auto x : got)
    g += std::to_string(x) + ",";
  R.ok(same, cat("interleaveSplits l", K * v[0], "b", K * v[1], "offsets", K * v[2], K * v[3], "got", g));
}
template <class T>
void ceil_(long long a, long long d, long long q) {
  // multiples keep the quotient: ceil(K a / K d) = ceil(a / d); the precondition is a + d - 1 <= max
  for (long long K : {1LL, 3LL, 100LL, 1LL << 20, 1LL << 33, 1LL << 57}) {
    if (__int128(a + d) * K - 1 > __int128(std::numeric_limits<T>::max()))
      break;
    R.eq((long long) util::ceilDiv<T>(T(a * K), T(d * K)), q, cat("ceilDiv", a * K, d * K, "bits", 8 * sizeof(T)));
    // with a whole number of boxes more
    if (__int128(a + d) + __int128(d) * K - 1 <= __int128(std::numeric_limits<T>::max()) && __int128(q) + K <= __int128(std::numeric_limits<T>::max()))
      R.eq((long long) util::ceilDiv<T>(T(a + d * K), T(d)), q + K, cat("ceilDiv", a + d * K, d, "bits", 8 * sizeof(T)));
  }
  static_assert(util::ceilDiv(7, 2) == 4);
}

struct Res {
  int id;
  explicit Res(int* next) : id((*next)++) {}
};
static void ring(const std::vector<long long>& v) {
  int made = 0;
  using RR = common::RoundRobin<std::unique_ptr<int>>;
  using R2 = common::RoundRobin<Res>;
  (void) sizeof(RR);
  std::optional<R2> rr;
  if (v[0] > 0 || v.size() % 4 == 1)
    rr.emplace(std::size_t(v[0]), &made);
  else
    rr.emplace();
  std::string w = cat("ring of", v[0], "operations:");
  for (size_t k = 1; k + 1 < v.size(); k += 2) {
    w += cat(v[k]);
    switch (v[k]) {
      case 0:
      case 1:
        if (v[k + 1] < 0) {
          static int budget = 60;
          if (budget-- > 0)
            R.ok(vf::dies([&] { (void) (v[k] ? rr->nextResource().id : rr->currentResource().id); }) == 1, "resource from an empty ring " + w);
        }
        else {
          auto& r = v[k] ? rr->nextResource() : rr->currentResource();
          R.eq((long long) r.id, v[k + 1], "resource " + w);
          R.ok(&r == &rr->currentResource(), "current is the one handed out " + w);
        }
        break;
      case 2: {
        R2 other(std::move(*rr));
        rr.emplace(std::move(other));
        break;
      }
      case 3: {
        int m = 100;
        R2 other(3, &m);
        other.nextResource();
        other = std::move(*rr);
        rr.emplace();
        *rr = std::move(other);
        break;
      }
      case 4: R.eq((long long) rr->size(), v[k + 1], "size " + w); break;
    }
  }
}

int main(int, char** argv) {
  vf::for_each_line(argv[1], [](const vf::Line& l) {
    ++R.cases;
    if (l.kind == "I")
      for (long long K : {1LL, 2LL, 7LL, 1LL << 32, (1LL << 40) + 1})
        splits(l.v, K);
    else if (l.kind == "D") {
      ceil_<std::int8_t>(l.v[0], l.v[1], l.v[2]);
      ceil_<std::uint8_t>(l.v[0], l.v[1], l.v[2]);
      ceil_<std::int16_t>(l.v[0], l.v[1], l.v[2]);
      ceil_<int>(l.v[0], l.v[1], l.v[2]);
      ceil_<unsigned>(l.v[0], l.v[1], l.v[2]);
      ceil_<SizeType>(l.v[0], l.v[1], l.v[2]);
      ceil_<std::size_t>(l.v[0], l.v[1], l.v[2]);
    }
    else if (l.kind == "P") {
      R.eq((long long) util::internal::percent_to_index(SizeType(l.v[0]), double(l.v[1])), l.v[2], cat("percent_to_index", l.v[0], l.v[1]));
      R.eq((long long) util::internal::percent_to_index(SizeType(l.v[0]), float(l.v[1])), l.v[2], cat("percent_to_index float", l.v[0], l.v[1]));
      // a multiple of 100 more items adds exactly pct per hundred
      for (long long M : {1LL, 1000LL, 10000000LL})
        R.eq((long long) util::internal::percent_to_index(SizeType(l.v[0] + 100 * M), double(l.v[1])), l.v[2] + M * l.v[1],
             cat("percent_to_index", l.v[0] + 100 * M, l.v[1]));
    }
    else if (l.kind == "R")
      ring(l.v);
    else
      exit(3);
  });
  const std::vector<std::pair<std::string, std::function<void()>>> refused = {
      {"l = 0", [] { util::interleaveSplits(0, 1, 0, 0); }},       {"l < 0", [] { util::interleaveSplits(-4, 1, 0, 0); }},
      {"b = 0", [] { util::interleaveSplits(3, 0, 0, 0); }},       {"o1 < 0", [] { util::interleaveSplits(3, 2, -1, 0); }},
      {"o2 < 0", [] { util::interleaveSplits(3, 2, 0, -1); }},     {"o1 > b", [] { util::interleaveSplits(3, 2, 3, 0); }},
      {"o2 > b", [] { util::interleaveSplits(3, 2, 0, 3); }},      {"size < 0", [] { util::internal::percent_to_index(-1, 10.0); }},
      {"percent < 0", [] { util::internal::percent_to_index(10, -0.5); }}, {"percent > 100", [] { util::internal::percent_to_index(10, 100.5); }},
      {"percent NaN", [] { util::internal::percent_to_index(10, std::numeric_limits<double>::quiet_NaN()); }}};
  for (auto& [n, f] : refused)
    R.ok(vf::dies(f) == 1, "accepted outside its documented domain: " + n);
  return R.done();
}
