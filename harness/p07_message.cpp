// Replays spec/MessageOwn.tla and spec/Layouts.tla into Message; run on 2 ranks.
#include "pmpi_types.h"
//
#include <complex>
#include <cstdint>
#include <optional>

#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/datatypes.h>
#include <dlaf/communication/message.h>

#include "common.h"
using namespace dlaf;
using namespace dlaf::common;
using namespace dlaf::comm;
using vf::cat;
vf::Report R;
int rank_;
using Data = DataDescriptor<double>;
using Msg = Message<Data>;

struct Lay {
  SizeType n, s, t;
  SizeType at(SizeType i) const { return i / s * t + i % s; }
  SizeType span() const { return n * s == 0 ? 0 : (n - 1) * t + s; }
  std::string str() const { return cat("[", n, "x", s, "stride", t, "]"); }
};
static const Lay kinds[3] = {{1, 5, 0}, {3, 2, 4}, {2, 3, 7}};

// What the message denotes, read through MPI itself.
static void check_denotes(Msg& m, double* base, const Lay& l, const std::string& w) {
  R.ok(m.data() == base, "message pointer " + w);
  ledger::use(m.mpi_type(), "message");
  if (m.mpi_type() == MPI_DATATYPE_NULL) {
    R.ok(false, "live message without a datatype " + w);
    return;
  }
  int sz = 0;
  MPI_Pack_size(m.count(), m.mpi_type(), MPI_COMM_SELF, &sz);
  std::vector<char> buf(size_t(sz) + 64);
  int pos = 0;
  MPI_Pack(m.data(), m.count(), m.mpi_type(), buf.data(), int(buf.size()), &pos, MPI_COMM_SELF);
  const SizeType c = l.n * l.s;
  std::vector<double> got(size_t(c) + 1);
  R.eq(pos, int(c * SizeType(sizeof(double))), "bytes denoted " + w);
  if (pos == int(c * SizeType(sizeof(double)))) {
    std::memcpy(got.data(), buf.data(), size_t(pos));
    for (SizeType i = 0; i < c; ++i)
      R.ok(got[size_t(i)] == base[l.at(i)], cat("denoted element", i, w));
  }
}

static void history(const std::vector<long long>& v) {
  constexpr int N = 4;
  std::optional<Msg> s[N];
  int kind[N], own[N];
  static double mem[64];
  for (int i = 0; i < 64; ++i)
    mem[i] = i + 0.5;
  for (int i = 0; i < N; ++i)
    kind[i] = -1, own[i] = 0;
  const auto before = ledger::created;
  auto make = [&](long long k) { return Msg(Data(mem + 3, kinds[k].n, kinds[k].s, kinds[k].t)); };
  std::string w = "history:";
  for (size_t k = 0; k + 2 < v.size(); k += 3) {
    const int op = int(v[k]), a = int(v[k + 1]), b = int(v[k + 2]);
    w += cat(op, a, b, ";");
    switch (op) {
      case 1: s[a].emplace(make(b)); kind[a] = b; break;
      case 2: s[b].emplace(std::move(*s[a])); kind[b] = kind[a]; kind[a] = -2; break;
      case 3: {
        Msg& from = *s[a];
        Msg& to = *s[b];
        to = std::move(from);
        const int kd = kind[a];
        kind[a] = -2;
        kind[b] = a == b ? -2 : kd;
        break;
      }
      case 4: s[a].reset(); kind[a] = -1; break;
      case 5: *s[a] = make(b); kind[a] = b; break;
    }
    std::set<MPI_Datatype> used;
    for (int i = 1; i < N; ++i)
      if (kind[i] >= 0) {
        MPI_Datatype t = s[i]->mpi_type();
        if (kind[i] > 0) {
          R.ok(ledger::created.count(t) == 1 && ledger::committed.count(t) == 1, cat("live message", i, "holds a released or uncommitted datatype", w));
          R.ok(used.insert(t).second, cat("two messages own the same datatype", w));
        }
        if (ledger::created.count(t) || kind[i] == 0)
          check_denotes(*s[i], mem + 3, kinds[kind[i]], cat("slot", i, w));
      }
    R.ok(ledger::errors == 0, cat(ledger::last_error, w));
    ledger::errors = 0;
  }
  for (int i = 0; i < N; ++i)
    s[i].reset();
  R.ok(ledger::errors == 0, cat(ledger::last_error, w, "(end)"));
  ledger::errors = 0;
  R.eq(long(ledger::created.size()), long(before.size()), "datatypes left after all messages are gone " + w);
  ledger::created = before;
}

template <class T>
T val(long k) {
  if constexpr (std::is_same_v<T, bool>)
    return k % 3 == 1;
  else
    return T(k % 100 + 1);
}
template <>
std::complex<float> val(long k) {
  return {float(k + 1), -float(k)};
}
template <>
std::complex<double> val(long k) {
  return {double(k + 1), -double(k)};
}
constexpr SizeType guard = 5;
template <class T>
void transfer(const Lay& a, const Lay& b, const long long* from, const long long* to, long cnt, const char* tn) {
  const std::string w = cat(tn, a.str(), "->", b.str());
  if (rank_ == 0) {
    std::unique_ptr<T[]> m(new T[size_t(a.span() + 2 * guard)]);
    for (SizeType i = 0; i < a.span() + 2 * guard; ++i)
      m[size_t(i)] = val<T>(long(i));
    auto msg = make_message(make_data(static_cast<const T*>(m.get()) + guard, a.n, a.s, a.t));
    MPI_Send(msg.data(), msg.count(), msg.mpi_type(), 1, 0, MPI_COMM_WORLD);
    for (SizeType i = 0; i < a.span() + 2 * guard; ++i)
      R.ok(m[size_t(i)] == val<T>(long(i)), "sender memory " + w);
  }
  else if (rank_ == 1) {
    const size_t len = size_t(b.span() + 2 * guard);
    std::unique_ptr<T[]> m(new T[len]), want(new T[len]);
    for (size_t i = 0; i < len; ++i)
      m[i] = want[i] = val<T>(long(i) + 61);
    for (long i = 0; i < cnt; ++i)
      want[size_t(guard + to[i])] = val<T>(long(guard + from[i]));
    {
      auto msg = make_message(make_data(m.get() + guard, b.n, b.s, b.t));
      MPI_Status st;
      MPI_Recv(msg.data(), msg.count(), msg.mpi_type(), 0, 0, MPI_COMM_WORLD, &st);
    }
    for (size_t i = 0; i < len; ++i)
      R.ok(m[i] == want[i], cat("received memory at", long(i) - long(guard), w));
  }
}

// The basic datatype of T: same size, and arithmetic of the same kind.
template <class T>
void basic(const char* name) {
  MPI_Datatype t = mpi_datatype<T>::type;
  R.ok(t == mpi_datatype<const T>::type, cat("const datatype", name));
  int sz = 0;
  MPI_Type_size(t, &sz);
  R.eq(sz, int(sizeof(T)), cat("size of datatype of", name));
  MPI_Aint lb = 1, ext = 0;
  MPI_Type_get_extent(t, &lb, &ext);
  R.ok(lb == 0 && ext == MPI_Aint(sizeof(T)), cat("extent of datatype of", name));
  if constexpr (std::is_same_v<T, char>)
    R.ok(t == MPI_CHAR || t == MPI_SIGNED_CHAR || t == MPI_INT8_T, "datatype of char");
  else if constexpr (std::is_same_v<T, bool>) {
    for (int a = 0; a < 2; ++a)
      for (int b = 0; b < 2; ++b) {
        bool x = a, y = b;
        MPI_Reduce_local(&x, &y, 1, t, MPI_LAND);
        R.eq(y, bool(a && b), "logical and of bool datatype");
        x = a, y = b;
        MPI_Reduce_local(&x, &y, 1, t, MPI_LOR);
        R.eq(y, bool(a || b), "logical or of bool datatype");
      }
  }
  else {
    std::vector<T> xs;
    if constexpr (isComplex_v<T>)
      xs = {T(1, 2), T(-3, 0.5), T(0, -1)};
    else
      xs = {T(0), T(1), T(-1), T(7), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), T(2.5)};
    for (T x : xs)
      for (T y : xs) {
        T z = y;
        if constexpr (!isComplex_v<T>) {
          MPI_Reduce_local(&x, &z, 1, t, MPI_MAX);
          R.ok(z == std::max(x, y), cat("maximum through datatype of", name, x, y));
          z = y;
        }
        if constexpr (std::is_integral_v<T>) {
          MPI_Reduce_local(&x, &z, 1, t, MPI_BAND);
          R.ok(z == T(x & y), cat("bitwise and through datatype of", name));
        }
        else {
          MPI_Reduce_local(&x, &z, 1, t, MPI_PROD);
          const T p = x * y;
          R.ok(z == p || p != p, cat("product through datatype of", name));
        }
      }
  }
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
  basic<char>("char");
  basic<short>("short");
  basic<int>("int");
  basic<long>("long");
  basic<long long>("long long");
  basic<unsigned char>("unsigned char");
  basic<unsigned short>("unsigned short");
  basic<unsigned>("unsigned");
  basic<unsigned long>("unsigned long");
  basic<unsigned long long>("unsigned long long");
  basic<float>("float");
  basic<double>("double");
  basic<bool>("bool");
  basic<std::complex<float>>("complex<float>");
  basic<std::complex<double>>("complex<double>");
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    ++R.cases;
    const auto& v = l.v;
    if (l.kind == "M") {
      // both ranks replay; half of the behaviours each
      if (R.cases % 2 == rank_)
        history(v);
    }
    else if (l.kind == "C") {
      const Lay a{v[0], v[1], v[2]}, b{v[3], v[4], v[5]};
      const long c = long(v[6]);
      const long long *f = v.data() + 7, *t = f + c;
      transfer<double>(a, b, f, t, c, "double");
      transfer<std::complex<double>>(a, b, f, t, c, "complex<double>");
      transfer<char>(a, b, f, t, c, "char");
      switch (R.cases % 6) {
        case 0: transfer<float>(a, b, f, t, c, "float"); transfer<short>(a, b, f, t, c, "short"); break;
        case 1: transfer<std::complex<float>>(a, b, f, t, c, "complex<float>"); transfer<unsigned>(a, b, f, t, c, "unsigned"); break;
        case 2: transfer<int>(a, b, f, t, c, "int"); transfer<unsigned short>(a, b, f, t, c, "unsigned short"); break;
        case 3: transfer<long>(a, b, f, t, c, "long"); transfer<unsigned char>(a, b, f, t, c, "unsigned char"); break;
        case 4: transfer<bool>(a, b, f, t, c, "bool"); transfer<unsigned long long>(a, b, f, t, c, "unsigned long long"); break;
        case 5: transfer<long long>(a, b, f, t, c, "long long"); transfer<unsigned long>(a, b, f, t, c, "unsigned long"); break;
      }
    }
    else if (l.kind != "Y" && l.kind != "X")
      exit(3);
  });
  R.eq(long(ledger::created.size()), 0L, "datatypes alive at the end");
  R.extra["types_created"] = ledger::n_created;
  MPI_Barrier(MPI_COMM_WORLD);
  MPI_Finalize();
  return R.done();
}
