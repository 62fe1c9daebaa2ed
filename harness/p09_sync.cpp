// Replays spec/Collectives.tla over the layouts of spec/Layouts.tla into the blocking communication layer.
#include <mpi.h>

#include <complex>

#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/communicator.h>
#include <dlaf/communication/sync/all_reduce.h>
#include <dlaf/communication/sync/basic.h>
#include <dlaf/communication/sync/reduce.h>

#include "common.h"
using namespace dlaf;
using namespace dlaf::common;
using namespace dlaf::comm;
using vf::cat;
vf::Report R;
static int rk, np;
struct Lay {
  SizeType n, s, t;
  SizeType span() const { return n * s == 0 ? 0 : (n - 1) * t + s; }
  std::string str() const { return cat("[", n, "x", s, "stride", t, "]"); }
};
struct OpCase {
  MPI_Op op;
  std::string name;
  std::vector<std::vector<long long>> contrib;
  std::vector<long long> result;
};
static std::vector<OpCase> ops;
constexpr SizeType guard = 4;

template <class T>
std::vector<T> mem(SizeType span, int salt) {
  std::vector<T> m(size_t(span + 2 * guard));
  for (size_t i = 0; i < m.size(); ++i)
    m[i] = T(-1000 - salt * 100 - int(i));
  return m;
}
template <class T>
void compare(const std::vector<T>& got, const std::vector<T>& want, const std::string& w) {
  for (size_t i = 0; i < got.size(); ++i)
    R.ok(got[i] == want[i], cat("rank", rk, "of", np, "memory cell", long(i) - long(guard), w));
}
template <class T>
void reductions(Communicator& comm, const Lay& a, const Lay& b, const long long* from, const long long* to, long cnt, const OpCase& oc, const char* tn) {
  auto fill = [&](std::vector<T>& m, const long long* pos) {
    for (long i = 0; i < cnt; ++i)
      m[size_t(guard + pos[i])] = T(oc.contrib[size_t(rk)][size_t(i)]);
  };
  auto result = [&](std::vector<T>& m, const long long* pos) {
    for (long i = 0; i < cnt; ++i)
      m[size_t(guard + pos[i])] = T(oc.result[size_t(i)]);
  };
  const std::string base = cat(tn, oc.name, a.str(), "->", b.str());
  auto in = mem<T>(a.span(), 1);
  fill(in, from);
  const auto in0 = in;
  const DataDescriptor<const T> din(in.data() + guard, a.n, a.s, a.t);
  for (int root = 0; root < np; ++root) {
    {
      auto out = mem<T>(b.span(), 2);
      auto want = out;
      if (rk == root)
        result(want, to);
      sync::reduce(root, comm, oc.op, din, DataDescriptor<T>(out.data() + guard, b.n, b.s, b.t));
      compare(out, want, cat("output of reduce to", root, base));
      compare(in, in0, cat("input of reduce to", root, base));
    }
    {
      auto io = in0;
      auto want = io;
      if (rk == root)
        result(want, from);
      sync::reduceInPlace(root, comm, oc.op, DataDescriptor<T>(io.data() + guard, a.n, a.s, a.t));
      compare(io, want, cat("reduceInPlace to", root, base));
    }
  }
  {
    auto out = mem<T>(b.span(), 3);
    auto want = out;
    result(want, to);
    sync::allReduce(comm, oc.op, din, DataDescriptor<T>(out.data() + guard, b.n, b.s, b.t));
    compare(out, want, cat("output of allReduce", base));
    compare(in, in0, cat("input of allReduce", base));
  }
  {
    auto io = in0;
    auto want = io;
    result(want, from);
    sync::allReduceInPlace(comm, oc.op, DataDescriptor<T>(io.data() + guard, a.n, a.s, a.t));
    compare(io, want, cat("allReduceInPlace", base));
  }
}
template <class T>
void p2p(Communicator& comm, const Lay& a, const Lay& b, const long long* from, const long long* to, long cnt, const OpCase& oc, const char* tn, int s, int d) {
  const std::string w = cat(tn, "send", s, "->", d, a.str(), "->", b.str());
  if (rk == s) {
    auto in = mem<T>(a.span(), 1);
    for (long i = 0; i < cnt; ++i)
      in[size_t(guard + from[i])] = T(oc.contrib[size_t(s)][size_t(i)]);
    const auto in0 = in;
    sync::send_to(d, comm, DataDescriptor<const T>(in.data() + guard, a.n, a.s, a.t));
    compare(in, in0, "sender " + w);
  }
  else if (rk == d) {
    auto out = mem<T>(b.span(), 2);
    auto want = out;
    for (long i = 0; i < cnt; ++i)
      want[size_t(guard + to[i])] = T(oc.contrib[size_t(s)][size_t(i)]);
    if (b.n == 1)
      sync::receive_from(s, comm, common::make_data(out.data() + guard, b.s));
    else
      sync::receive_from(s, comm, DataDescriptor<T>(out.data() + guard, b.n, b.s, b.t));
    compare(out, want, "receiver " + w);
  }
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  Communicator world(MPI_COMM_WORLD);
  // the ranks in another order: root and rank numbers of the communicator in use must count
  MPI_Comm rev;
  int wr;
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &np);
  MPI_Comm_split(MPI_COMM_WORLD, 0, (wr + 1) % np, &rev);
  {
    Communicator comm = make_communicator_managed(rev);
    rk = comm.rank();
    vf::for_each_line(argv[1], [&](const vf::Line& l) {
      const auto& v = l.v;
      if (l.kind == "O") {
        if (v[0] != np)
          return;
        OpCase o;
        o.op = v[1] == 0 ? MPI_SUM : v[1] == 1 ? MPI_PROD : v[1] == 2 ? MPI_MAX : MPI_MIN;
        o.name = v[1] == 0 ? "sum" : v[1] == 1 ? "prod" : v[1] == 2 ? "max" : "min";
        const size_t cnt = (v.size() - 2) / size_t(np + 1);
        for (int r = 0; r <= np; ++r) {
          std::vector<long long> x(v.begin() + 2 + long(cnt) * r, v.begin() + 2 + long(cnt) * (r + 1));
          if (r < np)
            o.contrib.push_back(x);
          else
            o.result = x;
        }
        ops.push_back(o);
        ++R.cases;
        return;
      }
      if (l.kind == "Y" || l.kind == "X")
        return;
      if (l.kind != "C" || ops.empty())
        exit(3);
      const Lay a{v[0], v[1], v[2]}, b{v[3], v[4], v[5]};
      const long c = long(v[6]);
      const long long *f = v.data() + 7, *t = f + c;
      if (c == 0)
        return;
      ++R.cases;
      const size_t turn = size_t(R.cases);
      const OpCase& oc = ops[turn % ops.size()];
      const OpCase& oc2 = ops[(turn / 3) % ops.size()];
      reductions<double>(comm, a, b, f, t, c, oc, "double");
      reductions<int>(comm, a, b, f, t, c, oc2, "int");
      if (turn % 3 == 0)
        reductions<float>(comm, a, b, f, t, c, oc2, "float");
      if (turn % 3 == 1)
        reductions<long long>(comm, a, b, f, t, c, oc, "long long");
      if (turn % 3 == 2 && oc.name != "max" && oc.name != "min")
        reductions<std::complex<double>>(comm, a, b, f, t, c, oc, "complex");
      for (int s = 0; s < np; ++s)
        for (int d = 0; d < np; ++d)
          if (s != d && (np <= 2 || (turn + size_t(s * np + d)) % 3 == 0))
            p2p<double>(comm, a, b, f, t, c, oc, "double", s, d);
    });
    if (np == 1) {
      double x[4] = {}, y[4] = {};
      DataDescriptor<double> dx(x, 4), dy(y, 4), ds(x, 2, 1, 3);
      R.ok(vf::dies([&] { sync::reduce(1, comm, MPI_SUM, dx, dy); }) == 1, "root outside the communicator accepted");
      R.ok(vf::dies([&] { sync::reduce(-1, comm, MPI_SUM, dx, dy); }) == 1, "negative root accepted");
      R.ok(vf::dies([&] { sync::reduceInPlace(1, comm, MPI_SUM, dx); }) == 1, "in-place root outside the communicator accepted");
      R.ok(vf::dies([&] { sync::reduceInPlace(-1, comm, MPI_SUM, dx); }) == 1, "in-place negative root accepted");
      R.ok(vf::dies([&] { sync::reduce(0, comm, MPI_SUM, dx, dx); }) == 1, "same input and output accepted by reduce");
      R.ok(vf::dies([&] { sync::allReduce(comm, MPI_SUM, ds, ds); }) == 1, "same input and output accepted by allReduce");
    }
  }
  MPI_Barrier(MPI_COMM_WORLD);
  MPI_Finalize();
  return R.done();
}
