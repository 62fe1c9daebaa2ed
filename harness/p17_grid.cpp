// Replays the seatings of spec/CommGrid.tla into CommunicatorGrid on simulated processes.
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/communication/sync/broadcast.h>
#include <dlaf/sender/transform_mpi.h>
#include <vrt.h>

#include "common.h"
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
using namespace dlaf;
using namespace dlaf::comm;
static vf::Report R;

static std::vector<int> members(MPI_Comm c, int mine) {
  int n, me;
  MPI_Comm_size(c, &n);
  MPI_Comm_rank(c, &me);
  std::vector<int> out;
  for (int i = 0; i < n; ++i) {
    int v = i == me ? mine : -1;
    MPI_Bcast(&v, 1, MPI_INT, i, c);
    out.push_back(v);
  }
  return out;
}
static std::string show(const std::vector<int>& v) {
  std::string s;
  for (int x : v)
    s += std::to_string(x) + " ";
  return s;
}

static void one(const std::vector<long long>& v, unsigned seed) {
  std::size_t p = 0;
  const int nr = int(v[p++]), nc = int(v[p++]);
  const bool col = v[p++];
  const int extra = int(v[p++]), n = nr * nc + extra;
  std::vector<Index2D> seat;
  for (int i = 0; i < nr * nc; ++i) {
    seat.emplace_back(int(v[p]), int(v[p + 1]));
    p += 2;
  }
  auto list = [&](int k) {
    std::vector<int> o;
    for (int i = 0; i < k; ++i)
      o.push_back(int(v[p++]));
    return o;
  };
  std::vector<std::vector<int>> rowg, colg;
  for (int i = 0; i < nr; ++i)
    rowg.push_back(list(nc));
  for (int i = 0; i < nc; ++i)
    colg.push_back(list(nr));
  const auto full = list(nr * nc);
  if (p != v.size())
    std::exit(3);
  const std::string ctx = vf::cat("grid", nr, "x", nc, col ? "column-major" : "row-major", "surplus", extra, "seed", seed);
  vrt::context = ctx;
  const long c0 = vmpi_st.comms_created, f0 = vmpi_st.comms_freed;
  vrt::Options o;
  o.seed = seed;
  o.ranks = n;
  vrt::run(o, [&](int world) {
    // the communicator given to the grid numbers the processes in another order
    MPI_Comm base;
    const int variant = seed % 3;
    const int key = variant == 0 ? world : variant == 1 ? n - world : (world * 7 + 3) % (n + 1);
    MPI_Comm_split(MPI_COMM_WORLD, 0, key, &base);
    int me;
    MPI_Comm_rank(base, &me);
    {
      const std::size_t np = 1 + seed % 4;
      auto ord = col ? common::Ordering::ColumnMajor : common::Ordering::RowMajor;
      CommunicatorGrid g = seed % 2 ? CommunicatorGrid(Communicator(base), nr, nc, ord, np)
                                    : CommunicatorGrid(Communicator(base), std::array<IndexT_MPI, 2>{nr, nc}, ord, np);
      if (me >= nr * nc) {
        R.ok(g.size() == Size2D(0, 0) && g.rank() == Index2D(-1, -1), "a process beyond the grid has a place: " + ctx);
        R.ok(MPI_Comm(g.fullCommunicator()) == MPI_COMM_NULL && MPI_Comm(g.rowCommunicator()) == MPI_COMM_NULL &&
                 MPI_Comm(g.colCommunicator()) == MPI_COMM_NULL,
             "a process beyond the grid has a communicator: " + ctx);
        R.eq(g.num_pipelines(), 0ul, "pipelines of a process beyond the grid: " + ctx);
      }
      else {
        const Index2D pos = seat[std::size_t(me)];
        R.eq(g.rank(), pos, vf::cat("position of rank", me, ctx));
        R.eq(g.size(), Size2D(nr, nc), "size " + ctx);
        auto want_row = rowg[std::size_t(pos.row())], want_col = colg[std::size_t(pos.col())];
        R.eq(show(members(g.fullCommunicator(), me)), show(full), vf::cat("full communicator of rank", me, ctx));
        R.eq(show(members(g.rowCommunicator(), me)), show(want_row), vf::cat("row communicator of rank", me, ctx));
        R.eq(show(members(g.colCommunicator(), me)), show(want_col), vf::cat("column communicator of rank", me, ctx));
        R.eq(show(members(g.subCommunicator(Coord::Row), me)), show(want_row), vf::cat("row sub-communicator of rank", me, ctx));
        R.eq(show(members(g.subCommunicator(Coord::Col), me)), show(want_col), vf::cat("column sub-communicator of rank", me, ctx));
        R.eq(g.rowCommunicator().rank(), pos.col(), "rank in the row " + ctx);
        R.eq(g.colCommunicator().rank(), pos.row(), "rank in the column " + ctx);
        R.eq(g.fullCommunicator().size(), nr * nc, "size of the full communicator " + ctx);
        R.eq(g.rowCommunicator().size(), nc, "size of the row communicator " + ctx);
        R.eq(g.colCommunicator().size(), nr, "size of the column communicator " + ctx);
        for (int q = 0; q < nr * nc; ++q)
          R.eq(full[std::size_t(g.rankFullCommunicator(seat[std::size_t(q)]))], q, vf::cat("rank in the full communicator of", q, ctx));
        R.eq(g.rankFullCommunicator(pos), g.fullCommunicator().rank(), "own rank in the full communicator " + ctx);
        // pipelines: independent communicators over the same processes, handed out in rotation
        R.eq(g.num_pipelines(), np, "number of pipelines " + ctx);
        auto probe = [&](auto get, const std::vector<int>& want, const char* what, MPI_Comm plain) {
          std::vector<MPI_Comm> seen;
          for (std::size_t k = 0; k < 2 * np + 1; ++k) {
            auto pl = get();
            R.ok(pl.valid() && pl.rank_2d() == pos && pl.size_2d() == Size2D(nr, nc) && pl.size() == int(want.size()) &&
                     want[std::size_t(pl.rank())] == me,
                 vf::cat("pipeline metadata", what, ctx));
            for (int q = 0; q < nr * nc; ++q)
              R.eq(full[std::size_t(pl.rank_full_communicator(seat[std::size_t(q)]))], q, vf::cat("pipeline: full rank of", q, what, ctx));
            MPI_Comm h = MPI_COMM_NULL;
            if (k % 2) {
              auto w = tt::sync_wait(pl.exclusive());
              h = w.get();
              R.eq(show(members(h, me)), show(want), vf::cat("pipeline communicator", what, ctx));
            }
            else {
              auto w = tt::sync_wait(pl.shared());
              h = w.get();
              R.eq(show(members(h, me)), show(want), vf::cat("pipeline communicator", what, ctx));
            }
            R.ok(h != plain && h != base, vf::cat("pipeline shares a communicator", what, ctx));
            if (k < np)
              for (auto s : seen)
                R.ok(s != h, vf::cat("two pipelines share a communicator", what, ctx));
            else
              R.ok(seen[k - np] == h, vf::cat("pipelines are not handed out in rotation", what, ctx));
            seen.push_back(h);
          }
        };
        probe([&] { return g.full_communicator_pipeline(); }, full, "full", g.fullCommunicator());
        probe([&] { return g.row_communicator_pipeline(); }, want_row, "row", g.rowCommunicator());
        probe([&] { return g.col_communicator_pipeline(); }, want_col, "column", g.colCommunicator());
        probe([&] { return g.template communicator_pipeline<Coord::Row>(); }, want_row, "Row", g.rowCommunicator());
        probe([&] { return g.template communicator_pipeline<Coord::Col>(); }, want_col, "Col", g.colCommunicator());
        // waiting for all communicators ends, and no earlier than the communication before it
        int x = 0, y = me;
        bool done = false;
        auto pl = g.row_communicator_pipeline();
        ex::start_detached(pl.exclusive() | dlaf::comm::internal::transformMPI([&](const Communicator& c, MPI_Request* req) {
                             MPI_Iallreduce(&y, &x, 1, MPI_INT, MPI_SUM, c, req);
                           }) | ex::then([&] { done = true; }));
        pl.reset();
        g.wait_all_communicators();
        int sum = 0;
        for (int q : want_row)
          sum += q;
        vrt::wait_idle();
        R.ok(done && x == sum, "reduction over the row: " + ctx);
        CommunicatorGrid h(std::move(g));
        R.ok(h.rank() == pos && h.size() == Size2D(nr, nc) && h.num_pipelines() == np, "moved grid " + ctx);
        R.eq(show(members(h.rowCommunicator(), me)), show(want_row), "row communicator of a moved grid " + ctx);
      }
      vrt::wait_idle();
    }
    vrt::wait_idle();
    MPI_Comm_free(&base);
  });
  R.eq(vmpi_st.comms_created - c0, vmpi_st.comms_freed - f0, "communicators created and released: " + ctx);
  ++R.cases;
}

int main(int argc, char** argv) {
  if (argc < 3)
    return 3;
  unsigned seed = unsigned(std::atoi(argv[2]));
  const int per = std::atoi(argv[3]);
  std::vector<std::pair<int, int>> shapes;
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    for (int k = 0; k < per; ++k)
      one(l.v, ++seed);
    if (shapes.size() < 8)
      shapes.push_back({int(l.v[0]), int(l.v[1])});
  });
  for (auto [a, b] : shapes)
    R.ok(vf::dies([&] {
           vrt::Options o;
           o.ranks = a * b;
           vrt::run(o, [&](int) { CommunicatorGrid g(Communicator(MPI_COMM_WORLD), a, b + 1, common::Ordering::RowMajor, 1); });
           _exit(0);
         }) == 1,
         vf::cat("a grid larger than the communicator was accepted", a, b + 1));
  R.extra["runs"] = vrt::stats.runs;
  R.extra["tasks"] = vrt::stats.tasks;
  return R.done();
}
