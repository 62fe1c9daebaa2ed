// Replays histories of spec/GridContexts.tla through the C interface on simulated processes.
#define DLAF_WITH_SCALAPACK 1
#include <dlaf_c/grid.h>

#include <limits>
#include <unordered_map>

#include <c_api/blacs.h>
#include <c_api/grid.h>
#include <c_api/utils.h>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf_c/utils.h>
#include <vrt.h>

#include "common.h"
using namespace dlaf;
using namespace dlaf::comm;
static vf::Report R;

// every simulated process has its own table of grids
#ifdef VF_TABLES
static std::decay_t<decltype(dlaf_grids)> tables[64];
static void exchange_tables(int from, int to) {
  std::swap(dlaf_grids, tables[from]);
  std::swap(dlaf_grids, tables[to]);
}
#endif
struct Kind {
  int r, c;
  char order;
};
static std::vector<Kind> kinds(int n) {
  return {{1, 1, 'R'}, {n, 1, 'C'}, {1, n, 'R'}, {n >= 2 ? n / 2 : 1, n >= 2 ? 2 : 1, 'c'}, {n >= 2 ? 2 : 1, n / 2 ? n / 2 : 1, 'r'}};
}
// BLACS: context b has the shape of kind b + 1, its own system context
static int nranks;
extern "C" {
MPI_Comm Cblacs2sys_handle(int s) {
  if (s < 700)
    vrt::fail("asked BLACS for a system context that does not exist");
  return MPI_COMM_WORLD;
}
void Cblacs_get(int ctxt, int what, int* val) {
  if (what != 10)
    vrt::fail("asked BLACS for something else than the system context");
  *val = 700 + ctxt;
}
void Cblacs_gridinfo(int ctxt, int* np, int* mp, int* px, int* py) {
  // context 0: n x 1 column-major; context 1: two process rows, row-major
  *np = ctxt == 0 ? nranks : (nranks % 2 ? 1 : 2);
  *mp = nranks / *np;
  const int me = vrt::rank();
  *px = ctxt == 0 ? me % *np : me / *mp;
  *py = ctxt == 0 ? me / *np : me % *mp;
}
}

struct Known {
  int ctx;
  MPI_Comm full;
  Size2D size;
  Index2D pos;
  const CommunicatorGrid* where;
};

static void one(const std::vector<long long>& v, unsigned seed, int n) {
  std::string ctx = vf::cat("history on", n, "processes, seed", seed, ":");
  for (std::size_t i = 0; i + 2 < v.size(); i += 3)
    ctx += vf::cat(v[i], v[i + 1], v[i + 2]) + "; ";
  vrt::context = ctx;
  nranks = n;
  const long c0 = vmpi_st.comms_created, f0 = vmpi_st.comms_freed;
  vrt::Options o;
  o.seed = seed;
  o.ranks = n;
  const auto ks = kinds(n);
  vrt::run(o, [&](int me) {
    std::map<int, Known> live;
    auto made = [&](int ticket, int c, Size2D want, bool colmajor) {
      for (auto& [t, k] : live)
        if (!R.ok(k.ctx != c, vf::cat("grid", ticket, "got the identifier of the living grid", t, ":", ctx)))
          return;
      CommunicatorGrid& g = grid_from_context(c);
      const bool in = me < want.rows() * want.cols();
      const Index2D pos = !in ? Index2D(-1, -1) : colmajor ? Index2D(me % want.rows(), me / want.rows()) : Index2D(me / want.cols(), me % want.cols());
      const Size2D sz = in ? want : Size2D(0, 0);
      R.ok(g.size() == sz && g.rank() == pos, vf::cat("grid", ticket, "has another shape or order:", ctx));
      live.insert_or_assign(ticket, Known{c, g.fullCommunicator(), sz, pos, &g});
    };
    for (std::size_t i = 0; i + 2 < v.size(); i += 3) {
      const int op = int(v[i]), a = int(v[i + 1]), b = int(v[i + 2]);
      switch (op) {
        case 1: {
          const Kind k = ks[std::size_t(b)];
          made(a, dlaf_create_grid(MPI_COMM_WORLD, k.r, k.c, k.order), Size2D(k.r, k.c), k.order == 'C' || k.order == 'c');
          break;
        }
        case 2:
          dlaf_free_grid(live.at(a).ctx);
          live.erase(a);
          break;
        case 3:
          dlaf_free_all_grids();
          live.clear();
          break;
        case 4: {
          int s = 12345;
          dlaf_free_grid(s);
          dlaf_free_grid(-1);
          break;
        }
        case 5:
          dlaf_create_grid_from_blacs(b);
          made(a, b, b == 0 ? Size2D(n, 1) : Size2D(n % 2 ? 1 : 2, n % 2 ? n : n / 2), b == 0 || n % 2);
          break;
        case 6: dlaf_create_grid_from_blacs(b); break;
        default: std::exit(3);
      }
      for (auto& [t, k] : live) {
        CommunicatorGrid& g = grid_from_context(k.ctx);
        R.ok(g.size() == k.size && g.rank() == k.pos && MPI_Comm(g.fullCommunicator()) == k.full,
             vf::cat("the identifier of grid", t, "leads to another grid:", ctx));
        if (k.full != MPI_COMM_NULL) {
          int q = -1;
          MPI_Comm_rank(g.fullCommunicator(), &q);  // fails when the communicator was released
        }
      }
    }
    vrt::wait_idle();
    dlaf_free_all_grids();
    vrt::wait_idle();
  });
  R.eq(vmpi_st.comms_created - c0, vmpi_st.comms_freed - f0, "communicators created and released: " + ctx);
  ++R.cases;
}

int main(int argc, char** argv) {
  if (argc < 4)
    return 3;
  unsigned seed = unsigned(std::atoi(argv[2]));
#ifdef VF_TABLES
  const int maxn = std::atoi(argv[3]);
  vrt::on_rank = exchange_tables;
#else
  const int maxn = 1;
#endif
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    if (R.mismatches > 40)
      return;
    ++seed;
    one(l.v, seed, 1 + int(seed % unsigned(maxn)));
  });
  // unknown and freed identifiers are refused
  for (int k = 0; k < 6; ++k)
    R.ok(vf::dies([&] {
           vrt::Options o;
           nranks = 1;
           vrt::run(o, [&](int) {
             int a = dlaf_create_grid(MPI_COMM_WORLD, 1, 1, 'R');
             int b = dlaf_create_grid(MPI_COMM_WORLD, 1, 1, 'C');
             if (k == 0)
               grid_from_context(0);
             if (k == 1)
               grid_from_context(-1);
             if (k == 2) {
               dlaf_free_grid(a);
               grid_from_context(a);
             }
             if (k == 3) {
               dlaf_free_grid(b);
               grid_from_context(b);
             }
             if (k == 4) {
               dlaf_free_all_grids();
               grid_from_context(b);
             }
             if (k == 5)
               grid_from_context(std::min(a, b) - 1);
             _exit(0);
           });
         }) == 1,
         vf::cat("an identifier without a grid was accepted, case", k));
  // the order of a BLACS grid is recognised
  for (int r = 1; r <= 4; ++r)
    for (int c = 1; c <= 4; ++c)
      for (int colmajor = 0; colmajor < 2; ++colmajor) {
        vrt::Options o;
        o.ranks = r * c;
        o.seed = ++seed;
        vrt::run(o, [&](int me) {
          const int pr = colmajor ? me % r : me / c, pc = colmajor ? me / r : me % c;
          const char got = grid_ordering(MPI_COMM_WORLD, r, c, pr, pc);
          // a single row or column is both
          R.ok(r == 1 || c == 1 ? got == 'C' || got == 'R' : got == (colmajor ? 'C' : 'R'), vf::cat("grid_ordering", r, c, colmajor));
        });
      }
  R.extra["runs"] = vrt::stats.runs;
  return R.done();
}
