// Replays spec/CommHandles.tla into Communicator on every rank.
#include <mpi.h>

#include <memory>
#include <optional>
#include <set>

static std::set<MPI_Comm> alive;
static long frees = 0, dups = 0, bad_frees = 0;
static bool watching = false;
extern "C" {
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) {
  int rc = PMPI_Comm_dup(c, n);
  if (watching && rc == MPI_SUCCESS) {
    ++dups;
    alive.insert(*n);
  }
  return rc;
}
int MPI_Comm_split(MPI_Comm c, int col, int key, MPI_Comm* n) {
  int rc = PMPI_Comm_split(c, col, key, n);
  if (watching && rc == MPI_SUCCESS && *n != MPI_COMM_NULL) {
    ++dups;
    alive.insert(*n);
  }
  return rc;
}
int MPI_Comm_free(MPI_Comm* c) {
  if (watching) {
    ++frees;
    if (!alive.count(*c)) {
      ++bad_frees;
      *c = MPI_COMM_NULL;
      return MPI_SUCCESS;
    }
    alive.erase(*c);
  }
  return PMPI_Comm_free(c);
}
}
#include <dlaf/communication/communicator.h>

#include "common.h"
using dlaf::comm::Communicator;
using vf::cat;
vf::Report R;
static int wrank, wsize;
static constexpr int Users = 2;
static MPI_Comm user[Users + 1];

struct Known {
  MPI_Comm comm;
  int rank, size;
};

static void denotes(Communicator& h, const Known& k, const std::string& w) {
  R.ok(MPI_Comm(h) == k.comm, "handle denotes another communicator " + w);
  R.ok(*(&h) == k.comm && *(&static_cast<const Communicator&>(h)) == k.comm, "address of the handle " + w);
  R.eq(int(h.rank()), k.rank, "rank " + w);
  R.eq(int(h.size()), k.size, "size " + w);
}

static void history(const std::vector<long long>& v) {
  constexpr int N = 5;
  std::optional<Communicator> s[N];
  int ref[N];
  for (auto& r : ref)
    r = -1;
  std::vector<Known> known(Users + 1);
  known[0] = {MPI_COMM_NULL, MPI_UNDEFINED, 0};
  for (int u = 1; u <= Users; ++u) {
    known[u].comm = user[u];
    PMPI_Comm_rank(user[u], &known[u].rank);
    PMPI_Comm_size(user[u], &known[u].size);
  }
  alive.clear();
  frees = bad_frees = dups = 0;
  watching = true;
  std::string w = "history:";
  for (size_t k = 0; k + 3 < v.size(); k += 4) {
    const int op = int(v[k]), a = int(v[k + 1]), b = int(v[k + 2]);
    w += cat(op, a, b, ";");
    switch (op) {
      case 1: s[a].emplace(); ref[a] = 0; break;
      case 2: s[a].emplace(user[b]); ref[a] = b; break;
      case 3: {
        // a communicator handed over: alternately a reordered half of the ranks and everything reversed
        MPI_Comm c;
        if (b % 2)
          MPI_Comm_split(MPI_COMM_WORLD, wrank % 2, wrank, &c);
        else
          MPI_Comm_split(MPI_COMM_WORLD, 0, -wrank, &c);
        Known kn{c, 0, 0};
        PMPI_Comm_rank(c, &kn.rank);
        PMPI_Comm_size(c, &kn.size);
        known.push_back(kn);
        s[a].emplace(dlaf::comm::make_communicator_managed(c));
        ref[a] = b;
        break;
      }
      case 4: s[b].emplace(*s[a]); ref[b] = ref[a]; break;
      case 5: {
        const Communicator& from = *s[a];
        *s[b] = from;
        ref[b] = ref[a];
        break;
      }
      case 6: s[b].emplace(std::move(*s[a])); ref[b] = ref[a]; ref[a] = -2; break;
      case 7: *s[b] = std::move(*s[a]); ref[b] = ref[a]; ref[a] = -2; break;
      case 8:
      case 9: {
        Known kn = known[size_t(ref[a])];
        MPI_Comm origin = MPI_Comm(*s[a]);
        const long d = dups;
        Communicator cl = s[a]->clone();
        kn.comm = MPI_Comm(cl);
        R.ok(kn.comm != origin && alive.count(kn.comm) == 1 && dups == d + 1, "clone must be a new communicator " + w);
        if (kn.comm != MPI_COMM_NULL && alive.count(kn.comm)) {
          int res = -1;
          MPI_Comm_compare(origin, kn.comm, &res);
          R.eq(res, int(MPI_CONGRUENT), "clone compared with its origin " + w);
        }
        if (op == 8)
          s[b].emplace(std::move(cl));
        else
          *s[b] = cl;
        known.push_back(kn);
        ref[b] = int(known.size()) - 1;
        break;
      }
      case 10: s[a].reset(); ref[a] = -1; break;
    }
    R.eq(frees, long(v[k + 3]), "communicators released so far " + w);
    R.eq(bad_frees, 0L, "released a communicator it does not own or twice " + w);
    for (int i = 1; i < N; ++i)
      if (ref[i] >= 0) {
        if (ref[i] > Users)
          R.ok(alive.count(known[size_t(ref[i])].comm) == 1, cat("handle", i, "outlives its communicator", w));
        denotes(*s[i], known[size_t(ref[i])], cat("slot", i, w));
      }
  }
  for (auto& x : s)
    x.reset();
  R.eq(long(alive.size()), 0L, "communicators left after the last handle is gone " + w);
  R.eq(bad_frees, 0L, "released a communicator it does not own or twice " + w + "(end)");
  watching = false;
  for (MPI_Comm c : std::set<MPI_Comm>(alive))
    PMPI_Comm_free(&c);
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wrank);
  MPI_Comm_size(MPI_COMM_WORLD, &wsize);
  user[1] = MPI_COMM_WORLD;
  PMPI_Comm_split(MPI_COMM_WORLD, wrank < (wsize + 1) / 2, -wrank, &user[2]);
  vf::for_each_line(argv[1], [](const vf::Line& l) {
    ++R.cases;
    if (l.kind != "H")
      exit(3);
    history(l.v);
  });
  int users_ok = -1;
  R.ok(MPI_Comm_compare(user[2], user[2], &users_ok) == MPI_SUCCESS && users_ok == MPI_IDENT, "the user's communicator is still usable");
  if (wsize == 1) {
    R.ok(vf::dies([] { Communicator c(MPI_COMM_NULL); }) == 1, "wrapping the null communicator accepted");
    R.ok(vf::dies([] { auto c = dlaf::comm::make_communicator_managed(MPI_COMM_NULL); _exit(0); }) == 1, "owning the null communicator accepted");
    R.ok(vf::dies([] { auto c = dlaf::comm::make_communicator_managed(MPI_COMM_WORLD); _exit(0); }) == 1, "owning the world communicator accepted");
  }
  PMPI_Comm_free(&user[2]);
  MPI_Barrier(MPI_COMM_WORLD);
  MPI_Finalize();
  return R.done();
}
