// The values of the options that reach the memory pools and the stream pool (initialisation compiled for an accelerator).
#include <pika/init.hpp>
#include <pika/mpi.hpp>
#include <dlaf/init.h>
#include <dlaf/tune.h>
#include <umpire/ResourceManager.hpp>
#include <umpire/strategy/PoolCoalesceHeuristic.hpp>
#include <umpire/strategy/QuickPool.hpp>
#include <random>
#include "common.h"
static vf::Report R;
using Pool = umpire::strategy::QuickPool;
using Heur = umpire::strategy::PoolCoalesceHeuristic<Pool>;
struct Want {
  std::size_t first, next, align;
  double free, realloc;
};
static bool check(const std::string& name, const Want& w) {
  bool seen = false, ok = true;
  for (auto& p : umpire::ResourceManager::getInstance().pools)
    if (p.name == name) {
      seen = true;
      ok = ok && R.eq(std::any_cast<std::size_t>(p.args.at(1)), w.first, name + " initial block");
      ok = ok && R.eq(std::any_cast<std::size_t>(p.args.at(2)), w.next, name + " next block");
      ok = ok && R.eq(std::any_cast<std::size_t>(p.args.at(3)), w.align, name + " alignment");
      auto h = std::any_cast<Heur>(p.args.at(4));
      for (std::size_t size : {0ul, 1000ul, 1ul << 20})
        for (std::size_t blocks : {0, 1, 2, 5})
          for (std::size_t rel : {0ul, size / 4, size / 2, size})
            {
              Pool q;
              q.actual = size;
              q.blocks = blocks;
              q.releasable = rel;
              const bool co = blocks >= 2 && rel >= static_cast<std::size_t>(w.free * size);
              ok = ok && R.eq(h(q), co ? static_cast<std::size_t>(w.realloc * size) : 0, name + " coalescing");
            }
    }
  return R.ok(seen, name + " was not made") && ok;
}
int main(int, char** argv) {
  std::mt19937 g(std::strtoul(argv[1], nullptr, 10));
  for (int c = 0; c < 40; ++c) {
    ++R.cases;
    dlaf::configuration cfg;
    cfg.num_np_gpu_streams = 1 + g() % 50;
    cfg.num_hp_gpu_streams = 100 + g() % 50;
    cfg.num_gpu_blas_handles = 200 + g() % 50;
    cfg.num_gpu_lapack_handles = 300 + g() % 50;
    Want h{1000 + g() % 900, 2000 + g() % 900, 16u << (g() % 3), (g() % 8) / 4., (g() % 8) / 4.};
    Want d{3000 + g() % 900, 4000 + g() % 900, 128u << (g() % 3), (g() % 8) / 4., (g() % 8) / 4.};
    cfg.umpire_host_memory_pool_initial_block_bytes = h.first;
    cfg.umpire_host_memory_pool_next_block_bytes = h.next;
    cfg.umpire_host_memory_pool_alignment_bytes = h.align;
    cfg.umpire_host_memory_pool_coalescing_free_ratio = h.free;
    cfg.umpire_host_memory_pool_coalescing_reallocation_ratio = h.realloc;
    cfg.umpire_device_memory_pool_initial_block_bytes = d.first;
    cfg.umpire_device_memory_pool_next_block_bytes = d.next;
    cfg.umpire_device_memory_pool_alignment_bytes = d.align;
    cfg.umpire_device_memory_pool_coalescing_free_ratio = d.free;
    cfg.umpire_device_memory_pool_coalescing_reallocation_ratio = d.realloc;
    // the pools are made once per process
    std::fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0) {
      R = {};
      const char* a[] = {"program"};
      for (int session = 0; session < 2; ++session) {
        dlaf::initialize(1, a, cfg);
        check("DLAF_PINNED_pool", h);
        check("DLAF_DEVICE_pool", d);
        auto p = dlaf::internal::getGpuPool();
        R.eq(p.np, cfg.num_np_gpu_streams, "streams");
        R.eq(p.hp, cfg.num_hp_gpu_streams, "high priority streams");
        R.eq(p.blas, cfg.num_gpu_blas_handles, "BLAS handles");
        R.eq(p.lapack, cfg.num_gpu_lapack_handles, "LAPACK handles");
        dlaf::finalize();
      }
      std::fflush(stdout);
      _exit(R.mismatches ? 1 : 0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    R.ok(WIFEXITED(st) && WEXITSTATUS(st) == 0, "session with pools");
    if (R.mismatches)
      break;
  }
  return R.done();
}
