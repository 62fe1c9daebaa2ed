// Deterministic runtime standing in for the pika thread pool and for a set of MPI processes.
//
// All simulated processes ("ranks") live in one OS thread.  Every task, every suspended task and every
// network completion that could happen next is an item; the scheduler picks one according to a strategy
// derived from the seed, so a (seed, program) pair always gives the same schedule and a family of seeds
// explores many.  When nothing can happen and some program has not finished, that is a deadlock.
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <utility>

namespace vrt {
struct Fiber;

struct Options {
  std::uint64_t seed = 1;
  int ranks = 1;
  int workers = 0;     // per rank; 0: from the seed
  int strategy = -1;   // -1: from the seed
  int preempt = -1;    // percent; -1: from the seed
  int eager = -1;      // percent of messages that are buffered; -1: from the seed
};

/// Run main(rank) for every rank under the schedule given by the options, then drain everything.
/// A deadlock or any other failure of the simulated world ends the process through fail().
void run(const Options& opts, const std::function<void(int)>& main);

int rank();          // rank of the code that runs now (0 outside run)
int ranks();
int workers();
bool running();
bool eager_now();    // decides whether the next message is buffered
std::uint64_t rnd(); // scheduling randomness
void preempt();      // a point where another task of any rank may run
void seed_rng(std::uint64_t);

/// A unit of work of the current rank's thread pool.
struct Task {
  virtual void run() = 0;
  virtual ~Task() = default;
};
void post(Task* t);  // takes ownership
void post_to(int rank, Task* t);

template <class F>
struct FnTask : Task {
  F f;
  explicit FnTask(F&& g) : f(std::move(g)) {}
  void run() override { std::move(f)(); }
};
template <class F>
void post_fn(F f) {
  post(new FnTask<F>(std::move(f)));
}

/// Work for the thread of the communication pool: like a task, but it needs none of the workers.
void post_comm(Task* t);
template <class F>
void post_comm_fn(F f) {
  post_comm(new FnTask<F>(std::move(f)));
}

/// An event of the network: may be executed at any time after it was added.
void post_event(int rank, std::function<void()> f);

Fiber* self();                               // nullptr outside a fiber
void suspend(bool hold_worker, const char* why);
void ready(Fiber*);

/// Wait until the condition set by someone calling ready() holds.
struct Waiter {
  Fiber* f = nullptr;
  bool done = false;
  void wait(bool hold, const char* why) {
    while (!done) {
      f = self();
      suspend(hold, why);
      f = nullptr;
    }
  }
  void signal() {
    done = true;
    if (f)
      ready(f);
  }
};

long pending_tasks(int rank);  // queued or unfinished work of a rank (without the calling fiber)
void wait_idle();              // like pika::wait: until the rank has nothing left to do

[[noreturn]] void fail(const std::string& what);
extern std::string context;    // printed with failures
extern std::function<void()> on_fail;
struct Stats {
  long runs = 0, tasks = 0, events = 0, preempts = 0, messages = 0, collectives = 0, switches = 0;
  unsigned long hash = 1469598103934665603ul;
};
extern Stats stats;
// number of network operations outstanding for a rank (maintained by the MPI stand-in)
extern long net_pending[64];
// called at the end of each run; the MPI stand-in checks for leftovers there
extern void (*at_end)();
extern void (*at_start)(int ranks);
// called with (old, new) when code of another rank begins to run: drivers exchange per-process globals there
extern void (*on_rank)(int, int);
}
