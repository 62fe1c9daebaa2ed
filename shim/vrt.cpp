#include "vrt.h"

#include <sys/mman.h>
#include <unistd.h>

#include <boost/context/fiber.hpp>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <exception>
#include <sstream>
#include <vector>

namespace vrt {
namespace bc = boost::context;
Stats stats;
std::string context;
std::function<void()> on_fail;
long net_pending[64];
void (*at_end)() = nullptr;
void (*at_start)(int) = nullptr;
void (*on_rank)(int, int) = nullptr;

static std::uint64_t rng_state = 88172645463325252ull;
std::uint64_t rnd() {
  std::uint64_t z = (rng_state += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
void seed_rng(std::uint64_t s) { rng_state = s * 0x9E3779B97F4A7C15ull + 0x1234567; }

struct Stack {
  using traits_type = void;
  static constexpr std::size_t size = 1 << 20;
  std::vector<void*> freelist;
};
static Stack stacks;
struct StackAlloc {
  bc::stack_context allocate() {
    void* p;
    if (!stacks.freelist.empty()) {
      p = stacks.freelist.back();
      stacks.freelist.pop_back();
    }
    else {
      p = mmap(nullptr, Stack::size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (p == MAP_FAILED) {
        std::perror("mmap");
        std::_Exit(3);
      }
      mprotect(p, 4096, PROT_NONE);
    }
    bc::stack_context c;
    c.size = Stack::size;
    c.sp = static_cast<char*>(p) + Stack::size;
    return c;
  }
  void deallocate(bc::stack_context& c) { stacks.freelist.push_back(static_cast<char*>(c.sp) - Stack::size); }
};

struct Fiber {
  bc::fiber ctx;           // the fiber, when it is not running
  bc::fiber sched;         // the scheduler, while it is running
  int rank = 0;
  bool is_task = false;
  bool comm = false;       // runs on the thread of the communication pool: no worker needed
  bool holds = false;      // occupies a worker
  bool queued = false;
  bool pending_wake = false;
  const char* why = "";
  Task* task = nullptr;
  const std::function<void(int)>* main = nullptr;
  bool finished = false;
};

struct Item {
  enum Kind { New, Resume, Net, Comm } kind;
  int rank;
  double key;
  Task* task = nullptr;
  Fiber* fiber = nullptr;
  std::function<void()> fn;
};

static Options opt;
static int n_ranks = 1, n_workers = 1, strat = 0, p_preempt = 0, p_eager = 50;
static bool active = false;
static std::vector<Item> items;
static std::vector<int> busy;              // workers in use per rank
static std::vector<double> rank_bias;
static std::vector<Fiber*> fibers, idle;
static Fiber* cur = nullptr;
static int cur_rank = 0;
static long seq = 0;
static std::vector<long> ntasks;           // queued + unfinished tasks per rank
static std::vector<std::pair<int, Waiter*>> idle_waiters;

int rank() { return cur_rank; }
int ranks() { return n_ranks; }
int workers() { return n_workers; }
bool running() { return active; }
bool eager_now() { return int(rnd() % 100) < p_eager; }
Fiber* self() { return cur; }

void fail(const std::string& what) {
  std::printf("MISMATCH %s | %s [rank %d]\n", what.c_str(), context.c_str(), cur_rank);
  if (on_fail)
    on_fail();
  std::fflush(stdout);
  std::_Exit(1);
}

static double key_of(Item::Kind kind, int r) {
  ++seq;
  const double u = double(rnd() >> 11) / 9007199254740992.0;
  switch (strat) {
    case 1: return -double(seq);
    case 2: return double(seq);
    case 3: return u;
    case 4: return u + rank_bias[r];
    case 5: return (kind == Item::Net || kind == Item::Comm) ? u - 10 : u;
    case 6: return (kind == Item::Net || kind == Item::Comm) ? u + 10 : -double(seq);
    case 7: return kind == Item::Resume ? u - 10 : double(seq);
    case 8: return (kind == Item::Net || kind == Item::Comm) ? u - 10 : double(seq) + 1;
    default: return 0;
  }
}
static void push(Item it) {
  it.key = key_of(it.kind, it.rank);
  items.push_back(std::move(it));
}
void post_to(int r, Task* t) {
  Item it;
  it.kind = Item::New;
  it.rank = r;
  it.task = t;
  ++ntasks[r];
  push(std::move(it));
}
void post(Task* t) {
  if (!active) {
    t->run();
    delete t;
    return;
  }
  post_to(cur_rank, t);
}
void post_comm(Task* t) {
  if (!active) {
    t->run();
    delete t;
    return;
  }
  Item it;
  it.kind = Item::Comm;
  it.rank = cur_rank;
  it.task = t;
  ++ntasks[cur_rank];
  push(std::move(it));
}
void post_event(int r, std::function<void()> f) {
  Item it;
  it.kind = Item::Net;
  it.rank = r;
  it.fn = std::move(f);
  push(std::move(it));
}
void ready(Fiber* f) {
  if (f->queued)
    return;
  f->queued = true;
  Item it;
  it.kind = Item::Resume;
  it.rank = f->rank;
  it.fiber = f;
  push(std::move(it));
}
void suspend(bool hold_worker, const char* why) {
  Fiber* f = cur;
  if (!f)
    fail(std::string("blocking call outside a task: ") + why);
  f->why = why;
  if (f->is_task && !f->comm && !hold_worker) {
    f->holds = false;
    --busy[f->rank];
  }
  f->sched = std::move(f->sched).resume();
}
void preempt() {
  if (!cur || p_preempt == 0 || int(rnd() % 100) >= p_preempt)
    return;
  ++stats.preempts;
  ready(cur);
  suspend(true, "preempted");
}

static bc::fiber fiber_body(Fiber* f, bc::fiber&& s) {
  f->sched = std::move(s);
  for (;;) {
    if (f->main) {
      (*f->main)(f->rank);
      f->main = nullptr;
    }
    else if (f->task) {
      Task* t = f->task;
      f->task = nullptr;
      t->run();
      delete t;
    }
    f->finished = true;
    f->sched = std::move(f->sched).resume();
  }
  return std::move(f->sched);
}
static Fiber* get_fiber() {
  if (!idle.empty()) {
    Fiber* f = idle.back();
    idle.pop_back();
    f->finished = false;
    return f;
  }
  Fiber* f = new Fiber;
  f->ctx = bc::fiber(std::allocator_arg, StackAlloc{}, [f](bc::fiber&& s) { return fiber_body(f, std::move(s)); });
  fibers.push_back(f);
  return f;
}
static void set_rank(int r) {
  if (on_rank && r != cur_rank)
    on_rank(cur_rank, r);
  cur_rank = r;
}
static void enter(Fiber* f) {
  cur = f;
  set_rank(f->rank);
  ++stats.switches;
  f->ctx = std::move(f->ctx).resume();
  cur = nullptr;
  if (f->finished) {
    if (f->is_task) {
      if (f->holds)
        --busy[f->rank];
      f->holds = false;
      --ntasks[f->rank];
    }
    idle.push_back(f);
  }
}

long pending_tasks(int r) { return ntasks[r] + net_pending[r]; }
void wait_idle() {
  if (!cur)
    return;
  const int r = cur_rank;
  const long mine = cur->is_task ? 1 : 0;
  if (pending_tasks(r) <= mine)
    return;
  Waiter w;
  idle_waiters.emplace_back(r, &w);
  w.wait(false, "pika::wait");
}

static bool enabled(const Item& it) {
  switch (it.kind) {
    case Item::New: return busy[it.rank] < n_workers;
    case Item::Resume: return !it.fiber->is_task || it.fiber->comm || it.fiber->holds || busy[it.rank] < n_workers;
    default: return true;
  }
}

static void deadlock() {
  std::ostringstream s;
  s << "deadlock: nothing can run;";
  for (Fiber* f : fibers) {
    bool in_idle = false;
    for (Fiber* g : idle)
      in_idle |= g == f;
    if (!in_idle)
      s << " rank " << f->rank << (f->is_task ? " task" : " main") << " waits for " << f->why << ";";
  }
  for (int r = 0; r < n_ranks; ++r)
    s << " rank " << r << ": " << ntasks[r] << " tasks, " << net_pending[r] << " network operations pending;";
  fail(s.str());
}

void run(const Options& o, const std::function<void(int)>& main) {
  opt = o;
  seed_rng(o.seed);
  ++stats.runs;
  n_ranks = o.ranks;
  for (int i = 0; i < 8; ++i)
    rnd();
  n_workers = o.workers > 0 ? o.workers : 1 + int(rnd() % 4);
  strat = o.strategy >= 0 ? o.strategy : int(o.seed % 9);
  {
    static const int pp[] = {0, 20, 60};
    static const int pe[] = {0, 50, 100};
    const int a = int(rnd() % 3), b = int(rnd() % 3);
    p_preempt = o.preempt >= 0 ? o.preempt : pp[a];
    p_eager = o.eager >= 0 ? o.eager : pe[b];
  }
  items.clear();
  busy.assign(n_ranks, 0);
  ntasks.assign(n_ranks, 0);
  rank_bias.assign(n_ranks, 0);
  for (auto& b : rank_bias)
    b = 3 * double(rnd() % 1000) / 1000.0;
  for (int r = 0; r < 64; ++r)
    net_pending[r] = 0;
  seq = 0;
  active = true;
  if (at_start)
    at_start(n_ranks);
  std::vector<Fiber*> mains;
  for (int r = 0; r < n_ranks; ++r) {
    Fiber* f = get_fiber();
    f->rank = r;
    f->is_task = false;
    f->comm = false;
    f->holds = false;
    f->main = &main;
    f->queued = false;
    mains.push_back(f);
    ready(f);
  }
  for (;;) {
    for (std::size_t i = 0; i < idle_waiters.size();) {
      auto [r, w] = idle_waiters[i];
      if (pending_tasks(r) <= (w->f && w->f->is_task ? 1 : 0)) {
        idle_waiters.erase(idle_waiters.begin() + long(i));
        w->signal();
      }
      else
        ++i;
    }
    // choose
    long best = -1;
    if (strat == 0) {
      const std::size_t n = items.size();
      if (n > 0) {
        const std::size_t start = rnd() % n;
        for (std::size_t k = 0; k < n; ++k)
          if (enabled(items[(start + k) % n])) {
            best = long((start + k) % n);
            break;
          }
      }
    }
    else {
      for (std::size_t i = 0; i < items.size(); ++i)
        if (enabled(items[i]) && (best < 0 || items[i].key > items[std::size_t(best)].key))
          best = long(i);
      // occasional priority change
      if (best >= 0 && (strat == 3 || strat == 4) && rnd() % 64 == 0)
        items[std::size_t(best)].key -= 2;
    }
    if (best < 0)
      break;
    Item it = std::move(items[std::size_t(best)]);
    items[std::size_t(best)] = std::move(items.back());
    items.pop_back();
    stats.hash = (stats.hash ^ (unsigned long)(it.kind * 64 + it.rank + 1000 * best)) * 1099511628211ul;
    if (it.kind == Item::Net) {
      ++stats.events;
      set_rank(it.rank);
      it.fn();
    }
    else if (it.kind == Item::New || it.kind == Item::Comm) {
      ++stats.tasks;
      Fiber* f = get_fiber();
      f->rank = it.rank;
      f->is_task = true;
      f->comm = it.kind == Item::Comm;
      f->holds = !f->comm;
      f->queued = false;
      f->why = "running";
      f->task = it.task;
      if (!f->comm)
        ++busy[it.rank];
      enter(f);
    }
    else {
      Fiber* f = it.fiber;
      f->queued = false;
      if (f->is_task && !f->comm && !f->holds) {
        f->holds = true;
        ++busy[f->rank];
      }
      enter(f);
    }
  }
  for (Fiber* f : fibers) {
    bool in_idle = false;
    for (Fiber* g : idle)
      in_idle |= g == f;
    if (!in_idle)
      deadlock();
  }
  for (int r = 0; r < n_ranks; ++r)
    if (net_pending[r] > 0)
      deadlock();
  set_rank(0);
  if (at_end)
    at_end();
  active = false;
  n_ranks = 1;
}

namespace {
struct Terminate {
  Terminate() {
    std::set_terminate([] {
      std::string what = "unknown";
      if (auto e = std::current_exception()) {
        try {
          std::rethrow_exception(e);
        }
        catch (const std::exception& x) {
          what = x.what();
        }
        catch (...) {
        }
      }
      else
        what = "terminate called (assertion of the library)";
      std::fprintf(stderr, "[%s] in %s\n", what.c_str(), context.c_str());
      if (!running() || !vrt::self())
        std::abort();
      fail("the program was stopped: " + what);
    });
  }
} terminate_init;
}
}
