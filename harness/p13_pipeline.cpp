// Replays behaviours of spec/Pipelines.tla into dlaf::common::Pipeline and comm::CommunicatorPipeline on the
// deterministic runtime: step by step (who holds what after every step) and all at once (what each access saw).
#include <dlaf/communication/communicator.h>
#include <dlaf/communication/communicator_pipeline.h>
#include <dlaf/common/pipeline.h>
#include <vrt.h>

#include "common.h"
namespace ex = pika::execution::experimental;
static vf::Report R;

static int alive = 0;
struct Res {
  int id = -7;
  Res() { ++alive; }
  explicit Res(int i) : id(i) { ++alive; }
  Res(Res&& o) noexcept : id(std::exchange(o.id, -9)) { ++alive; }
  Res& operator=(Res&& o) noexcept {
    if (this != &o)
      id = std::exchange(o.id, -9);
    return *this;
  }
  ~Res() { --alive; }
};

struct PlainT {
  using P = dlaf::common::Pipeline<Res>;
  using RW = P::ReadOnlyWrapper;
  using WW = P::ReadWriteWrapper;
  using RS = P::ReadOnlySender;
  using WS = P::ReadWriteSender;
  static P root() { return P(Res(0)); }
  static P other() { return P(Res(-5)); }
  static P empty() { return P(); }
  static RS read(P& p) { return p.read(); }
  static WS write(P& p) { return p.readwrite(); }
  static int seen(const Res& r) { return r.id; }
  static void put(Res& r, int i) { r.id = i; }
  static constexpr bool values = true;
  static void check(const P&, const std::string&) {}
};
static MPI_Comm the_comm;
struct CommT {
  using P = dlaf::comm::CommunicatorPipeline<dlaf::comm::CommunicatorType::Row>;
  using RW = P::SharedWrapper;
  using WW = P::ExclusiveWrapper;
  using RS = P::SharedSender;
  using WS = P::ExclusiveSender;
  static P root() { return P(dlaf::comm::Communicator(MPI_COMM_WORLD), {1, 2}, {3, 5}); }
  static P other() { return P(dlaf::comm::Communicator(MPI_COMM_SELF), {0, 0}, {1, 1}); }
  static P empty() {
    P a = other();
    P b = std::move(a);
    b.reset();
    return b;
  }
  static RS read(P& p) { return p.shared(); }
  static WS write(P& p) { return p.exclusive(); }
  static int seen(const dlaf::comm::Communicator& c) {
    MPI_Comm m = c;
    return m == the_comm ? 0 : -9;
  }
  static void put(dlaf::comm::Communicator&, int) {}
  static constexpr bool values = false;
  static void check(const P& p, const std::string& ctx) {
    R.ok(p.rank() == 0 && p.size() == 1 && p.rank_2d() == dlaf::comm::Index2D(1, 2) && p.size_2d() == dlaf::comm::Size2D(3, 5) &&
             p.rank_full_communicator({2, 1}) == 11,
         "pipeline reports another rank or size: " + ctx);
  }
};

// dropping an access grants the next one, which comes back into the same map: take the node out first
template <class M>
static void drop(M& m, int k) {
  auto n = m.extract(k);
}
template <class M>
static void drop_all(M& m) {
  M n;
  std::swap(m, n);
}

template <class T>
struct World {
  using P = typename T::P;
  std::map<int, std::unique_ptr<P>> pipe;
  std::map<int, typename T::RW> rheld;
  std::map<int, typename T::WW> wheld;
  std::map<int, typename T::RS> rlazy;
  std::map<int, typename T::WS> wlazy;
  std::map<int, int> saw;
  int readers = 0, writers = 0;
  int nacc = 0;
  bool storm = false, transfer = false;
  std::string ctx;

  void start_read(int a, typename T::RS s) {
    if (!storm) {
      auto body = [this, a](typename T::RW w) {
        saw[a] = T::seen(w.get());
        rheld.insert_or_assign(a, std::move(w));
      };
      if (transfer)
        ex::start_detached(std::move(s) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then(body));
      else
        ex::start_detached(std::move(s) | ex::then(body));
      return;
    }
    ex::start_detached(std::move(s) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then([this, a](typename T::RW w) {
                         ++readers;
                         R.ok(writers == 0, "reader runs beside a writer: " + ctx);
                         saw[a] = T::seen(w.get());
                         vrt::preempt();
                         vrt::preempt();
                         R.eq(T::seen(w.get()), saw[a], "value changed under a reader: " + ctx);
                         R.ok(writers == 0, "reader runs beside a writer: " + ctx);
                         --readers;
                       }));
  }
  void start_write(int a, typename T::WS s) {
    if (!storm) {
      auto body = [this, a](typename T::WW w) {
        saw[a] = T::seen(w.get());
        T::put(w.get(), a);
        wheld.insert_or_assign(a, std::move(w));
      };
      if (transfer)
        ex::start_detached(std::move(s) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then(body));
      else
        ex::start_detached(std::move(s) | ex::then(body));
      return;
    }
    ex::start_detached(std::move(s) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then([this, a](typename T::WW w) {
                         R.ok(writers == 0 && readers == 0, "writer is not alone: " + ctx);
                         ++writers;
                         saw[a] = T::seen(w.get());
                         vrt::preempt();
                         T::put(w.get(), a);
                         vrt::preempt();
                         R.ok(writers == 1 && readers == 0, "writer is not alone: " + ctx);
                         --writers;
                       }));
  }
  void step(int op, int x, int y) {
    switch (op) {
      case 1: start_read(y, T::read(*pipe.at(x))); break;
      case 2: start_write(y, T::write(*pipe.at(x))); break;
      case 3: rlazy.emplace(y, T::read(*pipe.at(x))); break;
      case 4: wlazy.emplace(y, T::write(*pipe.at(x))); break;
      case 5:
        if (rlazy.count(x)) {
          auto s = std::move(rlazy.at(x));
          rlazy.erase(x);
          start_read(x, std::move(s));
        }
        else {
          auto s = std::move(wlazy.at(x));
          wlazy.erase(x);
          start_write(x, std::move(s));
        }
        break;
      case 6:
        drop(rlazy, x);
        drop(wlazy, x);
        break;
      case 7:
        if (!storm) {
          if (rheld.count(x) + wheld.count(x) != 1)
            return;  // reported by the comparison of the previous step
          drop(rheld, x);
          drop(wheld, x);
        }
        break;
      case 8: pipe.emplace(y, std::make_unique<P>(pipe.at(x)->sub_pipeline())); break;
      case 9:
        if (y == 0)
          drop(pipe, x);
        else if (y == 1) {
          pipe.at(x)->reset();
          R.ok(!pipe.at(x)->valid(), "valid after reset: " + ctx);
        }
        else if (y == 2) {
          *pipe.at(x) = T::empty();
          R.ok(!pipe.at(x)->valid(), "valid after assigning an empty pipeline: " + ctx);
        }
        else {
          *pipe.at(x) = T::other();
          R.ok(pipe.at(x)->valid(), "not valid after assigning a pipeline: " + ctx);
          pipe.at(x)->reset();
        }
        break;
      case 10: {
        auto n = y == 0 ? std::make_unique<P>(std::move(*pipe.at(x))) : std::make_unique<P>(T::empty());
        if (y == 1)
          *n = std::move(*pipe.at(x));
        R.ok(n->valid() && !pipe.at(x)->valid(), "validity does not follow a move: " + ctx);
        T::check(*n, ctx);
        pipe.at(x) = std::move(n);
        break;
      }
      case 11:
        *pipe.at(x) = std::move(*pipe.at(y));
        R.ok(pipe.at(x)->valid() && !pipe.at(y)->valid(), "validity does not follow an assignment: " + ctx);
        pipe.at(y) = std::move(pipe.at(x));
        drop(pipe, x);
        break;
      default: std::exit(3);
    }
  }
  long mask() const {
    long m = 0;
    for (auto& k : rheld)
      m |= 1L << (k.first - 1);
    for (auto& k : wheld)
      m |= 1L << (k.first - 1);
    return m;
  }
};

template <class T>
static void replay(const std::vector<long long>& v, int depth, unsigned seed, bool storm) {
  vrt::Options o;
  o.seed = seed;
  o.ranks = 1;
  std::string ctx;
  for (int i = 0; i < depth; ++i)
    ctx += vf::cat(v[std::size_t(4 * i)], v[std::size_t(4 * i + 1)], v[std::size_t(4 * i + 2)]) + "; ";
  ctx = vf::cat(T::values ? "Pipeline" : "CommunicatorPipeline", storm ? "storm" : "steps", "seed", seed, ":") + ctx;
  vrt::context = ctx;
  const int alive0 = alive;
  const bool transfer = seed % 2;
  vrt::run(o, [&](int) {
    the_comm = MPI_COMM_WORLD;
    World<T> w;
    w.ctx = ctx;
    w.storm = storm;
    w.transfer = transfer;
    w.pipe.emplace(1, std::make_unique<typename T::P>(T::root()));
    bool good = true;
    for (int i = 0; i < depth && good; ++i) {
      const auto* p = &v[std::size_t(4 * i)];
      w.step(int(p[0]), int(p[1]), int(p[2]));
      for (auto& k : w.pipe)
        if (k.second->valid())
          T::check(*k.second, ctx);
      if (!storm) {
        vrt::wait_idle();
        good = R.eq(w.mask(), long(p[3]), vf::cat("granted accesses after step", i, "of", ctx));
      }
      else
        vrt::preempt();
    }
    if (good) {
      drop_all(w.pipe);
      drop_all(w.rlazy);
      drop_all(w.wlazy);
      vrt::wait_idle();
      if (!storm)
        while (w.mask()) {
          drop_all(w.rheld);
          drop_all(w.wheld);
          vrt::wait_idle();
        }
      const std::size_t base = std::size_t(4 * depth);
      for (std::size_t a = 1; base + 2 * a <= v.size(); ++a) {
        const int want = int(v[base + 2 * a - 1]);
        // turns of sub-pipelines have no observable value; they never appear in `saw`
        auto it = w.saw.find(int(a));
        if (it == w.saw.end()) {
          bool nest = false;
          int n = 0;
          for (int i = 0; i < depth; ++i) {
            const int op = int(v[std::size_t(4 * i)]);
            if (op <= 4 || op == 8) {
              ++n;
              if (n == int(a))
                nest = op == 8;
            }
          }
          R.ok(nest || want == -1, vf::cat("access", a, "never had its turn:", ctx));
        }
        else
          R.eq(it->second, T::values || want < 0 ? want : 0, vf::cat("value seen by access", a, "of", ctx));
      }
    }
    else {
      drop_all(w.pipe);
      drop_all(w.rlazy);
      drop_all(w.wlazy);
      vrt::wait_idle();
      for (int k = 0; k < 50; ++k) {
        drop_all(w.rheld);
        drop_all(w.wheld);
        vrt::wait_idle();
      }
    }
  });
  R.eq(alive, alive0, "resources alive after everything was dropped: " + ctx);
  ++R.cases;
}

int main(int argc, char** argv) {
  if (argc < 4)
    return 3;
  const int depth = std::atoi(argv[2]);
  const int storms = std::atoi(argv[3]);
  unsigned seed = unsigned(std::atoi(argv[4]));
  long idx = 0;
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    ++idx;
    if (R.mismatches > 40)
      return;
    replay<PlainT>(l.v, depth, ++seed, false);
    for (int k = 0; k < storms; ++k)
      replay<PlainT>(l.v, depth, ++seed, true);
    if (idx % 4 == 0) {
      replay<CommT>(l.v, depth, ++seed, false);
      replay<CommT>(l.v, depth, ++seed, true);
    }
  });
  // an invalid pipeline hands out nothing
  for (int k = 0; k < 6; ++k)
    R.ok(vf::dies([&] {
           vrt::Options o;
           vrt::run(o, [&](int) {
             PlainT::P p = PlainT::root();
             if (k < 2)
               p.reset();
             else if (k < 4)
               PlainT::P q = std::move(p);
             else
               p = PlainT::empty();
             if (k % 2)
               p.read();
             else
               p.readwrite();
             _exit(0);
           });
         }) == 1,
         "an invalid pipeline handed out an access");
  R.extra["tasks"] = vrt::stats.tasks;
  R.extra["runs"] = vrt::stats.runs;
  return R.done();
}
