// Replays spec/AsyncCalls.tla (programs of asynchronous calls) and spec/TemporaryTile.tla into the helpers of
// dlaf/sender, and the wrappers of callables they are made of directly.
#include <list>
#include <optional>
#include <set>

#include <dlaf/common/callable_object.h>
#include <dlaf/common/consume_rvalues.h>
#include <dlaf/common/pipeline.h>
#include <dlaf/common/unwrap.h>
#include <dlaf/common/with_result_of.h>
#include <dlaf/matrix/create_matrix.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/sender/make_sender_algorithm_overloads.h>
#include <dlaf/sender/policy.h>
#include <dlaf/sender/transform.h>
#include <dlaf/sender/when_all_lift.h>
#include <dlaf/sender/with_temporary_tile.h>
#include <umpire/Allocator.hpp>
#include <vrt.h>

#include "common.h"
using vf::cat;
using dlaf::Backend;
namespace ex = pika::execution::experimental;
namespace di = dlaf::internal;
static vf::Report R;
static std::string ctx;

// ------------------------------------------------------------------------------------------------- objects
// a value which knows whether it is still there: ids of tokens are counted while they hold something
static std::map<int, int> alive;
struct Token {
  int id = 0, value = 0;
  bool full = false;
  Token() = default;
  Token(int i, int v) : id(i), value(v), full(true) { ++alive[id]; }
  Token(const Token& o) : id(o.id), value(o.value), full(o.full) {
    if (full)
      ++alive[id];
  }
  Token(Token&& o) noexcept : id(o.id), value(o.value), full(o.full) { o.full = false; }
  Token& operator=(Token o) noexcept {
    std::swap(id, o.id);
    std::swap(value, o.value);
    std::swap(full, o.full);
    return *this;
  }
  ~Token() {
    if (full)
      --alive[id];
  }
};
struct Ref {
  int value;
};
struct Cell {  // of the pipeline
  int value = -1;
  int readers = 0, writers = 0;
};
using Pipe = dlaf::common::Pipeline<std::shared_ptr<Cell>>;

struct Failure {
  int id;
};

// -------------------------------------------------------------------------------------------------- events
struct WaiterBase {
  virtual void go(int state, const Token& t) = 0;
  virtual ~WaiterBase() = default;
};
struct Event {
  int id = 0;
  int state = 0;  // 0 not yet, 1 a value, 2 an error
  Token t;
  WaiterBase* waiter = nullptr;
  void fire(bool ok) {
    state = ok ? 1 : 2;
    if (ok)
      t = Token(1000 + id, 100 + id);
    if (auto* w = std::exchange(waiter, nullptr))
      w->go(state, t);
  }
};
struct EventSender {
  using sends = ex::detail::list<Token>;
  Event* e;
  template <class Rc>
  struct op : WaiterBase {
    Event* e;
    Rc r;
    op(Event* e, Rc&& r) : e(e), r(std::move(r)) {}
    op(const op&) = delete;
    void go(int state, const Token&) override {
      if (state == 1)
        std::move(r).set_value(std::move(e->t));
      else
        std::move(r).set_error(std::make_exception_ptr(Failure{e->id}));
    }
    void start() noexcept {
      if (e->state)
        go(e->state, e->t);
      else
        e->waiter = this;
    }
  };
  template <class Rc>
  op<std::decay_t<Rc>> connect(Rc&& r) && {
    return {e, std::decay_t<Rc>(std::forward<Rc>(r))};
  }
  template <class Rc>
  op<std::decay_t<Rc>> connect(Rc&& r) const& {
    return {e, std::decay_t<Rc>(std::forward<Rc>(r))};
  }
};

// ------------------------------------------------------------------------------------------------- program
struct Op {
  int form, nin, kind[2], user, early, throws, hold;
  // what happened
  int calls = 0, value = 0, fin = 0;
  int error = 0;
  std::vector<int> args;
};
struct Seen {
  int calls, value, fin, held, in1, in2, out;
  std::vector<int> errors;
};
struct World {
  int n = 0;
  std::vector<Op> ops;  // from 1
  std::map<int, Event> events;
  Ref refs[2] = {{501}, {502}};
  std::shared_ptr<Cell> cell = std::make_shared<Cell>();
};
static World* W;

// arguments of the functions, after unwrapping
static int take(Op& o, const Token& t) {
  R.ok(t.full && alive[t.id] > 0, cat("an argument is gone", ctx));
  (void) o;
  return t.value;
}
static int take(Op&, const Ref& r) {
  R.ok(&r == &W->refs[0] || &r == &W->refs[1], cat("not the object referred to", ctx));
  return r.value;
}
static int take(Op&, const std::shared_ptr<Cell>& c) {
  R.ok(c == W->cell, cat("not the object of the pipeline", ctx));
  return c ? c->value : -1;
}
template <class T>
static constexpr int access_of = std::is_same_v<std::decay_t<T>, std::shared_ptr<Cell>> ? (std::is_const_v<std::remove_reference_t<T>> ? 1 : 2) : 0;

struct Tag {  // leads the arguments of calls through a function that knows nothing
  int k;
  Token t;
};

template <class... Ts>
Token body(int k, Ts&&... ts) {
  Op& o = W->ops[size_t(k)];
  ++o.calls;
  const int acc = std::max({0, access_of<Ts>...});
  Cell& c = *W->cell;
  if (acc == 1)
    ++c.readers;
  if (acc == 2)
    ++c.writers;
  R.ok(acc == 0 || (acc == 1 ? c.writers == 0 : c.writers == 1 && c.readers == 0), cat("conflicting accesses at a time", k, ctx));
  std::vector<int> v{take(o, ts)...};
  o.args = v;
  vrt::preempt();
  R.ok(v == std::vector<int>{take(o, ts)...}, cat("arguments changed during the call", k, ctx));
  const int val = (13 * k + (v.size() > 0 ? 7 * v[0] : 0) + (v.size() > 1 ? 3 * v[1] : 0)) % 997;
  o.value = val;
  if (acc == 1)
    --c.readers;
  if (acc == 2) {
    if (!o.throws)
      c.value = val;
    --c.writers;
  }
  if (o.throws)
    throw Failure{100 + k};
  return Token(2000 + k, val);
}
struct Fn {
  int k;
  Token own;
  Fn(int k) : k(k), own(3000 + k, 0) {}
  template <class... Ts>
  Token operator()(Ts&&... ts) {
    R.ok(own.full, cat("the function was moved away before it was called", k, ctx));
    return body(k, std::forward<Ts>(ts)...);
  }
};
struct FnVoid : Fn {
  using Fn::Fn;
  template <class... Ts>
  void operator()(Ts&&... ts) {
    Fn::operator()(std::forward<Ts>(ts)...);
  }
};
template <class... Ts>
Token tagged(Tag tag, Ts&&... ts) {
  return body(tag.k, std::forward<Ts>(ts)...);
}
DLAF_MAKE_CALLABLE_OBJECT(tagged);
DLAF_MAKE_SENDER_ALGORITHM_OVERLOADS(di::TransformDispatchType::Plain, run_tagged, tagged_o)

using Result = ex::unique_any_sender<Token>;
static std::map<int, Result> results;
using Split = decltype(ex::split(std::declval<EventSender>()));
static std::optional<Split> shared;
static std::map<int, Token> lent;

// the end of a call nobody asks for: what came out of it
struct Sink {
  int k;
  std::function<void()> end;
  void set_value(Token&& t) && {
    R.ok(t.full, cat("an empty result", k, ctx));
    done(1, 0);
  }
  void set_value(Token& t) && {
    R.ok(t.full, cat("an empty result", k, ctx));
    done(1, 0);
  }
  void set_value() && { done(1, 0); }
  void set_error(std::exception_ptr e) && {
    int id = -1;
    try {
      std::rethrow_exception(e);
    }
    catch (const Failure& f) {
      id = f.id;
    }
    catch (...) {
    }
    e = nullptr;
    done(2, id);
  }
  void done(int f, int e) {
    Op& o = W->ops[size_t(k)];
    R.ok(o.fin == 0, cat("completed twice", k, ctx));
    o.fin = f;
    o.error = e;
  }
};
// connected operations live until the end of the program: nothing but the helper itself can let go of what it holds
struct HeldBase {
  virtual ~HeldBase() = default;
};
template <class S>
struct Held : HeldBase {
  using O = decltype(std::declval<S&&>().connect(std::declval<Sink>()));
  std::optional<O> o;
  Held(S&& s, int k) {
    o.emplace(ex::detail::elide{[&] { return std::move(s).connect(Sink{k, {}}); }});
    o->start();
  }
};
static std::list<std::unique_ptr<HeldBase>> helds;
template <class S>
void hold(S&& s, int k) {
  helds.push_back(std::make_unique<Held<std::decay_t<S>>>(std::forward<S>(s), k));
}

static void deliver(int k, Result r) {
  Op& o = W->ops[size_t(k)];
  if (o.user) {
    if (o.early)
      results[k] = Result(ex::ensure_started(std::move(r)));
    else
      results[k] = std::move(r);
  }
  else if (o.hold)
    hold(std::move(r) | ex::let_value([h = o.hold](Token& t) {
           R.ok(t.full, cat("an empty result", ctx));
           return EventSender{&W->events[h]} | ex::then([](Token) {});
         }) | ex::drop_operation_state(),
         k);
  else
    hold(std::move(r), k);
}

template <int Form, class... Ss>
void launch(int k, Ss&&... ss) {
  using pika::execution::thread_priority;
  const di::Policy<Backend::MC> pol(thread_priority::high);
  if constexpr (Form == 0)
    deliver(k, Result(di::transform(pol, Fn(k), di::whenAllLift(std::forward<Ss>(ss)...))));
  else if constexpr (Form == 1)
    deliver(k, Result(di::whenAllLift(std::forward<Ss>(ss)...) | di::transform(pol, Fn(k))));
  else if constexpr (Form == 2)
    deliver(k, Result(di::transformLift<di::TransformDispatchType::Plain>(pol, Fn(k), std::forward<Ss>(ss)...)));
  else if constexpr (Form == 3)
    deliver(k, Result(run_tagged(pol, di::whenAllLift(Tag{k, Token(3000 + k, 0)}, std::forward<Ss>(ss)...))));
  else if constexpr (Form == 4)
    deliver(k, Result(di::whenAllLift(Tag{k, Token(3000 + k, 0)}, std::forward<Ss>(ss)...) | run_tagged(pol)));
  else if constexpr (Form == 5)
    di::transformDetach(pol, FnVoid(k), di::whenAllLift(std::forward<Ss>(ss)...));
  else if constexpr (Form == 6)
    di::whenAllLift(std::forward<Ss>(ss)...) | di::transformDetach(pol, FnVoid(k));
  else if constexpr (Form == 7)
    di::transformLiftDetach(pol, FnVoid(k), std::forward<Ss>(ss)...);
  else if constexpr (sizeof...(Ss) == 2)
    run_tagged(pol, Tag{k, Token(3000 + k, 0)}, std::forward<Ss>(ss)...);
}

template <int Form, class... Ss>
void build(int k, Pipe& pipe, Ss&&... ss) {
  Op& o = W->ops[size_t(k)];
  constexpr int i = int(sizeof...(Ss));
  if (i == o.nin)
    return launch<Form>(k, std::forward<Ss>(ss)...);
  if constexpr (i < 2) {
    const int s = i + 1, ev = 2 * (k - 1) + s, tok = 4000 + 10 * k + s;
    switch (o.kind[i]) {
      case 1: return build<Form>(k, pipe, std::forward<Ss>(ss)..., Token(tok, 10 * k + s));
      case 2: return build<Form>(k, pipe, std::forward<Ss>(ss)..., lent[s] = Token(tok, 10 * k + s));
      case 5: return build<Form>(k, pipe, std::forward<Ss>(ss)..., std::ref(W->refs[i]));
      default: break;
    }
    if constexpr (Form != 8)
      switch (o.kind[i]) {
        case 3: return build<Form>(k, pipe, std::forward<Ss>(ss)..., Result(EventSender{&W->events[ev]}));
        case 4: return build<Form>(k, pipe, std::forward<Ss>(ss)..., std::move(results[i == 0 ? k - 1 : k - 2]));
        case 6: return build<Form>(k, pipe, std::forward<Ss>(ss)..., pipe.read());
        case 7: return build<Form>(k, pipe, std::forward<Ss>(ss)..., pipe.readwrite());
        case 8: return build<Form>(k, pipe, std::forward<Ss>(ss)..., *shared);
        default: break;
      }
  }
  std::fprintf(stderr, "bad program\n");
  std::exit(3);
}
static void submit(int k, Pipe& pipe) {
  switch (W->ops[size_t(k)].form) {
    case 0: build<0>(k, pipe); break;
    case 1: build<1>(k, pipe); break;
    case 2: build<2>(k, pipe); break;
    case 3: build<3>(k, pipe); break;
    case 4: build<4>(k, pipe); break;
    case 5: build<5>(k, pipe); break;
    case 6: build<6>(k, pipe); break;
    case 7: build<7>(k, pipe); break;
    default: build<8>(k, pipe); break;
  }
  lent.clear();  // what was lent is taken back at once
}

static int count(int id) {
  auto it = alive.find(id);
  return it == alive.end() ? 0 : it->second;
}

static void program(const std::vector<long long>& v) {
  size_t p = 0;
  auto next = [&] { return int(v.at(p++)); };
  World w;
  W = &w;
  alive.clear();
  w.n = next();
  w.ops.resize(size_t(w.n) + 1);
  bool has_shared = false;
  int last_shared = 0;
  for (int k = 1; k <= w.n; ++k) {
    Op& o = w.ops[size_t(k)];
    o.form = next(), o.nin = next(), o.kind[0] = next(), o.kind[1] = next(), o.user = next(), o.early = next(), o.throws = next(), o.hold = next();
    for (int i = 0; i < o.nin; ++i)
      if (o.kind[i] == 8)
        has_shared = true, last_shared = k;
  }
  for (int e = 1; e <= 20; ++e)
    w.events[e].id = e;
  w.cell->value = 7;
  const std::string base = ctx;
  int steps = next(), submitted = 0;
  {
    Pipe pipe{w.cell};
    if (has_shared)
      shared.emplace(ex::split(EventSender{&w.events[20]}));
    for (int s = 1; s <= steps; ++s) {
      const int m = next();
      ctx = cat("step", s, m == 0 ? "submit" : "event", m, base);
      if (m == 0) {
        submit(++submitted, pipe);
        if (submitted == last_shared)
          shared.reset();
        if (w.ops[size_t(submitted)].form == 8)
          R.eq(w.ops[size_t(submitted)].calls, 1, cat("a blocking call returned before its function", ctx));
      }
      else
        w.events[std::abs(m)].fire(m > 0);
      vrt::wait_idle();
      for (int k = 1; k <= w.n; ++k) {
        Op& o = w.ops[size_t(k)];
        const int calls = next(), value = next(), fin = next(), held = next(), in1 = next(), in2 = next(), out = next(), ne = next();
        std::set<int> errors;
        for (int i = 0; i < ne; ++i)
          errors.insert(next());
        const std::string c = cat("call", k, "form", o.form, ctx);
        R.eq(o.calls, calls, "times the function was called " + c);
        if (calls && o.calls) {
          R.eq(o.value, value, "value " + c);
          R.eq(int(o.args.size()), o.nin, "number of arguments " + c);
        }
        R.eq(o.fin, fin, "completion " + c);
        if (fin == 2 && o.fin == 2)
          R.ok(errors.count(o.error) == 1, cat("another error", o.error, c));
        R.eq(count(3000 + k), held, "the function is kept " + c);
        for (int i = 0; i < 2; ++i)
          R.eq(count(i >= o.nin ? 0 : o.kind[i] <= 2 ? 4000 + 10 * k + i + 1 : o.kind[i] == 3 ? 1000 + 2 * (k - 1) + i + 1 : 0), i ? in2 : in1,
               cat("argument", i + 1, "is kept", c));
        R.eq(count(2000 + k), out, "the result is kept " + c);
      }
      R.eq(count(1020) > 0, next() == 1, cat("the shared value is kept", ctx));
    }
    const int last = next();
    w.ops[1].fin = 0;
    int got = -1;
    hold(pipe.read() | ex::then([&](auto wr) {
           got = wr.get()->value;
           return Token(1, 1);
         }),
         1);
    vrt::wait_idle();
    R.eq(got, last, cat("value of the pipeline at the end, after all accesses", base));
  }
  R.eq(w.cell.use_count(), 1l, cat("the pipeline's value is still held", base));
  w.events.clear();  // events nobody waited for
  // every operation is over, so that nothing is left in what is still connected
  helds.clear();
  results.clear();
  shared.reset();
  for (auto& [id, c] : alive)
    R.eq(c, 0, cat("left behind", id, base));
  ++R.extra["runs"];
}

// ------------------------------------------------------------------------------------------ temporary tiles
#include "p41_temp.h"

// ---------------------------------------------------------------------------------- wrappers of callables
#include "p41_wrap.h"

int main(int argc, char** argv) {
  if (argc < 4)
    return 3;
  const int seed = std::atoi(argv[2]), nsched = std::atoi(argv[3]);
  wrappers();
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    ++R.cases;
    for (int s = 0; s < nsched; ++s) {
      vrt::Options o;
      o.seed = unsigned(seed) * 7919u + unsigned(s) * 104729u + unsigned(R.cases);
      o.ranks = 1;
      o.workers = 1 + (s + int(R.cases)) % 3;
      o.preempt = s % 2 == 1;
      ctx = cat("schedule", s, "case", R.cases);
      vrt::run(o, [&](int) {
        if (l.kind == "K")
          program(l.v);
        else
          temporary(l.v);
      });
    }
  });
  return R.done();
}
