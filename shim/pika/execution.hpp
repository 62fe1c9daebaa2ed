// Stand-in for pika's sender/receiver facilities, restricted to what DLA-Future uses: every sender has
// exactly one value completion.  Work is scheduled on vrt's deterministic scheduler.
#pragma once
#include <cstddef>
#include <exception>
#include <functional>
#include <memory>
#include <optional>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

#include <vrt.h>

#define PIKA_HAVE_STDEXEC 1

namespace pika::execution {
enum class thread_priority { unknown, default_, low, normal, high_recursive, boost, high, bound };
enum class thread_stacksize { unknown, default_, small_, medium, large, huge, nostack, current };
}

namespace pika::execution::experimental {
namespace detail {
template <class... Ts>
struct list {};

template <class S, class = void>
struct has_sends : std::false_type {};
template <class S>
struct has_sends<S, std::void_t<typename std::decay_t<S>::sends>> : std::true_type {};

template <class S>
using sends_t = typename std::decay_t<S>::sends;

template <class L>
struct decay_list;
template <class... Ts>
struct decay_list<list<Ts...>> {
  using type = list<std::decay_t<Ts>...>;
};
template <class L>
using decay_list_t = typename decay_list<L>::type;

template <class L>
struct tuple_of;
template <class... Ts>
struct tuple_of<list<Ts...>> {
  using type = std::tuple<Ts...>;
};
template <class L>
using tuple_of_t = typename tuple_of<L>::type;
template <class S>
using values_t = tuple_of_t<decay_list_t<sends_t<S>>>;

template <class... Ls>
struct concat;
template <>
struct concat<> {
  using type = list<>;
};
template <class... As>
struct concat<list<As...>> {
  using type = list<As...>;
};
template <class... As, class... Bs, class... Ls>
struct concat<list<As...>, list<Bs...>, Ls...> : concat<list<As..., Bs...>, Ls...> {};

template <class R>
struct list_of_result {
  using type = list<R>;
};
template <>
struct list_of_result<void> {
  using type = list<>;
};
template <class F, class L>
struct result_list;
template <class F, class... Ts>
struct result_list<F, list<Ts...>> {
  using result = std::invoke_result_t<F, Ts...>;
  using type = typename list_of_result<result>::type;
};

// construct in place from a function returning a prvalue
template <class F>
struct elide {
  F f;
  operator decltype(std::declval<F>()())() && { return std::move(f)(); }
};
template <class F>
elide(F) -> elide<F>;

struct closure_base {};
template <class F>
struct closure : closure_base {
  F f;
};
template <class F>
auto make_closure(F f) {
  return closure<F>{{}, std::move(f)};
}

template <class T>
struct is_tuple_like : std::false_type {};
}  // namespace detail

template <class S>
inline constexpr bool is_sender_v = detail::has_sends<S>::value;
template <class S>
struct is_sender : std::bool_constant<is_sender_v<S>> {};

namespace detail {
template <class L, template <class...> class Tuple, template <class...> class Variant>
struct vtypes;
template <class... Ts, template <class...> class Tuple, template <class...> class Variant>
struct vtypes<list<Ts...>, Tuple, Variant> {
  using type = Variant<Tuple<Ts...>>;
};
}
template <class S, class Env, template <class...> class Tuple, template <class...> class Variant>
using value_types_of_t = typename detail::vtypes<detail::sends_t<S>, Tuple, Variant>::type;
template <class S>
struct sender_traits {
  template <template <class...> class Tuple, template <class...> class Variant>
  using value_types = typename detail::vtypes<detail::sends_t<S>, Tuple, Variant>::type;
};

template <class S, class R>
auto connect(S&& s, R&& r) {
  return std::forward<S>(s).connect(std::forward<R>(r));
}
template <class O>
void start(O& o) noexcept {
  o.start();
}

// here, so that it is found for every closure
namespace detail {
template <class S, class F, class = std::enable_if_t<is_sender_v<S>>>
auto operator|(S&& s, closure<F> c) {
  return std::move(c.f)(std::forward<S>(s));
}
}

// ---------------------------------------------------------------------------------------------- just
namespace detail {
template <class... Ts>
struct just_sender {
  using sends = list<Ts...>;
  std::tuple<Ts...> v;
  template <class R>
  struct op {
    std::tuple<Ts...> v;
    R r;
    void start() noexcept {
      std::apply([&](Ts&... ts) { std::move(r).set_value(std::move(ts)...); }, v);
    }
  };
  template <class R>
  op<std::decay_t<R>> connect(R&& r) && {
    return {std::move(v), std::forward<R>(r)};
  }
  template <class R>
  op<std::decay_t<R>> connect(R&& r) const& {
    return {v, std::forward<R>(r)};
  }
};
}
template <class... Ts>
detail::just_sender<std::decay_t<Ts>...> just(Ts&&... ts) {
  return {std::tuple<std::decay_t<Ts>...>(std::forward<Ts>(ts)...)};
}

// ---------------------------------------------------------------------------------------------- then
namespace detail {
template <class S, class F>
struct then_sender {
  using res = result_list<F, sends_t<S>>;
  using sends = typename res::type;
  S s;
  F f;
  template <class R>
  struct recv {
    F f;
    R r;
    template <class... Ts>
    void set_value(Ts&&... ts) && {
      std::exception_ptr e;
      if constexpr (std::is_void_v<typename res::result>) {
        try {
          std::invoke(std::move(f), std::forward<Ts>(ts)...);
        }
        catch (...) {
          e = std::current_exception();
        }
        if (e)
          std::move(r).set_error(e);
        else
          std::move(r).set_value();
      }
      else if constexpr (std::is_reference_v<typename res::result>) {
        std::remove_reference_t<typename res::result>* p = nullptr;
        try {
          auto&& x = std::invoke(std::move(f), std::forward<Ts>(ts)...);
          p = &x;
        }
        catch (...) {
          e = std::current_exception();
        }
        if (e)
          std::move(r).set_error(e);
        else
          std::move(r).set_value(static_cast<typename res::result>(*p));
      }
      else {
        std::optional<typename res::result> x;
        try {
          x.emplace(elide{[&]() -> typename res::result { return std::invoke(std::move(f), std::forward<Ts>(ts)...); }});
        }
        catch (...) {
          e = std::current_exception();
        }
        if (e)
          std::move(r).set_error(e);
        else
          std::move(r).set_value(std::move(*x));
      }
    }
    void set_error(std::exception_ptr e) && { std::move(r).set_error(e); }
  };
  template <class R>
  auto connect(R&& r) && {
    return std::move(s).connect(recv<std::decay_t<R>>{std::move(f), std::forward<R>(r)});
  }
  template <class R>
  auto connect(R&& r) const& {
    return s.connect(recv<std::decay_t<R>>{f, std::forward<R>(r)});
  }
};
}
template <class S, class F, class = std::enable_if_t<is_sender_v<S>>>
detail::then_sender<std::decay_t<S>, std::decay_t<F>> then(S&& s, F&& f) {
  return {std::forward<S>(s), std::forward<F>(f)};
}
template <class F>
auto then(F&& f) {
  return detail::make_closure([f = std::decay_t<F>(std::forward<F>(f))](auto&& s) mutable {
    return then(std::forward<decltype(s)>(s), std::move(f));
  });
}

// -------------------------------------------------------------------------------- schedulers, continues_on
namespace detail {
struct pool_tag {};
}
struct thread_pool_scheduler {
  thread_pool_scheduler() = default;
  template <class Pool>
  explicit thread_pool_scheduler(Pool*) {}
  friend bool operator==(const thread_pool_scheduler&, const thread_pool_scheduler&) { return true; }
};
inline thread_pool_scheduler with_priority(thread_pool_scheduler s, thread_priority) { return s; }
inline thread_pool_scheduler with_stacksize(thread_pool_scheduler s, thread_stacksize) { return s; }
inline thread_pool_scheduler with_hint(thread_pool_scheduler s, int) { return s; }

namespace detail {
template <class S>
struct on_sender {
  using sends = decay_list_t<sends_t<S>>;
  S s;
  template <class R>
  struct op;
  template <class R>
  struct recv {
    op<R>* o;
    template <class... Ts>
    void set_value(Ts&&... ts) && {
      auto* p = o;  // *this lives in the predecessor's operation state
      p->vals.emplace(std::forward<Ts>(ts)...);
      p->inner.reset();
      p->go();
    }
    void set_error(std::exception_ptr e) && {
      auto* p = o;
      p->err = e;
      p->inner.reset();
      p->go();
    }
  };
  template <class R>
  struct op {
    R r;
    std::optional<values_t<S>> vals;
    std::exception_ptr err;
    using inner_t = decltype(std::declval<S&&>().connect(std::declval<recv<R>>()));
    std::optional<inner_t> inner;
    op(S&& s, R&& rr) : r(std::move(rr)) {
      inner.emplace(elide{[&] { return std::move(s).connect(recv<R>{this}); }});
    }
    op(const op&) = delete;
    void start() noexcept { inner->start(); }
    void go() {
      vrt::post_fn([this] {
        if (err) {
          std::move(r).set_error(err);
          return;
        }
        vrt::preempt();
        std::apply([&](auto&... ts) { std::move(r).set_value(std::move(ts)...); }, *vals);
      });
    }
  };
  template <class R>
  op<std::decay_t<R>> connect(R&& r) && {
    return {std::move(s), std::decay_t<R>(std::forward<R>(r))};
  }
  template <class R>
  op<std::decay_t<R>> connect(R&& r) const& {
    return {S(s), std::decay_t<R>(std::forward<R>(r))};
  }
};
}
template <class S, class Sched, class = std::enable_if_t<is_sender_v<S>>>
detail::on_sender<std::decay_t<S>> continues_on(S&& s, Sched&&) {
  return {std::forward<S>(s)};
}
template <class Sched>
auto continues_on(Sched&&) {
  return detail::make_closure([](auto&& s) { return continues_on(std::forward<decltype(s)>(s), thread_pool_scheduler{}); });
}
template <class Sched>
auto schedule(Sched&&) {
  return continues_on(just(), thread_pool_scheduler{});
}
template <class Sched, class... Ts>
auto transfer_just(Sched&&, Ts&&... ts) {
  return continues_on(just(std::forward<Ts>(ts)...), thread_pool_scheduler{});
}

// ------------------------------------------------------------------------------ drop_operation_state
namespace detail {
template <class S>
struct drop_os_sender {
  using sends = decay_list_t<sends_t<S>>;
  S s;
  template <class R>
  struct op;
  template <class R>
  struct recv {
    op<R>* o;
    template <class... Ts>
    void set_value(Ts&&... ts) && {
      auto* p = o;
      std::tuple<std::decay_t<Ts>...> local(std::forward<Ts>(ts)...);
      p->inner.reset();
      std::apply([&](auto&... xs) { std::move(p->r).set_value(std::move(xs)...); }, local);
    }
    void set_error(std::exception_ptr e) && {
      auto* p = o;
      p->inner.reset();
      std::move(p->r).set_error(e);
    }
  };
  template <class R>
  struct op {
    R r;
    using inner_t = decltype(std::declval<S&&>().connect(std::declval<recv<R>>()));
    std::optional<inner_t> inner;
    op(S&& s, R&& rr) : r(std::move(rr)) {
      inner.emplace(elide{[&] { return std::move(s).connect(recv<R>{this}); }});
    }
    op(const op&) = delete;
    void start() noexcept { inner->start(); }
  };
  template <class R>
  op<std::decay_t<R>> connect(R&& r) && {
    return {std::move(s), std::decay_t<R>(std::forward<R>(r))};
  }
  template <class R>
  op<std::decay_t<R>> connect(R&& r) const& {
    return {S(s), std::decay_t<R>(std::forward<R>(r))};
  }
};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
detail::drop_os_sender<std::decay_t<S>> drop_operation_state(S&& s) {
  return {std::forward<S>(s)};
}
inline auto drop_operation_state() {
  return detail::make_closure([](auto&& s) { return drop_operation_state(std::forward<decltype(s)>(s)); });
}

// ------------------------------------------------------------------------------------------ drop_value
namespace detail {
template <class S>
struct drop_value_sender {
  using sends = list<>;
  S s;
  template <class R>
  struct recv {
    R r;
    template <class... Ts>
    void set_value(Ts&&...) && {
      std::move(r).set_value();
    }
    void set_error(std::exception_ptr e) && { std::move(r).set_error(e); }
  };
  template <class R>
  auto connect(R&& r) && {
    return std::move(s).connect(recv<std::decay_t<R>>{std::forward<R>(r)});
  }
  template <class R>
  auto connect(R&& r) const& {
    return s.connect(recv<std::decay_t<R>>{std::forward<R>(r)});
  }
};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
detail::drop_value_sender<std::decay_t<S>> drop_value(S&& s) {
  return {std::forward<S>(s)};
}
inline auto drop_value() {
  return detail::make_closure([](auto&& s) { return drop_value(std::forward<decltype(s)>(s)); });
}

// ---------------------------------------------------------------------------------------------- unpack
namespace detail {
template <class L>
struct unpacked;
template <class T>
struct unpacked<list<T>> {
  using tup = std::decay_t<T>;
  template <std::size_t... Is>
  static auto f(std::index_sequence<Is...>) -> list<decltype(std::get<Is>(std::declval<T&&>()))...>;
  using type = decltype(f(std::make_index_sequence<std::tuple_size_v<tup>>{}));
};
template <class S>
struct unpack_sender {
  using sends = typename unpacked<sends_t<S>>::type;
  S s;
  template <class R>
  struct recv {
    R r;
    template <class T>
    void set_value(T&& t) && {
      std::apply([&](auto&&... xs) { std::move(r).set_value(std::forward<decltype(xs)>(xs)...); }, std::forward<T>(t));
    }
    void set_error(std::exception_ptr e) && { std::move(r).set_error(e); }
  };
  template <class R>
  auto connect(R&& r) && {
    return std::move(s).connect(recv<std::decay_t<R>>{std::forward<R>(r)});
  }
  template <class R>
  auto connect(R&& r) const& {
    return s.connect(recv<std::decay_t<R>>{std::forward<R>(r)});
  }
};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
detail::unpack_sender<std::decay_t<S>> unpack(S&& s) {
  return {std::forward<S>(s)};
}
inline auto unpack() {
  return detail::make_closure([](auto&& s) { return unpack(std::forward<decltype(s)>(s)); });
}

// -------------------------------------------------------------------------------------------- when_all
namespace detail {
template <class... Ss>
struct when_all_sender {
  using sends = typename concat<decay_list_t<sends_t<Ss>>...>::type;
  std::tuple<Ss...> ss;
  template <class R>
  struct op;
  template <class R, std::size_t I>
  struct recv {
    op<R>* o;
    template <class... Ts>
    void set_value(Ts&&... ts) && {
      auto* p = o;
      std::get<I>(p->vals).emplace(std::forward<Ts>(ts)...);
      p->done();
    }
    void set_error(std::exception_ptr e) && {
      auto* p = o;
      if (!p->err)
        p->err = e;
      p->done();
    }
  };
  template <class R, class Seq>
  struct ops_t;
  template <class R, std::size_t... Is>
  struct ops_t<R, std::index_sequence<Is...>> {
    using type = std::tuple<std::optional<decltype(std::declval<Ss&&>().connect(std::declval<recv<R, Is>>()))>...>;
  };
  template <class R>
  struct op {
    R r;
    std::size_t left = sizeof...(Ss);
    std::exception_ptr err;
    std::tuple<std::optional<values_t<Ss>>...> vals;
    using idx = std::index_sequence_for<Ss...>;
    typename ops_t<R, idx>::type ops;
    op(std::tuple<Ss...>&& ss, R&& rr) : r(std::move(rr)) { init(ss, idx{}); }
    op(const op&) = delete;
    template <std::size_t... Is>
    void init(std::tuple<Ss...>& ss, std::index_sequence<Is...>) {
      (std::get<Is>(ops).emplace(elide{[&] { return std::move(std::get<Is>(ss)).connect(recv<R, Is>{this}); }}), ...);
    }
    template <std::size_t... Is>
    void start_all(std::index_sequence<Is...>) {
      (std::get<Is>(ops)->start(), ...);
    }
    void start() noexcept {
      if constexpr (sizeof...(Ss) == 0)
        std::move(r).set_value();
      else
        start_all(idx{});
    }
    void done() {
      if (--left > 0)
        return;
      if (err) {
        std::move(r).set_error(err);
        return;
      }
      auto flat = std::apply([](auto&... os) { return std::tuple_cat(std::apply([](auto&... xs) { return std::forward_as_tuple(std::move(xs)...); }, *os)...); }, vals);
      std::apply([&](auto&&... xs) { std::move(r).set_value(std::forward<decltype(xs)>(xs)...); }, std::move(flat));
    }
  };
  template <class R>
  op<std::decay_t<R>> connect(R&& r) && {
    return {std::move(ss), std::decay_t<R>(std::forward<R>(r))};
  }
  template <class R>
  op<std::decay_t<R>> connect(R&& r) const& {
    return {std::tuple<Ss...>(ss), std::decay_t<R>(std::forward<R>(r))};
  }
};

template <class L>
struct vec_of;
template <>
struct vec_of<list<>> {
  using sends = list<>;
  using store = char;
};
template <class T>
struct vec_of<list<T>> {
  using sends = list<std::vector<T>>;
  using store = T;
};
template <class S>
struct when_all_vector_sender {
  using V = vec_of<decay_list_t<sends_t<S>>>;
  using sends = typename V::sends;
  static constexpr bool is_void = std::is_same_v<sends, list<>>;
  std::vector<S> ss;
  template <class R>
  struct op;
  template <class R>
  struct recv {
    op<R>* o;
    std::size_t i;
    template <class... Ts>
    void set_value(Ts&&... ts) && {
      auto* p = o;
      if constexpr (!is_void)
        p->vals[i].emplace(std::forward<Ts>(ts)...);
      p->done();
    }
    void set_error(std::exception_ptr e) && {
      auto* p = o;
      if (!p->err)
        p->err = e;
      p->done();
    }
  };
  template <class R>
  struct op {
    R r;
    std::size_t n, left;
    std::exception_ptr err;
    std::vector<std::optional<typename V::store>> vals;
    using inner_t = decltype(std::declval<S&&>().connect(std::declval<recv<R>>()));
    std::unique_ptr<std::optional<inner_t>[]> ops;
    op(std::vector<S>&& ss, R&& rr) : r(std::move(rr)), n(ss.size()), left(n), vals(n), ops(new std::optional<inner_t>[n ? n : 1]) {
      for (std::size_t i = 0; i < n; ++i)
        ops[i].emplace(elide{[&] { return std::move(ss[i]).connect(recv<R>{this, i}); }});
    }
    op(const op&) = delete;
    void finish() {
      if (err) {
        std::move(r).set_error(err);
        return;
      }
      if constexpr (is_void)
        std::move(r).set_value();
      else {
        std::vector<typename V::store> v;
        v.reserve(n);
        for (auto& x : vals)
          v.push_back(std::move(*x));
        std::move(r).set_value(std::move(v));
      }
    }
    void start() noexcept {
      if (n == 0) {
        finish();
        return;
      }
      const std::size_t m = n;
      for (std::size_t i = 0; i < m; ++i)
        ops[i]->start();
    }
    void done() {
      if (--left == 0)
        finish();
    }
  };
  template <class R>
  op<std::decay_t<R>> connect(R&& r) && {
    return {std::move(ss), std::decay_t<R>(std::forward<R>(r))};
  }
  template <class R>
  op<std::decay_t<R>> connect(R&& r) const& {
    return {std::vector<S>(ss), std::decay_t<R>(std::forward<R>(r))};
  }
};
}
template <class... Ss>
detail::when_all_sender<std::decay_t<Ss>...> when_all(Ss&&... ss) {
  return {std::tuple<std::decay_t<Ss>...>(std::forward<Ss>(ss)...)};
}
template <class S>
detail::when_all_vector_sender<S> when_all_vector(std::vector<S>&& ss) {
  return {std::move(ss)};
}
template <class S>
detail::when_all_vector_sender<S> when_all_vector(const std::vector<S>& ss) {
  return {ss};
}

// ---------------------------------------------------------------- shared states: split, ensure_started
namespace detail {
template <class Vals>
struct shared_state {
  std::optional<Vals> vals;
  std::exception_ptr err;
  bool started = false, finished = false;
  std::vector<std::function<void()>> conts;
  virtual void launch() = 0;
  virtual void drop() = 0;
  virtual ~shared_state() = default;
  std::shared_ptr<shared_state> keep;  // until completion
  void begin(const std::shared_ptr<shared_state>& me) {
    if (started)
      return;
    started = true;
    keep = me;
    launch();
  }
  void complete() {
    auto me = std::move(keep);
    drop();
    finished = true;
    auto cs = std::move(conts);
    conts.clear();
    for (auto& c : cs)
      c();
  }
};
template <class S>
struct shared_impl : shared_state<values_t<S>> {
  struct recv {
    shared_impl* p;
    template <class... Ts>
    void set_value(Ts&&... ts) && {
      auto* q = p;
      q->vals.emplace(std::forward<Ts>(ts)...);
      q->complete();
    }
    void set_error(std::exception_ptr e) && {
      auto* q = p;
      q->err = e;
      q->complete();
    }
  };
  using inner_t = decltype(std::declval<S&&>().connect(std::declval<recv>()));
  std::optional<inner_t> inner;
  template <class S2>
  explicit shared_impl(S2&& s) {
    inner.emplace(elide{[&] { return S(std::forward<S2>(s)).connect(recv{this}); }});
  }
  void launch() override { inner->start(); }
  void drop() override { inner.reset(); }
};

template <class L>
struct const_refs;
template <class... Ts>
struct const_refs<list<Ts...>> {
  using type = list<const Ts&...>;
};

template <class Vals, class Sends>
struct split_sender {
  using sends = Sends;
  std::shared_ptr<shared_state<Vals>> st;
  template <class R>
  struct op {
    std::shared_ptr<shared_state<Vals>> st;
    R r;
    void start() noexcept {
      if (!st->finished) {
        st->conts.push_back([this] { fire(); });
        st->begin(st);
      }
      else
        fire();
    }
    void fire() {
      if (st->err)
        std::move(r).set_error(st->err);
      else
        std::apply([&](const auto&... xs) { std::move(r).set_value(xs...); }, *st->vals);
    }
  };
  template <class R>
  op<std::decay_t<R>> connect(R&& r) && {
    return {std::move(st), std::forward<R>(r)};
  }
  template <class R>
  op<std::decay_t<R>> connect(R&& r) const& {
    return {st, std::forward<R>(r)};
  }
};
template <class Vals, class Sends>
struct started_sender {
  using sends = Sends;
  std::shared_ptr<shared_state<Vals>> st;
  explicit started_sender(std::shared_ptr<shared_state<Vals>> s) : st(std::move(s)) {}
  started_sender(started_sender&&) = default;
  started_sender& operator=(started_sender&&) = default;
  started_sender(const started_sender&) = delete;
  template <class R>
  struct op {
    std::shared_ptr<shared_state<Vals>> st;
    R r;
    void start() noexcept {
      if (!st->finished)
        st->conts.push_back([this] { fire(); });
      else
        fire();
    }
    void fire() {
      auto keep = std::move(st);
      if (keep->err)
        std::move(r).set_error(keep->err);
      else {
        auto vals = std::move(*keep->vals);
        keep->vals.reset();
        keep.reset();
        std::apply([&](auto&... xs) { std::move(r).set_value(std::move(xs)...); }, vals);
      }
    }
  };
  template <class R>
  op<std::decay_t<R>> connect(R&& r) && {
    return {std::move(st), std::forward<R>(r)};
  }
};
template <class Vals, std::size_t I>
struct split_elem_sender {
  using T = std::tuple_element_t<I, std::tuple_element_t<0, Vals>>;
  using sends = list<T>;
  std::shared_ptr<shared_state<Vals>> st;
  template <class R>
  struct op {
    std::shared_ptr<shared_state<Vals>> st;
    R r;
    void start() noexcept {
      if (!st->finished) {
        st->conts.push_back([this] { fire(); });
        st->begin(st);
      }
      else
        fire();
    }
    void fire() {
      if (st->err)
        std::move(r).set_error(st->err);
      else
        std::move(r).set_value(std::move(std::get<I>(std::get<0>(*st->vals))));
    }
  };
  template <class R>
  op<std::decay_t<R>> connect(R&& r) && {
    return {std::move(st), std::forward<R>(r)};
  }
  explicit split_elem_sender(std::shared_ptr<shared_state<Vals>> s) : st(std::move(s)) {}
  split_elem_sender(split_elem_sender&&) = default;
  split_elem_sender& operator=(split_elem_sender&&) = default;
};
template <class Vals, std::size_t... Is>
auto make_split_tuple(std::shared_ptr<shared_state<Vals>> st, std::index_sequence<Is...>) {
  return std::tuple<split_elem_sender<Vals, Is>...>(split_elem_sender<Vals, Is>{st}...);
}
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto split(S&& s) {
  using SD = std::decay_t<S>;
  using vals = detail::values_t<SD>;
  std::shared_ptr<detail::shared_state<vals>> st = std::make_shared<detail::shared_impl<SD>>(std::forward<S>(s));
  return detail::split_sender<vals, typename detail::const_refs<detail::decay_list_t<detail::sends_t<SD>>>::type>{std::move(st)};
}
inline auto split() {
  return detail::make_closure([](auto&& s) { return split(std::forward<decltype(s)>(s)); });
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto split_tuple(S&& s) {
  using SD = std::decay_t<S>;
  using vals = detail::values_t<SD>;
  std::shared_ptr<detail::shared_state<vals>> st = std::make_shared<detail::shared_impl<SD>>(std::forward<S>(s));
  return detail::make_split_tuple<vals>(st, std::make_index_sequence<std::tuple_size_v<std::tuple_element_t<0, vals>>>{});
}
inline auto split_tuple() {
  return detail::make_closure([](auto&& s) { return split_tuple(std::forward<decltype(s)>(s)); });
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto ensure_started(S&& s) {
  using SD = std::decay_t<S>;
  using vals = detail::values_t<SD>;
  std::shared_ptr<detail::shared_state<vals>> st = std::make_shared<detail::shared_impl<SD>>(std::forward<S>(s));
  st->begin(st);
  return detail::started_sender<vals, detail::decay_list_t<detail::sends_t<SD>>>{std::move(st)};
}
inline auto ensure_started() {
  return detail::make_closure([](auto&& s) { return ensure_started(std::forward<decltype(s)>(s)); });
}

// -------------------------------------------------------------------------------------- start_detached
namespace detail {
template <class S>
struct detached {
  struct recv {
    detached* d;
    template <class... Ts>
    void set_value(Ts&&...) && {
      delete d;
    }
    void set_error(std::exception_ptr e) && {
      try {
        std::rethrow_exception(e);
      }
      catch (const std::exception& x) {
        vrt::fail(std::string("exception in a detached task: ") + x.what());
      }
      catch (...) {
        vrt::fail("exception in a detached task");
      }
    }
  };
  using inner_t = decltype(std::declval<S&&>().connect(std::declval<recv>()));
  std::optional<inner_t> inner;
  explicit detached(S&& s) {
    inner.emplace(elide{[&] { return std::move(s).connect(recv{this}); }});
  }
};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
void start_detached(S&& s) {
  using SD = std::decay_t<S>;
  auto* d = new detail::detached<SD>(SD(std::forward<S>(s)));
  d->inner->start();
}
inline auto start_detached() {
  return detail::make_closure([](auto&& s) { start_detached(std::forward<decltype(s)>(s)); });
}

// ------------------------------------------------------------------------------------------- let_value
namespace detail {
template <class F, class L>
struct let_result;
template <class F, class... Ts>
struct let_result<F, list<Ts...>> {
  using type = std::decay_t<std::invoke_result_t<F, std::decay_t<Ts>&...>>;
};
template <class S, class F>
struct let_sender {
  using next_t = typename let_result<F, sends_t<S>>::type;
  using sends = sends_t<next_t>;
  S s;
  F f;
  template <class R>
  struct op;
  template <class R>
  struct recv {
    op<R>* o;
    template <class... Ts>
    void set_value(Ts&&... ts) && {
      auto* p = o;
      p->vals.emplace(std::forward<Ts>(ts)...);
      p->go();
    }
    void set_error(std::exception_ptr e) && { std::move(o->r).set_error(e); }
  };
  template <class R>
  struct recv2 {
    op<R>* o;
    template <class... Ts>
    void set_value(Ts&&... ts) && {
      std::move(o->r).set_value(std::forward<Ts>(ts)...);
    }
    void set_error(std::exception_ptr e) && { std::move(o->r).set_error(e); }
  };
  template <class R>
  struct op {
    R r;
    F f;
    std::optional<values_t<S>> vals;
    using inner_t = decltype(std::declval<S&&>().connect(std::declval<recv<R>>()));
    using next_op_t = decltype(std::declval<next_t&&>().connect(std::declval<recv2<R>>()));
    std::optional<inner_t> inner;
    std::optional<next_op_t> next;
    op(S&& s, F&& ff, R&& rr) : r(std::move(rr)), f(std::move(ff)) {
      inner.emplace(elide{[&] { return std::move(s).connect(recv<R>{this}); }});
    }
    op(const op&) = delete;
    void start() noexcept { inner->start(); }
    void go() {
      std::exception_ptr e;
      try {
        next.emplace(elide{[&] {
          return std::apply([&](auto&... xs) -> next_t { return std::invoke(std::move(f), xs...); }, *vals).connect(recv2<R>{this});
        }});
      }
      catch (...) {
        e = std::current_exception();
      }
      if (e)
        std::move(r).set_error(e);
      else
        next->start();
    }
  };
  template <class R>
  op<std::decay_t<R>> connect(R&& r) && {
    return {std::move(s), std::move(f), std::decay_t<R>(std::forward<R>(r))};
  }
  template <class R>
  op<std::decay_t<R>> connect(R&& r) const& {
    return {S(s), F(f), std::decay_t<R>(std::forward<R>(r))};
  }
};
}
template <class S, class F, class = std::enable_if_t<is_sender_v<S>>>
detail::let_sender<std::decay_t<S>, std::decay_t<F>> let_value(S&& s, F&& f) {
  return {std::forward<S>(s), std::forward<F>(f)};
}
template <class F>
auto let_value(F&& f) {
  return detail::make_closure([f = std::decay_t<F>(std::forward<F>(f))](auto&& s) mutable {
    return let_value(std::forward<decltype(s)>(s), std::move(f));
  });
}

// ------------------------------------------------------------------------------------------------ bulk
namespace detail {
template <class S, class N, class F>
struct bulk_sender {
  using sends = decay_list_t<sends_t<S>>;
  S s;
  N n;
  F f;
  template <class R>
  struct op;
  template <class R>
  struct recv {
    op<R>* o;
    template <class... Ts>
    void set_value(Ts&&... ts) && {
      auto* p = o;
      p->vals.emplace(std::forward<Ts>(ts)...);
      p->go();
    }
    void set_error(std::exception_ptr e) && { std::move(o->r).set_error(e); }
  };
  template <class R>
  struct op {
    R r;
    N n;
    F f;
    long left = 0;
    std::exception_ptr err;
    std::optional<values_t<S>> vals;
    using inner_t = decltype(std::declval<S&&>().connect(std::declval<recv<R>>()));
    std::optional<inner_t> inner;
    op(S&& s, N nn, F&& ff, R&& rr) : r(std::move(rr)), n(nn), f(std::move(ff)) {
      inner.emplace(elide{[&] { return std::move(s).connect(recv<R>{this}); }});
    }
    op(const op&) = delete;
    void start() noexcept { inner->start(); }
    void go() {
      left = long(n);
      if (left <= 0) {
        finish();
        return;
      }
      for (N i = 0; i < n; ++i)
        vrt::post_fn([this, i] {
          vrt::preempt();
          try {
            std::apply([&](auto&... xs) { f(i, xs...); }, *vals);
          }
          catch (...) {
            err = std::current_exception();
          }
          if (--left == 0)
            finish();
        });
    }
    void finish() {
      if (err)
        std::move(r).set_error(err);
      else
        std::apply([&](auto&... xs) { std::move(r).set_value(std::move(xs)...); }, *vals);
    }
  };
  template <class R>
  op<std::decay_t<R>> connect(R&& r) && {
    return {std::move(s), n, std::move(f), std::decay_t<R>(std::forward<R>(r))};
  }
  template <class R>
  op<std::decay_t<R>> connect(R&& r) const& {
    return {S(s), n, F(f), std::decay_t<R>(std::forward<R>(r))};
  }
};
}
template <class S, class N, class F, class = std::enable_if_t<is_sender_v<S>>>
detail::bulk_sender<std::decay_t<S>, std::decay_t<N>, std::decay_t<F>> bulk(S&& s, N&& n, F&& f) {
  return {std::forward<S>(s), n, std::forward<F>(f)};
}
template <class N, class F>
auto bulk(N&& n, F&& f) {
  return detail::make_closure([n = std::decay_t<N>(n), f = std::decay_t<F>(std::forward<F>(f))](auto&& s) mutable {
    return bulk(std::forward<decltype(s)>(s), n, std::move(f));
  });
}

// ----------------------------------------------------------------------------------------- any_sender
namespace detail {
template <class... Ts>
struct any_recv_base {
  virtual void set_value(Ts&&...) = 0;
  virtual void set_error(std::exception_ptr) = 0;
  virtual ~any_recv_base() = default;
};
template <class... Ts>
struct any_recv {
  any_recv_base<Ts...>* b;
  template <class... Us>
  void set_value(Us&&... us) && {
    b->set_value(static_cast<Ts&&>(Ts(std::forward<Us>(us)))...);
  }
  void set_error(std::exception_ptr e) && { b->set_error(e); }
};
struct any_op_base {
  virtual void start() noexcept = 0;
  virtual ~any_op_base() = default;
};
template <class S, class Rcv>
struct any_op_impl : any_op_base {
  using inner_t = decltype(std::declval<S&&>().connect(std::declval<Rcv>()));
  std::optional<inner_t> inner;
  any_op_impl(S&& s, Rcv r) {
    inner.emplace(elide{[&] { return std::move(s).connect(std::move(r)); }});
  }
  void start() noexcept override { inner->start(); }
};
template <class... Ts>
struct any_base {
  virtual std::unique_ptr<any_op_base> connect(any_recv<Ts...> r) && = 0;
  virtual std::unique_ptr<any_base> clone() const = 0;
  virtual ~any_base() = default;
};
template <bool Copy, class S, class... Ts>
struct any_impl : any_base<Ts...> {
  S s;
  template <class S2>
  explicit any_impl(S2&& x) : s(std::forward<S2>(x)) {}
  std::unique_ptr<any_op_base> connect(any_recv<Ts...> r) && override {
    return std::make_unique<any_op_impl<S, any_recv<Ts...>>>(std::move(s), r);
  }
  std::unique_ptr<any_base<Ts...>> clone() const override {
    if constexpr (Copy)
      return std::make_unique<any_impl>(s);
    else
      return nullptr;
  }
};
template <class R, class... Ts>
struct any_op : any_recv_base<Ts...> {
  R r;
  std::unique_ptr<any_op_base> o;
  any_op(std::unique_ptr<any_base<Ts...>> b, R rr) : r(std::move(rr)) {
    if (!b)
      vrt::fail("use of an empty sender");
    o = std::move(*b).connect(any_recv<Ts...>{this});
  }
  any_op(const any_op&) = delete;
  void start() noexcept { o->start(); }
  void set_value(Ts&&... ts) override { std::move(r).set_value(std::forward<Ts>(ts)...); }
  void set_error(std::exception_ptr e) override { std::move(r).set_error(e); }
};
template <class T>
struct is_any : std::false_type {};
}
template <class... Ts>
class unique_any_sender;
template <class... Ts>
class any_sender {
  std::unique_ptr<detail::any_base<Ts...>> b;
  friend class unique_any_sender<Ts...>;

public:
  using sends = detail::list<Ts...>;
  any_sender() = default;
  template <class S, class = std::enable_if_t<is_sender_v<S> && !std::is_same_v<std::decay_t<S>, any_sender>>>
  any_sender(S&& s) : b(std::make_unique<detail::any_impl<true, std::decay_t<S>, Ts...>>(std::forward<S>(s))) {}
  any_sender(any_sender&&) = default;
  any_sender& operator=(any_sender&&) = default;
  any_sender(const any_sender& o) : b(o.b ? o.b->clone() : nullptr) {}
  any_sender& operator=(const any_sender& o) {
    b = o.b ? o.b->clone() : nullptr;
    return *this;
  }
  bool empty() const noexcept { return !b; }
  explicit operator bool() const noexcept { return bool(b); }
  template <class R>
  detail::any_op<std::decay_t<R>, Ts...> connect(R&& r) && {
    return {std::move(b), std::forward<R>(r)};
  }
  template <class R>
  detail::any_op<std::decay_t<R>, Ts...> connect(R&& r) const& {
    return {b ? b->clone() : nullptr, std::forward<R>(r)};
  }
};
template <class... Ts>
class unique_any_sender {
  std::unique_ptr<detail::any_base<Ts...>> b;

public:
  using sends = detail::list<Ts...>;
  unique_any_sender() = default;
  template <class S, class = std::enable_if_t<is_sender_v<S> && !std::is_same_v<std::decay_t<S>, unique_any_sender> && !std::is_same_v<std::decay_t<S>, any_sender<Ts...>>>>
  unique_any_sender(S&& s) : b(std::make_unique<detail::any_impl<false, std::decay_t<S>, Ts...>>(std::forward<S>(s))) {}
  unique_any_sender(unique_any_sender&&) = default;
  unique_any_sender& operator=(unique_any_sender&&) = default;
  unique_any_sender(const unique_any_sender&) = delete;
  unique_any_sender(any_sender<Ts...>&& o) : b(std::move(o.b)) {}
  unique_any_sender(const any_sender<Ts...>& o) : b(o.b ? o.b->clone() : nullptr) {}
  bool empty() const noexcept { return !b; }
  explicit operator bool() const noexcept { return bool(b); }
  template <class R>
  detail::any_op<std::decay_t<R>, Ts...> connect(R&& r) && {
    return {std::move(b), std::forward<R>(r)};
  }
};
namespace detail {
template <class L>
struct any_of;
template <class... Ts>
struct any_of<list<Ts...>> {
  using any = any_sender<Ts...>;
  using unique = unique_any_sender<Ts...>;
};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto make_any_sender(S&& s) {
  return typename detail::any_of<detail::sends_t<S>>::any(std::forward<S>(s));
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto make_unique_any_sender(S&& s) {
  return typename detail::any_of<detail::sends_t<S>>::unique(std::forward<S>(s));
}
inline auto make_any_sender() {
  return detail::make_closure([](auto&& s) { return make_any_sender(std::forward<decltype(s)>(s)); });
}
inline auto make_unique_any_sender() {
  return detail::make_closure([](auto&& s) { return make_unique_any_sender(std::forward<decltype(s)>(s)); });
}
}  // namespace pika::execution::experimental

namespace pika::this_thread::experimental {
namespace detail {
namespace exd = ::pika::execution::experimental::detail;
template <class S>
struct waiter {
  vrt::Waiter w;
  std::optional<exd::values_t<S>> vals;
  std::exception_ptr err;
  struct recv {
    waiter* p;
    template <class... Ts>
    void set_value(Ts&&... ts) && {
      auto* q = p;
      q->vals.emplace(std::forward<Ts>(ts)...);
      q->w.signal();
    }
    void set_error(std::exception_ptr e) && {
      auto* q = p;
      q->err = e;
      q->w.signal();
    }
  };
};
}
template <class S, class = std::enable_if_t<pika::execution::experimental::is_sender_v<S>>>
auto sync_wait(S&& s) {
  using SD = std::decay_t<S>;
  detail::waiter<SD> w;
  {
    auto op = SD(std::forward<S>(s)).connect(typename detail::waiter<SD>::recv{&w});
    op.start();
    w.w.wait(false, "sync_wait");
  }
  if (w.err)
    std::rethrow_exception(w.err);
  constexpr std::size_t n = std::tuple_size_v<detail::exd::values_t<SD>>;
  static_assert(n <= 1, "sync_wait of more than one value");
  if constexpr (n == 1)
    return std::get<0>(std::move(*w.vals));
}
inline auto sync_wait() {
  return pika::execution::experimental::detail::make_closure([](auto&& s) { return sync_wait(std::forward<decltype(s)>(s)); });
}
}
