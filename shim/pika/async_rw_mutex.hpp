// Stand-in for pika::execution::experimental::async_rw_mutex: accesses are granted in request order;
// a group ends (and the next begins) when the last sender, operation or wrapper of the group is gone.
#pragma once
#include <pika/execution.hpp>

namespace pika::execution::experimental {
enum class async_rw_mutex_access_type { read, readwrite };
namespace detail {
template <class T>
struct rw_state {
  std::optional<T> value;
  bool granted = false;
  std::shared_ptr<rw_state> next;
  struct waiter {
    void (*fn)(void*, std::shared_ptr<rw_state>);
    void* p;
  };
  std::vector<waiter> waiters;
  static void grant(std::shared_ptr<rw_state> st, T&& v) {
    st->value.emplace(std::move(v));
    st->granted = true;
    auto ws = std::move(st->waiters);
    st->waiters.clear();
    for (auto& w : ws)
      w.fn(w.p, st);
  }
  ~rw_state() {
    if (next && granted)
      grant(std::move(next), std::move(*value));
  }
};
}
template <class RW, class R, async_rw_mutex_access_type A>
class async_rw_mutex_access_wrapper;
template <class RW, class R>
class async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::read> {
  std::shared_ptr<detail::rw_state<RW>> st;

public:
  explicit async_rw_mutex_access_wrapper(std::shared_ptr<detail::rw_state<RW>> s) : st(std::move(s)) {}
  async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper(const async_rw_mutex_access_wrapper&) = default;
  async_rw_mutex_access_wrapper& operator=(const async_rw_mutex_access_wrapper&) = default;
  const R& get() const& {
    if (!st)
      vrt::fail("use of a released read access");
    return *st->value;
  }
  operator const R&() const& { return get(); }
};
template <class RW, class R>
class async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::readwrite> {
  std::shared_ptr<detail::rw_state<RW>> st;

public:
  explicit async_rw_mutex_access_wrapper(std::shared_ptr<detail::rw_state<RW>> s) : st(std::move(s)) {}
  async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper(const async_rw_mutex_access_wrapper&) = delete;
  async_rw_mutex_access_wrapper& operator=(const async_rw_mutex_access_wrapper&) = delete;
  RW& get() & {
    if (!st)
      vrt::fail("use of a released read-write access");
    return *st->value;
  }
  RW& get() const& {
    if (!st)
      vrt::fail("use of a released read-write access");
    return *st->value;
  }
  RW& get() && = delete;
  operator RW&() & { return get(); }
};

namespace detail {
template <class RW, class R, async_rw_mutex_access_type A>
struct rw_sender {
  using wrapper = async_rw_mutex_access_wrapper<RW, R, A>;
  using sends = list<wrapper>;
  std::shared_ptr<rw_state<RW>> st;
  explicit rw_sender(std::shared_ptr<rw_state<RW>> s) : st(std::move(s)) {}
  rw_sender(rw_sender&&) = default;
  rw_sender& operator=(rw_sender&&) = default;
  rw_sender(const rw_sender& o) : st(o.st) { static_assert(A == async_rw_mutex_access_type::read, "read-write senders cannot be copied"); }
  template <class Rcv>
  struct op {
    std::shared_ptr<rw_state<RW>> st;
    Rcv r;
    static void fire(void* p, std::shared_ptr<rw_state<RW>> s) {
      auto* o = static_cast<op*>(p);
      std::move(o->r).set_value(wrapper(std::move(s)));
    }
    void start() noexcept {
      auto s = std::move(st);
      if (s->granted)
        fire(this, std::move(s));
      else {
        s->waiters.push_back({&op::fire, this});
      }
    }
  };
  template <class Rcv>
  op<std::decay_t<Rcv>> connect(Rcv&& r) && {
    return {std::move(st), std::forward<Rcv>(r)};
  }
  template <class Rcv>
  op<std::decay_t<Rcv>> connect(Rcv&& r) const& {
    static_assert(A == async_rw_mutex_access_type::read, "read-write senders cannot be copied");
    return {st, std::forward<Rcv>(r)};
  }
};
}
template <class RW = void, class R = RW>
class async_rw_mutex {
  using state = detail::rw_state<RW>;
  std::shared_ptr<state> st;
  std::optional<RW> first;
  async_rw_mutex_access_type prev = async_rw_mutex_access_type::readwrite;

  void next() {
    auto old = std::move(st);
    st = std::make_shared<state>();
    if (old)
      old->next = st;
    else {
      st->value.emplace(std::move(*first));
      first.reset();
      st->granted = true;
    }
  }

public:
  using read_access_type = async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::read>;
  using readwrite_access_type = async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::readwrite>;
  using value_type = RW;
  async_rw_mutex() = delete;
  template <class U, class = std::enable_if_t<!std::is_same_v<std::decay_t<U>, async_rw_mutex>>>
  explicit async_rw_mutex(U&& u) : first(std::forward<U>(u)) {}
  async_rw_mutex(async_rw_mutex&&) = default;
  async_rw_mutex& operator=(async_rw_mutex&&) = default;
  async_rw_mutex(const async_rw_mutex&) = delete;
  async_rw_mutex& operator=(const async_rw_mutex&) = delete;

  detail::rw_sender<RW, R, async_rw_mutex_access_type::read> read() {
    if (!st || prev == async_rw_mutex_access_type::readwrite) {
      next();
      prev = async_rw_mutex_access_type::read;
    }
    return detail::rw_sender<RW, R, async_rw_mutex_access_type::read>(st);
  }
  detail::rw_sender<RW, R, async_rw_mutex_access_type::readwrite> readwrite() {
    next();
    prev = async_rw_mutex_access_type::readwrite;
    return detail::rw_sender<RW, R, async_rw_mutex_access_type::readwrite>(st);
  }
};
}
