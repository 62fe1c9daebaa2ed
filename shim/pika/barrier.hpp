#pragma once
#include <cstddef>
#include <chrono>
#include <memory>
#include <vector>
#include <vrt.h>
namespace pika {
namespace detail {
struct empty_oncompletion {
  void operator()() noexcept {}
};
}
template <class F = detail::empty_oncompletion>
class barrier {
  std::ptrdiff_t expected, left;
  F f;
  std::vector<vrt::Waiter*> q;

public:
  explicit barrier(std::ptrdiff_t n, F g = F()) : expected(n), left(n), f(std::move(g)) {}
  barrier(const barrier&) = delete;
  ~barrier() {
    if (!q.empty())
      vrt::fail("barrier destroyed while a task waits at it");
  }
  template <class... Busy>
  void arrive_and_wait(Busy&&...) {
    vrt::preempt();
    if (--left == 0) {
      f();
      left = expected;
      auto ws = std::move(q);
      q.clear();
      for (auto* w : ws)
        w->signal();
      vrt::preempt();
      return;
    }
    if (left < 0)
      vrt::fail("more arrivals at a barrier than expected");
    vrt::Waiter w;
    q.push_back(&w);
    w.wait(false, "barrier");
  }
  void arrive_and_drop() {
    --expected;
    if (--left == 0) {
      left = expected;
      auto ws = std::move(q);
      q.clear();
      for (auto* w : ws)
        w->signal();
    }
  }
};
}
