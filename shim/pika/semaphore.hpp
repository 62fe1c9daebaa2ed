#pragma once
#include <cstddef>
#include <deque>
#include <vrt.h>
namespace pika {
template <std::ptrdiff_t Max = 1 << 30>
class counting_semaphore {
  std::ptrdiff_t n;
  std::deque<vrt::Waiter*> q;

public:
  explicit counting_semaphore(std::ptrdiff_t v) : n(v) {}
  counting_semaphore(const counting_semaphore&) = delete;
  ~counting_semaphore() {
    if (!q.empty())
      vrt::fail("semaphore destroyed while a task waits for it");
  }
  void acquire() {
    vrt::preempt();
    if (n > 0) {
      --n;
      return;
    }
    vrt::Waiter w;
    q.push_back(&w);
    w.wait(false, "semaphore");
  }
  bool try_acquire() noexcept {
    if (n > 0) {
      --n;
      return true;
    }
    return false;
  }
  void release(std::ptrdiff_t k = 1) {
    n += k;
    while (n > 0 && !q.empty()) {
      const std::size_t i = vrt::rnd() % q.size();
      auto* w = q[i];
      q.erase(q.begin() + long(i));
      --n;
      w->signal();
    }
    // the released task may run before anything else which the releasing one does (the semaphore may be gone after this)
    vrt::preempt();
  }
};
using binary_semaphore = counting_semaphore<1>;
}
