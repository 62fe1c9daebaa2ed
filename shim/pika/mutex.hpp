#pragma once
#include <deque>
#include <vrt.h>
namespace pika {
class mutex {
  bool locked = false;
  std::deque<vrt::Waiter*> q;

public:
  void lock() {
    if (!locked) {
      locked = true;
      return;
    }
    vrt::Waiter w;
    q.push_back(&w);
    w.wait(false, "mutex");
  }
  bool try_lock() {
    if (locked)
      return false;
    return locked = true;
  }
  void unlock() {
    if (q.empty()) {
      locked = false;
      return;
    }
    auto* w = q.front();
    q.pop_front();
    w->signal();
  }
};
}
