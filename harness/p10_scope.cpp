// Replays spec/ThreadScope.tla into SingleThreadedBlasScope.
#include <omp.h>

#include <condition_variable>
#include <list>
#include <memory>
#include <mutex>
#include <thread>

#include <dlaf/common/single_threaded_blas.h>

#include "common.h"
using Scope = dlaf::common::internal::SingleThreadedBlasScope;
using vf::cat;
vf::Report R;

// A worker thread that executes one operation at a time.
struct Worker {
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> job;
  bool stop = false;
  std::thread th;
  Worker() : th([this] {
    std::unique_lock<std::mutex> l(m);
    for (;;) {
      cv.wait(l, [&] { return stop || job; });
      if (stop)
        return;
      job();
      job = nullptr;
      cv.notify_all();
    }
  }) {}
  void run(std::function<void()> f) {
    std::unique_lock<std::mutex> l(m);
    job = std::move(f);
    cv.notify_all();
    cv.wait(l, [&] { return !job; });
  }
  ~Worker() {
    {
      std::unique_lock<std::mutex> l(m);
      stop = true;
    }
    cv.notify_all();
    th.join();
  }
};

int main(int, char** argv) {
  omp_set_dynamic(0);
  Worker ws[2];
  vf::for_each_line(argv[1], [&](const vf::Line& l) {
    ++R.cases;
    std::vector<std::unique_ptr<Scope>> st[2];
    int cnt[2];
    const auto& v = l.v;
    for (int t = 0; t < 2; ++t) {
      cnt[t] = int(v[size_t(t)]);
      ws[t].run([&] { omp_set_num_threads(cnt[t]); });
    }
    std::string w = cat("start", cnt[0], cnt[1], "ops:");
    auto look = [&] {
      for (int t = 0; t < 2; ++t) {
        int a = 0, b = 0;
        ws[t].run([&] {
          a = omp_get_max_threads();
#pragma omp parallel
          {
#pragma omp single
            b = omp_get_num_threads();
          }
        });
        R.eq(a, cnt[t], cat("thread count of thread", t, w));
        R.eq(b, cnt[t], cat("team size on thread", t, w));
      }
    };
    for (size_t k = 2; k + 2 < v.size(); k += 3) {
      const int op = int(v[k]), t = int(v[k + 1]) - 1, n = int(v[k + 2]);
      w += cat(op, t, n, ";");
      ws[t].run([&] {
        if (op == 1)
          st[t].push_back(std::make_unique<Scope>());
        else if (op == 2)
          st[t].pop_back();
        else
          omp_set_num_threads(n);
      });
      cnt[t] = n;
      look();
    }
    for (int t = 0; t < 2; ++t)
      ws[t].run([&] {
        while (!st[t].empty())
          st[t].pop_back();
      });
  });
  // closing a scope on another thread is refused in checked builds
  R.ok(vf::dies([] {
    auto s = std::make_unique<Scope>();
    std::thread([&] { s.reset(); }).join();
  }) == 1, "scope closed on a foreign thread accepted");
  return R.done();
}
