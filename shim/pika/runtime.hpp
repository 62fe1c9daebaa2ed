#pragma once
#include <cstddef>
#include <string>
#include <pika/execution.hpp>
#ifndef PIKA_VERSION_FULL
#define PIKA_VERSION_FULL 0x002200
#endif
#define PIKA_VERSION_MAJOR 0
#define PIKA_VERSION_MINOR 34
namespace pika {
namespace vshim {
struct State {
  std::size_t threads = 2;      // what the runtime reports as the number of worker threads
  bool initialized = true;
  int suspended = 0, resumes = 0, suspends = 0, starts = 0, stops = 0, finalizes = 0, waits = 0;
  int polling = 0, poll_starts = 0, poll_stops = 0;
  std::string pool = "default";
};
inline State& state() {
  static State s;
  return s;
}
}
namespace resource {
struct pool_base {
  std::size_t get_os_thread_count() const { return vshim::state().threads; }
};
inline pool_base& get_thread_pool(const std::string&) {
  static pool_base p;
  return p;
}
inline std::size_t get_num_threads(const std::string&) { return vshim::state().threads; }
inline std::size_t get_num_threads() { return vshim::state().threads; }
}
inline bool is_runtime_initialized() { return vshim::state().initialized; }
inline void wait() {
  ++vshim::state().waits;
  vrt::wait_idle();
}
inline void suspend() {
  vrt::wait_idle();
  ++vshim::state().suspends;
  vshim::state().suspended = 1;
}
inline void resume() {
  ++vshim::state().resumes;
  vshim::state().suspended = 0;
}
inline std::size_t get_num_worker_threads() { return vshim::state().threads; }
}
