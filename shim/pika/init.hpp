#pragma once
#include <functional>
#include <optional>
#include <pika/program_options.hpp>
#include <pika/runtime.hpp>
namespace pika {
struct init_params {
  std::optional<std::reference_wrapper<const program_options::options_description>> desc_cmdline;
  std::function<void()> rp_callback;
};
inline void start(int, const char* const*, const init_params& = {}) {
  ++vshim::state().starts;
  vshim::state().initialized = true;
}
template <class F>
void start(F&&, int, const char* const*, const init_params& = {}) {
  ++vshim::state().starts;
  vshim::state().initialized = true;
}
inline int stop() {
  if (vshim::state().finalizes != vshim::state().stops + 1)
    vrt::fail("pika::stop without pika::finalize");
  ++vshim::state().stops;
  vshim::state().initialized = false;
  return 0;
}
inline void finalize() { ++vshim::state().finalizes; }
}
