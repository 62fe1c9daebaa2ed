#pragma once
#include <pika/runtime.hpp>
namespace pika::this_thread {
inline void yield() { vrt::preempt(); }
}
