// Stand-in for pika's CUDA support: only what dlaf::initialize needs.
#pragma once
#include <cstddef>
#include <pika/runtime.hpp>
inline constexpr int cudaStreamNonBlocking = 1;
namespace pika::cuda::experimental {
struct cuda_pool {
  std::size_t np, hp, blas, lapack;
  cuda_pool(int, std::size_t n, std::size_t h, unsigned, std::size_t b, std::size_t l) : np(n), hp(h), blas(b), lapack(l) {}
};
namespace detail {
template <class P>
void register_polling(P&&) {}
}
}
