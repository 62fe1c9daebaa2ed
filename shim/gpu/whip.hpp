#pragma once
#include <stdexcept>
enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1 };
enum cudaMemoryType { cudaMemoryTypeUnregistered, cudaMemoryTypeHost, cudaMemoryTypeDevice, cudaMemoryTypeManaged };
struct cudaPointerAttributes {
  cudaMemoryType type = cudaMemoryTypeUnregistered;
};
inline cudaError_t cudaPointerGetAttributes(cudaPointerAttributes*, const void*) { return cudaSuccess; }
inline cudaError_t cudaGetLastError() { return cudaSuccess; }
namespace whip {
struct exception : std::runtime_error {
  exception(cudaError_t) : std::runtime_error("cuda") {}
};
}
