// Replaces the library's list of element types by the ones a driver needs (the real header only lists types).
#pragma once
#include <complex>

#include <dlaf/types.h>
#if defined(VSIM_TYPES_s)
#define VSIM_S(...) __VA_ARGS__
#else
#define VSIM_S(...)
#endif
#if defined(VSIM_TYPES_d)
#define VSIM_D(...) __VA_ARGS__
#else
#define VSIM_D(...)
#endif
#if defined(VSIM_TYPES_c)
#define VSIM_C(...) __VA_ARGS__
#else
#define VSIM_C(...)
#endif
#if defined(VSIM_TYPES_z)
#define VSIM_Z(...) __VA_ARGS__
#else
#define VSIM_Z(...)
#endif
#define DLAF_EXPAND_ETI_SDCZ_DEVICE(ETI_MACRO, KWORD)         \
  VSIM_S(ETI_MACRO(KWORD, float, Device::CPU);)               \
  VSIM_D(ETI_MACRO(KWORD, double, Device::CPU);)              \
  VSIM_C(ETI_MACRO(KWORD, std::complex<float>, Device::CPU);) \
  VSIM_Z(ETI_MACRO(KWORD, std::complex<double>, Device::CPU);) static_assert(true, "")
#define DLAF_EXPAND_ETI_SDCZ_DEVICE_VA_ARGS(ETI_MACRO, KWORD, ...)         \
  VSIM_S(ETI_MACRO(KWORD, float, Device::CPU, __VA_ARGS__);)               \
  VSIM_D(ETI_MACRO(KWORD, double, Device::CPU, __VA_ARGS__);)              \
  VSIM_C(ETI_MACRO(KWORD, std::complex<float>, Device::CPU, __VA_ARGS__);) \
  VSIM_Z(ETI_MACRO(KWORD, std::complex<double>, Device::CPU, __VA_ARGS__);) static_assert(true, "")
