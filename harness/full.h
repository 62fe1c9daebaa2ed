// Full matrices on the side of the drivers that replay EigenProblems.tla.
#pragma once
#include <cmath>
#include <complex>
#include <limits>
#include <vector>

#include <dlaf/types.h>

using dlaf::BaseType;
using dlaf::isComplex_v;
using dlaf::SizeType;
using C = std::complex<double>;

// A full matrix on the side of the driver.
struct Full {
  SizeType r = 0, c = 0;
  std::vector<C> v;
  Full() = default;
  Full(SizeType rows, SizeType cols) : r(rows), c(cols), v(std::size_t(rows * cols)) {}
  C& operator()(SizeType i, SizeType j) { return v[std::size_t(i * c + j)]; }
  const C& operator()(SizeType i, SizeType j) const { return v[std::size_t(i * c + j)]; }
};
inline Full mul(const Full& a, const Full& b) {
  Full x(a.r, b.c);
  for (SizeType i = 0; i < a.r; ++i)
    for (SizeType k = 0; k < a.c; ++k)
      for (SizeType j = 0; j < b.c; ++j)
        x(i, j) += a(i, k) * b(k, j);
  return x;
}
inline Full adj(const Full& a) {
  Full x(a.c, a.r);
  for (SizeType i = 0; i < a.r; ++i)
    for (SizeType j = 0; j < a.c; ++j)
      x(j, i) = std::conj(a(i, j));
  return x;
}
inline Full first_cols(const Full& a, SizeType c) {
  Full x(a.r, c);
  for (SizeType i = 0; i < a.r; ++i)
    for (SizeType j = 0; j < c; ++j)
      x(i, j) = a(i, j);
  return x;
}
inline Full identity(SizeType n) {
  Full x(n, n);
  for (SizeType i = 0; i < n; ++i)
    x(i, i) = 1;
  return x;
}
inline double distance(const Full& a, const Full& b) {
  double m = 0;
  for (std::size_t i = 0; i < a.v.size(); ++i) {
    const double x = std::abs(a.v[i] - b.v[i]);
    if (!(x <= m))  // also for NaN
      m = x;
    if (std::isnan(x))
      return x;
  }
  return m;
}
inline double largest(const Full& a) {
  return distance(a, Full(a.r, a.c));
}

inline Full lower(const std::vector<C>& v, SizeType n, bool hermitian) {
  Full x(n, n);
  std::size_t k = 0;
  for (SizeType i = 0; i < n; ++i)
    for (SizeType j = 0; j <= i; ++j) {
      x(i, j) = v[k++];
      if (hermitian && i != j)
        x(j, i) = std::conj(x(i, j));
    }
  return x;
}
template <class T>
T val(C z) {
  if constexpr (isComplex_v<T>)
    return T(BaseType<T>(z.real()), BaseType<T>(z.imag()));
  else
    return T(z.real());
}

const double NaN = std::numeric_limits<double>::quiet_NaN();
