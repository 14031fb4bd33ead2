// Stand-in for the dj_fft header-only library, which is not installed here: a plain discrete Fourier
// transform with the same interface and normalisation.
#pragma once
#include <cmath>
#include <complex>
#include <vector>
namespace dj {
enum class fft_dir { DIR_FWD = +1, DIR_BWD = -1 };
template <typename T> using fft_arg = std::vector<std::complex<T>>;
template <typename T> auto fft1d(const fft_arg<T> &xi, const fft_dir &dir) -> fft_arg<T> {
  const size_t n = xi.size();
  if (n <= 1) {
    return xi;
  }
  fft_arg<T> even(n / 2);
  fft_arg<T> odd(n / 2);
  for (size_t i = 0; i < n / 2; i++) {
    even[i] = xi[2 * i];
    odd[i] = xi[2 * i + 1];
  }
  even = fft1d<T>(even, dir);
  odd = fft1d<T>(odd, dir);
  fft_arg<T> r(n);
  const T s = static_cast<T>(1) / std::sqrt(static_cast<T>(2));
  for (size_t k = 0; k < n / 2; k++) {
    auto t = std::polar(static_cast<T>(1), static_cast<T>(-2 * static_cast<int>(dir) * M_PI * k / n)) * odd[k];
    r[k] = (even[k] + t) * s;
    r[k + n / 2] = (even[k] - t) * s;
  }
  return r;
}
} // namespace dj
