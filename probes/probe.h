// Support for the probe translation units. Nothing here is ever executed: the
// probes are compiled to LLVM IR and analysed.
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <limits>
#include <optional>
#include <tuple>
#include <utility>
#include <vector>

extern "C" void vp_assume(bool);
// preconditions the library asserts but its results do not need (only stated when assertions are analysed)
#ifdef NDEBUG
#define VP_VALID(c)
#else
#define VP_VALID(c) vp_assume(c);
#endif

#include <vecmath/forward.h>
#include <vecmath/vec.h>
#include <vecmath/mat.h>

// build library values component by component through operator[]
template <std::size_t N, typename T> vm::vec<T, N> V(const T* p) {
  vm::vec<T, N> v;
  for (std::size_t i = 0; i < N; ++i) v[i] = p[i];
  return v;
}
template <typename T, std::size_t N> void put(T* out, const vm::vec<T, N>& v) {
  for (std::size_t i = 0; i < N; ++i) out[i] = v[i];
}
template <typename T, typename U, std::size_t N> void putc(T* out, const vm::vec<U, N>& v) {
  for (std::size_t i = 0; i < N; ++i) out[i] = static_cast<T>(v[i]);
}
// p is column-major, as mat::operator[] indexes columns
template <std::size_t R, std::size_t Cn, typename T> vm::mat<T, R, Cn> M(const T* p) {
  vm::mat<T, R, Cn> m;
  for (std::size_t c = 0; c < Cn; ++c)
    for (std::size_t r = 0; r < R; ++r) m[c][r] = p[c * R + r];
  return m;
}
template <typename T, std::size_t R, std::size_t Cn> void put(T* out, const vm::mat<T, R, Cn>& m) {
  for (std::size_t c = 0; c < Cn; ++c)
    for (std::size_t r = 0; r < R; ++r) out[c * R + r] = m[c][r];
}
// reference scalar helpers used by the requirements
template <typename T> T s_min(T a, T b) { return a < b ? a : b; }
template <typename T> T s_max(T a, T b) { return a > b ? a : b; }
template <typename T> T s_abs(T a) { return a < T(0) ? -a : a; }
template <typename T> T s_sqrt(T a) { return std::sqrt(a); }
