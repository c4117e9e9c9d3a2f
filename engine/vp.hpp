// Harness helpers: bit-exact lane comparison and uninterpreted functions. No library internals are used.
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <tuple>
#include <type_traits>
#include <utility>
#define VP_INL inline __attribute__((always_inline))
namespace vp
{
  template <class T>
    VP_INL constexpr bool
    eq(T a, T b)
    {
      if constexpr (std::is_same_v<T, float>)
        return (__builtin_bit_cast(std::uint32_t, a) == __builtin_bit_cast(std::uint32_t, b))
                 | ((a != a) & (b != b));
      else if constexpr (std::is_same_v<T, double>)
        return (__builtin_bit_cast(std::uint64_t, a) == __builtin_bit_cast(std::uint64_t, b))
                 | ((a != a) & (b != b));
      else if constexpr (std::is_floating_point_v<T>)
        return (a == b) | ((a != a) & (b != b));
      else
        return a == b;
    }

  template <class T> struct bits { static constexpr int v = int(sizeof(T) * 8); };

  // value of a divisor that is always valid
  template <class T>
    VP_INL constexpr T
    divisor(T x)
    {
      if constexpr (std::is_floating_point_v<T>)
        return x;
      else if constexpr (std::is_signed_v<T>)
        return (x == T(0) || x == T(-1)) ? T(3) : x;
      else
        return x == T(0) ? T(3) : x;
    }

#ifdef VP_CONCRETE
#define VP_OPQ1(N, T, E) static VP_INL constexpr T N(T x) noexcept { return static_cast<T>(E); }
#define VP_OPQ2(N, T, E) static VP_INL constexpr T N(T x, T y) noexcept { return static_cast<T>(E); }
#else
#define VP_OPQ1(N, T, E) extern "C" __attribute__((const, nothrow)) T N(T x) noexcept;
#define VP_OPQ2(N, T, E) extern "C" __attribute__((const, nothrow)) T N(T x, T y) noexcept;
#endif
  VP_OPQ1(vp_u1_f, float, x * 3 + 5)
  VP_OPQ1(vp_u1_d, double, x * 3 + 5)
  VP_OPQ1(vp_u1_i, int, unsigned(x) * 3u + 5u)
  VP_OPQ1(vp_u1_u, unsigned, x * 3u + 5u)
  VP_OPQ1(vp_u1_l, long, (unsigned long)(x) * 3u + 5u)
  VP_OPQ1(vp_u1_ul, unsigned long, x * 3u + 5u)
  VP_OPQ1(vp_u1_s, short, x * 3 + 5)
  VP_OPQ1(vp_u1_us, unsigned short, x * 3 + 5)
  VP_OPQ1(vp_u1_c, signed char, x * 3 + 5)
  VP_OPQ1(vp_u1_uc, unsigned char, x * 3 + 5)
  VP_OPQ1(vp_u1_ld, long double, x * 3 + 5)
  VP_OPQ2(vp_u2_f, float, x * 3 + y * 7 + 1)
  VP_OPQ2(vp_u2_d, double, x * 3 + y * 7 + 1)
  VP_OPQ2(vp_u2_i, int, unsigned(x) * 3u + unsigned(y) * 7u + 1u)
  VP_OPQ2(vp_u2_u, unsigned, x * 3u + y * 7u + 1u)
  VP_OPQ2(vp_u2_l, long, (unsigned long)(x) * 3u + (unsigned long)(y) * 7u + 1u)
  VP_OPQ2(vp_u2_s, short, x * 3 + y * 7 + 1)
  VP_OPQ2(vp_u2_us, unsigned short, x * 3 + y * 7 + 1)
  VP_OPQ2(vp_u2_c, signed char, x * 3 + y * 7 + 1)
  VP_OPQ2(vp_u2_uc, unsigned char, x * 3 + y * 7 + 1)
#undef VP_OPQ1
#undef VP_OPQ2

  // uninterpreted unary function
  template <class T>
    VP_INL constexpr T
    u1(T x) noexcept
    {
      if constexpr (std::is_same_v<T, float>) return vp_u1_f(x);
      else if constexpr (std::is_same_v<T, double>) return vp_u1_d(x);
      else if constexpr (std::is_same_v<T, long double>) return vp_u1_ld(x);
      else if constexpr (std::is_same_v<T, int>) return vp_u1_i(x);
      else if constexpr (std::is_same_v<T, unsigned>) return vp_u1_u(x);
      else if constexpr (std::is_same_v<T, long>) return vp_u1_l(x);
      else if constexpr (std::is_same_v<T, unsigned long>) return vp_u1_ul(x);
      else if constexpr (std::is_same_v<T, long long>) return vp_u1_l(x);
      else if constexpr (std::is_same_v<T, unsigned long long>) return vp_u1_ul(x);
      else if constexpr (std::is_same_v<T, short>) return vp_u1_s(x);
      else if constexpr (std::is_same_v<T, unsigned short>) return vp_u1_us(x);
      else if constexpr (std::is_signed_v<T>) return T(vp_u1_c(x));
      else return T(vp_u1_uc(x));
    }

  // uninterpreted binary function
  template <class T>
    VP_INL constexpr T
    u2(T x, T y) noexcept
    {
      if constexpr (std::is_same_v<T, float>) return vp_u2_f(x, y);
      else if constexpr (std::is_same_v<T, double>) return vp_u2_d(x, y);
      else if constexpr (std::is_same_v<T, int>) return vp_u2_i(x, y);
      else if constexpr (std::is_same_v<T, unsigned>) return vp_u2_u(x, y);
      else if constexpr (sizeof(T) == 8) return T(vp_u2_l(long(x), long(y)));
      else if constexpr (std::is_same_v<T, short>) return vp_u2_s(x, y);
      else if constexpr (std::is_same_v<T, unsigned short>) return vp_u2_us(x, y);
      else if constexpr (std::is_signed_v<T>) return T(vp_u2_c(x, y));
      else return T(vp_u2_uc(x, y));
    }

  // all lanes of the simd x are bitwise f(0), f(1), ...
  template <class V, class F>
    VP_INL constexpr bool
    lanes(const V& x, int n, F&& f)
    {
      bool ok = int(V::size()) == n;
      for (int i = 0; i < n; ++i)
        ok &= eq<typename V::value_type>(x[i], f(i));
      return ok;
    }

  // apply an unary/binary uninterpreted function lane-wise to a simd (written with public API only)
  template <class V>
    VP_INL constexpr V
    map1(const V& v)
    { return V([&](auto i) { return u1<typename V::value_type>(v[i]); }); }

  template <class V>
    VP_INL constexpr V
    map2(const V& v, const V& w)
    {
      return V([&](auto i) {
               return u2<typename V::value_type>(v[i], w[i]);
             });
    }
}
