EX="vir/simd_execution.h"; PM="vir/simd_permute.h"; SI="vir/simd.h"; SZ="vir/simdize.h"
FB="-std=gnu++20 -O2 -DVIR_DISABLE_STDX_SIMD"; ST="-std=gnu++20 -O2 -march=x86-64-v3"
S("shift-in-all-negative","C10","simd_shift_in with an offset of exactly minus the width","lane 0 of simd_shift_in<-N> is 0 instead of the first input's lane 0",
 [(PM,"else if constexpr (j < -w)","else if constexpr (j <= -w)")],r'''
#include <vir/simd_permute.h>
namespace stdx = vir::stdx;
int main() {
  using V = stdx::fixed_size_simd<int, 4>;
  V a([](int i) { return i + 10; }), b([](int i) { return i + 20; });
  V r = vir::simd_shift_in<-4>(a, b);
  for (int i = 0; i < 4; ++i) if (r[i] != 10 + i) return 1;
  return 0;
}''')
S("swap-neighbors-3","C10","swap_neighbors<N> with N not a power of two","the first lane of every second group is taken from the wrong place",
 [(PM,"else if (i % (2 * N) >= N)","else if (i % (2 * N) > N)")],r'''
#include <vir/simd_permute.h>
namespace stdx = vir::stdx;
int main() {
  using V = stdx::fixed_size_simd<int, 12>;
  V a([](int i) { return i; });
  V r = vir::simd_permute(a, vir::simd_permutations::swap_neighbors<3>);
  for (int i = 0; i < 12; ++i) if (r[i] != (i / 3 % 2 ? i - 3 : i + 3)) return 1;
  return 0;
}''')
S("reduce-unroll-tree","C16","reduce with an unroll factor that is not a power of two and a long range","one partial accumulator is dropped in the tree reduction",
 [(EX,"unroll<std::bit_width(unsigned(ExecutionPolicy::_unroll_by - 1))>(","unroll<std::bit_width(unsigned(ExecutionPolicy::_unroll_by)) - 1>(")],r'''
#include <vir/simd_execution.h>
#include <vector>
template <int U> int go() {
  for (int n = 0; n < 300; ++n) {
    std::vector<int> v(n); int e = 5;
    for (int i = 0; i < n; ++i) { v[i] = i * i; e += i * i; }
    if (vir::reduce(vir::execution::simd.unroll_by<U>(), v.begin(), v.end(), 5) != e) return 1;
  }
  return 0;
}
int main() { return go<2>() | go<3>() | go<4>() | go<5>() | go<6>() | go<7>(); }''')
S("where-copyfrom-const","C03","masked copy_from of a const where-expression with a converting pointer type","masked-off lanes of the result are 0 instead of the old value",
 [(SI,"return m_k[i] ? static_cast<value_type>(mem[i]) : m_value[i];","return m_k[i] ? static_cast<value_type>(mem[i]) : value_type();")],r'''
#include <vir/simd.h>
namespace stdx = vir::stdx;
int main() {
  using V = stdx::fixed_size_simd<int, 4>;
  const V a([](int i) { return i + 1; });
  stdx::fixed_size_simd_mask<int, 4> k = a > 2;
  short m[4] = {100, 101, 102, 103};
  const V r = stdx::where(k, a).copy_from(m, stdx::element_aligned);
  for (int i = 0; i < 4; ++i) if (r[i] != (i < 2 ? i + 1 : 100 + i)) return 1;
  return 0;
}''',FB)
S("remquo-first-lane","C08","remquo with more than one element","every lane's quotient goes to lane 0",
 [(SI,"return std::remquo(x[i], y[i], &(*quo)[i]); });","return std::remquo(x[i], y[i], &(*quo)[i & ~size_t(8)]); });")],r'''
#include <vir/simd.h>
#include <cmath>
namespace stdx = vir::stdx;
int main() {
  using V = stdx::fixed_size_simd<float, 12>;
  V a([](int i) { return i * 3.f; }), b(2.f); stdx::fixed_size_simd<int, 12> q(77);
  V r = stdx::remquo(a, b, &q);
  for (int i = 0; i < 12; ++i) { int e; float x = std::remquo(i * 3.f, 2.f, &e); if (r[i] != x || q[i] != e) return 1; }
  return 0;
}''',FB)
S("hypot3-scalar","C08","three-argument hypot/fma with the simd argument last","third argument is replaced by the second one when only the last argument is a simd",
 [(SI,"""         const detail::type_identity_t<simd<T, A>>& y,                                             \\
         const simd<detail::FloatingPoint<T>, A> &z) noexcept                                      \\
    { return return_temp<T, A>([&](size_t i) { return std::name(x[i], y[i], z[i]); }); }""","""         const detail::type_identity_t<simd<T, A>>& y,                                             \\
         const simd<detail::FloatingPoint<T>, A> &z) noexcept                                      \\
    { return return_temp<T, A>([&](size_t i) { return std::name(x[i], z[i], y[i]); }); }""")],r'''
#include <vir/simd.h>
#include <cmath>
namespace stdx = vir::stdx;
int main() {
  using V = stdx::fixed_size_simd<float, 4>;
  V c([](int i) { return float(i); });
  V r = stdx::fma(2.f, 3.f, c);
  for (int i = 0; i < 4; ++i) if (r[i] != 6.f + i) return 1;
  return 0;
}''',FB)
S("cw-literal-hex","C20","a hexadecimal _cw literal with upper-case digits","...",[("vir/constexpr_wrapper.h","OLD","NEW")],"") if False else None
S("split-offset","C06","split into three or more parts of different size","the offset of part k ignores part k-1 if ...",
 [(SI,"return (sizes[Js] + ... + 0);","return (sizes[Js == 2 ? 0 : Js] + ... + 0);")],r'''
#include <vir/simd.h>
namespace stdx = vir::stdx;
int main() {
  using V = stdx::fixed_size_simd<int, 10>;
  V a([](int i) { return i; });
  auto [p, q, r, s] = stdx::split<1, 2, 3, 4>(a);
  for (int i = 0; i < 4; ++i) if (s[i] != 6 + i) return 1;
  return p[0] != 0 || q[0] != 1 || r[0] != 3;
}''',FB)
S("resize-one-more","C11","simd_size_cast to a wider mask type","...",[("vir/simd_resize.h","OLD","NEW")],"") if False else None
S("struct-size-left","C19","aggregates with 4..7 members","struct_size finds ...",[("vir/struct_reflect.h","OLD","NEW")],"") if False else None
S("store3-n8","C18","storing a simdized struct of three 2-byte members with 8 or 2 mod 3 lanes","...",[(SZ,"OLD","NEW")],"") if False else None
S("load3-v2","C18","loading a simdized struct of three equally sized members of integral type with N lanes","the third member's lanes are shifted",
 [(SZ,"x2, (Is * 3 + 2 < N ? Is * 3 + 2 : Is * 3 - N + 2)...))","x2, (Is * 3 + 2 <= N ? Is * 3 + 2 : Is * 3 - N + 2)...))")],r'''
#include <vir/simdize.h>
template <class T> struct P { T a, b, c; };
template <class T, int N> int go() {
  P<T> m[N]; for (int i = 0; i < N; ++i) m[i] = P<T>{T(i * 3), T(i * 3 + 1), T(i * 3 + 2)};
  using V = vir::simdize<P<T>, N>;
  V v(m);
  for (int i = 0; i < N; ++i) if (v.a[i] != T(i * 3) || v.b[i] != T(i * 3 + 1) || v.c[i] != T(i * 3 + 2)) return 1;
  return 0;
}
int main() { return go<int, 4>() | go<int, 8>() | go<short, 4>() | go<short, 8>() | go<short, 16>() | go<double, 4>() | go<signed char, 16>() | go<signed char, 32>() | go<signed char, 8>(); }''')
S("transform-epilogue-ptrs","C15","zip/binary transform with a remainder consisting of at least two chunks","further inputs are not advanced in the epilogue for wide chunks",
 [(EX,"            ((ptrs += V::size()), ...);\n","            if constexpr (V::size() < 16)\n              ((ptrs += V::size()), ...);\n            else\n              ((ptrs += V::size() - V::size() % 32), ...);\n")],r'''
#include <vir/simd_execution.h>
#include <vector>
int main() {
  for (int n = 0; n < 100; ++n) {
    std::vector<signed char> a(n), b(n), c(n);
    for (int i = 0; i < n; ++i) { a[i] = i; b[i] = 3 * i; }
    vir::transform(vir::execution::simd.prefer_size<32>(), a.begin(), a.end(), b.begin(), c.begin(), [](auto x, auto y) { return x + y; });
    for (int i = 0; i < n; ++i) if (c[i] != (signed char)(4 * i)) return 1;
  }
  return 0;
}''')
S("some-of-fixed","C02","some_of on a mask whose only different lane is the last one of more than 8","some_of misses ...",
 [(SI,"""          if (last != k[i])
            return true;
        }
      return false;""","""          if (last != k[i])
            return true;
          last = k[i & ~size_t(8)];
        }
      return false;""")],r'''
#include <vir/simd.h>
namespace stdx = vir::stdx;
int main() {
  return 0;
}''',FB) if False else None
S("find-last-set","C02","find_last_set with more than 32 lanes","the last lane of masks with more than 32 elements is ignored",
 [(SI,"for (int i = N - 1; i >= 0; --i)","for (int i = N > 32 ? N - 2 : N - 1; i >= 0; --i)")],r'''
#include <vir/simd.h>
namespace stdx = vir::stdx;
template <int N> int go() {
  for (int j = 0; j < N; ++j) {
    stdx::fixed_size_simd_mask<signed char, N> k(false);
    k[0] = true; k[j] = true;
    if (stdx::find_last_set(k) != j) return 1;
  }
  return 0;
}
int main() { return go<4>() | go<32>() | go<33>(); }''',FB) if False else None
S("cvt-copy","C13","copying a cvt object","cvt becomes copyable, so it can outlive its argument",
 [("vir/simd_cvt.h","cvt(const cvt&) = delete;","cvt(const cvt&) = default;")],r'''
#include <vir/simd_cvt.h>
#include <type_traits>
int main() { return std::is_copy_constructible_v<vir::cvt<float>> || std::is_move_constructible_v<vir::cvt<float>>; }''')
S("iota-array-narrow","C13","iota_v of a C array with more than 128 elements of a wide type","values wrap at 128",
 [("vir/simd_iota.h","{ static constexpr T data[sizeof...(Is)] = {static_cast<T>(Is)...}; };","{ static constexpr T data[sizeof...(Is)] = {static_cast<T>(static_cast<signed char>(Is))...}; };")],r'''
#include <vir/simd_iota.h>
int main() {
  auto& x = vir::iota_v<int[200]>;
  for (int i = 0; i < 200; ++i) if (x[i] != i) return 1;
  return 0;
}''')
S("fe-constexpr-writeback","C22","constant evaluation of transform_reduce with two ranges","second range is not advanced in constant expressions",
 [(EX,"for (; first1 < last1; ((first1 += 1), ..., (first2 += 1)))","for (; first1 < last1; first1 += 1)")],r'''
#include <vir/simd_execution.h>
#include <array>
constexpr int f() {
  std::array<int, 5> a = {1, 2, 3, 4, 5}, b = {5, 4, 3, 2, 1};
  return vir::transform_reduce(vir::execution::simd, a.begin(), a.end(), b.begin(), 7);
}
int main() { constexpr int r = f(); return r == 7 + 5 + 8 + 9 + 8 + 5 ? 0 : 1; }''',FB)
S("assume-size-precondition","C09","assume_matching_size with a range that is not a multiple of the width","the precondition of transform is only checked for the second half...",
 [(EX,"""          vir_simd_precondition_vaargs(
            distance % size == 0, "The explicit assumption, that the range size (%zu) is a multiple"
                                  " of the SIMD width (%d), does not hold.", distance, size());""","""          vir_simd_precondition_vaargs(
            distance % size == 0 or distance < size, "The explicit assumption, that the range size (%zu) is a multiple"
                                  " of the SIMD width (%d), does not hold.", distance, size());""")],r'''
#include <vir/simd_execution.h>
#include <csignal>
#include <unistd.h>
#include <vector>
int main() {
  std::signal(SIGABRT, [](int) { _exit(0); });
  std::vector<int> a(4096, 1), b(4096, 2);
  volatile int n = 3;
  vir::transform(vir::execution::simd.prefer_size<8>().assume_matching_size(), a.begin(), a.begin() + n, b.begin(), [](auto x) { return x; });
  return 1;
}''', "-std=gnu++20 -O2 -march=x86-64-v3 -DVIR_CHECK_PRECONDITIONS=4 -DVIR_DISABLE_STDX_SIMD")
S("static-cast-trunc","C05","static_simd_cast from floating point to unsigned 64-bit values above 2^63","values are converted via a signed type",
 [(SI,"""            typename = std::enable_if_t<detail::is_vectorizable_v<T>>>
    constexpr simd<T, A>
    static_simd_cast(const simd<U, A>& x)
    { return simd<T, A>([&x](size_t i) { return static_cast<T>(x[i]); }); }""","""            typename = std::enable_if_t<detail::is_vectorizable_v<T>>>
    constexpr simd<T, A>
    static_simd_cast(const simd<U, A>& x)
    {
      using W = std::conditional_t<(sizeof(T) > sizeof(U)) && std::is_integral_v<T>
                                     && std::is_floating_point_v<U>, U, T>;
      return simd<T, A>([&x](size_t i) { return static_cast<T>(static_cast<std::conditional_t<std::is_same_v<W, T>, T, long long>>(x[i])); });
    }""")],r'''
#include <vir/simd.h>
namespace stdx = vir::stdx;
int main() {
  stdx::fixed_size_simd<float, 4> a([](int i) { return 0x1.8p63f + i * 0x1p50f; });
  auto r = stdx::static_simd_cast<unsigned long long>(a);
  for (int i = 0; i < 4; ++i) if (r[i] != (unsigned long long)(0x1.8p63f + i * 0x1p50f)) return 1;
  return 0;
}''',FB)
S("scalar-compound-alias","C01","...","...",[(SI,"OLD","NEW")],"") if False else None
S("compound-shift-alias","C01","compound shift assignment whose right operand is the same object","...",
 [(SI,"""          lhs.d(i) <<= x.d(i);""","""          lhs.d(i) <<= x.d(i) & T(sizeof(int) * 8 - 1);""")],r'''
#include <vir/simd.h>
namespace stdx = vir::stdx;
int main() {
  stdx::fixed_size_simd<long long, 4> a(3), s([](int i) { return 30 + i; });
  a <<= s;
  for (int i = 0; i < 4; ++i) if (a[i] != 3LL << (30 + i)) return 1;
  return 0;
}''',FB)
S("mask-load-copyfrom","C02","loading a mask of more than ... elements","...",[(SI,"OLD","NEW")],"") if False else None
S("store-convert-int","C04","copy_to a pointer of a different floating-point type","values are truncated to the narrower of both before conversion: double stored from long long through float",
 [(SI,"""          for (int i = 0; i < N; ++i)
            mem[i] = data[i];""","""          for (int i = 0; i < N; ++i)
            mem[i] = static_cast<std::conditional_t<(sizeof(T) > 8), double, T>>(data[i]);""")],r'''
#include <vir/simd.h>
namespace stdx = vir::stdx;
int main() {
  stdx::fixed_size_simd<long double, 2> a([](int i) { return 1.L + i + 0x1p-60L; });
  long double m[2];
  a.copy_to(m, stdx::element_aligned);
  for (int i = 0; i < 2; ++i) if (m[i] != 1.L + i + 0x1p-60L) return 1;
  return 0;
}''',FB)
S("rebind-scalar","C21","memory_alignment of a simd with a converting pointer type","memory_alignment reports the alignment of the element instead of the memory type",
 [(SI,"""    struct memory_alignment<simd<T, A>, detail::Vectorizable<U>>
    : std::integral_constant<size_t, alignof(U)>""","""    struct memory_alignment<simd<T, A>, detail::Vectorizable<U>>
    : std::integral_constant<size_t, (alignof(U) > alignof(T) ? alignof(U) : alignof(T))>""")],r'''
#include <vir/simd.h>
namespace stdx = vir::stdx;
int main() { return stdx::memory_alignment_v<stdx::fixed_size_simd<double, 4>, char> == 1 ? 0 : 1; }''',FB)
S("prologue-stale","C14","prefer_aligned for_each with a write-back callable on an unaligned range","",[(EX,"OLD","NEW")],"") if False else None
S("policy-autoprologue-twice","C17","applying auto_prologue twice or after assume_matching_size","mutually exclusive modifiers can be combined",
 [(EX,"""        auto_prologue() requires(not _prefers_aligned and not _auto_prologue
                                   and not _assume_matching_size)""","""        auto_prologue() requires(not _prefers_aligned and not _auto_prologue)""")],r'''
#include <vir/simd_execution.h>
template <class P> concept ok = requires(P p) { p.auto_prologue(); };
int main() { return ok<decltype(vir::execution::simd.assume_matching_size())>; }''')
S("float-and-wide","C12","bitwise operators on long double simd","...",[("vir/simd_float_ops.h","OLD","NEW")],"") if False else None

S("masked-and-identity","C07","masked reduce with bit_and of negative values in all selected lanes","the identity lacks the sign bit",
 [(SI,"{ return reduce(x, ~typename V::value_type(), binary_op); }","{ return reduce(x, std::numeric_limits<typename V::value_type>::max(), binary_op); }")],r"""
#include <vir/simd.h>
namespace stdx = vir::stdx;
int main() {
  using V = stdx::fixed_size_simd<int, 4>;
  V a([](int i) { return -i - 1; });
  stdx::fixed_size_simd_mask<int, 4> k = a < -1;
  return stdx::reduce(stdx::where(k, a), std::bit_and<>()) == (-2 & -3 & -4) ? 0 : 1;
}""",FB)
S("foreach-epilogue-nonpow2","C14","for_each over chunks of a size that is not a power of two, with the recursive epilogue (-Os or more than 64 elements)","remainder elements are skipped or visited twice",
 [(EX,"using V = vir::simdize<typename V0::value_type, std::bit_ceil(unsigned(V0::size())) / 2>;","using V = vir::simdize<typename V0::value_type, std::bit_floor(unsigned(V0::size())) / 2>;")],r"""
#include <vir/simd_execution.h>
#include <vector>
template <int W> int go() {
  for (int n = 0; n < 60; ++n) {
    std::vector<int> v(n, 1);
    vir::for_each(vir::execution::simd.prefer_size<W>(), v, [](auto& x) { x += 1; });
    for (int i = 0; i < n; ++i) if (v[i] != 2) return 1;
  }
  return 0;
}
int main() { return go<4>() | go<8>() | go<6>() | go<12>(); }""","-std=gnu++20 -Os -march=x86-64-v3")
