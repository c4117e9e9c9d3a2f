EX="vir/simd_execution.h"; PM="vir/simd_permute.h"; SI="vir/simd.h"; SZ="vir/simdize.h"
FB="-std=gnu++20 -O2 -DVIR_DISABLE_STDX_SIMD"; ST="-std=gnu++20 -O2 -march=x86-64-v3"
S("cast-digits","C05","simd_cast from int to float (values above 2^24)","a conversion that loses digits is accepted as value-preserving",
 [(SI,"BoolConstant<L<From>::digits <= L<To>::digits\n                              && L<From>::max()","BoolConstant<(L<From>::digits <= L<To>::digits || std::is_floating_point_v<To>)\n                              && L<From>::max()")],r'''
#include <vir/simd.h>
namespace stdx = vir::stdx;
using VI = stdx::fixed_size_simd<int, 4>;
template <class V> auto f(V v, int) -> decltype(stdx::simd_cast<float>(v), true) { return true; }
template <class V> bool f(V, ...) { return false; }
int main() { return f(VI(16777217), 0) || std::is_convertible_v<VI, stdx::fixed_size_simd<float, 4>>; }''',FB)
S("foreach-consteval-nonpow2","C22","for_each in a constant expression with a chunk size that is not a power of two","the remainder is computed with a mask and covers the wrong elements",
 [(EX,"""            if (distance % size)
              detail::simd_for_each_epilogue<V, write_back>(fun, distance % size, last,""","""            if (distance & (size - 1))
              detail::simd_for_each_epilogue<V, write_back>(fun, distance & (size - 1), last,""")],r'''
#include <vir/simd_execution.h>
#include <array>
constexpr int f() {
  std::array<int, 9> x = {1, 2, 3, 4, 5, 6, 7, 8, 9};
  vir::for_each(vir::execution::simd.prefer_size<6>(), x.begin(), x.end(), [](auto& v) { v += 100; });
  int s = 0;
  for (int i : x) s += i;
  return s;
}
int main() { constexpr int s = f(); return s != 945; }''',"-std=gnu++20 -O1 -DVIR_DISABLE_STDX_SIMD")
S("trap-not-inline","C23","two translation units of one program include the header","a function defined in the header is not inline: multiple definitions at link time",
 [(SI,"""  [[noreturn]] VIR_GNU_COLD VIR_ALWAYS_INLINE void
  trap()""","""  [[noreturn]] VIR_GNU_COLD void
  trap()""")],r'''
#include <vir/simd.h>
int other();
#ifdef SECOND
int other() { return vir::stdx::native_simd<int>(3)[0]; }
#else
int main() { return other() != vir::stdx::native_simd<int>(3)[0]; }
#endif''',"-std=gnu++20 -O1")
S("transform-consteval-last","C22","transform in a constant expression with a length that is one less than a multiple of two chunks","the constant-evaluation branch leaves the last element of a remainder out",
 [(EX,"""              for (; first1 < last1; advance(1, first1, d_first, first2...))""","""              for (; last1 - first1 > int(distance % (2 * size) == 2 * size - 1);
                   advance(1, first1, d_first, first2...))""")],r'''
#include <vir/simd_execution.h>
#include <array>
constexpr int f() {
  std::array<int, 7> x = {1, 2, 3, 4, 5, 6, 7}, y = {};
  vir::transform(vir::execution::simd.prefer_size<4>(), x.begin(), x.end(), y.begin(), [](auto v) { return v + 1; });
  return y[6];
}
int main() { constexpr int s = f(); return s != 8; }''',"-std=gnu++20 -O1 -DVIR_DISABLE_STDX_SIMD")
S("simdize-size-max","C18","simdize of a struct whose widest-count member is not the first","default width is the width of the first member instead of the maximum",
 [(SZ,"""	    return std::max({int(simdize_impl<vir::struct_element_t<Is, Tup>, 0>::type::size())...});""","""	    return std::max({int(simdize_impl<vir::struct_element_t<Is & ~std::size_t(4), Tup>, 0>::type::size())...});""")],r'''
#include <vir/simdize.h>
struct A { double a, b, c, d; float e; };
int main() { return vir::simdize<A>::size() != vir::stdx::native_simd<float>::size(); }''',ST)
S("hmin-masked-inf","C07","hmin of a where-expression with all selected lanes infinite","the identity element (not infinity) wins over the selected lanes",
 [(SI,"""                              ? T(std::numeric_limits<T>::infinity())
""","""                              ? T(std::numeric_limits<T>::max())
""")],r'''
#include <vir/simd.h>
#include <limits>
namespace stdx = vir::stdx;
int main() { stdx::fixed_size_simd<float, 4> v = std::numeric_limits<float>::infinity(); auto k = v == v; k[1] = false; return stdx::hmin(where(k, v)) != std::numeric_limits<float>::infinity(); }''',FB)
