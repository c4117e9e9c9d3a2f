EX="vir/simd_execution.h"; PM="vir/simd_permute.h"; SI="vir/simd.h"; SZ="vir/simdize.h"
FB="-std=gnu++20 -O2 -DVIR_DISABLE_STDX_SIMD"; ST="-std=gnu++20 -O2 -march=x86-64-v3"
S("cw-limit-type","C20","a _cw literal that is exactly the maximum of short","the literal 32767_cw has type int instead of short",
 [("vir/constexpr_wrapper.h","else if constexpr (x <= std::numeric_limits<signed short>::max())","else if constexpr (x < std::numeric_limits<signed short>::max())")],r'''
#include <vir/constexpr_wrapper.h>
#include <type_traits>
using namespace vir::literals;
int main() {
  auto x = 32767_cw; auto y = 0x7f'ff_cw; auto z = 32768_cw;
  return !(std::is_same_v<decltype(x)::value_type, short> && std::is_same_v<decltype(y)::value_type, short> && std::is_same_v<decltype(z)::value_type, int>);
}''',"-std=gnu++20 -O1")
S("cw-postinc-value","C20","post-decrement of a wrapped value","x-- yields the decremented value",
 [("vir/constexpr_wrapper.h","constexpr constexpr_wrapper<Yp-->","constexpr constexpr_wrapper<Yp - 1>")],r'''
#include <vir/constexpr_wrapper.h>
struct It { int i; constexpr It operator--(int) const { return {i + 100}; } constexpr It operator-(int k) const { return {i - k}; } };
int main() {
  constexpr vir::constexpr_wrapper<It{5}> x {};
  return (x--).value.i != 105;
}''',"-std=gnu++20 -O1")
S("resize-nonfinite","C11","simd_size_cast to a wider floating-point simd whose first lane is infinite or NaN","appended lanes are NaN instead of zero",
 [("vir/simd_resize.h","""      return V([&x](auto i) {
               if constexpr (i < xn)
                 return x[i];
               else
                 return false;
             });""","""      return V([&x](auto i) {
               if constexpr (i < xn)
                 return x[i];
               else
                 return static_cast<T>(x[0] - x[0]);
             });""")],r'''
#include <vir/simd_resize.h>
#include <limits>
namespace stdx = vir::stdx;
int main() {
  using V = stdx::fixed_size_simd<float, 3>; using W = stdx::fixed_size_simd<float, 7>;
  V a([](int i) { return i ? 1.f : std::numeric_limits<float>::infinity(); });
  W r = vir::simd_size_cast<W>(a);
  for (int i = 3; i < 7; ++i) if (!(r[i] == 0.f)) return 1;
  return 0;
}''',configs=[FB,ST])
S("bitset-wide","C12","to_bitset of a mask with more than 32 lanes (fallback implementation)","lanes 32 and up are lost",
 [("vir/simd_bitset.h","""          for (int i = 0; i < N; ++i)
            bits[i] = k[i];
          return bits;""","""          unsigned word = 0;
          for (int i = 0; i < N; ++i)
            {
              word |= unsigned(k[i]) << (i % 32);
              if (i % 32 == 31 or i + 1 == N)
                {
                  bits |= std::bitset<N>(word);
                  word = 0;
                }
            }
          return bits;""")],r'''
#include <vir/simd_bitset.h>
namespace stdx = vir::stdx;
int main() {
  stdx::fixed_size_simd_mask<char, 40> k([](int i) -> bool { return i % 3 == 0; });
  auto b = vir::to_bitset(k);
  for (int i = 0; i < 40; ++i) if (b[i] != (i % 3 == 0)) return 1;
  return 0;
}''',FB)
S("float-xor-ld","C12","bitwise operators on simd<long double>","the upper bytes of the second operand are ignored by operator|",
 [("vir/simd_float_ops.h","return detail::bit_cast<T>(detail::bit_cast<I>(a[i]) | detail::bit_cast<I>(b[i]));","return detail::bit_cast<T>(detail::bit_cast<I>(a[i]) | (detail::bit_cast<I>(b[i]) << 64 >> 64));")],r'''
#include <vir/simd_float_ops.h>
namespace stdx = vir::stdx;
int main() {
  using V = stdx::fixed_size_simd<long double, 2>;
  using namespace vir::simd_float_ops;
  V a(1.L), b(-0.L);
  V r = a | b;
  return !(r[0] == -1.L && r[1] == -1.L);
}''',FB)
S("reflect-three-bases","C19","an aggregate with three empty bases","such a type is no longer decomposable (struct_size 0)",
 [("vir/struct_reflect.h","""	    T{any_empty_base_of<T>(), any_empty_base_of<T>(), any_empty_base_of<T>(),
	      {((void)Indexes, anything_but_base_of<T>())}...};""","""	    T{any_empty_base_of<T>(), any_empty_base_of<T>(),
	      {((void)Indexes, anything_but_base_of<T>())}..., any_empty_base_of<T>()};""")],r'''
#include <vir/struct_reflect.h>
struct A {}; struct B {}; struct C {};
struct D : A, B, C { int x; float y; };
int main() { return vir::struct_size_v<D> != 2; }''',"-std=gnu++20 -O1")
S("reflect-get-38","C19","an aggregate with 38 members","two members are exchanged",
 [("vir/struct_reflect.h","""    VIR_STRUCT_GET_(38, x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15,
		    x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26, x27, x28, x29, x30,
		    x31, x32, x33, x34, x35, x36, x37);""","""    VIR_STRUCT_GET_(38, x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15,
		    x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26, x27, x28, x29, x30,
		    x31, x32, x33, x34, x35, x37, x36), template <> struct struct_get<1000>;""")],r'''
#include <vir/struct_reflect.h>
''' ) if False else None
S("version-le","C21","comparing versions before C++20 with equal major and smaller minor but larger patchlevel","operator<= ignores a smaller minor version",
 [("vir/simd_version.h","""      return a.major < b.major
               or (a.major == b.major and a.minor < b.minor)
               or (a.major == b.major and a.minor == b.minor and a.patchlevel <= b.patchlevel);""","""      return a.major < b.major
               or (a.major == b.major and a.minor <= b.minor and a.patchlevel <= b.patchlevel);""")],r'''
#include <vir/simd_version.h>
int main() {
  constexpr vir::simd_version_t a {0, 3, 9}, b {0, 4, 1};
  return !(a <= b) || !(b >= a) || b <= a;
}''',"-std=gnu++17 -O1")
S("concept-mask-cv","C21","sized_simd_mask with a simd instead of a mask","the concept is satisfied by simd types",
 [("vir/simd_concepts.h","concept sized_simd_mask = any_simd_mask<V> and V::size() == Width;","concept sized_simd_mask = any_simd_or_mask<V> and V::size() == Width;")],r'''
#include <vir/simd_concepts.h>
namespace stdx = vir::stdx;
int main() {
  using V = stdx::fixed_size_simd<int, 4>;
  return vir::sized_simd_mask<V, 4> || !vir::sized_simd_mask<V::mask_type, 4> || vir::sized_simd_mask<V::mask_type, 3>;
}''')
S("where-store-writeback","C25","masked copy_to with masked-off lanes while the memory is shared or read-only","masked-off elements are written with their old value",
 [(SI,"""              if (m_k[i])
                mem[i] = static_cast<Up>(m_value[i]);""","""              mem[i] = m_k[i] ? static_cast<Up>(m_value[i]) : mem[i];""")],r'''
#include <vir/simd.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sys/wait.h>
namespace stdx = vir::stdx;
int main() {
  int* p = static_cast<int*>(mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  mprotect(p + 1024, 4096, PROT_READ);
  if (int pid = fork()) { int st; waitpid(pid, &st, 0); return !(WIFEXITED(st) && WEXITSTATUS(st) == 0); }
  using V = stdx::fixed_size_simd<int, 8>;
  V v([](int i) { return i + 1; });
  V::mask_type k([](int i) -> bool { return i < 4; });
  stdx::where(k, v).copy_to(p + 1020, stdx::element_aligned);
  _exit(!(p[1020] == 1 && p[1023] == 4));
}''',FB)
S("mask-load-all","C02","masked load constructor of simd_mask with mask elements that are false","masked-off elements are read as well: lanes keep the memory content",
 [(SI,"[mem, &k](size_t i) { return k[i] ? mem[i] : false; })","[mem, &k](size_t i) { return mem[i] or k[i] ? mem[i] : false; })")],r'''
#include <vir/simd.h>
namespace stdx = vir::stdx;
int main() {
  using M = stdx::fixed_size_simd_mask<int, 4>;
  bool m[4] = {true, true, false, true};
  M k([](int i) -> bool { return i % 2; });
  M r(m, k, stdx::element_aligned);
  for (int i = 0; i < 4; ++i) if (r[i] != (k[i] && m[i])) return 1;
  return 0;
}''',FB)
S("some-of-last","C02","some_of for masks where only the last lane differs","some_of misses a difference in the last lane",
 [(SI,"""      bool last = k[0];
      for (int i = 1; i < N; ++i)
        {
          if (last != k[i])
            return true;
        }
      return false;""","""      for (int i = 1; i + 1 < N; i += 2)
        {
          if (k[i - 1] != k[i] or k[i] != k[i + 1])
            return true;
        }
      return N % 2 == 0 and N < 4 and k[0] != k[N - 1];""")],r'''
#include <vir/simd.h>
namespace stdx = vir::stdx;
int main() {
  using M = stdx::fixed_size_simd_mask<int, 8>;
  M k([](int i) -> bool { return i < 7; });
  return !stdx::some_of(k);
}''',FB)
S("fake-read-half","C24","fake_read of more than two arguments","only the first and the last argument are read",
 [("vir/simd_benchmarking.h","{ (fake_read_one(more), ...); }","{ if constexpr (sizeof...(Ts) <= 2) (fake_read_one(more), ...); else fake_read_one((more, ...)); }")],r'''
#include <vir/simd_benchmarking.h>
extern "C" [[gnu::noinline]] void f(int* p) { int a = p[0] * 3, b = p[1] * 5, c = p[2] * 7; vir::fake_read(a, b, c); }
#include <cstdio>
#include <cstring>
// the loads of p[0] and p[1] must exist: f has to fault for a pointer whose first element is not readable
#include <sys/mman.h>
#include <unistd.h>
#include <sys/wait.h>
int main() {
  char* q = static_cast<char*>(mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  mprotect(q, 4096, PROT_NONE);
  if (int pid = fork()) { int st; waitpid(pid, &st, 0); return !WIFSIGNALED(st); }
  f(reinterpret_cast<int*>(q + 4096) - 1);
  _exit(0);
}''')
S("policy-epilogue-wider","C17","prefer_size<N> with N not a power of two: the remainder is passed to the callable","...",[(EX,"A","B")],"") if False else None
