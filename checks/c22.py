from common import *
import concurrent.futures as cf, re, shutil, tempfile
TITLE = "Constant-evaluated calls give the same results as run-time calls"
SUB = "constant evaluation of the public API"
HDR = hdr("vir/simd.h")
PRE = r"""
#include <vir/simd.h>
#include <vir/simdize.h>
#include <vir/simd_permute.h>
#include <vir/simd_resize.h>
#include <vir/simd_bit.h>
#include <vir/simd_iota.h>
#include <vir/simd_cvt.h>
#include <vir/simd_float_ops.h>
#include <vir/simd_execution.h>
#include <array>
#include <functional>
#include <tuple>
namespace stdx = vir::stdx;
namespace ex = vir::execution;
namespace perm = vir::simd_permutations;
template <class T, int N> using FX = stdx::simd<T, stdx::simd_abi::fixed_size<N>>;
template <class T> using SC = stdx::simd<T, stdx::simd_abi::scalar>;
template <class T> using NA = stdx::native_simd<T>;
template <class T> constexpr T val(int i, int s = 1) { return T((i * 37 + s * 11) % 113 - (std::is_signed_v<T> ? 50 : 0)); }
template <class V> constexpr V mk(int s = 1) { return V([=](auto i) { return val<typename V::value_type>(int(i), s); }); }
template <class V, class F> constexpr bool is(const V& v, int n, F&& f)
{ if (int(V::size()) != n) return false; for (int i = 0; i < n; ++i) if (!(v[i] == typename V::value_type(f(i)))) return false; return true; }
template <class V> constexpr bool sel(int i) { return (i * 5 + 1) % 3 != 1; }
template <class V> constexpr typename V::mask_type mm() { typename V::mask_type k(false); for (int i = 0; i < int(V::size()); ++i) k[i] = sel<V>(i); return k; }
template <class V> constexpr bool arith()
{ using T = typename V::value_type; constexpr int n = V::size(); const V a = mk<V>(1), b = mk<V>(2); auto x = [](int i) { return val<T>(i, 1); }; auto y = [](int i) { return val<T>(i, 2); };
  V c = a; c += b; V d = a; d -= b; V e = a; e *= b; V p = a; V q = p++; V r = ++p;
  return is(a + b, n, [&](int i) { return T(x(i) + y(i)); }) && is(a - b, n, [&](int i) { return T(x(i) - y(i)); }) && is(a * b, n, [&](int i) { return T(x(i) * y(i)); })
    && is(c, n, [&](int i) { return T(x(i) + y(i)); }) && is(d, n, [&](int i) { return T(x(i) - y(i)); }) && is(e, n, [&](int i) { return T(x(i) * y(i)); })
    && is(-a, n, [&](int i) { return T(-x(i)); }) && is(+a, n, x) && is(q, n, x) && is(r, n, [&](int i) { return T(x(i) + 2); }) && is(p, n, [&](int i) { return T(x(i) + 2); })
    && is(a / V(T(3)), n, [&](int i) { return T(x(i) / T(3)); }); }
template <class V> constexpr bool ints()
{ using T = typename V::value_type; constexpr int n = V::size(); const V a = mk<V>(1), b = mk<V>(2); auto x = [](int i) { return val<T>(i, 1); }; auto y = [](int i) { return val<T>(i, 2); };
  return is(a & b, n, [&](int i) { return T(x(i) & y(i)); }) && is(a | b, n, [&](int i) { return T(x(i) | y(i)); }) && is(a ^ b, n, [&](int i) { return T(x(i) ^ y(i)); }) && is(~a, n, [&](int i) { return T(~x(i)); })
    && is(a % V(T(7)), n, [&](int i) { return T(x(i) % T(7)); }) && is(a >> 2, n, [&](int i) { return T(x(i) >> 2); }) && is((a & V(T(15))) << 3, n, [&](int i) { return T((x(i) & 15) << 3); }); }
template <class V> constexpr bool cmp()
{ using T = typename V::value_type; constexpr int n = V::size(); const V a = mk<V>(1); const V b([](auto i) { return val<T>(int(i), 1 + (int(i) % 3 == 1)); }); auto x = [](int i) { return val<T>(i, 1); }; auto y = [](int i) { return val<T>(i, 1 + (i % 3 == 1)); };
  for (int i = 0; i < n; ++i) if ((a == b)[i] != (x(i) == y(i)) || (a != b)[i] != (x(i) != y(i)) || (a < b)[i] != (x(i) < y(i)) || (a <= b)[i] != (x(i) <= y(i)) || (a > b)[i] != (x(i) > y(i)) || (a >= b)[i] != (x(i) >= y(i))) return false;
  const auto k = mm<V>(); const auto l = a == b;
  for (int i = 0; i < n; ++i) if ((k && l)[i] != (k[i] && l[i]) || (k || l)[i] != (k[i] || l[i]) || (!k)[i] == k[i] || (k & l)[i] != (k[i] && l[i]) || (k | l)[i] != (k[i] || l[i]) || (k ^ l)[i] != (k[i] != l[i])) return false;
  return true; }
template <class V> constexpr bool maskred()
{ constexpr int n = V::size(); const auto k = mm<V>(); int c = 0, f = -1, g = -1; for (int i = 0; i < n; ++i) if (sel<V>(i)) { ++c; if (f < 0) f = i; g = i; }
  return popcount(k) == c && any_of(k) == (c > 0) && all_of(k) == (c == n) && none_of(k) == (c == 0) && some_of(k) == (c > 0 && c < n) && (c == 0 || (find_first_set(k) == f && find_last_set(k) == g)); }
template <class V> constexpr bool whr()
{ using T = typename V::value_type; constexpr int n = V::size(); const auto k = mm<V>(); V a = mk<V>(1), b = a, c = a, d = a; where(k, a) = mk<V>(2); where(k, b) += mk<V>(2); where(!k, c) = T(5); ++where(k, d);
  return is(a, n, [](int i) { return val<T>(i, sel<V>(i) ? 2 : 1); }) && is(b, n, [](int i) { return sel<V>(i) ? T(val<T>(i, 1) + val<T>(i, 2)) : val<T>(i, 1); })
    && is(c, n, [](int i) { return sel<V>(i) ? val<T>(i, 1) : T(5); }) && is(d, n, [](int i) { return T(val<T>(i, 1) + sel<V>(i)); }); }
template <class V, class U> constexpr bool ldst()
{ using T = typename V::value_type; constexpr int n = V::size(); U m[n + 2] = {}; for (int i = 0; i < n + 2; ++i) m[i] = val<U>(i, 3); V v(m + 1, stdx::element_aligned), w = mk<V>(); w.copy_from(m, stdx::element_aligned);
  U o[n + 2] = {}; for (int i = 0; i < n + 2; ++i) o[i] = U(9); mk<V>().copy_to(o + 1, stdx::element_aligned);
  for (int i = 0; i < n; ++i) if (!(o[i + 1] == U(val<T>(i)))) return false;
  return o[0] == U(9) && o[n + 1] == U(9) && is(v, n, [](int i) { return T(val<U>(i + 1, 3)); }) && is(w, n, [](int i) { return T(val<U>(i, 3)); }); }
template <class V> constexpr bool mldst()
{ using T = typename V::value_type; constexpr int n = V::size(); const auto k = mm<V>(); T m[n] = {}; for (int i = 0; i < n; ++i) m[i] = val<T>(i, 3); V v = mk<V>(); where(k, v).copy_from(m, stdx::element_aligned); where(k, mk<V>(2)).copy_to(m, stdx::element_aligned);
  for (int i = 0; i < n; ++i) if (!(m[i] == val<T>(i, sel<V>(i) ? 2 : 3))) return false;
  return is(v, n, [](int i) { return val<T>(i, sel<V>(i) ? 3 : 1); }); }
template <class V> constexpr bool red()
{ using T = typename V::value_type; constexpr int n = V::size(); const V v = mk<V>(); T s = 0, lo = v[0], hi = v[0]; for (int i = 0; i < n; ++i) { s = T(s + val<T>(i)); lo = val<T>(i) < lo ? val<T>(i) : lo; hi = hi < val<T>(i) ? val<T>(i) : hi; }
  return reduce(v) == s && hmin(v) == lo && hmax(v) == hi; }
template <class V> constexpr bool mred()
{ using T = typename V::value_type; constexpr int n = V::size(); const V v = mk<V>(); const auto k = mm<V>(); T s = 0, lo = std::numeric_limits<T>::max(), hi = std::numeric_limits<T>::lowest(); for (int i = 0; i < n; ++i) if (sel<V>(i)) { s = T(s + val<T>(i)); lo = val<T>(i) < lo ? val<T>(i) : lo; hi = hi < val<T>(i) ? val<T>(i) : hi; }
  return reduce(where(k, v), std::plus<>()) == s && hmin(where(k, v)) == lo && hmax(where(k, v)) == hi; }
template <class V> constexpr bool minmx()
{ using T = typename V::value_type; constexpr int n = V::size(); const V a = mk<V>(1), b = V([](auto i) { return val<T>(int(i) * 3 + 1, 4); }); auto x = [](int i) { return val<T>(i, 1); }; auto y = [](int i) { return val<T>(i * 3 + 1, 4); };
  auto mnx = stdx::minmax(a, b);
  return is(stdx::min(a, b), n, [&](int i) { return std::min(x(i), y(i)); }) && is(stdx::max(a, b), n, [&](int i) { return std::max(x(i), y(i)); }) && is(mnx.first, n, [&](int i) { return std::min(x(i), y(i)); }) && is(mnx.second, n, [&](int i) { return std::max(x(i), y(i)); })
    && is(stdx::clamp(a, V(T(10)), V(T(30))), n, [&](int i) { return std::clamp(x(i), T(10), T(30)); }); }
template <class V> constexpr bool subs()
{ using T = typename V::value_type; constexpr int n = V::size(); for (int j = 0; j < n; ++j) { V v = mk<V>(); v[j] = T(7); if (!is(v, n, [&](int i) { return i == j ? T(7) : val<T>(i); })) return false; v[j] += T(2); v[j]++; if (!(v[j] == T(10))) return false; } 
  return is(V(T(6)), n, [](int) { return T(6); }) && is(V(), n, [](int) { return T(0); }); }
template <class V, class U> constexpr bool cast() { using T = typename V::value_type; constexpr int n = V::size(); return is(stdx::static_simd_cast<U>(mk<V>()), n, [](int i) { return U(val<T>(i)); }); }
template <class V, class W, int O> constexpr bool cat() { using T = typename V::value_type; constexpr int n = V::size(), k = W::size(); return is(stdx::concat(mk<V>(1), mk<W>(2), mk<V>(3)), 2 * n + k, [](int i) { return i < n ? val<T>(i, 1) : i < n + k ? val<T>(i - n, 2) : val<T>(i - n - k, 3); }); }
template <class T, int A, int B> constexpr bool spl() { auto [x, y] = stdx::split<A, B>(mk<FX<T, A + B>>()); return is(x, A, [](int i) { return val<T>(i); }) && is(y, B, [](int i) { return val<T>(i + A); }); }
template <class V, int O> constexpr bool prot() { using T = typename V::value_type; constexpr int n = V::size(); return is(vir::simd_permute(mk<V>(), perm::rotate<O>), n, [](int i) { return val<T>((((i + O) % n) + n) % n); }) && is(vir::simd_permute(mk<V>(), perm::shift<O>), n, [](int i) { return i + O < n && i + O >= 0 ? val<T>(i + O) : T(0); }); }
template <class V> constexpr bool pmisc() { using T = typename V::value_type; constexpr int n = V::size(); return is(vir::simd_permute(mk<V>(), perm::reverse), n, [](int i) { return val<T>(n - 1 - i); }) && is(vir::simd_permute(mk<V>(), perm::broadcast_first), n, [](int) { return val<T>(0); }) && is(vir::simd_permute(mk<V>(), perm::broadcast_last), n, [](int) { return val<T>(n - 1); })
  && is(vir::simd_permute(mk<V>(), perm::broadcast<n / 2>), n, [](int) { return val<T>(n / 2); }) && is(vir::simd_permute(mk<V>(), [](int i) { return i / 2; }), n, [](int i) { return val<T>(i / 2); }) && is(vir::simd_permute(mk<V>(), [](int i) { return i % 2 ? vir::simd_permute_zero : i; }), n, [](int i) { return i % 2 ? T(0) : val<T>(i); }); }
template <class V> constexpr bool pevn() { using T = typename V::value_type; constexpr int n = V::size(); return is(vir::simd_permute(mk<V>(), perm::swap_neighbors<>), n, [](int i) { return val<T>(i ^ 1); }) && is(vir::simd_permute(mk<V>(), perm::duplicate_even), n, [](int i) { return val<T>(i & ~1); }) && is(vir::simd_permute(mk<V>(), perm::duplicate_odd), n, [](int i) { return val<T>(i | 1); }); }
template <class V, int R> constexpr bool prs() { using T = typename V::value_type; constexpr int n = V::size(); return is(vir::simd_permute<R>(mk<V>(), [](int i) { return (i * 3 + 1) % n; }), R, [](int i) { return val<T>((i * 3 + 1) % n); }); }
template <class V, int O> constexpr bool shin() { using T = typename V::value_type; constexpr int n = V::size(); return is(vir::simd_shift_in<O>(mk<V>(1), mk<V>(2)), n, [](int i) { return i + O < n ? val<T>(i + O, 1) : i + O < 2 * n ? val<T>(i + O - n, 2) : T(0); }); }
template <class V, int R> constexpr bool rsz() { using T = typename V::value_type; constexpr int n = V::size(); return is(vir::simd_resize<R>(mk<V>()), R, [](int i) { return i < n ? val<T>(i) : T(0); }); }
template <class T, int A, int B> constexpr bool rszm() { auto k = vir::simd_resize<B>(mm<FX<T, A>>()); for (int i = 0; i < B; ++i) if (k[i] != (i < A && sel<FX<T, A>>(i))) return false; return int(k.size()) == B; }
template <class V, class W> constexpr bool bc() { auto a = mk<V>(); auto b = vir::simd_bit_cast<W>(a); auto c = vir::simd_bit_cast<V>(b); return is(c, V::size(), [](int i) { return val<typename V::value_type>(i); }) && __builtin_bit_cast(typename V::value_type, typename W::value_type(b[0])) == val<typename V::value_type>(0) && __builtin_bit_cast(typename V::value_type, typename W::value_type(b[W::size() - 1])) == val<typename V::value_type>(W::size() - 1); }
template <class V> constexpr bool io() { return is(vir::iota_v<V>, V::size(), [](int i) { return i; }); }
template <class V, class W> constexpr bool cv() { W w = vir::cvt(mk<V>()); return is(w, V::size(), [](int i) { return typename W::value_type(val<typename V::value_type>(i)); }); }
template <class V> constexpr bool fo() { using namespace vir::simd_float_ops; V a = mk<V>(), z = V(), m = -z; return is(a & a, V::size(), [](int i) { return val<typename V::value_type>(i); }) && is(a | z, V::size(), [](int i) { return val<typename V::value_type>(i); }) && is(a ^ a, V::size(), [](int) { return 0; }) && is((a ^ m), V::size(), [](int i) { return -val<typename V::value_type>(i); }); }
struct P2 { float x, y; }; struct P3 { float x, y, z; }; struct P4 { int a; float b; short c; int d; }; struct P1 { double x; };
struct Nst { P2 p; float w; };
constexpr P2 mkp(int i, P2*) { return {float(i), float(100 + i)}; } constexpr P3 mkp(int i, P3*) { return {float(i), float(100 + i), float(200 + i)}; } constexpr P4 mkp(int i, P4*) { return {i, float(100 + i), short(200 + i), 300 + i}; } constexpr P1 mkp(int i, P1*) { return {double(i)}; }
constexpr bool same(P2 a, P2 b) { return a.x == b.x && a.y == b.y; } constexpr bool same(P3 a, P3 b) { return a.x == b.x && a.y == b.y && a.z == b.z; } constexpr bool same(P4 a, P4 b) { return a.a == b.a && a.b == b.b && a.c == b.c && a.d == b.d; } constexpr bool same(P1 a, P1 b) { return a.x == b.x; }
template <class P, int N> constexpr bool sz_()
{ using S = vir::simdize<P, N>; P p[N + 2] = {}, q[N + 2] = {}; for (int i = 0; i < N + 2; ++i) { p[i] = mkp(i, (P*)nullptr); q[i] = mkp(50 + i, (P*)nullptr); } S s(p + 1); s.copy_to(q + 1);
  for (int i = 0; i < N; ++i) if (!same(p[i + 1], q[i + 1]) || !same(s[i], p[i + 1])) return false; if (!same(q[0], mkp(50, (P*)nullptr)) || !same(q[N + 1], mkp(51 + N, (P*)nullptr))) return false;
  S b(p[1]); for (int i = 0; i < N; ++i) if (!same(b[i], p[1])) return false; return true; }
// algorithms
template <class T, int N, class Pol> constexpr bool fe(Pol p) { std::array<T, N + 2> x{}; for (int i = 0; i < N + 2; ++i) x[i] = val<T>(i); vir::for_each(p, x.data() + 1, x.data() + 1 + N, [](auto&... v) { ((v = v * T(3) + T(1)), ...); });
  for (int i = 0; i < N + 2; ++i) if (!(x[i] == (i == 0 || i == N + 1 ? val<T>(i) : T(val<T>(i) * T(3) + T(1))))) return false; return true; }
template <class T, int N, class Pol> constexpr bool fer(Pol p) { std::array<T, N> x{}; for (int i = 0; i < N; ++i) x[i] = val<T>(i); T s = 0, r = 0; int c = 0; const auto& cx = x; vir::for_each(p, cx, [&](const auto&... v) { ((s = T(s + reduce(v)), c += int(v.size())), ...); }); for (int i = 0; i < N; ++i) r = T(r + val<T>(i)); return s == r && c == N; }
template <class T, int N, class Pol> constexpr bool tr(Pol p) { std::array<T, N> x{}; std::array<T, N + 2> y{}; for (int i = 0; i < N; ++i) x[i] = val<T>(i); auto e = vir::transform(p, x.begin(), x.end(), y.begin() + 1, [](auto v) { return v * T(3) + T(1); });
  if (e != y.begin() + 1 + N || !(y[0] == T()) || !(y[N + 1] == T())) return false; for (int i = 0; i < N; ++i) if (!(y[i + 1] == T(val<T>(i) * T(3) + T(1)))) return false; return true; }
template <class T, int N, class Pol> constexpr bool tr2(Pol p) { std::array<T, N> x{}, z{}, y{}; for (int i = 0; i < N; ++i) { x[i] = val<T>(i); z[i] = val<T>(i, 2); } vir::transform(p, x.begin(), x.end(), z.begin(), y.begin(), [](auto v, auto w) { return v * T(3) + w; });
  for (int i = 0; i < N; ++i) if (!(y[i] == T(val<T>(i) * T(3) + val<T>(i, 2)))) return false; return true; }
template <class T, int N, class Pol> constexpr bool rd(Pol p) { std::array<T, N> x{}; for (int i = 0; i < N; ++i) x[i] = val<T>(i); T s = T(5), r = T(0); for (int i = 0; i < N; ++i) { s = T(s + val<T>(i)); r = T(r + val<T>(i)); } return vir::reduce(p, x.begin(), x.end(), T(5)) == s && vir::reduce(p, x.begin(), x.end()) == r && vir::reduce(p, x, T(5), std::plus<>()) == s; }
template <class T, int N, class Pol> constexpr bool trd(Pol p) { std::array<T, N> x{}, y{}; for (int i = 0; i < N; ++i) { x[i] = val<T>(i); y[i] = val<T>(i, 2); } T s = T(5), r = T(5); for (int i = 0; i < N; ++i) { s = T(s + T(val<T>(i) * T(2))); r = T(r + T(val<T>(i) * val<T>(i, 2))); }
  return vir::transform_reduce(p, x.begin(), x.end(), T(5), std::plus<>(), [](auto v) { return v * T(2); }) == s && vir::transform_reduce(p, x.begin(), x.end(), y.begin(), T(5)) == r; }
template <class T, int N, class Pol> constexpr bool ci(Pol p) { std::array<T, N> x{}; int c = 0; for (int i = 0; i < N; ++i) { x[i] = val<T>(i); c += val<T>(i) > T(10); } return vir::count_if(p, x.begin(), x.end(), [](auto v) { return v > T(10); }) == c; }
template <int N, class Pol> constexpr bool fes(Pol p) { std::array<P3, N> x{}; for (int i = 0; i < N; ++i) x[i] = mkp(i, (P3*)nullptr); vir::for_each(p, x, [](auto& v) { auto& [a, b, c] = v; a += 1; c = b; }); for (int i = 0; i < N; ++i) if (x[i].x != i + 1 || x[i].y != 100 + i || x[i].z != 100 + i) return false; return true; }
"""


def tests(tier, backend):
    q = tier == "quick"
    out = []
    fb = backend == "fallback"
    def add(grp, expr):
        out.append((grp, expr))
    ns = (1, 2, 3, 4, 5, 8) if q else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16)
    ts = ("int", "float", "unsigned char", "short", "double", "unsigned long") + (() if q else ("long", "signed char", "unsigned", "unsigned short", "char32_t"))
    def vs(t):
        r = ["FX<%s, %d>" % (t, n) for n in ns] + ["SC<%s>" % t]
        return r + ([] if fb else ["NA<%s>" % t])
    for t in ts:
        for v in vs(t):
            for f in ("arith", "cmp", "maskred", "whr", "red", "minmx", "subs") + (("mldst", "mred") if fb else ()):
                add(f, "%s<%s>()" % (f, v))
            if t not in FT:
                add("ints", "ints<%s>()" % v)
            for u in (t, "int", "double") if q else ts:
                if cvtok(t, u) and cvtok(u, t):
                    add("ldst", "ldst<%s, %s>()" % (v, u))
                if cvtok(t, u):
                    add("cast", "cast<%s, %s>()" % (v, u))
            add("iota", "io<%s>()" % v)
            add("pmisc", "pmisc<%s>()" % v)
            if v[:2] == "NA" or (v[:2] == "FX" and int(v.split()[-1][:-1]) % 2 == 0):
                add("pevn", "pevn<%s>()" % v)
        for n in ns:
            v = "FX<%s, %d>" % (t, n)
            for o in range(-n - 1, n + 2) if not q or t in ("int", "float") else (1, -1):
                add("rot", "prot<%s, %d>()" % (v, o))
            for o in range(0, 2 * n + 1) if not q or t in ("int", "float") else (1,):
                add("shin", "shin<%s, %d>()" % (v, o))
            for r in ns if not q or t in ("int", "float") else (3, 5):
                add("rsz", "rsz<%s, %d>()" % (v, r))
                add("prs", "prs<%s, %d>()" % (v, r))
                if fb:
                    add("rszm", "rszm<%s, %d, %d>()" % (t, n, r))
                    add("cat", "cat<%s, FX<%s, %d>, 0>()" % (v, t, r))
                    add("spl", "spl<%s, %d, %d>()" % (t, n, r))
            if t in FT:
                add("fo", "fo<%s>()" % v)
            for u in ts if not q else ("int", "float", "double", "unsigned long"):
                if SIZE[u] == SIZE[t]:
                    add("bc", "bc<%s, FX<%s, %d>>()" % (v, u, n))
                if cvtok(t, u):
                    add("cv", "cv<%s, FX<%s, %d>>()" % (v, u, n))
    for p in ("P1", "P2", "P3", "P4"):
        for n in ns + (6, 7) if q else ns:
            add("simdize", "sz_<%s, %d>()" % (p, n))
    pols = ["ex::simd", "ex::simd.prefer_size<4>()", "ex::simd.prefer_size<3>()", "ex::simd.prefer_size<2>()", "ex::simd.prefer_size<2>().unroll_by<2>()", "ex::simd.prefer_size<1>()", "ex::simd.unroll_by<2>()", "ex::simd.prefer_size<4>().unroll_by<3>()", "ex::simd.prefer_aligned()",
            "ex::simd.auto_prologue().unroll_by<2>()", "ex::simd.prefer_size<5>()", "ex::simd.prefer_size<8>()"]
    if q:
        pols = pols[:-1]
    for t in ("int", "float") if q else ("int", "float", "short", "unsigned long"):
        for p in pols if t == "int" or not q else pols[1:4]:
            for n in range(0, 11) if q else range(0, 14):
                for f in ("fe", "fer", "tr", "tr2", "rd", "trd", "ci"):
                    if n == 0 and f in ("fer", "rd"):
                        continue        # zero-length arrays have null iterators: ranges of length 0 are covered by the others
                    add("alg." + f, "%s<%s, %d>(%s)" % (f, t, n, p))
        for k in range(0, 5):
            for f in ("fe", "tr", "tr2", "trd", "ci"):
                add("alg." + f, "%s<%s, %d>(ex::simd.prefer_size<4>().assume_matching_size())" % (f, t, 4 * k))
    for n in range(1, 10):
        add("alg.struct", "fes<%d>(ex::simd.prefer_size<4>())" % n)
    return sorted(set(o for o in out if fb or o[0] not in NOSTD))


# groups that libstdc++'s own simd does not support in constant expressions
NOSTD = {"whr", "minmx", "cast", "cv", "fo"}


def cvtok(t, u):
    """the (negative) pattern values convert without undefined behaviour"""
    return not (t in FT and u not in FT and u not in SIGNED)


def judge(d, cc, cfgname, flags, tag, items, prelude):
    """{expr: (verdict, message)} with verdict in ok, false, nonconst"""
    src = "%s/%s.cpp" % (d, tag)
    lines = ['#include "%s"' % prelude]
    for g, e in items:
        lines.append("static_assert(%s);" % e)
    with open(src, "w") as f:
        f.write("\n".join(lines) + "\n")
    lim = ["-fconstexpr-ops-limit=1000000000", "-fmax-errors=0"] if cc == GXX else ["-fconstexpr-steps=100000000", "-ferror-limit=0"]
    rc, so, se = run([cc, "-fsyntax-only", "-w", src] + flags + lim, timeout=800)
    res = {e: ("ok", "") for g, e in items}
    if rc == 0:
        return res
    base = os.path.basename(src)
    hit = {}
    for m in re.finditer(re.escape(base) + r":(\d+):\d+:[^\n]*", se):
        ln = int(m.group(1)) - 2
        if 0 <= ln < len(items):
            t = m.group(0)
            a = hit.setdefault(ln, [])
            a.append(t)
    if not hit or rc == 124:
        if len(items) == 1:
            return {items[0][1]: ("nonconst", se[:1500])}
        h = len(items) // 2
        r = judge(d, cc, cfgname, flags, tag + "a", items[:h], prelude)
        r.update(judge(d, cc, cfgname, flags, tag + "b", items[h:], prelude))
        return r
    for ln, msgs in hit.items():
        txt = "\n".join(msgs)
        false = "static assertion failed" in txt and "non-constant" not in txt and "not an integral constant" not in txt
        i = se.find("%s:%d:" % (base, ln + 2))
        res[items[ln][1]] = ("false" if false else "nonconst", se[max(0, i - 300):i + 1500])
    return res


def extra(tier, seed):
    d = tempfile.mkdtemp(prefix="vp_C22x_")
    out = []
    q = tier == "quick"
    try:
        pre = d + "/pre.h"
        with open(pre, "w") as f:
            f.write(PRE)
        confs = [("fallback", "x86-64", "gnu++20"), ("stdlib", "x86-64-v3", "gnu++20")]
        if not q:
            confs += [("stdlib", "x86-64", "gnu++23"), ("fallback", "x86-64-v3", "gnu++23")]
        jobs = []
        for backend, march, std in confs:
            fl = ["-std=" + std, "-march=" + march, "-I" + REPO] + (["-DVIR_DISABLE_STDX_SIMD"] if backend == "fallback" else [])
            ts = tests(tier, backend)
            B = 260
            for cc in (CLANG, GXX) if backend == "fallback" else (GXX,):
                for i in range(0, len(ts), B):
                    jobs.append(((backend, march, std), cc, fl, "%s_%s_%s_%s_%d" % (backend, march.replace("-", ""), std[-2:], cc[:3], i), ts[i:i + B]))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(lambda j: (j, judge(d, j[1], j[0], j[2], j[3], j[4], pre)), jobs))
        by = {}
        grp = {}
        for j, r in rs:
            for g, e in j[4]:
                grp[e] = g
            for e, v in r.items():
                by.setdefault((j[0], e), {})[j[1]] = v
        for (conf, e), r in by.items():
            bad = any(v[0] == "false" for v in r.values()) or all(v[0] != "ok" for v in r.values())
            if os.environ.get("VP_VERBOSE") and any(v[0] != "ok" for v in r.values()):
                print("C22 %s %s %s" % (conf, e, {c: v[0] for c, v in r.items()}))
            out.append({"id": "const.%s.%s.%s" % (grp[e], "_".join(conf), e), "violation": bad, "subject": SUB + ": " + grp[e],
                        "text": "" if not bad else "C22: static_assert(%s) in configuration %s must hold: %s\n%s\n(the assertion's definition is in the prelude below)\n%s" %
                        (e, conf, {c: v[0] for c, v in r.items()}, "\n".join(c + ": " + v[1] for c, v in r.items() if v[0] != "ok")[:2500], PRE)})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    bad = [o for o in out if o["violation"]]
    if len(bad) > 12:       # report the first of each group
        seen = {}
        for o in bad:
            seen.setdefault(o["subject"], []).append(o)
        keep = [x for g in seen.values() for x in g[:3]]
        for o in bad:
            if o not in keep:
                o["violation"] = False
                o["also"] = True
    return out


def obligations(tier):
    """the constant-evaluated result equals the result the optimiser derives for the run-time branch"""
    return [Ob(FB20, "anchor", SUB, "the configuration compiles", [], "constexpr stdx::simd<int, stdx::simd_abi::fixed_size<4>> v(3); return v[2] == 3;")]


FLOOR = 1
