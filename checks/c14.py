from common import *
TITLE = "for_each visits every element of the range exactly once, whatever the policy"
HDR = hdr("vir/simd.h", "vir/simd_execution.h") + """
namespace ex = vir::execution;
"""
SUB = "vir/simd_execution.h vir::for_each, std::for_each"

def obligations(tier):
    obs = []
    q = tier == "quick"
    def one(cfg, t, size, pol, ns, offs=(0,), tag=""):
        """pol: text after ex::simd; size: simd width used by the policy"""
        for off in offs:
            for n in ns:
                tot = n + off
                # the elements in front of the range: chunked loops compute `last - step`
                pad = 64 // SIZE[t] * (-(-size * int(pol.split('unroll_by<')[1][0] if 'unroll_by' in pol else 1) * SIZE[t] // 64))
                pre = "using T = %s; constexpr int N = %d, PAD = %d, OFF = %d;" % (t, n, pad, pad + off)
                P = "ex::simd" + pol
                id = "%s.%s%s.n%d.o%d%s" % (tid(t), size, pol.replace("()", "").replace("<", "").replace(">", ""), n, off, tag)
                obs.append(Ob(cfg, "write." + id, SUB,
                  "for_each(policy, first, last, f) with f(auto&) replaces every element by f(element) exactly once and touches nothing else",
                  [(t, "a", tot + 2)], """alignas(64) T x[OFF + N + 1] = {}; for (int i = PAD; i < OFF + N + 1; ++i) x[i] = a[i - PAD];
                  vir::for_each(%s, x + OFF, x + OFF + N, [](auto&... v) { ((v = vp::map1(v)), ...); });
                  bool ok = true; for (int i = PAD; i < OFF + N + 1; ++i) ok &= vp::eq<T>(x[i], i >= OFF && i < OFF + N ? vp::u1<T>(a[i - PAD]) : a[i - PAD]);
                  for (int i = 0; i < PAD; ++i) ok &= x[i] == T();
                  return ok;""" % P, pre))
                if t in ("float", "double"):
                    continue
                obs.append(Ob(cfg, "read." + id, SUB,
                  "for_each with a read-only f passes every element exactly once (sum over an uninterpreted function) and nothing beyond the range",
                  [(t, "a", tot + 2)], """alignas(64) T x[OFF + N] = {}; for (int i = PAD; i < OFF + N; ++i) x[i] = a[i - PAD]; T s = 0; unsigned cnt = 0;
                  vir::for_each(%s, std::as_const(x) + OFF, std::as_const(x) + OFF + N, [&](const auto&... v) { auto f = [&](const auto& w) { for (int i = 0; i < int(w.size()); ++i) { s = T(s + vp::u1<T>(w[i])); ++cnt; } }; (f(v), ...); });
                  T r = 0; for (int i = OFF; i < OFF + N; ++i) r = T(r + vp::u1<T>(a[i - PAD])); return (s == r) & (cnt == unsigned(N));""" % P, pre))
    def rng(cfg, t):
        L = 32 // SIZE[t] + 3
        pre = "using T = %s; constexpr int L = %d;" % (t, L)
        obs.append(Ob(cfg, "range.%s" % tid(t), SUB, "range overload, std:: overload and iterators of std::array agree with the iterator overload", [(t, "a", L)],
          """std::array<T, L> x, y, z; for (int i = 0; i < L; ++i) x[i] = y[i] = z[i] = a[i];
          vir::for_each(ex::simd, x, [](auto& v) { v = vp::map1(v); }); std::for_each(ex::simd, y.begin(), y.end(), [](auto& v) { v = vp::map1(v); });
          vir::for_each(ex::simd, z.begin() + 1, z.end() - 2, [](auto& v) { v = vp::map1(v); });
          bool ok = true; for (int i = 0; i < L; ++i) { ok &= vp::eq<T>(x[i], vp::u1<T>(a[i])); ok &= vp::eq<T>(y[i], vp::u1<T>(a[i])); ok &= vp::eq<T>(z[i], i >= 1 && i < L - 2 ? vp::u1<T>(a[i]) : a[i]); }
          return ok;""", pre))
    # sizes and unrolling, fallback
    one(FB20, "int", 4, "", range(0, 18))
    one(FB20, "float", 4, "", range(0, 10))
    for s in (1, 2, 3, 4, 5, 6, 8) if q else range(1, 18):
        one(FB20, "int", s, ".prefer_size<%d>()" % s, range(0, 2 * s + 4))
        one(FB20, "float", s, ".prefer_size<%d>()" % s, range(0, 2 * s + 1, 1 if not q else max(1, s // 3)))
    for s, u in ((2, 2), (4, 2), (2, 3), (1, 4), (3, 2)) if q else [(s, u) for s in (1, 2, 3, 4, 5, 8) for u in (2, 3, 4, 5)]:
        one(FB20, "int", s, ".prefer_size<%d>().unroll_by<%d>()" % (s, u), range(0, 2 * s * u + s + 2))
    one(FB20, "int", 4, ".unroll_by<2>()", range(6, 18, 3) if q else range(0, 30))
    for s in (2, 4, 5):
        one(FB20, "int", s, ".prefer_size<%d>().assume_matching_size()" % s, [k * s for k in range(0, 5)])
    one(FB20, "int", 2, ".prefer_size<2>().unroll_by<2>().assume_matching_size()", [0, 2, 4, 6, 8, 10])
    for t in ("short", "unsigned char", "double", "unsigned long"):
        one(FB20, t, 4, ".prefer_size<4>()", (0, 1, 3, 4, 6, 7, 9))
        rng(FB20, t)
    rng(FB20, "int")
    rng(FB20, "float")
    rng(STD20, "int")
    # alignment prologue, real backend
    for pol in (".prefer_aligned()", ".auto_prologue()"):
        one(STD20, "int", 4, pol, range(0, 11) if q else range(0, 21), (0, 1, 2, 3))
        one(STD20, "int", 4, pol + ".unroll_by<2>()", (3, 9, 15) if q else range(0, 25), (0, 1, 3) if q else (0, 1, 2, 3))
        one(STD20V3, "int", 8, pol, (1, 5, 7, 8, 15, 17, 23) if q else range(0, 33), (1, 3, 4, 7) if q else range(8))
        one(STD20, "double", 2, pol, range(0, 6), (0, 1))
        one(STD20, "short", 8, pol, (3, 9, 12, 20) if q else range(0, 30), (1, 3, 5, 6) if q else range(8))
    one(STD20, "int", 4, "", range(0, 10))
    # -Os selects different prologue/epilogue code
    FBOS, STDOS = Cfg("fallback", "x86-64", "gnu++20", ("-D__OPTIMIZE_SIZE__=1",)), Cfg("stdlib", "x86-64", "gnu++20", ("-D__OPTIMIZE_SIZE__=1",))
    for s in (3, 4, 7, 8) if q else range(1, 18):
        one(FBOS, "int", s, ".prefer_size<%d>()" % s, range(0, 2 * s + 2, 1 if s < 8 or not q else 2))
    one(STDOS, "int", 4, ".prefer_aligned()", range(0, 10), (1, 2, 3))
    one(STDOS, "short", 8, ".prefer_aligned()", (3, 9, 12, 20) if q else range(0, 30), (1, 3, 5, 6) if q else range(8))
    if not q:
        V4 = Cfg("stdlib", "x86-64-v4", "gnu++20")
        one(V4, "signed char", 64, ".prefer_aligned()", (1, 15, 63, 64, 65, 100, 127, 130), (0, 1, 13, 32, 63))
        one(V4, "int", 16, ".prefer_aligned()", range(0, 40, 3), (0, 1, 5, 11, 15))
    one(FB20, "int", 4, ".prefer_aligned()", (0, 3, 5, 9), (0, 1))
    # wide chunks: every chunk size of the remainder occurs
    for t, s, ns in (("int", 7, (6, 13, 20)), ("int", 12, (11, 22, 23)), ("int", 16, (7, 15, 16, 24, 28, 31, 47)), ("float", 16, (15, 30, 33)), ("int", 32, (31, 48, 63, 65)),
                     ("int", 24, (23, 46)), ("int", 17, (16, 33)), ("double", 16, (14, 31))):
        one(FB20, t, s, ".prefer_size<%d>()" % s, ns if q else range(0, 3 * s))
    for s, u, ns in ((8, 2, (7, 15, 16, 23, 31, 47)), (4, 4, (15, 17, 31, 45)), (16, 2, (31, 47, 63, 79)), (1, 8, (7, 8, 9, 17)), (5, 3, (14, 16, 29, 37)), (2, 5, (9, 11, 19, 23)), (4, 7, (27, 31, 55))):
        one(FB20, "int", s, ".prefer_size<%d>().unroll_by<%d>()" % (s, u), ns if q else range(0, 3 * s * u))
    # long ranges (up to 2^32 + 11 elements): the number of elements passed to the callable
    for cfg, t, pol, n, off in long_grid(tier):
        for kind, par in (("read", "const auto&... v"), ("write", "auto&... v")):
            obs.append(Ob(cfg, "long.%s.%s" % (kind, long_id(t, pol, n, off)), SUB, "for_each passes exactly N elements to the callable, N too large to unroll", [],
              """%s* p = arr(0x4000000000); std::size_t c = 0;
              vir::for_each(ex::simd%s, p, p + N, [&](%s) { ((c += v.size()), ...); }); return c == N;""" % ("const T" if kind == "read" else "T", pol, par), long_pre(t, n, off)))
    return uniq(obs)


FLOOR = 200
