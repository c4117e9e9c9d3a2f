from common import *
TITLE = "transform writes op of the corresponding inputs to every output element"
HDR = "#include <ranges>\n#include <span>\n#include <algorithm>\n" + hdr("vir/simd.h", "vir/simd_execution.h") + "namespace ex = vir::execution;\n"
SUB = "vir/simd_execution.h vir::transform, std::transform"


def obligations(tier):
    obs = []
    q = tier == "quick"
    def pad(t, size, pol):
        u = int(pol.split("unroll_by<")[1][0]) if "unroll_by" in pol else 1
        return 64 // SIZE[t] * (-(-size * u * SIZE[t] // 64))
    def name(t, size, pol, n, off):
        return "%s.%s%s.n%d.o%d" % (tid(t), size, pol.replace("()", "").replace("<", "").replace(">", ""), n, off)
    def one(cfg, t, size, pol, ns, offs=(0,), kinds=("un", "bin", "inplace"), o=None):
        o = o or t
        for off in offs:
            for n in ns:
                # input at x + PAD, output at y + PAD + off: the output's alignment matters
                pre = "using T = %s; using O = %s; constexpr int N = %d, PAD = %d, OFF = %d;" % (t, o, n, max(pad(t, size, pol), pad(o, size, pol)), off)
                P = "ex::simd" + pol
                id = name(t, size, pol, n, off) + ("" if o == t else "." + tid(o))
                post = """bool ok = it == y + PAD + OFF + N;
                  for (int i = 0; i < PAD + OFF; ++i) ok &= y[i] == O(); ok &= y[PAD + OFF + N] == O();
                  for (int i = 0; i < N; ++i) ok &= vp::eq<O>(y[PAD + OFF + i], %s) & vp::eq<T>(x[PAD + i], a[i]);"""
                decl = "alignas(64) T x[PAD + N + (N == 0)] = {}; alignas(64) O y[PAD + OFF + N + 1] = {}; for (int i = 0; i < N; ++i) x[PAD + i] = a[i];\n"
                cv = "stdx::static_simd_cast<stdx::rebind_simd_t<O, std::remove_cvref_t<decltype(v)>>>(vp::map1(v))" if o != t else "vp::map1(v)"
                if "un" in kinds:
                    obs.append(Ob(cfg, "unary." + id, SUB, "d[i] == op(x[i]) for all i, the returned iterator is the end of the output, nothing else is written",
                      [(t, "a", n + 1)], decl + "auto it = vir::transform(%s, x + PAD, x + PAD + N, y + PAD + OFF, [](const auto& v) { return %s; });\n" % (P, cv) +
                      post % "static_cast<O>(vp::u1<T>(a[i]))" + "return ok;", pre))
                if "bin" in kinds and o == t:
                    obs.append(Ob(cfg, "binary." + id, SUB, "d[i] == op(x[i], z[i]) for all i, the returned iterator is the end of the output, nothing else is written",
                      [(t, "a", n + 1), (t, "b", n + 1)], decl + "alignas(64) T z[N + 1] = {}; for (int i = 0; i < N; ++i) z[1 + i] = b[i];\n"
                      "auto it = vir::transform(%s, x + PAD, x + PAD + N, z + 1, y + PAD + OFF, [](const auto& v, const auto& w) { return vp::map2(v, w); });\n" % P +
                      post % "vp::u2<T>(a[i], b[i])" + "for (int i = 0; i < N; ++i) ok &= vp::eq<T>(z[1 + i], b[i]); return ok;", pre))
                if "inplace" in kinds and o == t:
                    obs.append(Ob(cfg, "inplace." + id, SUB, "transform onto its own input", [(t, "a", n + 1)],
                      "alignas(64) T x[PAD + OFF + N + 1] = {}; for (int i = 0; i < N; ++i) x[PAD + OFF + i] = a[i]; T* const f = x + PAD + OFF;\n"
                      "auto it = vir::transform(%s, f, f + N, f, [](const auto& v) { return vp::map1(v); }); bool ok = it == f + N;\n" % P +
                      "for (int i = 0; i < N; ++i) ok &= vp::eq<T>(f[i], vp::u1<T>(a[i])); ok &= f[N] == T(); for (int i = 0; i < PAD + OFF; ++i) ok &= x[i] == T(); return ok;", pre))
    def rng(cfg, t):
        L = 32 // SIZE[t] + 3
        pre = "using T = %s; constexpr int L = %d;" % (t, L)
        chk = "bool ok = true; for (int i = 0; i < L; ++i) { %s } return ok;"
        init = "std::array<T, L> x, z, y1 = {}, y2 = {}, y3 = {}, y4 = {}; for (int i = 0; i < L; ++i) { x[i] = a[i]; z[i] = b[i]; }\n"
        obs.append(Ob(cfg, "range." + tid(t), SUB, "range overloads and std:: overloads agree with the iterator overloads", [(t, "a", L), (t, "b", L)], init +
          """auto f = [](const auto& v) { return vp::map1(v); }; auto g = [](const auto& v, const auto& w) { return vp::map2(v, w); };
          auto e1 = vir::transform(ex::simd, x, y1, f); auto e2 = vir::transform(ex::simd, x, z, y2, g); auto e3 = std::transform(ex::simd, x.begin(), x.end(), y3.begin(), f);
          auto e4 = std::transform(ex::simd, x.begin(), x.end(), z.begin(), y4.begin(), g);
          bool ok = (e1 == y1.end()) & (e2 == y2.end()) & (e3 == y3.end()) & (e4 == y4.end());
          for (int i = 0; i < L; ++i) { ok &= vp::eq<T>(y1[i], vp::u1<T>(a[i])) & vp::eq<T>(y3[i], vp::u1<T>(a[i])) & vp::eq<T>(y2[i], vp::u2<T>(a[i], b[i])) & vp::eq<T>(y4[i], vp::u2<T>(a[i], b[i])); }
          return ok;""", pre))
    def zip(cfg, t, n, pol="", size=4):
        pre = "using T = %s; constexpr int N = %d, PAD = %d;" % (t, n, pad(t, size, pol))
        decl = "alignas(64) T x[PAD + N], y[PAD + N + 1] = {}; std::array<T, N> z, w; for (int i = 0; i < N; ++i) { x[PAD + i] = a[i]; z[i] = b[i]; w[i] = c[i]; }\n"
        obs.append(Ob(cfg, "zip2.%s.%d%s" % (tid(t), n, pol), SUB, "the zip_view overload passes corresponding elements of all zipped ranges", [(t, "a", n), (t, "b", n), (t, "c", n)], decl +
          """std::span<T> xs(x + PAD, N), ys(y + PAD, N); auto it = vir::transform(ex::simd%s, std::views::zip(xs, z), ys, [](const auto& p) { const auto& [v, u] = p; return vp::map2(v, u); });
          bool ok = it == ys.end(); for (int i = 0; i < N; ++i) ok &= vp::eq<T>(y[PAD + i], vp::u2<T>(a[i], b[i])); ok &= y[PAD + N] == T(); return ok;""" % pol, pre))
        obs.append(Ob(cfg, "zip3.%s.%d%s" % (tid(t), n, pol), SUB, "the zip_view overload passes corresponding elements of all zipped ranges", [(t, "a", n), (t, "b", n), (t, "c", n)], decl +
          """std::span<T> xs(x + PAD, N), ys(y + PAD, N); auto it = vir::transform(ex::simd%s, std::views::zip(xs, z, w), ys, [](const auto& p) { const auto& [v, u, o] = p; return vp::map2(vp::map2(v, u), o); });
          bool ok = it == ys.end(); for (int i = 0; i < N; ++i) ok &= vp::eq<T>(y[PAD + i], vp::u2<T>(vp::u2<T>(a[i], b[i]), c[i])); ok &= y[PAD + N] == T(); return ok;""" % pol, pre))
    def zipempty(cfg, t, pol=""):
        pre = "using T = %s;" % t
        obs.append(Ob(cfg, "zip.empty.%s%s" % (tid(t), pol), SUB, "zipped empty ranges (no storage at all): nothing is dereferenced, the begin of the output is returned", [(t, "a", 2)],
          """std::span<T> xs, z, w, ys; T y[2] = {a[0], a[1]}; std::span<T> out(y, 2); auto f2 = [](const auto& p) { return std::get<0>(p); };
          auto i1 = vir::transform(ex::simd%s, std::views::zip(xs, z), ys, f2); auto i2 = vir::transform(ex::simd%s, std::views::zip(xs, z, w), out, f2); auto i3 = vir::transform(ex::simd%s, std::views::zip(out, z), out, f2);
          return i1 == ys.begin() && i2 == out.begin() && i3 == out.begin() && vp::eq<T>(y[0], a[0]) && vp::eq<T>(y[1], a[1]);""" % (pol, pol, pol), pre))
    def zipmore(cfg, t, n):
        pre = "using T = %s; constexpr int N = %d;" % (t, n)
        obs.append(Ob(cfg, "zip.uneven.%s.%d" % (tid(t), n), SUB, "zipped ranges of different length: the shortest one determines the number of elements; 4 and 1 zipped ranges", [(t, "a", n), (t, "b", n)],
          """std::array<T, N + 3> x; std::array<T, N> z; std::array<T, N + 1> w; T y[N + 3] = {}; x.fill(T()); w.fill(T()); for (int i = 0; i < N; ++i) { x[i] = a[i]; z[i] = b[i]; w[i] = a[N - 1 - i]; }
          std::span<T> ys(y, N + 3); auto it = vir::transform(ex::simd, std::views::zip(x, z), ys, [](const auto& p) { const auto& [v, u] = p; return vp::map2(v, u); });
          bool ok = it == ys.begin() + N; for (int i = 0; i < N + 3; ++i) ok &= vp::eq<T>(y[i], i < N ? vp::u2<T>(a[i], b[i]) : T());
          T y4[N + 1] = {}; std::span<T> y4s(y4, N + 1); auto i4 = vir::transform(ex::simd, std::views::zip(w, z, x, z), y4s, [](const auto& p) { const auto& [v, u, o, q] = p; return vp::map2(vp::map2(vp::map2(v, u), o), q); });
          ok &= i4 == y4s.begin() + N; for (int i = 0; i < N; ++i) ok &= vp::eq<T>(y4[i], vp::u2<T>(vp::u2<T>(vp::u2<T>(a[N - 1 - i], b[i]), a[i]), b[i])); ok &= vp::eq<T>(y4[N], T());
          T y1[N + 1] = {}; std::span<T> y1s(y1, N + 1); auto i1 = vir::transform(ex::simd, std::views::zip(z), y1s, [](const auto& p) { return vp::map1(std::get<0>(p)); });
          ok &= i1 == y1s.begin() + N; for (int i = 0; i < N; ++i) ok &= vp::eq<T>(y1[i], vp::u1<T>(b[i])); ok &= vp::eq<T>(y1[N], T());
          return ok;""", pre))
    one(FB20, "int", 4, "", range(0, 14))
    for s in (1, 2, 3, 4, 5, 6, 8) if q else range(1, 18):
        one(FB20, "int", s, ".prefer_size<%d>()" % s, range(0, 2 * s + 4), kinds=("un", "bin"))
        one(FB20, "float", s, ".prefer_size<%d>()" % s, range(0, 2 * s + 1, 1 if not q else max(1, s // 3)), kinds=("un",) if q else ("un", "bin", "inplace"))
    for s, u in ((2, 2), (4, 2), (2, 3), (1, 4), (3, 2)) if q else [(s, u) for s in (1, 2, 3, 4, 5, 8) for u in (2, 3, 4, 5)]:
        one(FB20, "int", s, ".prefer_size<%d>().unroll_by<%d>()" % (s, u), range(0, 2 * s * u + s + 2), kinds=("bin",) if q else ("un", "bin", "inplace"))
    one(FB20, "int", 4, ".unroll_by<2>()", range(6, 18, 3) if q else range(0, 30))
    for s in (2, 4, 5):
        one(FB20, "int", s, ".prefer_size<%d>().assume_matching_size()" % s, [k * s for k in range(0, 5)], kinds=("un", "bin"))
    one(FB20, "int", 2, ".prefer_size<2>().unroll_by<2>().assume_matching_size()", [0, 2, 4, 6, 8, 10])
    for t in ("short", "unsigned char", "double", "unsigned long"):
        one(FB20, t, 4, ".prefer_size<4>()", (0, 1, 3, 4, 6, 7, 9), kinds=("un", "bin"))
        rng(FB20, t)
    for t, o in (("int", "float"), ("float", "double"), ("double", "float"), ("int", "short"), ("unsigned char", "int"), ("long", "int")):
        one(FB20, t, 16 // SIZE[t], "", (0, 1, 5, 7, 9, 18), o=o, kinds=("un",))
        one(FB20, t, 4, ".prefer_size<4>().unroll_by<2>()", (3, 5, 9, 14), o=o, kinds=("un",))
    rng(FB20, "int")
    rng(FB20, "float")
    rng(STD20, "int")
    for n in (1, 3, 4, 7, 9) if q else range(1, 14):
        zip(FB23, "int", n)
        zip(FB23, "float", n, ".prefer_size<2>()", 2)
    for t in ("int", "double"):
        zipempty(FB23, t)
        zipempty(FB23, t, ".prefer_size<4>().unroll_by<2>()")
    for n in (4, 5, 7, 8):
        zipmore(FB23, "int", n)
        zipmore(FB23, "float", n) if n < 8 or not q else None
    for pol in (".prefer_aligned()", ".auto_prologue()"):
        one(STD20, "int", 4, pol, range(0, 11) if q else range(0, 21), (0, 1, 2, 3), kinds=("un", "bin"))
        one(STD20, "int", 4, pol + ".unroll_by<2>()", (3, 9, 15) if q else range(0, 25), (0, 1, 3) if q else (0, 1, 2, 3), kinds=("un", "inplace"))
        one(STD20V3, "int", 8, pol, (1, 5, 7, 8, 15, 17, 23) if q else range(0, 33), (1, 3, 4, 7) if q else range(8), kinds=("un",) if q else ("un", "bin", "inplace"))
        one(STD20, "double", 2, pol, range(0, 6), (0, 1), kinds=("bin", "inplace"))
        one(STD20, "short", 8, pol, (3, 9, 12, 20) if q else range(0, 30), (1, 3, 5, 6) if q else range(8), kinds=("un",))
    one(STD20, "int", 4, "", range(0, 10), kinds=("un", "bin"))
    one(FB20, "int", 4, ".prefer_aligned()", (0, 3, 5, 9), (0, 1))
    FBOS = Cfg("fallback", "x86-64", "gnu++20", ("-D__OPTIMIZE_SIZE__=1",))
    for s in (3, 8) if q else range(1, 18):
        one(FBOS, "int", s, ".prefer_size<%d>()" % s, range(0, 2 * s + 2, 2 if q else 1), kinds=("un",))
    if not q:
        V4 = Cfg("stdlib", "x86-64-v4", "gnu++20")
        one(V4, "signed char", 64, ".prefer_aligned()", (1, 15, 63, 64, 65, 100, 127, 130), (0, 1, 13, 32, 63), kinds=("un",))
        one(V4, "int", 16, ".prefer_aligned()", range(0, 40, 3), (0, 1, 5, 11, 15))
    # wide chunks: every chunk size of the remainder occurs
    for t, s, ns in (("int", 7, (6, 13, 20)), ("int", 12, (11, 22, 23)), ("int", 16, (7, 15, 16, 24, 28, 31, 47)), ("float", 16, (15, 30, 33)), ("int", 32, (31, 48, 63, 65)),
                     ("int", 24, (23, 46)), ("int", 17, (16, 33)), ("double", 16, (14, 31))):
        one(FB20, t, s, ".prefer_size<%d>()" % s, ns if q else range(0, 3 * s), kinds=("un", "bin"))
    for s, u, ns in ((8, 2, (7, 15, 16, 23, 31, 47)), (4, 4, (15, 17, 31, 45)), (16, 2, (31, 47, 63, 79)), (1, 8, (7, 8, 9, 17)), (5, 3, (14, 16, 29, 37)), (2, 5, (9, 11, 19, 23)), (4, 7, (27, 31, 55))):
        one(FB20, "int", s, ".prefer_size<%d>().unroll_by<%d>()" % (s, u), ns if q else range(0, 3 * s * u), kinds=("un", "bin"))
    # long ranges (up to 2^32 + 11 elements): number of elements passed to the callable, returned iterator
    for cfg, t, pol, n, off in long_grid(tier):
        pre = long_pre(t, n, off)
        obs.append(Ob(cfg, "long.unary." + long_id(t, pol, n, off), SUB, "transform passes exactly N elements to op and returns the end of the output, N too large to unroll", [],
          """const T* p = arr(0x4000000000); T* o = arr(0x400000000000); std::size_t c = 0;
          T* e = vir::transform(ex::simd%s, p, p + N, o, [&](const auto& v) { c += v.size(); return v; }); return c == N && e == o + N;""" % pol, pre))
        obs.append(Ob(cfg, "long.binary." + long_id(t, pol, n, off), SUB, "transform of two ranges passes exactly N pairs to op and returns the end of the output, N too large to unroll", [],
          """const T* p = arr(0x4000000000); const T* p2 = arr(0x8000000008 / sizeof(T) * sizeof(T)); T* o = arr(0x400000000000); std::size_t c = 0, d = 0;
          T* e = vir::transform(ex::simd%s, p, p + N, p2, o, [&](const auto& v, const auto& w) { c += v.size(); d += w.size(); return v; }); return c == N && d == N && e == o + N;""" % pol, pre))
    return uniq(obs)


FLOOR = 200
