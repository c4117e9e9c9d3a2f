from common import *
TITLE = "reduce, transform_reduce and count_if use init and every element exactly once"
HDR = "#include <algorithm>\n#include <numeric>\n" + hdr("vir/simd.h", "vir/simd_execution.h") + "namespace ex = vir::execution;\n"
SUB = "vir/simd_execution.h vir::transform_reduce, vir::reduce, vir::count_if and the std:: overloads"


def pad(t, size, pol):
    u = int(pol.split("unroll_by<")[1][0]) if "unroll_by" in pol else 1
    return 64 // SIZE[t] * (-(-size * u * SIZE[t] // 64))


def obligations(tier):
    obs = []
    q = tier == "quick"
    def one(cfg, t, size, pol, ns, offs=(0,), kinds=("tr", "inner", "red", "cnt")):
        for off in offs:
            for n in ns:
                pre = "using T = %s; constexpr int N = %d, PAD = %d, OFF = %d;" % (t, n, pad(t, size, pol), off)
                P = "ex::simd" + pol
                id = "%s.%s%s.n%d.o%d" % (tid(t), size, pol.replace("()", "").replace("<", "").replace(">", ""), n, off)
                decl = "alignas(64) T x[PAD + OFF + N + PAD] = {}; for (int i = 0; i < N; ++i) x[PAD + OFF + i] = a[i]; const T* const f = x + PAD + OFF; const T* const l = f + N;\n"
                A = (t, "a", n + 1)
                if "tr" in kinds:
                    obs.append(Ob(cfg, "treduce." + id, SUB, "transform_reduce(policy, f, l, init, +, op) == init + op(x[0]) + ... (wrapping arithmetic)", [A, (t, "c", 1)], decl +
                      "T r = vir::transform_reduce(%s, f, l, c[0], std::plus<>(), [](const auto& v) { return vp::map1(v); }); T e = c[0]; for (int i = 0; i < N; ++i) e = T(e + vp::u1<T>(a[i])); return r == e;" % P, pre))
                if "inner" in kinds:
                    obs.append(Ob(cfg, "inner." + id, SUB, "the two-range transform_reduce combines corresponding elements, each exactly once", [A, (t, "b", n + 1), (t, "c", 1)], decl +
                      """alignas(64) T z[N + PAD] = {}; for (int i = 0; i < N; ++i) z[1 + i] = b[i];
                      T r = vir::transform_reduce(%s, f, l, z + 1, c[0], std::bit_xor<>(), [](const auto& v, const auto& w) { return vp::map2(v, w); }); T e = c[0]; for (int i = 0; i < N; ++i) e = T(e ^ vp::u2<T>(a[i], b[i])); return r == e;""" % P, pre))
                if "red" in kinds:
                    obs.append(Ob(cfg, "reduce." + id, SUB, "reduce(policy, f, l[, init[, op]]) is the generalised sum of init and all elements", [A, (t, "c", 1)], decl +
                      """T r = vir::reduce(%s, f, l), s = vir::reduce(%s, f, l, c[0]), u = vir::reduce(%s, f, l, c[0], std::multiplies<>()); T e = 0, g = 1; for (int i = 0; i < N; ++i) { e = T(e + a[i]); g = T(g * a[i]); }
                      return (r == e) & (s == T(e + c[0])) & (u == T(g * c[0]));""" % (P, P, P), pre))
                if "cnt" in kinds:
                    obs.append(Ob(cfg, "count." + id, SUB, "count_if(policy, f, l, pred) is the number of elements for which pred holds; for every position of the single (non-)matching element", [],
                      "auto one = [](int j) __attribute__((always_inline)) { alignas(64) T x[PAD + OFF + N + PAD] = {}; for (int i = 0; i < PAD + OFF + N + PAD; ++i) x[i] = 1; const T* const f = x + PAD + OFF; for (int i = 0; i < N; ++i) x[PAD + OFF + i] = i == j;\n"
                      "return (vir::count_if(%s, f, f + N, eq1{}) == (j < N)) & (vir::count_if(%s, f, f + N, eq0{}) == N - (j < N)); };\n" % (P, P) +
                      "return %s;" % " & ".join("one(%d)" % j for j in sorted(set(range(n + 1) if n < 8 or not q else [0, 1, n // 2, n - 2, n - 1, n]))), pre + """
                      struct eq1 { auto operator()(const auto& v) const { return v == T(1); } }; struct eq0 { auto operator()(const auto& v) const { return v == T(0); } };"""))
    def flt(cfg, t, size, pol, ns):
        for n in ns:
            P = "ex::simd" + pol
            pre = "using T = %s; constexpr int N = %d, PAD = %d;" % (t, n, pad(t, size, pol))
            obs.append(Ob(cfg, "exact.%s.%s%s.n%d" % (tid(t), size, pol.replace("()", "").replace("<", "").replace(">", ""), n), SUB,
              "floating-point reductions use init and each element exactly once (exactly representable sums)", [],
              """alignas(64) T x[PAD + N + PAD] = {}, z[N + PAD] = {}; for (int i = 0; i < N; ++i) { x[PAD + i] = T(1u << (i % 18)); z[i] = T(1 + i % 3); } const T* const f = x + PAD;
              T e = 0, g = 0; for (int i = 0; i < N; ++i) { e += T(1u << (i % 18)); g += T(1u << (i % 18)) * T(1 + i % 3); }
              return (vir::reduce(POL, f, f + N) == e) & (vir::reduce(POL, f, f + N, T(0.5)) == e + T(0.5)) & (vir::transform_reduce(POL, f, f + N, z, T(3)) == g + T(3))
                & (vir::transform_reduce(POL, f, f + N, T(3), std::plus<>(), [](auto v) { return v + v; }) == e + e + T(3));""".replace("POL", P), pre))
    def rng(cfg, t):
        L = 32 // SIZE[t] + 3
        pre = "using T = %s; constexpr int L = %d;" % (t, L)
        obs.append(Ob(cfg, "range." + tid(t), SUB, "range overloads and std:: overloads agree with the iterator overloads", [(t, "a", L), (t, "b", L), (t, "c", 1)],
          """std::array<T, L> x, z; for (int i = 0; i < L; ++i) { x[i] = a[i]; z[i] = b[i]; }
          auto g = [](const auto& v) { return vp::map1(v); }; auto h = [](const auto& v, const auto& w) { return vp::map2(v, w); };
          T e = 0, i1 = 0, u = 0, w = 0; for (int i = 0; i < L; ++i) { e = T(e + a[i]); i1 = T(i1 + a[i] * b[i]); u = T(u + vp::u1<T>(a[i])); w = T(w + vp::u2<T>(a[i], b[i])); }
          bool ok = true; const T k = c[0];
          ok &= vir::reduce(ex::simd, x) == e; ok &= vir::reduce(ex::simd, x, k) == T(e + k); ok &= vir::reduce(ex::simd, x, k, std::plus<>()) == T(e + k);
          ok &= std::reduce(ex::simd, x.begin(), x.end()) == e; ok &= std::reduce(ex::simd, x.begin(), x.end(), k) == T(e + k); ok &= std::reduce(ex::simd, x.begin(), x.end(), k, std::plus<>()) == T(e + k);
          ok &= vir::transform_reduce(ex::simd, x, z, k) == T(i1 + k); ok &= vir::transform_reduce(ex::simd, x.begin(), x.end(), z.begin(), k) == T(i1 + k); ok &= std::transform_reduce(ex::simd, x.begin(), x.end(), z.begin(), k) == T(i1 + k);
          ok &= vir::transform_reduce(ex::simd, x, k, std::plus<>(), g) == T(u + k); ok &= std::transform_reduce(ex::simd, x.begin(), x.end(), k, std::plus<>(), g) == T(u + k);
          ok &= vir::transform_reduce(ex::simd, x, z, k, std::plus<>(), h) == T(w + k); ok &= std::transform_reduce(ex::simd, x.begin(), x.end(), z.begin(), k, std::plus<>(), h) == T(w + k);
          return ok;""", pre))
        obs.append(Ob(cfg, "countrange." + tid(t), SUB, "count_if: range and std:: overloads", [],
          """std::array<T, L> x; int e = 0; for (int i = 0; i < L; ++i) { x[i] = T((i * 5) % 7); e += (i * 5) % 7 < 3; } auto p = [](const auto& v) { return v < T(3); };
          return (vir::count_if(ex::simd, x, p) == e) & (vir::count_if(ex::simd, x.begin(), x.end(), p) == e) & (std::count_if(ex::simd, x.begin(), x.end(), p) == e);""", pre))
    all4 = ("tr", "inner", "red", "cnt")
    one(FB20, "int", 4, "", range(0, 14))
    for s in (1, 2, 3, 4, 5, 6, 8) if q else range(1, 18):
        one(FB20, "int", s, ".prefer_size<%d>()" % s, range(0, 2 * s + 4), kinds=("tr", "inner", "cnt") if q else all4)
        flt(FB20, "float", s, ".prefer_size<%d>()" % s, range(0, 2 * s + 3, 2 if q else 1))
    for s, u in ((2, 2), (4, 2), (2, 3), (1, 4), (3, 2), (2, 4)) if q else [(s, u) for s in (1, 2, 3, 4, 5, 8) for u in (2, 3, 4, 5, 6, 7, 8)]:
        one(FB20, "int", s, ".prefer_size<%d>().unroll_by<%d>()" % (s, u), range(0, 3 * s * u + s + 2), kinds=("tr", "cnt") if q else all4)
    for u in (5, 6, 7, 8):
        one(FB20, "int", 2, ".prefer_size<2>().unroll_by<%d>()" % u, (2 * u, 4 * u, 4 * u + 3, 6 * u + 1), kinds=("tr",))
    one(FB20, "int", 4, ".unroll_by<2>()", range(6, 18, 3) if q else range(0, 30))
    for s in (2, 4, 5):
        one(FB20, "int", s, ".prefer_size<%d>().assume_matching_size()" % s, [k * s for k in range(0, 5)])
    one(FB20, "int", 2, ".prefer_size<2>().unroll_by<2>().assume_matching_size()", [0, 2, 4, 6, 8, 10, 12])
    for t in ("unsigned", "long", "unsigned long"):
        one(FB20, t, 4, ".prefer_size<4>()", (0, 1, 3, 4, 6, 7, 9))
        rng(FB20, t)
    rng(FB20, "int")
    flt(FB20, "double", 2, "", range(0, 8))
    flt(FB20, "float", 4, ".unroll_by<2>()", (0, 7, 8, 15, 16, 17, 25))
    for pol in (".prefer_aligned()", ".auto_prologue()"):
        one(STD20, "int", 4, pol, range(0, 11) if q else range(0, 21), (0, 1, 2, 3), kinds=("tr",) if q else ("tr", "inner", "red"))
        one(STD20, "int", 4, pol + ".unroll_by<2>()", (3, 9, 15, 18) if q else range(0, 25), (0, 1, 3) if q else (0, 1, 2, 3), kinds=("tr",))
        one(STD20V3, "int", 8, pol, (1, 5, 7, 8, 15, 17, 23) if q else range(0, 33), (1, 3, 4, 7) if q else range(8), kinds=("tr",) if q else ("tr", "inner", "red"))
        one(STD20, "long", 2, pol, range(0, 6), (0, 1), kinds=("tr", "inner"))
    one(STD20, "int", 4, "", range(0, 10), kinds=("tr", "inner", "red", "cnt"))
    one(FB20, "int", 4, ".prefer_aligned()", (0, 3, 5, 9), (0, 1))
    FBOS = Cfg("fallback", "x86-64", "gnu++20", ("-D__OPTIMIZE_SIZE__=1",))
    for s in (3, 8) if q else range(1, 18):
        one(FBOS, "int", s, ".prefer_size<%d>()" % s, range(0, 2 * s + 2, 2 if q else 1), kinds=("tr", "cnt"))
    # wide chunks: every chunk size of the remainder occurs
    for t, s, ns in (("int", 7, (6, 13, 20)), ("int", 12, (11, 22, 23)), ("int", 16, (7, 15, 16, 24, 28, 31, 47)), ("int", 32, (31, 48, 63, 65)),
                     ("int", 24, (23, 46)), ("int", 17, (16, 33))):
        one(FB20, t, s, ".prefer_size<%d>()" % s, ns if q else range(0, 3 * s), kinds=("tr", "inner"))
    for s, u, ns in ((8, 2, (7, 15, 16, 23, 31, 47)), (4, 4, (15, 17, 31, 45)), (16, 2, (31, 47, 63, 79)), (1, 8, (7, 8, 9, 17)), (5, 3, (14, 16, 29, 37)), (3, 5, (9, 16, 29, 34)), (4, 7, (27, 31, 55))):
        one(FB20, "int", s, ".prefer_size<%d>().unroll_by<%d>()" % (s, u), ns if q else range(0, 3 * s * u), kinds=("tr", "inner"))
    # long ranges (up to 2^32 + 11 elements): number of elements used
    for cfg, t, pol, n, off in long_grid(tier):
        if q and (n in (20003, 70001)) == (cfg.march == "x86-64"):      # half of the grid
            continue
        pre = long_pre(t, n, off)
        pre += " template <class V> using U = stdx::rebind_simd_t<unsigned, V>;" if False else " template <class V> using U = vir::simdize<unsigned, int(V::size())>;"
        if cfg.backend == "stdlib" and not (q and off == 0 and n > 70001):
          obs.append(Ob(cfg, "long.treduce." + long_id(t, pol, n, off), SUB, "transform_reduce with an op that is constantly 1 gives init + N, N too large to unroll", [("unsigned", "c", 1)],
          """const T* p = arr(0x4000000000);
          unsigned r = vir::transform_reduce(ex::simd%s, p, p + N, c[0], std::plus<>(), []<class V>(const V&) { return U<V>(1u); }); return r == unsigned(c[0] + N);""" % pol, pre))
          obs.append(Ob(cfg, "long.inner." + long_id(t, pol, n, off), SUB, "transform_reduce of two ranges with an op that is constantly 1 gives init + N, N too large to unroll", [("unsigned", "c", 1)],
          """const T* p = arr(0x4000000000); const T* p2 = arr(0x8000000008 / sizeof(T) * sizeof(T));
          unsigned r = vir::transform_reduce(ex::simd%s, p, p + N, p2, c[0], std::plus<>(), []<class V>(const V&, const auto&) { return U<V>(1u); }); return r == unsigned(c[0] + N);""" % pol, pre))
        if n < 1 << 31:
            obs.append(Ob(cfg, "long.count." + long_id(t, pol, n, off), SUB, "count_if with a predicate that is constantly true gives N, with one that is constantly false 0, N too large to unroll", [],
              """const T* p = arr(0x4000000000); return vir::count_if(ex::simd%s, p, p + N, []<class V>(const V&) { return typename V::mask_type(true); }) == int(N)
              && vir::count_if(ex::simd%s, p, p + N, []<class V>(const V&) { return typename V::mask_type(false); }) == 0;""" % (pol, pol), pre))
    return uniq(obs)


FLOOR = 200
