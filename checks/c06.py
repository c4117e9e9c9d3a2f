from common import *
TITLE = "split and concat partition and join lanes in order"
HDR = hdr("vir/simd.h")
SUB = "vir/simd.h stdx::split, stdx::concat"


def ab(n):
    return "scalar" if n == 1 else "fixed_size<%d>" % n


def obligations(tier):
    obs = []
    q = tier == "quick"
    def add(cfg, id, args, body, desc, pre=""):
        obs.append(Ob(cfg, id, SUB, desc, args, body, pre))
    def sp(cfg, t, n, part, scalar=False):
        P = n // part
        W = "stdx::simd<T, stdx::simd_abi::%s>" % ("scalar" if scalar else "fixed_size<%d>" % part)
        pre = "using T = %s; using V = %s; using W = %s; constexpr int N = %d, K = %d, P = %d;" % (t, fx(t, n), W, n, part, P)
        add(cfg, "split.%s.%d.%d%s" % (tid(t), n, part, "s" if scalar else ""), [(t, "a", n)], """V x(a, stdx::element_aligned);
          auto r = stdx::split<W>(x); bool ok = std::is_same_v<decltype(r), std::array<W, P>>;
          for (int p = 0; p < P; ++p) for (int i = 0; i < K; ++i) ok &= vp::eq<T>(r[p][i], a[p * K + i]);
          auto y = stdx::concat(r); ok &= int(y.size()) == N;
          for (int i = 0; i < N; ++i) ok &= vp::eq<T>(y[i], a[i]) & vp::eq<T>(x[i], a[i]);
          return ok;""", "split<V>(x)[p][i] == x[p * V::size() + i]; concat(split(x)) == x", pre)
        add(cfg, "splitmask.%s.%d.%d%s" % (tid(t), n, part, "s" if scalar else ""), [("bool", "a", n)], """V::mask_type x(a, stdx::element_aligned);
          using MW = W::mask_type;
          auto r = stdx::split<MW>(x); bool ok = std::is_same_v<decltype(r), std::array<MW, P>>;
          for (int p = 0; p < P; ++p) for (int i = 0; i < K; ++i) ok &= r[p][i] == a[p * K + i];
          auto y = stdx::concat(r); ok &= int(y.size()) == N;
          for (int i = 0; i < N; ++i) ok &= y[i] == a[i];
          return ok;""", "the same for masks", pre)
    def sizes(cfg, t, ss):
        n = sum(ss)
        pre = "using T = %s; using V = %s; constexpr int N = %d;" % (t, fx(t, n), n)
        body = "V x(a, stdx::element_aligned); auto r = stdx::split<%s>(x); bool ok = true; int o = 0;\n" % ", ".join(map(str, ss))
        body += "ok &= std::tuple_size_v<decltype(r)> == %d;\n" % len(ss)
        for i, s in enumerate(ss):
            body += "{ const auto& p = std::get<%d>(r); ok &= int(p.size()) == %d; for (int i = 0; i < %d; ++i) ok &= vp::eq<T>(p[i], a[o + i]); o += %d; }\n" % (i, s, s, s)
        body += "auto y = std::apply([](const auto&... p) { return stdx::concat(p...); }, r); ok &= int(y.size()) == N; for (int i = 0; i < N; ++i) ok &= vp::eq<T>(y[i], a[i]); return ok;"
        add(cfg, "sizes.%s.%s" % (tid(t), "_".join(map(str, ss))), [(t, "a", n)], body,
            "split<Sizes...>(x): part k holds the Sizes[k] lanes following the previous parts; concat restores x", pre)
    def cat(cfg, t, ss):
        n = sum(ss)
        pre = "using T = %s;" % t
        body = ""
        o = 0
        for i, s in enumerate(ss):
            body += "stdx::simd<T, stdx::simd_abi::%s> x%d(a + %d, stdx::element_aligned);\n" % (ab(s), i, o)
            o += s
        xs = ", ".join("x%d" % i for i in range(len(ss)))
        body += "auto y = stdx::concat(%s); bool ok = y.size() == %d && std::is_same_v<decltype(y)::value_type, T>; for (int i = 0; i < %d; ++i) ok &= vp::eq<T>(y[i], a[i]); return ok;" % (xs, n, n)
        add(cfg, "concat.%s.%s" % (tid(t), "_".join(map(str, ss))), [(t, "a", n)], body, "concat(x...) holds the lanes of all arguments in order", pre)
        body = ""
        o = 0
        for i, s in enumerate(ss):
            body += "stdx::simd_mask<T, stdx::simd_abi::%s> x%d(a + %d, stdx::element_aligned);\n" % (ab(s), i, o)
            o += s
        body += "auto y = stdx::concat(%s); bool ok = y.size() == %d; for (int i = 0; i < %d; ++i) ok &= y[i] == a[i]; return ok;" % (xs, n, n)
        add(cfg, "concatmask.%s.%s" % (tid(t), "_".join(map(str, ss))), [("bool", "a", n)], body, "concat(mask...) holds the lanes of all arguments in order", pre)
    ts = ["float", "int", "unsigned char", "double", "short", "long double", "unsigned long"]
    for t in ts if q else IT + FT:
        for n, p in ((8, 4), (8, 2), (6, 3), (4, 1), (9, 3), (12, 4), (8, 8), (5, 5), (32, 8), (32, 2), (10, 5), (15, 5), (16, 1), (24, 8), (64, 32), (66, 11)) if q else \
                [(n, p) for n in range(1, 33) for p in range(1, n + 1) if n % p == 0]:
            sp(FB20, t, n, p)
        sp(FB20, t, 4, 1, True)
        sp(FB20V3, t, 8, 4)
        for ss in ((4, 4), (1, 2), (3, 1, 4), (2, 2, 1), (1, 1, 1, 1), (5, 3), (7,), (2, 6, 3, 5), (8, 8, 1), (1, 16), (16, 1), (17, 3), (4, 4, 4, 4, 4), (1, 2, 3, 4, 5, 6), (32, 32), (32, 1, 7)) if q else \
                [(a, b) for a in range(1, 9) for b in range(1, 9)] + [(a, b, c) for a in (1, 2, 3, 5, 8) for b in (1, 2, 4, 7) for c in (1, 3, 4)]:
            sizes(FB20, t, ss) if len(ss) > 1 else None
            cat(FB20, t, ss)
    add(FB20, "self", [("float", "a", 4)], """stdx::simd<float, stdx::simd_abi::fixed_size<4>> x(a, stdx::element_aligned);
        auto r = stdx::split<decltype(x)>(x); bool ok = std::is_same_v<decltype(r), std::array<decltype(x), 1>>;
        for (int i = 0; i < 4; ++i) ok &= vp::eq<float>(r[0][i], a[i]); return ok;""", "split<V>(V) is a one-element array")
    return obs


FLOOR = 250
