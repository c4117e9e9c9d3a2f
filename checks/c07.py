from common import *
TITLE = "Reductions use every selected lane exactly once; min/max/clamp act per lane"
HDR = hdr("vir/simd.h")
SUB = "vir/simd.h stdx::reduce, hmin, hmax, min, max, minmax, clamp"


def obligations(tier):
    obs = []
    q = tier == "quick"
    def add(cfg, id, args, body, desc, pre=""):
        obs.append(Ob(cfg, id, SUB, desc, args, body, pre))
    def red(cfg, t, n):
        N = sz(n)
        nm = "%s.%s" % (tid(t), n or "scalar")
        pre = "using T = %s; using V = %s; using M = V::mask_type; constexpr int N = %d;" % (t, fx(t, n), N)
        A = (t, "a", N)
        if t not in FT:
            for op, f, ident in (("+", "plus", "0"), ("*", "multiplies", "1"), ("&", "bit_and", "T(~T())"), ("|", "bit_or", "0"), ("^", "bit_xor", "0")):
                dflt = "stdx::reduce(x)" if op == "+" else "stdx::reduce(x, std::%s<>())" % f
                add(cfg, "reduce.%s.%s" % (f, nm), [A], """V x(a, stdx::element_aligned); T r = a[0]; for (int i = 1; i < N; ++i) r = T(r %s a[i]);
                  return (stdx::reduce(x, std::%s<>()) == r) & (%s == r) & (stdx::reduce(x, [](const auto& l, const auto& r) { return decltype(l %s r)(l %s r); }) == r);""" %
                    (op, f, dflt, op, op) if SIZE[t] >= 4 else """V x(a, stdx::element_aligned); T r = a[0]; for (int i = 1; i < N; ++i) r = T(r %s a[i]);
                  return (T(stdx::reduce(x, std::%s<>())) == r) & (T(%s) == r);""" % (op, f, dflt),
                    "reduce(x, op) folds all lanes exactly once (wrapping integer arithmetic)", pre)
                if N > 1 and N <= 5 or n == 0:
                    add(cfg, "maskedreduce.%s.%s" % (f, nm), [A, ("bool", "m", N)], """V x(a, stdx::element_aligned); M k(m, stdx::element_aligned);
                      T r = %s; for (int i = 0; i < N; ++i) r = m[i] ? T(r %s a[i]) : r;
                      const V& cx = x;
                      return (T(stdx::reduce(where(k, x), std::%s<>())) == r) & (T(stdx::reduce(where(k, cx), T(%s), std::%s<>())) == r)%s;""" %
                        (ident, op, f, ident, f, " & (T(stdx::reduce(where(k, x))) == r)" if op == "+" else ""),
                        "reduce(where(k, x), op) folds exactly the selected lanes; identity element if none", pre)
        else:
            # exact powers of two: each lane contributes exactly once
            add(cfg, "reduce.exact." + nm, [], """V x([](auto i) { return T(1u << (i % 20)); }); T r = 0; for (int i = 0; i < N; ++i) r += T(1u << (i % 20));
              V y([](auto i) { return i % 2 ? T(2) : T(1); }); T p = 1; for (int i = 0; i < N; ++i) p *= i % 2 ? T(2) : T(1);
              return (stdx::reduce(x) == r) & (stdx::reduce(x, std::plus<>()) == r) & (stdx::reduce(y, std::multiplies<>()) == p);""",
                "floating-point reduce uses each lane exactly once (exactly representable sums)", pre)
            add(cfg, "maskedreduce.exact." + nm, [], """bool ok = true;
              for (int j = 0; j < N; ++j) { V x([](auto i) { return T(1u << (i % 20)); }); M k(true); k[j] = false; T r = 0;
                for (int i = 0; i < N; ++i) if (i != j) r += T(1u << (i % 20));
                ok &= stdx::reduce(where(k, x)) == r; ok &= stdx::reduce(where(k, x), T(0), std::plus<>()) == r; }
              return ok;""", "masked floating-point reduce uses exactly the selected lanes", pre)
        # hmin/hmax: position of the extremum and ties; case split
        vals = "T(i == j ? %s : %s)"
        pm = pre + """
          template <int j> static bool one() { bool ok = true;
            V lo([](auto i) { return T(int(i) == j ? 1 : 2 + (int(i) * 7) % 5); }); ok &= stdx::hmin(lo) == T(1);
            V hi([](auto i) { return T(int(i) == j ? 100 : 2 + (int(i) * 7) % 5); }); ok &= stdx::hmax(hi) == T(100);
            V mn([](auto i) { return int(i) == j ? std::numeric_limits<T>::lowest() : std::numeric_limits<T>::max(); });
            ok &= stdx::hmin(mn) == std::numeric_limits<T>::lowest(); ok &= (N == 1) | (stdx::hmax(mn) == std::numeric_limits<T>::max());
            V mx([](auto i) { return int(i) == j ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest(); });
            ok &= stdx::hmax(mx) == std::numeric_limits<T>::max(); ok &= (N == 1) | (stdx::hmin(mx) == std::numeric_limits<T>::lowest());
            { M k(true); V x = lo; k[j] = false; if (N > 1) { T r = T(100); for (int i = 0; i < N; ++i) if (i != j && x[i] < r) r = x[i];
              ok &= stdx::hmin(where(k, x)) == r; T s = T(0); for (int i = 0; i < N; ++i) if (i != j && hi[i] > s) s = hi[i]; ok &= stdx::hmax(where(k, hi)) == s; } }
            { M k(false); k[j] = true; V x([](auto i) { return T(1 + i); }); ok &= stdx::hmin(where(k, x)) == T(1 + j); ok &= stdx::hmax(where(k, x)) == T(1 + j);
              ok &= stdx::hmin(where(k, mx)) == std::numeric_limits<T>::max(); ok &= stdx::hmax(where(k, mx)) == std::numeric_limits<T>::max();
              ok &= stdx::hmax(where(k, mn)) == std::numeric_limits<T>::lowest(); ok &= stdx::hmin(where(k, mn)) == std::numeric_limits<T>::lowest();
              if constexpr (std::numeric_limits<T>::has_infinity) { V inf = std::numeric_limits<T>::infinity(); V ninf = -inf;
                ok &= stdx::hmin(where(k, inf)) == inf[0]; ok &= stdx::hmax(where(k, ninf)) == ninf[0]; } }
            return ok; }
          template <int... j> static bool all(std::integer_sequence<int, j...>) { return (one<j>() & ...); }"""
        add(cfg, "hminmax." + nm, [], "M k(false); V x = T(5); bool ok = stdx::hmin(where(k, x)) == std::numeric_limits<T>::max() && stdx::hmax(where(k, x)) == std::numeric_limits<T>::lowest(); return ok & all(std::make_integer_sequence<int, N>());",
            "hmin/hmax find the extremum wherever it is, with and without mask (case split over its position); empty selection gives max()/lowest()", pm)
        # element-wise
        nan = "for (int i = 0; i < N; ++i) { if (a[i] != a[i]) a[i] = 0; if (b[i] != b[i]) b[i] = 0; }" if t in FT else ""
        val = "[](T l, T r) { return vp::eq<T>(l, r) | (l == r); }" if t in FT else "[](T l, T r) { return l == r; }"
        add(cfg, "minmax." + nm, [A, (t, "b", N)], nan + """V x(a, stdx::element_aligned), y(b, stdx::element_aligned); bool ok = true; auto same = %s;
          auto mi = stdx::min(x, y); auto ma = stdx::max(x, y); auto pr = stdx::minmax(x, y);
          for (int i = 0; i < N; ++i) { T lo = b[i] < a[i] ? b[i] : a[i]; T hi = a[i] < b[i] ? b[i] : a[i];
            ok &= same(mi[i], lo) & same(ma[i], hi) & same(pr.first[i], lo) & same(pr.second[i], hi); }
          return ok;""" % val, "min/max/minmax select per lane", pre)
        if t not in FT:
            add(cfg, "clamp." + nm, [A, (t, "b", N), (t, "c", N)], """
              V x(a, stdx::element_aligned), l(b, stdx::element_aligned), h(c, stdx::element_aligned); bool ok = true;
              auto r = stdx::clamp(x, l, h);
              for (int i = 0; i < N; ++i) { T want = std::clamp(a[i], b[i], c[i]); ok &= bool((r[i] == want) | (c[i] < b[i])); }
              return ok;""", "clamp(x, lo, hi) clamps every lane to its own bounds", pre)
        else:
            add(cfg, "clamp." + nm, [A], (nan.replace("if (b[i] != b[i]) b[i] = 0;", "") if nan else "") + """
              V x(a, stdx::element_aligned); bool ok = true; auto same = %s;
              V l([](auto i) { return T((int(i) * 5) %% 7 + 2); }), h([](auto i) { return T((int(i) * 5) %% 7 + 6 + int(i) %% 4); });
              auto r = stdx::clamp(x, l, h);
              for (int i = 0; i < N; ++i) { T lo = T((i * 5) %% 7 + 2), hi = T((i * 5) %% 7 + 6 + i %% 4); ok &= same(r[i], std::clamp(a[i], lo, hi)); }
              return ok;""" % val, "clamp(x, lo, hi) clamps every lane to its own bounds", pre)
    ts = ["int", "unsigned", "float", "double", "unsigned char", "short", "long"]
    if q:
        for t in ts:
            for n in (0, 2, 3, 4, 5, 8) if SIZE[t] > 2 else (0, 2, 4, 8, 16):
                red(FB20, t, n)
        for t in ("int", "float"):
            for n in (1, 6, 7, 9, 11, 13, 16, 17, 31, 32):
                red(FB20, t, n)
            red(FB20V3, t, 8)
        for t, n in (("int", 33), ("unsigned char", 7), ("short", 17), ("double", 9), ("long", 12)):
            red(FB20, t, n)
    else:
        for t in ts + ["signed char", "unsigned short", "unsigned long", "long double", "char16_t", "long long"]:
            for n in (0,) + tuple(range(1, 18)) + (23, 31, 32):
                red(FB20, t, n)
            red(FB20V3, t, 8)
    return obs


FLOOR = 250
