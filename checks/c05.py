from common import *
import c04
TITLE = "Casts convert lane by lane: static_simd_cast, simd_cast, to_fixed_size/native/compatible"
HDR = hdr("vir/simd.h", "vir/simd_cast.h")
SUB = "vir/simd.h stdx::static_simd_cast, simd_cast, to_fixed_size, to_native, to_compatible"


def obligations(tier):
    obs = []
    q = tier == "quick"
    def add(cfg, id, args, body, desc, pre=""):
        obs.append(Ob(cfg, id, SUB, desc, args, body, pre))
    def cast(cfg, t, u, n):
        N = sz(n)
        pre = "using T = %s; using U = %s; using V = %s; using W = %s; constexpr int N = %d;" % (t, u, fx(t, n), fx(u, n), N)
        pre += "template <class X, class Y> constexpr bool can = requires(const Y& y) { stdx::simd_cast<X>(y); };" if cfg.std != "gnu++17" else ""
        dom = c04.domain(u, t, "a", "N")
        body = dom + """W w(a, stdx::element_aligned);
          auto x = stdx::static_simd_cast<T>(w); auto y = stdx::static_simd_cast<V>(w); auto z = vir::static_simd_cast<V>(w);
          auto ref = [&](int i) { return T(a[i]); };
          bool ok = std::is_same_v<decltype(x), V> && std::is_same_v<decltype(y), V>;
          ok &= vp::lanes(x, N, ref) & vp::lanes(y, N, ref) & vp::lanes(z, N, ref) & vp::lanes(w, N, [&](int i) { return a[i]; });
          """
        if cfg.std != "gnu++17":
            body += "if (can<T, W> != %s || can<V, W> != %s) return false;\n" % ((str(vpres(u, t)).lower(),) * 2)
        if cfg.std != "gnu++17" and vpres(u, t):
            body += """{ auto c = stdx::simd_cast<T>(w); auto d = stdx::simd_cast<V>(w);
              ok &= std::is_same_v<decltype(c), V> && std::is_same_v<decltype(d), V>;
              ok &= vp::lanes(c, N, ref) & vp::lanes(d, N, ref); }
              """
        add(cfg, "cast.%s.%s.%s" % (tid(t), tid(u), n or "scalar"), [(u, "a", N)], body + "return ok;",
            "static_simd_cast<T or simd<T>>(x)[i] == T(x[i]); simd_cast exists iff the conversion is value-preserving, with the same result", pre)
    def tofrom(cfg, t):
        pre = "using T = %s; using N_ = stdx::native_simd<T>; using C_ = stdx::simd<T>; constexpr int N = N_::size(); constexpr int C = C_::size();" % t
        # native width depends on the target: size is at most 64 bytes; the argument arrays are 64 elements wide at most
        cnt = max(1, 64 // SIZE[t])
        add(cfg, "to.%s" % tid(t), [(t, "a", cnt)], """
          N_ nat(a, stdx::element_aligned); C_ com(a, stdx::element_aligned);
          stdx::fixed_size_simd<T, N> fn(a, stdx::element_aligned); stdx::fixed_size_simd<T, C> fc(a, stdx::element_aligned);
          auto ref = [&](int i) { return a[i]; };
          auto r1 = stdx::to_fixed_size(nat); auto r2 = stdx::to_fixed_size(com); auto r3 = stdx::to_native(fn); auto r4 = stdx::to_compatible(fc); auto r5 = stdx::to_fixed_size(fn);
          bool ok = std::is_same_v<decltype(r1), stdx::fixed_size_simd<T, N>> && std::is_same_v<decltype(r2), stdx::fixed_size_simd<T, C>>
            && std::is_same_v<decltype(r3), N_> && std::is_same_v<decltype(r4), C_> && std::is_same_v<decltype(r5), stdx::fixed_size_simd<T, N>>;
          return ok & vp::lanes(r1, N, ref) & vp::lanes(r2, C, ref) & vp::lanes(r3, N, ref) & vp::lanes(r4, C, ref) & vp::lanes(r5, N, ref);""",
            "to_fixed_size, to_native, to_compatible keep every lane and yield the documented type", pre)
        add(cfg, "tomask.%s" % tid(t), [("bool", "a", cnt)], """
          using NM = stdx::native_simd_mask<T>; using CM = stdx::simd_mask<T>;
          NM nat(a, stdx::element_aligned); CM com(a, stdx::element_aligned);
          stdx::fixed_size_simd_mask<T, N> fn(a, stdx::element_aligned); stdx::fixed_size_simd_mask<T, C> fc(a, stdx::element_aligned);
          auto r1 = stdx::to_fixed_size(nat); auto r2 = stdx::to_fixed_size(com); auto r3 = stdx::to_native(fn); auto r4 = stdx::to_compatible(fc);
          bool ok = std::is_same_v<decltype(r1), stdx::fixed_size_simd_mask<T, N>> && std::is_same_v<decltype(r3), NM> && std::is_same_v<decltype(r4), CM>;
          for (int i = 0; i < N; ++i) ok &= (r1[i] == a[i]) & (r3[i] == a[i]);
          for (int i = 0; i < C; ++i) ok &= (r2[i] == a[i]) & (r4[i] == a[i]);
          return ok;""", "to_fixed_size, to_native, to_compatible on masks keep every lane", pre)
        add(cfg, "toscalar.%s" % tid(t), [(t, "a", 1), ("bool", "k", 1)], """
          using S_ = stdx::simd<T, stdx::simd_abi::scalar>; S_ s(a[0]); typename S_::mask_type m(k[0]);
          auto r = stdx::to_fixed_size(s); auto q = stdx::to_fixed_size(m);
          bool ok = std::is_same_v<decltype(r), stdx::fixed_size_simd<T, 1>> && std::is_same_v<decltype(q), stdx::fixed_size_simd_mask<T, 1>>;
          stdx::fixed_size_simd<T, 1> f(a[0]); stdx::fixed_size_simd_mask<T, 1> g(k[0]);
          auto r2 = stdx::to_fixed_size(f); auto q2 = stdx::to_fixed_size(g);
          ok &= std::is_same_v<decltype(r2), decltype(f)> && std::is_same_v<decltype(q2), decltype(g)>;
          return ok & vp::eq<T>(r[0], a[0]) & (bool(q[0]) == k[0]) & vp::eq<T>(r2[0], a[0]) & (bool(q2[0]) == k[0]);""",
            "to_fixed_size of a simd or mask with the scalar ABI yields fixed_size<1> with the same element", pre)
    types = IT + FT
    cs = ("int", "float", "unsigned char", "double", "long", "unsigned short")
    for t in types:
        for u in types:
            cast(FB20, t, u, 3)
            cast(FB20, t, u, 0)
            cast(FB20, t, u, 8)
            for n in (1, 2, 4, 5, 7, 12, 16, 17, 32, 33, 65) if q else (1, 2, 4, 5, 6, 7, 9, 12, 15, 16, 17, 31, 32):
                if not q or (t in cs and u in cs):
                    cast(FB20, t, u, n)
            if not q:
                cast(FB20V3, t, u, 8)
                cast(FB17, t, u, 5)
        tofrom(FB20, t)
        tofrom(FB20V3, t)
    for t, u in (("float", "int"), ("int", "float"), ("double", "float"), ("short", "long")):
        cast(FB17, t, u, 4)
        cast(FB20V3, t, u, 16)
    # size mismatch is rejected
    add(FB20, "mismatch", [], """using W = stdx::fixed_size_simd<float, 4>;
        return !can<stdx::fixed_size_simd<int, 8>, W> && !can<stdx::fixed_size_simd<int, 3>, W> && !can<stdx::simd<int, stdx::simd_abi::scalar>, W>
           && !can<stdx::fixed_size_simd_mask<int, 8>, W::mask_type> && can<stdx::fixed_size_simd_mask<int, 4>, W::mask_type>
           && can<stdx::fixed_size_simd<int, 4>, W>;""",
        "static_simd_cast to a type with a different number of elements is rejected",
        "template <class X, class Y> constexpr bool can = requires(const Y& y) { stdx::static_simd_cast<X>(y); };")
    return uniq(obs)


FLOOR = 300
