from common import *
TITLE = "iota_v counts from zero and cvt converts like an explicit cast"
HDR = hdr("vir/simd.h", "vir/simd_iota.h", "vir/simd_cvt.h")
SI = "vir/simd_iota.h vir::iota_v"
SC = "vir/simd_cvt.h vir::cvt"


def obligations(tier):
    obs = []
    q = tier == "quick"
    def iota(cfg, t, n, V=None):
        N = sz(n)
        pre = "using T = %s; using V = %s; constexpr int N = %d;" % (t, V or fx(t, n), N)
        obs.append(Ob(cfg, "iota.%s.%s%s" % (tid(t), n or "scalar", ".native" if V else ""), SI, "iota_v<V>[i] == i for simd, array, C array; 0 for arithmetic types", [],
          """const V& v = vir::iota_v<V>; bool ok = int(v.size()) == N && std::is_same_v<std::remove_cvref_t<decltype(vir::iota_v<V>)>, V>;
          for (int i = 0; i < N; ++i) ok &= v[i] == T(i);
          const auto& a = vir::iota_v<std::array<T, N>>; for (int i = 0; i < N; ++i) ok &= a[i] == T(i); ok &= a.size() == N;
          const auto& c = vir::iota_v<T[N]>; for (int i = 0; i < N; ++i) ok &= c[i] == T(i); ok &= sizeof(c) == sizeof(T) * N;
          ok &= vir::iota_v<T> == T(); return ok;""", pre))
    def conv(cfg, t, u, n):
        N = sz(n)
        import c04
        dom = ""
        if t in FT and u not in FT:
            dom = "for (int i = 0; i < N; ++i) a[i] = (a[i] > T(-1) && a[i] < T(100)) ? a[i] : T(3);"
        pre = "using T = %s; using U = %s; using V = %s; using W = %s; constexpr int N = %d;" % (t, u, fx(t, n), fx(u, n), N)
        obs.append(Ob(cfg, "cvt.%s.%s.%s" % (tid(t), tid(u), n or "scalar"), SC, "W y = cvt(x) converts every lane like static_cast; also for masks and scalars; x itself is unchanged", [(t, "a", N), ("bool", "m", N)],
          dom + """V x(a, stdx::element_aligned); typename V::mask_type k(m, stdx::element_aligned); bool ok = true;
          W y = vir::cvt(x); typename W::mask_type l = vir::cvt(k); V z = vir::cvt(x); auto c = vir::cvt(x); W y2 = c; U s = vir::cvt(a[0]);
          for (int i = 0; i < N; ++i) { ok &= vp::eq<U>(y[i], static_cast<U>(a[i])) & vp::eq<U>(y2[i], static_cast<U>(a[i])) & (l[i] == m[i]) & vp::eq<T>(z[i], a[i]) & vp::eq<T>(x[i], a[i]); }
          ok &= vp::eq<U>(s, static_cast<U>(a[0])); ok &= std::is_same_v<decltype(c), vir::cvt<V>>;
          W y3 = W(U(1)); y3 = vir::cvt(x); for (int i = 0; i < N; ++i) ok &= vp::eq<U>(y3[i], static_cast<U>(a[i]));
          return ok;""", pre))
    for t in IT + FT:
        for n in (0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 31, 32) if q else range(0, 33):
            iota(FB20, t, n)
            iota(FB23, t, n) if not q else None
        for n in (100, 127, 128, 129, 200, 255, 256, 257, 300, 1000) + ((33000,) if t == "int" else ()):
            for cfg in (FB20, STD20):
                obs.append(Ob(cfg, "iota.array.%s.%d" % (tid(t), n), SI, "iota_v of a long array counts from zero", [], """
                  return std::bool_constant<[] { const auto& a = vir::iota_v<std::array<T, N>>; const auto& c = vir::iota_v<T[N]>; bool ok = a.size() == N && sizeof(c) == sizeof(T) * N;
                    for (int i = 0; i < N; ++i) ok = ok && a[i] == T(i) && c[i] == T(i);
                    return ok; }()>::value;""", "using T = %s; constexpr int N = %d;" % (t, n)))
    ts = ["int", "float", "short", "double", "unsigned char", "unsigned long"]
    for t in IT + FT:
        for u in IT + FT:
            for n in ((0, 4) if t in ts and u in ts else (3,)) if q else (0, 2, 4, 8):
                conv(FB20, t, u, n)
            if t in ts and u in ts:
                for n in (1, 2, 5, 8, 16, 17):
                    conv(FB20, t, u, n)
                for n in (0, 4) if q else (0, 1, 3, 4, 8):
                    conv(STD20, t, u, n)
                    conv(STD20V3, t, u, n)
    for t in ts + ["char16_t", "signed char"]:
        for n in (0, 1, 3, 4, 8, 16, 17, 32):
            iota(STD20, t, n)
            iota(STD20V3, t, n)
        iota(STD20, t, 16 // SIZE[t], V="stdx::native_simd<T>")
        iota(STD20V3, t, 32 // SIZE[t], V="stdx::native_simd<T>")
        iota(FB20V3, t, 32 // SIZE[t], V="stdx::native_simd<T>")
    # a temporary result bound through cvt in one expression
    obs.append(Ob(FB20, "cvt.expr", SC, "x = cvt(f(W(cvt(x)))) as in the documentation", [("int", "a", 4)], """using V = stdx::fixed_size_simd<int, 4>; using W = stdx::fixed_size_simd<float, 4>;
      V x(a, stdx::element_aligned); x = vir::cvt(10 * vp::map1(W(vir::cvt(x)))); bool ok = true;
      for (int i = 0; i < 4; ++i) ok &= x[i] == int(10 * vp::u1<float>(float(a[i]))); return ok;"""))
    obs.append(Ob(FB20, "cvt.constraints", SC, "cvt is not copyable (it only references its argument) and not convertible to unrelated types", [], """using V = stdx::fixed_size_simd<int, 4>; using W = stdx::fixed_size_simd<float, 8>; struct X {};
      return not std::is_copy_constructible_v<vir::cvt<V>> && not std::is_convertible_v<vir::cvt<V>, X> && not std::is_convertible_v<vir::cvt<V>, W> && not std::is_convertible_v<vir::cvt<V>, W::mask_type>
        && std::is_convertible_v<vir::cvt<V>, stdx::fixed_size_simd<float, 4>> && std::is_convertible_v<vir::cvt<int>, float>;"""))
    return uniq(obs)


FLOOR = 100
