from common import *
TITLE = "simd_resize and simd_size_cast keep leading lanes and append value-initialised ones"
HDR = hdr("vir/simd.h", "vir/simd_resize.h")
SUB = "vir/simd_resize.h vir::simd_resize, vir::simd_size_cast"


def obligations(tier):
    obs = []
    q = tier == "quick"
    def add(cfg, id, args, body, desc, pre=""):
        obs.append(Ob(cfg, id, SUB, desc, args, body, pre))
    def rs(cfg, t, n, m, V=None, W=None, mask=True):
        tag = ""
        if V is None:
            V = fx(t, n)
        else:
            tag = ".native"
        W = W or "stdx::simd<T, stdx::simd_abi::fixed_size<%d>>" % m
        tag += "" if n else ".scalar"
        n = n or 1
        pre = "using T = %s; using V = %s; using W = %s; constexpr int N = %d, R = %d;" % (t, V, W, n, m)
        add(cfg, "resize.%s.%d.%d%s" % (tid(t), n, m, tag), [(t, "a", n)], """V x(a, stdx::element_aligned);
          auto r = vir::simd_resize<R>(x); bool ok = int(r.size()) == R && std::is_same_v<decltype(r)::value_type, T> && stdx::is_simd_v<decltype(r)>;
          for (int i = 0; i < R; ++i) ok &= vp::eq<T>(r[i], i < N ? a[i] : T());
          return ok;""", "simd_resize<R>(x)[i] == (i < x.size() ? x[i] : T())", pre)
        add(cfg, "sizecast.%s.%d.%d%s" % (tid(t), n, m, tag), [(t, "a", n)], """V x(a, stdx::element_aligned);
          auto r = vir::simd_size_cast<W>(x); bool ok = int(r.size()) == R && std::is_same_v<decltype(r), W>;
          for (int i = 0; i < R; ++i) ok &= vp::eq<T>(r[i], i < N ? a[i] : T());
          return ok;""", "simd_size_cast<W>(x)[i] == (i < x.size() ? x[i] : T())", pre)
        if mask:
            add(cfg, "resizemask.%s.%d.%d%s" % (tid(t), n, m, tag), [("bool", "a", n)], """V::mask_type x(a, stdx::element_aligned);
              auto r = vir::simd_resize<R>(x); bool ok = int(r.size()) == R && stdx::is_simd_mask_v<decltype(r)>;
              for (int i = 0; i < R; ++i) ok &= r[i] == (i < N ? a[i] : false);
              return ok;""", "simd_resize<R>(mask)[i] == (i < size ? mask[i] : false)", pre)
            add(cfg, "sizecastmask.%s.%d.%d%s" % (tid(t), n, m, tag), [("bool", "a", n)], """V::mask_type x(a, stdx::element_aligned);
              auto r = vir::simd_size_cast<W::mask_type>(x); bool ok = int(r.size()) == R && std::is_same_v<decltype(r), W::mask_type>;
              for (int i = 0; i < R; ++i) ok &= r[i] == (i < N ? a[i] : false);
              return ok;""", "simd_size_cast<M>(mask)[i] == (i < size ? mask[i] : false)", pre)
    ts = ["float", "int", "unsigned char", "double", "short", "unsigned long"]
    sizes = (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 32) if q else tuple(range(0, 18)) + (31, 32)
    for t in ts if q else IT + FT:
        for n in sizes:
            for m in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 32) if q else (1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 32):
                rs(FB20, t, n, m)
                if not q:
                    rs(FB17, t, n, m)
    for t, n in (("float", 4), ("int", 4), ("double", 2)):
        for m in (1, 2, 4, 8):
            rs(STD20, t, n, m, V="stdx::native_simd<T>", mask=False)
        rs(FB17, t, n, 8)
        rs(FB20V3, t, 8, 4)
        rs(FB20V3, t, 4, 8)
    for t, n, m in (("float", 33, 8), ("int", 8, 40), ("unsigned char", 64, 16), ("unsigned char", 16, 64), ("short", 65, 64), ("double", 33, 34), ("float", 3, 64)):
        rs(FB20, t, n, m)
    # libstdc++ types: native ABIs of both instruction sets and fixed_size
    for cfg, w in ((STD20, 16), (STD20V3, 32)):
        for t in ("float", "int", "double", "short", "unsigned char", "unsigned long"):
            n = w // SIZE[t]
            for m in sorted({1, 2, 3, 4, n // 2, n - 1, n, n + 1, 2 * n} & set(range(1, 33))):
                rs(cfg, t, n, m, V="stdx::native_simd<T>")
            for k, m in ((4, 8), (8, 4), (3, 5), (5, 3), (4, 1), (1, 4), (8, 6), (7, 16)):
                rs(cfg, t, k, m)
    # implicit conversion of the argument of simd_size_cast
    return uniq(obs)


FLOOR = 200
