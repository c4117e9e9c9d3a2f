from common import *
TITLE = "simd_permute, the predefined permutations and simd_shift_in move exactly the requested lanes"
HDR = hdr("vir/simd.h", "vir/simd_permute.h") + "namespace pm = vir::simd_permutations;\n"
SUB = "vir/simd_permute.h vir::simd_permute, vir::simd_permutations, vir::simd_shift_in"


def obligations(tier):
    obs = []
    q = tier == "quick"
    def add(cfg, id, args, body, desc, pre=""):
        obs.append(Ob(cfg, id, SUB, desc, args, body, pre))
    def perms(n):
        """(id, C++ permutation expression, python index map, output size)"""
        ps = [("bfirst", "pm::broadcast_first", lambda i: 0, 0), ("blast", "pm::broadcast_last", lambda i: n - 1, 0),
              ("reverse", "pm::reverse", lambda i: n - 1 - i, 0),
              ("ident", "[](auto i) { return int(i); }", lambda i: i, 0),
              ("neg", "[](int i) { return i - %d; }" % n, lambda i: i, 0),
              ("minus1", "[](unsigned) { return -1; }", lambda i: n - 1, 0),
              ("mix", "[](auto i, auto size) { return int((i * 7 + 3) %% size); }".replace("%%", "%"), lambda i: (i * 7 + 3) % n, 0),
              ("zeros", "[](int i) { return i %% 3 == 1 ? vir::simd_permute_zero : %d - 1 - i; }".replace("%%", "%%") % n, lambda i: None if i % 3 == 1 else n - 1 - i, 0),
              ("allzero", "[](int) { return vir::simd_permute_zero; }", lambda i: None, 0),
              ("uninit", "[](int i) { return i == %d ? vir::simd_permute_uninit : -1 - i; }" % (n // 2), lambda i: -9 if i == n // 2 else n - 1 - i, 0)]
        if n % 2 == 0:
            ps += [("dupeven", "pm::duplicate_even", lambda i: i - i % 2, 0), ("dupodd", "pm::duplicate_odd", lambda i: i - i % 2 + 1, 0)]
        for k in (1, 2, 3, 4, 5, 6, 8):
            if n % (2 * k) == 0:
                ps.append(("swap%d" % k, "pm::swap_neighbors<%d>" % k,
                           lambda i, k=k: i + k if i % (2 * k) < k else i - k, 0))
        for k in sorted({-n, -n + 1, -1, 0, 1, n // 2, n - 1}):
            if -n <= k < n:
                ps.append(("bcast%d" % k, "pm::broadcast<%d>" % k, lambda i, k=k: k % n, 0))
        for k in sorted({-2 * n - 1, -n - 2, -n - 1, -n, -n + 1, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, n // 2, n - 1, n, n + 1, n + 2, 2 * n + 3, 129, 257, 65537, -130, -259}):
            ps.append(("rot%d" % k, "pm::rotate<%d>" % k, lambda i, k=k: (i + k) % n, 0))
        for k in sorted({-n - 1, -n, -n + 1, -3, -2, -1, 0, 1, 2, 3, n // 2, n - 1, n, n + 1, 128, 256, 65536, -127, -256}):
            ps.append(("shift%d" % k, "pm::shift<%d>" % k, lambda i, k=k: i + k if 0 <= i + k < n else None, 0))
        for out in sorted({1, 2, 3, 4, 5, 8, n + 1, 2 * n} & set(range(33))):
            ps.append(("out%d" % out, "[](auto i) { return int(i * 5 + 1) %% %d; }" % n, lambda i: (i * 5 + 1) % n, out))
            ps.append(("outrev%d" % out, "[](auto i) { return -1 - int(i) %% %d; }" % n, lambda i: n - 1 - i % n, out))
        return ps
    def run_perms(cfg, t, n, mask=False, grp=5, V=None, tag=""):
        V = V or (fx(t, n) + ("::mask_type" if mask else ""))
        n = n or 1
        pre = "using T = %s; using V = %s; constexpr int N = %d;" % ("bool" if mask else t, V, n)
        ps = perms(n)
        for g in range(0, len(ps), grp):
            body = "V x(a, stdx::element_aligned); bool ok = true;\n"
            for id, expr, f, out in ps[g:g + grp]:
                N = out or n
                body += "{ auto r = vir::simd_permute%s(x, %s); ok &= int(r.size()) == %d;" % ("<%d>" % out if out else "", expr, N)
                if not out:
                    body += " ok &= std::is_same_v<decltype(r), stdx::resize_simd_t<N, V>>;"
                for i in range(N):
                    j = f(i)
                    if j == -9:
                        continue
                    body += " ok &= vp::eq<T>(r[%d], %s);" % (i, "T()" if j is None else "a[%d]" % j)
                body += " }\n"
            add(cfg, "permute.%s%s.%d%s.%s" % ("mask." if mask else "", tid(t), n, tag, "+".join(p[0] for p in ps[g:g + grp])),
                [("bool" if mask else t, "a", n)], body + "return ok;",
                "simd_permute(x, f)[i] == x[f(i)] (negative: from the end, simd_permute_zero: 0)", pre)
    def scalar(cfg, t):
        pre = "using T = %s;" % t
        add(cfg, "scalar." + tid(t), [(t, "a", 1)], """T x = a[0]; bool ok = true;
          ok &= vp::eq<T>(vir::simd_permute(x, pm::reverse), x); ok &= vp::eq<T>(vir::simd_permute(x, pm::rotate<3>), x); ok &= vp::eq<T>(vir::simd_permute(x, pm::rotate<-1>), x);
          ok &= vp::eq<T>(vir::simd_permute(x, pm::broadcast_last), x); ok &= vp::eq<T>(vir::simd_permute(x, pm::broadcast_first), x);
          ok &= vp::eq<T>(vir::simd_permute(x, pm::shift<1>), T()); ok &= vp::eq<T>(vir::simd_permute(x, pm::shift<-1>), T()); ok &= vp::eq<T>(vir::simd_permute(x, pm::shift<0>), x);
          ok &= vp::eq<T>(vir::simd_permute<1>(x, [](int) { return -1; }), x);
          ok &= std::is_same_v<decltype(vir::simd_permute(x, pm::reverse)), T>;
          auto r = vir::simd_permute<4>(x, [](int i) { return i == 2 ? vir::simd_permute_zero : i == 1 ? -1 : 0; }); ok &= r.size() == 4;
          for (int i = 0; i < 4; ++i) ok &= vp::eq<T>(r[i], i == 2 ? T() : x);
          auto r2 = vir::simd_permute<2>(x, [](int i) { return i == 1 ? vir::simd_permute_zero : 0; }); ok &= r2.size() == 2 and vp::eq<T>(r2[0], x) and vp::eq<T>(r2[1], T());
          auto r3 = vir::simd_permute<3>(x, [](int i) { return i == 0 ? vir::simd_permute_zero : -1; }); ok &= r3.size() == 3 and vp::eq<T>(r3[0], T()) and vp::eq<T>(r3[1], x) and vp::eq<T>(r3[2], x);
          ok &= std::is_same_v<decltype(vir::simd_permute<1>(x, pm::reverse)), T> and std::is_same_v<decltype(r2)::value_type, T>;
          return ok;""", "simd_permute of a scalar behaves like simd_permute of a one-lane simd", pre)
    def shiftin(cfg, t, n, mask=False, V=None, tag=""):
        V = V or fx(t, n) + ("::mask_type" if mask else "")
        n = n or 1
        T = "bool" if mask else t
        pre = "using T = %s; using V = %s; constexpr int N = %d;" % (T, V, n)
        offs = sorted({0, 1, 2, n // 2, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n, -1, -2, -n // 2, 1 - n, -n, -n - 1, -2 * n, 127, 128, 256, 65536, -128, -255, -256})
        body = "V x(a, stdx::element_aligned), y(a + N, stdx::element_aligned), z(a + 2 * N, stdx::element_aligned); bool ok = true;\n"
        for k in offs:
            for m, call in ((1, "x"), (2, "x, y"), (3, "x, y, z")):
                body += "{ auto r = vir::simd_shift_in<%d>(%s); ok &= std::is_same_v<decltype(r), V>;" % (k, call)
                for i in range(n):
                    body += " ok &= vp::eq<T>(r[%d], %s);" % (i, "a[%d]" % (i + k if i + k >= 0 else n + i + k) if -n <= i + k < n * m else "T()")
                body += "}\n"
        add(cfg, "shiftin.%s%s.%d%s" % ("mask." if mask else "", tid(t), n, tag), [(T, "a", 3 * n)], body + "return ok;",
            "simd_shift_in<N>(a, more...)[i] is element N + i of the concatenation of all arguments (negative: from the end of the first argument), else 0", pre)
    ts = ["float", "int", "unsigned char", "double", "short", "unsigned long"]
    if q:
        for t in ts:
            for n in (1, 2, 3, 4, 6, 8):
                run_perms(FB20, t, n)
            scalar(FB20, t)
            shiftin(FB20, t, 4)
            shiftin(FB20, t, 3) if SIZE[t] >= 4 else None
        for t, ns in (("float", (4, 8, 16, 12)), ("int", (4, 8, 16)), ("double", (2, 4, 8)), ("short", (8, 16)), ("unsigned char", (16,))):
            for n in ns:
                run_perms(FB20V3, t, n)
        run_perms(FB20, "float", 0, tag=".scalarabi")
        for t, n in (("float", 4), ("int", 4), ("double", 2), ("short", 8)):
            run_perms(STD20, t, n, V="stdx::native_simd<%s>" % t, tag=".native")
        for t, n in (("float", 8), ("int", 8), ("double", 4), ("short", 16), ("unsigned char", 32)):
            run_perms(STD20V3, t, n, V="stdx::native_simd<%s>" % t, tag=".native")
        run_perms(STD20, "unsigned char", 16, V="stdx::native_simd<unsigned char>", tag=".native")
        for t, ns in (("float", (5, 7, 16, 17, 32)), ("unsigned char", (16, 32)), ("int", (12,)), ("double", (5, 7))):
            for n in ns:
                run_perms(FB20, t, n)
        # libstdc++: fixed_size, scalar, and the smaller native ABIs of the wider targets
        for t, n in (("float", 5), ("float", 8), ("int", 4), ("double", 3), ("short", 16), ("unsigned long", 1)):
            run_perms(STD20, t, n, tag=".fixed")
            run_perms(STD20V3, t, n, tag=".fixed")
            shiftin(STD20, t, n, tag=".fixed")
        run_perms(STD20, "float", 0, tag=".scalarabi")
        for cfg, b in ((STD20V3, 16), (STD20V4, 16), (STD20V4, 32)):
            for t in ("float", "double", "short"):
                run_perms(cfg, t, b // SIZE[t], V="stdx::simd<%s, stdx::simd_abi::_VecBuiltin<%d>>" % (t, b) if cfg is STD20V3 else "stdx::simd<%s, stdx::simd_abi::_VecBltnBtmsk<%d>>" % (t, b), tag=".b%d" % b)
        for t in ("float", "int", "double"):
            run_perms(STD20V4, t, 64 // SIZE[t], V="stdx::native_simd<%s>" % t, tag=".native")
            run_perms(FB20V4, t, 64 // SIZE[t])
            run_perms(FB20V4, t, 32 // SIZE[t])
            shiftin(STD20, t, 16 // SIZE[t], V="stdx::native_simd<%s>" % t, tag=".native")
            shiftin(STD20V3, t, 32 // SIZE[t], V="stdx::native_simd<%s>" % t, tag=".native")
            for n in (1, 2, 5, 8):
                shiftin(FB20, t, n)
            shiftin(FB20V3, t, 8)
        for n in (2, 4, 5, 8):
            run_perms(FB20, "float", n, True)
            shiftin(FB20, "float", n, True)
    else:
        for t in IT + FT:
            for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16):
                run_perms(FB20, t, n, tag="" if n else ".scalarabi")
                run_perms(FB20V3, t, n, tag="" if n else ".scalarabi")
                shiftin(FB20, t, n) if n else None
            scalar(FB20, t)
            if t != "long double":
                run_perms(STD20, t, 16 // SIZE[t], V="stdx::native_simd<%s>" % t, tag=".native")
                run_perms(STD20V3, t, 32 // SIZE[t], V="stdx::native_simd<%s>" % t, tag=".native")
        for t in ("float", "double", "char"):
            for n in (0, 1, 2, 3, 4, 5, 7, 8, 16):
                run_perms(FB20, t, n, True, tag="" if n else ".scalarabi")
                shiftin(FB20, t, n, True) if n else None
    return obs


FLOOR = 200
