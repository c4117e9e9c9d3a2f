from common import *
TITLE = "Loads, stores, generators, broadcasts and subscripts move every element to its own lane"
HDR = hdr("vir/simd.h")
SUB = "vir/simd.h stdx::simd constructors, copy_from, copy_to, operator[]"


def domain(u, t, arr, n):
    """restrict floating-point values to be converted to an integer type to values the conversion can represent"""
    if u in FT and t not in FT:
        lim = "0x1p%d" % DIGITS[t]
        low = "%s[i] >= -%s" % (arr, lim) if t in SIGNED else "%s[i] > -1" % arr
        return "for (int i = 0; i < %s; ++i) %s[i] = (%s && %s[i] < %s) ? %s[i] : U(1);" % (n, arr, low, arr, lim, arr)
    return ""


def obligations(tier):
    obs = []
    def add(cfg, id, args, body, desc, pre=""):
        obs.append(Ob(cfg, id, SUB, desc, args, body, pre))
    def mem(cfg, t, n, u):
        N = sz(n)
        pre = "using T = %s; using U = %s; using V = %s; constexpr int N = %d;" % (t, u, fx(t, n), N)
        body = domain(u, t, "a", "N") + """
          V x(a, stdx::element_aligned), y(a, stdx::vector_aligned), z(a, stdx::overaligned<64>);
          V p(T(0)), q(T(0)), r(T(0));
          p.copy_from(a, stdx::element_aligned); q.copy_from(a, stdx::vector_aligned); r.copy_from(a, stdx::overaligned<64>);
          auto ref = [&](int i) { return T(a[i]); };
          return vp::lanes(x, N, ref) & vp::lanes(y, N, ref) & vp::lanes(z, N, ref) & vp::lanes(p, N, ref) & vp::lanes(q, N, ref) & vp::lanes(r, N, ref);"""
        add(cfg, "load.%s.%s.%s" % (tid(t), n or "scalar", tid(u)), [(u, "a", N)], body,
            "load constructor and copy_from: lane i is T(mem[i]), with every alignment flag", pre)
        pre2 = "using T = %s; using U = %s; using V = %s; constexpr int N = %d;" % (t, u, fx(t, n), N)
        dom = domain(t, u, "a", "N").replace("U(1)", "T(1)")
        add(cfg, "store.%s.%s.%s" % (tid(t), n or "scalar", tid(u)), [(t, "a", N), (u, "g", 2)], dom + """
          V x(a, stdx::element_aligned);
          alignas(64) U o[N + 2], o2[N + 2], o3[N + 2];
          for (int i = 0; i < N + 2; ++i) o[i] = o2[i] = o3[i] = g[1];
          o[0] = g[0]; x.copy_to(o + 1, stdx::element_aligned);
          x.copy_to(o2, stdx::vector_aligned); x.copy_to(o3, stdx::overaligned<64>);
          bool ok = vp::eq<U>(o[0], g[0]) & vp::eq<U>(o[N + 1], g[1]) & vp::eq<U>(o2[N], g[1]) & vp::eq<U>(o3[N], g[1]) & vp::eq<U>(o2[N + 1], g[1]) & vp::eq<U>(o3[N + 1], g[1]);
          for (int i = 0; i < N; ++i) ok &= vp::eq<U>(o[i + 1], U(a[i])) & vp::eq<U>(o2[i], U(a[i])) & vp::eq<U>(o3[i], U(a[i]));
          return ok & vp::lanes(x, N, [&](int i) { return a[i]; });""",
            "copy_to writes U(x[i]) to mem[i] for all lanes and nothing else", pre2)
    def basic(cfg, t, n):
        N = sz(n)
        pre = "using T = %s; using V = %s; constexpr int N = %d;" % (t, fx(t, n), N)
        add(cfg, "gen.%s.%s" % (tid(t), n or "scalar"), [(t, "a", N)], """
          int calls = 0; int order = 0; bool inorder = true;
          V x([&](auto i) { static_assert(decltype(i)::value < N); ++calls; return a[i]; });
          V y([&](std::size_t i) { inorder &= int(i) == order; ++order; return a[N - 1 - i]; });
          V z([&](auto i) { return T(a[decltype(i)::value]); });
          return vp::lanes(x, N, [&](int i) { return a[i]; }) & vp::lanes(y, N, [&](int i) { return a[N - 1 - i]; })
            & vp::lanes(z, N, [&](int i) { return a[i]; }) & (calls == N) & (order == N) & inorder;""",
            "generator constructor: lane i is gen(i), called once per lane in order with an integral constant", pre)
        add(cfg, "subscript.%s.%s" % (tid(t), n or "scalar"), [(t, "a", N), (t, "b", N)], """
          V x(a, stdx::element_aligned); const V cx = x; bool ok = int(V::size()) == N && int(stdx::simd_size_v<T, typename V::abi_type>) == N;
          for (int j = 0; j < N; j += N > 17 ? 4 : 1) { V w = x; w[j] = b[j]; V c = w; V d(T(0)); d = w;
            ok &= vp::eq<T>(x[j], a[j]) & vp::eq<T>(cx[j], a[j]);
            for (int i = 0; i < N; ++i) ok &= vp::eq<T>(w[i], i == j ? b[i] : a[i]) & vp::eq<T>(c[i], i == j ? b[i] : a[i]) & vp::eq<T>(d[i], i == j ? b[i] : a[i]); }
          return ok;""", "operator[] reads and writes lane i and only lane i; copies are independent and equal", pre)
        add(cfg, "bcast.%s.%s" % (tid(t), n or "scalar"), [(t, "a", 1)], """
          V x = a[0]; V y(a[0]); V z(T(0)); z = a[0]; V w = 7;
          auto ref = [&](int) { return a[0]; };
          return vp::lanes(x, N, ref) & vp::lanes(y, N, ref) & vp::lanes(z, N, ref) & vp::lanes(w, N, [](int) { return T(7); });""", "broadcast sets every lane to the value", pre)
    def bcastfrom(cfg, t, n, u):
        N = sz(n)
        pre = "using T = %s; using U = %s; using V = %s; constexpr int N = %d;" % (t, u, fx(t, n), N)
        want = bcast_ok(u, t)
        body = "if (std::is_convertible_v<U, V> != %s) return false;" % ("true" if want else "false")
        body += "V x = a[0]; return vp::lanes(x, N, [&](int) { return T(a[0]); });" if want else "return true;"
        add(cfg, "bcastfrom.%s.%s.%s" % (tid(t), n or "scalar", tid(u)), [(u, "a", 1)], body,
            "a scalar converts implicitly to simd iff the conversion is value-preserving (or from int / unsigned), and then broadcasts T(value)", pre)
    def cvt(cfg, t, n, u):
        if t != u and SIZE[t] == SIZE[u] and {t, u} & {"wchar_t", "char16_t", "char32_t"}:
            return      # the relative rank of the character types is not claimed
        N = sz(n)
        pre = "using T = %s; using U = %s; using V = %s; using W = %s; constexpr int N = %d;" % (t, u, fx(t, n), fx(u, n), N)
        want = cvt_ok(u, t) if n else u == t
        body = "if (std::is_convertible_v<W, V> != %s) return false;" % ("true" if want else "false")
        body += "W w(a, stdx::element_aligned); V x = w; return vp::lanes(x, N, [&](int i) { return T(a[i]); });" if want else "return true;"
        add(cfg, "cvt.%s.%s.%s" % (tid(t), n or "scalar", tid(u)), [(u, "a", N)], body,
            "fixed_size simds convert implicitly iff value-preserving and to a higher integer rank; lane i becomes T(x[i])", pre)
    types = IT + FT
    q = tier == "quick"
    for t in types:
        for n in ((0, 3, 8) if q else (0, 1, 2, 3, 4, 5, 8, 16, 17, 32)):
            basic(FB20, t, n)
        for u in types:
            for n in ((0, 3) if q else (0, 1, 3, 8)):
                if q and n == 0 and u not in ("int", "float", "unsigned char", "double", t):
                    continue
                mem(FB20, t, n, u)
            bcastfrom(FB20, t, 3, u)
            cvt(FB20, t, 3, u)
            if not q or u in ("int", "float", t, "unsigned"):
                bcastfrom(FB20, t, 0, u)
                cvt(FB20, t, 0, u)
    for t in ("float", "int", "short"):
        basic(FB20V3, t, 17)
        basic(FB17, t, 5)
        mem(FB17, t, 5, "double")
        mem(FB20V3, t, 32, t)
    for t, u, n in (("float", "float", 16), ("float", "int", 8), ("int", "short", 17), ("unsigned char", "int", 16), ("short", "float", 33), ("double", "float", 7), ("int", "int", 64), ("unsigned char", "unsigned char", 130)):
        mem(FB20, t, n, u)
        cvt(FB20, t, n, u)
        if n < 64:
            basic(FB20, t, n)
    return uniq(obs)


FLOOR = 800
