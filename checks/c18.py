from common import *
TITLE = "simdize maps types as documented and converts array-of-structs <-> struct-of-simds losslessly"
HDR = "#include <vector>\n#include <complex>\n#include <string>\n" + hdr("vir/simd.h", "vir/simdize.h", "vir/simd_execution.h") + """namespace ex = vir::execution;
template <class T> struct T1 { T a; };
template <class T> struct T2 { T a, b; };
template <class T> struct T3 { T a, b, c; friend constexpr T3 operator+(const T3& x, const T3& y) { return {x.a + y.a, x.b + y.b, x.c + y.c}; } friend constexpr T3 operator-(const T3& x, const T3& y) { return {x.a - y.a, x.b - y.b, x.c - y.c}; }
  friend constexpr T3 operator*(const T3& x, const T3& y) { return {x.a * y.a, x.b * y.b, x.c * y.c}; } friend constexpr auto operator==(const T3& x, const T3& y) { return x.a == y.a && x.b == y.b && x.c == y.c; } friend constexpr auto operator<(const T3& x, const T3& y) { return x.a < y.a; } };
template <class T> struct T4 { T a, b, c, d; };
template <class T> struct T5 { T a, b, c, d, e; };
template <class T, class U> struct M2 { T a; U b; };
template <class T, class U, class W> struct M3 { T a; U b; W c; };
template <class T, int N> struct A1 { T a[N]; };
template <class T, int K> struct N1 { T a, b; };
template <class T, class U, bool B, short K> struct N2 { T a; U b; };
template <class T, class U, class W, int K> struct N3 { U a; T b; W c; };
template <class T, class U, class W, class X, class Y> struct M5 { T a; Y b; U c; X d; W e; };
"""
SUB = "vir/simdize.h vir::simdize"


def flat(ts):
    return "abcdefgh"[:len(ts)]


def shapes(q):
    """(name, pre, scalar type, member types, kind) kind: v = template-argument vectorisation, t = simd_tuple"""
    out = []
    for t in (["float", "int", "double", "short"] if q else ["float", "int", "double", "short", "unsigned char", "long", "unsigned short", "char32_t", "unsigned"]):
        for k in (1, 2, 3, 4, 5):
            if k in (1, 5) and t not in ("float", "short"):
                continue
            out.append(("T%d.%s" % (k, tid(t)), "", "T%d<%s>" % (k, t), [t] * k, "v"))
    for u in [["float", "int"], ["double", "long"], ["int", "short"], ["char", "double"], ["short", "unsigned short"]]:
        out.append(("M2." + "_".join(tid(x) for x in u), "", "M2<%s>" % ", ".join(u), u, "v"))
    for u in [["float", "int", "unsigned"], ["int", "float", "float"], ["double", "long", "double"], ["float", "short", "int"], ["short", "short", "int"], ["char", "signed char", "unsigned char"]]:
        out.append(("M3." + "_".join(tid(x) for x in u), "", "M3<%s>" % ", ".join(u), u, "v"))
    for u in [["float", "float"], ["float", "float", "float"], ["int", "float"], ["short", "double", "int"], ["char", "long"], ["int", "int", "int", "int"], ["float"]]:
        out.append(("S." + "_".join(tid(x) for x in u), "struct S { %s };" % " ".join("%s %s;" % (t, m) for t, m in zip(u, flat(u))), "S", u, "t"))
    out.append(("N1.float", "", "N1<float, 3>", ["float"] * 2, "v"))
    out.append(("N2.int_short", "", "N2<int, short, true, 7>", ["int", "short"], "v"))
    out.append(("N3.float_int_double", "", "N3<float, int, double, -1>", ["int", "float", "double"], "v"))
    out.append(("N3.float_float_float", "", "N3<float, float, float, 5>", ["float"] * 3, "v"))
    out.append(("M5", "", "M5<float, int, short, double, char>", ["float", "char", "int", "double", "short"], "v"))
    for u in [["short", "float", "int", "char", "float", "double", "short"], ["int"] * 6, ["float", "char"] * 4]:
        out.append(("S%d" % len(u), "struct S { %s };" % " ".join("%s %s;" % (t, m) for t, m in zip(u, flat(u))), "S", u, "t"))
    for u in [["float", "int"], ["float", "float", "float"], ["int", "int"], ["double", "short"], ["short"]]:
        out.append(("tuple." + "_".join(tid(x) for x in u), "", "std::tuple<%s>" % ", ".join(u), u, "v" if True else "t"))
    for u in [["float", "int"], ["int", "int"], ["double", "short"]]:
        out.append(("pair." + "_".join(tid(x) for x in u), "", "std::pair<%s>" % ", ".join(u), u, "v"))
    for t, n in (("float", 2), ("int", 3), ("float", 3), ("double", 4)):
        out.append(("array.%s_%d" % (tid(t), n), "", "std::array<%s, %d>" % (t, n), [t] * n, "v"))
    return out


def get(i, o):
    return "vir::struct_get<%d>(%s)" % (i, o)


def obligations(tier):
    obs = []
    q = tier == "quick"
    cfgs = (FB20, FB20V3, STD20, STD20V3) if q else (FB20, FB20V3, FB23, STD20, STD20V3, STD23V3, Cfg("stdlib", "x86-64-v4", "gnu++20"), Cfg("fallback", "x86-64-v4", "gnu++20"))
    def add(cfg, id, args, body, pre, desc, sub=SUB):
        obs.append(Ob(cfg, id, sub, desc, args, body, pre))
    for cfg in cfgs:
        nbytes = {"x86-64": 16, "x86-64-v3": 32, "x86-64-v4": 64}[cfg.march]
        # ---- type mapping
        for t in ["float", "int", "double", "short", "unsigned char", "long"]:
            add(cfg, "map.%s" % tid(t), [], "return std::is_same_v<vir::simdize<T>, stdx::native_simd<T>> && vir::simdize<T, 1>::size() == 1 && vir::simdize<T, 3>::size() == 3 && vir::simdize<T, 8>::size() == 8 && std::is_same_v<vir::simdize<T, 4>, stdx::simd<T, stdx::simd_abi::deduce_t<T, 4>>> && std::is_same_v<vir::simdize<T, 4>::value_type, T> && vir::simdize_size_v<vir::simdize<T, 4>> == 4 && vir::simdize_size_v<T> == 0 && vir::simdize_size_v<vir::simdize<T>> == stdx::native_simd<T>::size();",
                "using T = %s;" % t, "arithmetic types map to stdx::simd of the requested (default: native) width")
        add(cfg, "map.none", [], "struct E {}; struct X { std::string s; int i; }; return std::is_same_v<vir::simdize<void>, void> && std::is_same_v<vir::simdize<std::tuple<>>, std::tuple<>> && std::is_same_v<vir::simdize<E>, E> && std::is_same_v<vir::simdize<std::string>, std::string> && std::is_same_v<vir::simdize<int*>, int*> && std::is_same_v<vir::simdize<std::complex<float>>, std::complex<float>> && vir::simdize_size_v<E> == 0 && vir::simdize_size_v<std::tuple<stdx::fixed_size_simd<int, 3>, stdx::fixed_size_simd<float, 3>>> == 3 && vir::simdize_size_v<std::tuple<stdx::fixed_size_simd<int, 3>, stdx::fixed_size_simd<float, 4>>> == 0 && std::is_same_v<vir::simdize<X>, X> && not vir::vectorizable_struct<X> && vir::vectorizable_struct<T3<float>> && not vir::vectorizable_struct<float>;".replace("std::is_same_v<vir::simdize<X>, X> && ", ""), "", "types that cannot be simdized stay unchanged")
        # default width: the largest native width, whichever member has it
        for k in range(2, 13):
            body, decl = "bool ok = true;", ""
            for j in range(k):
                for w, b in (("float", "double"), ("char", "int")):
                    if w == "char" and j not in (0, k // 2, k - 1):
                        continue
                    decl += "struct W%d%s { %s };" % (j, w, " ".join("%s m%d;" % (w if i == j else b, i) for i in range(k)))
                    body += "{ using V = vir::simdize<W%d%s>; ok &= int(V::size()) == int(stdx::native_simd<%s>::size()) && std::is_same_v<std::tuple_element_t<%d, V>, vir::simdize<%s, int(V::size())>> && std::is_same_v<std::tuple_element_t<%d, V>, vir::simdize<%s, int(V::size())>>; }\n" % (
                        j, w, w, j, w, (j + 1) % k, b) if cfg.backend == "stdlib" and cfg.march == "x86-64" or w == "float" else "" 
            add(cfg, "width.%d" % k, [], body + "return ok;", decl, "the default width is the largest native width of all members, whatever their number and order")
        for nm, pre, S, u, kind in shapes(q):
            k = len(u)
            nat = max(nbytes // SIZE[t] for t in u)
            sub = SUB + " (%s)" % S
            P = pre + " using S_ = %s;" % S
            mt = ", ".join(u)
            body = "using V = vir::simdize<S_>; bool ok = V::size() == max_({%s}) && vir::simdize_size_v<V> == V::size() && std::is_same_v<typename V::value_type, S_> && vir::struct_size_v<V> == %d && std::tuple_size<V>::value == %d;\n" % (", ".join("int(stdx::native_simd<%s>::size())" % t for t in u), k, k)
            for i, t in enumerate(u):
                body += "ok &= std::is_same_v<std::tuple_element_t<%d, V>, vir::simdize<%s, int(V::size())>>;" % (i, t)
            body += "using V3 = vir::simdize<S_, 3>; ok &= V3::size() == 3 && std::is_same_v<std::tuple_element_t<%d, V3>, vir::simdize<%s, 3>> && std::is_same_v<vir::resize_simdize_t<3, V>, V3> && std::is_same_v<typename V3::mask_type, typename vir::simdize<%s, 3>::mask_type>;" % (k - 1, u[-1], u[0])
            body += "using V4 = vir::simdize<S_, 4>; ok &= V4::size() == 4 && vir::simdize_size_v<V4> == 4; return ok;"
            add(cfg, "type." + nm, [], body, P + "constexpr int max_(std::initializer_list<int> l) { int r = 0; for (int x : l) r = r < x ? x : r; return r; }", "every member becomes a simd of the common width: the given one or the largest native width of the members", sub)
            big = SIZE[u[0]] == 1
            ns = {1, 2, 3, 4, 8, nat} if q else {1, 2, 3, 4, 5, 6, 7, 8, 12, 16, nat}
            if q and cfg.march != "x86-64":
                ns = {4, 8, nat}
            if k == 1 and q:
                ns = {1, 4, nat}
            for n in sorted(ns):
                if n > 32 or (q and n * k > 64):
                    continue
                args = [(t, "m%d" % i, n + 2) for i, t in enumerate(u)]
                mk = "S_{%s}" % ", ".join("m%d[i]" % i for i in range(k))
                ini = "S_ x[%d]; for (int i = 0; i < %d; ++i) x[i] = %s; using V = vir::simdize<S_, %d>;\n" % (n + 2, n + 2, mk, n)
                cmpl = lambda o, off: " & ".join("vp::eq<%s>(std::get_<%d>(%s)[i], m%d[i + %d])" % (t, i, o, i, off) for i, t in enumerate(u)).replace("std::get_<", "get<").replace("get<", "vir::struct_get<") if False else " & ".join("vp::eq<%s>(g%d[i], m%d[i + %d])" % (t, i, i, off) for i, t in enumerate(u))
                binds = lambda o: "const auto& [%s] = %s;" % (", ".join("g%d" % i for i in range(k)), o)
                elem = lambda o, j: " & ".join("vp::eq<%s>(%s, m%d[%s])" % (t, get(i, o), i, j) for i, t in enumerate(u))
                D = "loading gathers member j of element i into lane i of simd j; storing is the inverse and writes nothing else"
                body = ini + "bool ok = true; { const V v(x + 1, stdx::element_aligned); %s for (int i = 0; i < %d; ++i) ok &= %s; for (int i = 0; i < %d; ++i) { const S_ e = v[i]; ok &= %s; } }\n" % (binds("v"), n, cmpl("v", 1), n, elem("e", "i + 1"))
                body += "{ V v(x); v.copy_from(x + 2); %s for (int i = 0; i < %d; ++i) ok &= %s; } return ok;" % (binds("v"), n, cmpl("v", 2))
                add(cfg, "load.%s.%d" % (nm, n), args, body, P, D, sub)
                body = ini + "bool ok = true; V v(x + 1); const V w(x); S_ y[%d]; for (int i = 0; i < %d; ++i) y[i] = x[i]; w.copy_to(y + 1); { const S_& e = y[0]; ok &= %s; } for (int i = 0; i < %d; ++i) { const S_& e = y[i + 1]; ok &= %s; } { const S_& e = y[%d]; ok &= %s; }\n" % (n + 2, n + 2, elem("e", "0"), n, elem("e", "i"), n + 1, elem("e", str(n + 1)))
                body += "return ok;"
                add(cfg, "store.%s.%d" % (nm, n), args, body, P, D, sub)
                if n in (4, nat, 3):
                    body = ini + "bool ok = true; const V b(x[1]); %s for (int i = 0; i < %d; ++i) ok &= %s;\n" % (binds("b"), n, " & ".join("vp::eq<%s>(g%d[i], m%d[1])" % (t, i, i) for i, t in enumerate(u)))
                    body += "return ok;"
                    add(cfg, "bcast.%s.%d" % (nm, n), args, body, P, "construction from a scalar struct broadcasts every member", sub)
                    body = ini + "bool ok = true; %s V v(%s); %s for (int i = 0; i < %d; ++i) ok &= %s;" % (
                        " ".join("const vir::simdize<%s, %d> s%d([&](int i) { return m%d[i]; });" % (t, n, i, i) for i, t in enumerate(u)),
                        ", ".join("s%d" % i for i in range(k)), binds("v"), n, cmpl("v", 0))
                    body += "const V w = v; { auto& [%s] = v; %s } { const S_ e = v[%d]; ok &= %s; } { const S_ e = w[%d]; ok &= %s; } return ok;" % (
                        ", ".join("h%d" % i for i in range(k)), "h%d = s%d + s%d;" % (k - 1, k - 1, k - 1), n - 1,
                        " & ".join("vp::eq<%s>(%s, %s)" % (t, get(i, "e"), "m%d[%d]" % (i, n - 1) if i < k - 1 else "(%s)(m%d[%d] + m%d[%d])" % (t, i, n - 1, i, n - 1)) for i, t in enumerate(u)), n - 1, elem("e", n - 1))
                    add(cfg, "members.%s.%d" % (nm, n), args, body, P, "member-wise construction; structured bindings refer to the members", sub)
        # nested and array members (template based)
        for n in (2, 4, 8):
            add(cfg, "nested.%d" % n, [("float", "m", 6 * n)], """struct L { T3<float> p, q; }; L x[N]; for (int i = 0; i < N; ++i) x[i] = L{{m[6 * i], m[6 * i + 1], m[6 * i + 2]}, {m[6 * i + 3], m[6 * i + 4], m[6 * i + 5]}};
              using V = vir::simdize<L, N>; bool ok = V::size() == N && std::is_same_v<std::tuple_element_t<0, V>, vir::simdize<T3<float>, N>>; const V v(x); const auto& [p, q] = v;
              for (int i = 0; i < N; ++i) ok &= vp::eq<float>(p.a[i], m[6 * i]) & vp::eq<float>(p.b[i], m[6 * i + 1]) & vp::eq<float>(p.c[i], m[6 * i + 2]) & vp::eq<float>(q.a[i], m[6 * i + 3]) & vp::eq<float>(q.b[i], m[6 * i + 4]) & vp::eq<float>(q.c[i], m[6 * i + 5]);
              return ok;""" if False else """struct L { T3<float> p, q; }; using V = vir::simdize<L, N>; bool ok = V::size() == N && std::is_same_v<std::tuple_element_t<0, V>, vir::simdize<T3<float>, N>> && vir::simdize_size_v<V> == N; using W = vir::simdize<float, N>; using Q = vir::simdize<T3<float>, N>;
              W w[6]; for (int j = 0; j < 6; ++j) w[j] = W([&](int i) { return m[6 * i + j]; }); const V v(Q(w[0], w[1], w[2]), Q(w[3], w[4], w[5]));
              for (int i = 0; i < N; ++i) { const L e = v[i]; ok &= vp::eq<float>(e.p.a, m[6 * i]) & vp::eq<float>(e.p.b, m[6 * i + 1]) & vp::eq<float>(e.p.c, m[6 * i + 2]) & vp::eq<float>(e.q.a, m[6 * i + 3]) & vp::eq<float>(e.q.b, m[6 * i + 4]) & vp::eq<float>(e.q.c, m[6 * i + 5]); }
              L y[N]; v.copy_to(y); for (int i = 0; i < N; ++i) { const L& e = y[i]; ok &= vp::eq<float>(e.p.a, m[6 * i]) & vp::eq<float>(e.p.b, m[6 * i + 1]) & vp::eq<float>(e.p.c, m[6 * i + 2]) & vp::eq<float>(e.q.a, m[6 * i + 3]) & vp::eq<float>(e.q.b, m[6 * i + 4]) & vp::eq<float>(e.q.c, m[6 * i + 5]); }
              return ok;""", "constexpr int N = %d;" % n, "nested structs are simdized recursively")
            # operators
            add(cfg, "ops.%d" % n, [("int", "m", 6 * n)], """using P = T3<int>; P x[N], y[N]; for (int i = 0; i < N; ++i) x[i] = P{m[i], m[i + N], m[i + 2 * N]}, y[i] = P{m[i + 3 * N], m[i + 4 * N], m[i + 5 * N]};
              using V = vir::simdize<P, N>; const V v(x), w(y); bool ok = std::is_same_v<decltype(v + w), V>; const auto s = v + w; const auto d = v - w; const auto p = v * w; const auto e = v == w; const auto l = v < w; const auto bs = v + y[0]; const auto bd = y[0] - v;
              for (int i = 0; i < N; ++i) { const P se = s[i], de = d[i], pe = p[i], be = bs[i], fe = bd[i]; ok &= (se == x[i] + y[i]) & (de == x[i] - y[i]) & (pe == x[i] * y[i]) & (bool(e[i]) == (x[i] == y[i])) & (bool(l[i]) == (x[i] < y[i])) & (be == x[i] + y[0]) & (fe == y[0] - x[i]); }
              return ok;""", "constexpr int N = %d;" % n, "operators of the struct template apply element-wise; scalar structs broadcast")
        # algorithms on ranges of structs
        for n in (1, 3, 4, 7) if q else (1, 2, 3, 4, 5, 7, 8, 9):
            for nm, S, mk in (("T3", "T3<float>", "{m[i], m[i + N], m[i + 2 * N]}"), ("S", "Sm", "{m[i], m[i + N], m[i + 2 * N]}")):
                pre = "struct Sm { float a, b, c; }; constexpr int N = %d; using S_ = %s;" % (n, S)
                acc = (lambda o, j: "%s.%s" % (o, "abc"[j])) if nm == "T3" else (lambda o, j: "get<%d>(%s)" % (j, o))
                PADI = "alignas(64) S_ x[64 + N] = {}; S_ *f = x + 64; for (int i = 0; i < N; ++i) f[i] = S_%s;" % mk
                add(cfg, "for_each.%s.%d" % (nm, n), [("float", "m", 3 * n)], PADI + """vir::for_each(ex::simd, f, f + N, [](auto& v) { %s = vp_map(%s); });
                  bool ok = true; for (int i = 0; i < N; ++i) ok &= vp::eq(f[i].a, m[i]) & vp::eq(f[i].b, vp::u1(m[i + N])) & vp::eq(f[i].c, m[i + 2 * N]); return ok;""" % (acc("v", 1), acc("v", 1)),
                    pre + "template <class V> VP_INL auto vp_map(const V& v) { return vp::map1(v); }", "algorithms on ranges of structs process every element once", "vir/simd_execution.h vir::for_each on struct ranges")
                add(cfg, "count_if.%s.%d" % (nm, n), [("float", "m", 3 * n)], PADI + """const int c = vir::count_if(ex::simd, f, f + N, [](const auto& v) { return %s < 0.f; });
                  int r = 0; for (int i = 0; i < N; ++i) r += m[i + 2 * N] < 0.f; return c == r;""" % acc("v", 2),
                    pre, "algorithms on ranges of structs process every element once", "vir/simd_execution.h vir::count_if on struct ranges")
                add(cfg, "transform.%s.%d" % (nm, n), [("float", "m", 3 * n)], PADI + """alignas(64) float y[N + 1]; y[N] = 7; vir::transform(ex::simd, f, f + N, y, [](const auto& v) { return vp::map1(%s); });
                  bool ok = y[N] == 7; for (int i = 0; i < N; ++i) ok &= vp::eq(y[i], vp::u1(m[i])); return ok;""" % acc("v", 0),
                    pre, "algorithms on ranges of structs process every element once", "vir/simd_execution.h vir::transform on struct ranges")
    return obs


FLOOR = 400
