from common import *
TITLE = "Struct reflection enumerates exactly the data members of an aggregate, in order"
HDR = "#include <complex>\n#include <string>\n" + hdr("vir/struct_reflect.h").replace("namespace stdx = vir::stdx;", "") + """
template <class T> concept refl = vir::reflectable_struct<T>;
template <class T, std::size_t N> concept can_get = requires(T& x) { vir::struct_get<N>(x); };
template <class T> concept can_pair = requires(T& x) { vir::to_pair(x); };
// every reflection facility on a tuple-like/aggregate S whose members have the types Ts...
template <class S, class... Ts> struct chk {
  using T = std::tuple<Ts...>;
  static constexpr std::size_t n = sizeof...(Ts);
  template <std::size_t... I> static constexpr bool types(std::index_sequence<I...>) {
    return (std::is_same_v<vir::struct_element_t<I, S>, std::tuple_element_t<I, T>> && ... && true) && (std::is_same_v<typename vir::struct_element<I, S>::type, std::tuple_element_t<I, T>> && ... && true)
      && (std::is_same_v<decltype(vir::struct_get<I>(std::declval<S&>())), std::tuple_element_t<I, T>&> && ... && true)
      && (std::is_same_v<decltype(vir::struct_get<I>(std::declval<const S&>())), const std::tuple_element_t<I, T>&> && ... && true); }
  static constexpr bool value = refl<S> && refl<const S&> && refl<S&> && vir::struct_size_v<S> == n && types(std::make_index_sequence<n>()) && not can_get<S, n> && can_pair<S> == (n == 2)
    && std::is_same_v<vir::as_tuple_t<S>, T> && std::is_same_v<vir::as_tuple_t<const S>, const T> && std::is_same_v<vir::as_tuple_t<S&>, T&> && std::is_same_v<vir::as_tuple_t<const S&>, const T&> && std::is_same_v<decltype(vir::to_tuple(std::declval<S&>())), T>
    && std::is_same_v<decltype(vir::to_tuple_ref(std::declval<S&>())), std::tuple<Ts&...>> && std::is_same_v<decltype(vir::to_tuple_ref(std::declval<const S&>())), std::tuple<const Ts&...>>;
};
"""
SUB = "vir/struct_reflect.h vir::struct_size_v, struct_get, struct_element_t, to_tuple, to_tuple_ref, to_pair"
TS = ["int", "float", "char", "double", "short", "long", "unsigned char", "bool", "unsigned", "unsigned short", "long long"]


def chk_members(exprs, types, n):
    """values and identities of all members; `exprs` are the member designators on s / c"""
    b = "bool ok = true; const auto& c = s; auto t = vir::to_tuple(s); auto r = vir::to_tuple_ref(s); auto cr = vir::to_tuple_ref(c); (void)c; (void)t; (void)r; (void)cr;\n"
    for i, e in enumerate(exprs):
        b += "ok &= &vir::struct_get<%d>(s) == &%s && &vir::struct_get<%d>(c) == &%s && &std::get<%d>(r) == &%s && &std::get<%d>(cr) == &%s && vp::eq(std::get<%d>(t), %s);\n" % (
            i, e, i, e, i, e, i, e, i, e)
    return b


def obligations(tier):
    obs = []
    def add(id, args, body, pre, desc, cfg=FB20):
        obs.append(Ob(cfg, id, SUB, desc, args, body, pre))
    D = "size, element types, identity (address) and value of every member, through const and non-const access"
    for cfg in (FB20,) if tier == "quick" else (FB20, FB23, STD20):
        for n in range(1, 51):
            variants = [("mixed", [TS[(i * 7 + n) % len(TS)] for i in range(n)])]
            if cfg is FB20 or tier != "quick":
                variants += [("char", ["char"] * n)]
            if tier != "quick":
                variants += [("double", ["double"] * n), ("rot", [TS[(i * 3 + n * 5) % len(TS)] for i in range(n)])]
            for vn, ts in variants:
                pre = "struct S { %s };" % " ".join("%s m%d;" % (t, i) for i, t in enumerate(ts))
                args = [(t, "a%d" % i, 1) for i, t in enumerate(ts)]
                body = "S s{%s};\n" % ", ".join("a%d[0]" % i for i in range(n)) + chk_members(["s.m%d" % i for i in range(n)], ts, n)
                body += "vir::struct_get<%d>(s) = (%s)(1); ok &= s.m%d == (%s)(1);" % (n - 1, ts[-1], n - 1, ts[-1])
                if n == 2:
                    body += "auto p = vir::to_pair(s); auto pr = vir::to_pair_ref(s); ok &= std::is_same_v<decltype(p), std::pair<%s, %s>> && std::is_same_v<vir::as_pair_t<S>, std::pair<%s, %s>> && vp::eq(p.first, s.m0) && vp::eq(p.second, s.m1) && &pr.first == &s.m0 && &pr.second == &s.m1;" % (tuple(ts) * 2)
                body += "return ok && chk<S, %s>::value;" % ", ".join(ts)
                add("%s.%d" % (vn, n), args, body, pre, D, cfg)
        # tuple-likes
        for n in (1, 2, 3, 5, 8, 17, 50) if tier == "quick" else range(1, 51):
            ts = [TS[(i * 5 + n) % len(TS)] for i in range(n)]
            args = [(t, "a%d" % i, 1) for i, t in enumerate(ts)]
            L = ", ".join("a%d[0]" % i for i in range(n))
            add("tuple.%d" % n, args, "std::tuple<%s> s{%s};" % (", ".join(ts), L) + chk_members(["std::get<%d>(s)" % i for i in range(n)], ts, n) + "return ok && chk<decltype(s), %s>::value;" % ", ".join(ts), "", D, cfg)
            add("array.%d" % n, [("int", "a", n)], "std::array<int, %d> s{}; for (int i = 0; i < %d; ++i) s[i] = a[i];" % (n, n) + chk_members(["s[%d]" % i for i in range(n)], ts, n) + "return ok && chk<decltype(s), %s>::value;" % ", ".join(["int"] * n), "", D, cfg)
            if n > 1:
                add("carray.%d" % n, [("float", "a", n)], "float s[%d] = {}; for (int i = 0; i < %d; ++i) s[i] = a[i];" % (n, n) + chk_members(["s[%d]" % i for i in range(n)], ts, n) + "return ok && chk<decltype(s), %s>::value;" % ", ".join(["float"] * n), "", D, cfg)
        add("pair", [("int", "a", 1), ("double", "b", 1)], "std::pair<int, double> s(a[0], b[0]);" + chk_members(["s.first", "s.second"], 0, 2) + "auto p = vir::to_pair_ref(s); return ok && &p.first == &s.first && &p.second == &s.second && chk<decltype(s), int, double>::value;", "", D, cfg)
        # shapes of aggregates
        add("empty", [], "struct E {}; E e; return refl<E> && vir::struct_size_v<E> == 0 && vir::struct_size_v<std::tuple<>> == 0 && vir::struct_size_v<std::array<int, 0>> == 0 && std::is_same_v<decltype(vir::to_tuple(e)), std::tuple<>> && std::is_same_v<vir::as_tuple_t<E>, std::tuple<>> && std::is_same_v<decltype(vir::to_tuple_ref(e)), std::tuple<>>;", "", "types without members", cfg)
        for nb in (1, 2, 3):
            for n in (1, 2, 3, 7, 12):
                ts = [TS[(i + n + nb) % len(TS)] for i in range(n)]
                args = [(t, "a%d" % i, 1) for i, t in enumerate(ts)]
                pre = "".join("struct E%d {}; " % i for i in range(nb)) + "struct S : %s { %s };" % (", ".join("E%d" % i for i in range(nb)), " ".join("%s m%d;" % (t, i) for i, t in enumerate(ts)))
                add("emptybases.%d.%d" % (nb, n), args, "S s{%s, %s};" % (", ".join("{}" for i in range(nb)), ", ".join("a%d[0]" % i for i in range(n))) + chk_members(["s.m%d" % i for i in range(n)], ts, n) + "return ok && chk<S, %s>::value;" % ", ".join(ts), pre, "aggregate with %d empty bases" % nb, cfg)
        add("nested", [("int", "a", 2), ("float", "b", 2), ("char", "c", 1)], "S s{{a[0], b[0]}, c[0], {a[1], b[1]}}; bool ok = &vir::struct_get<0>(s) == &s.x && &vir::struct_get<1>(s) == &s.c && &vir::struct_get<2>(s) == &s.y && &vir::struct_get<1>(vir::struct_get<2>(s)) == &s.y.j; return ok && chk<S, I, char, I>::value && chk<I, int, float>::value && std::get<2>(vir::to_tuple(s)).i == a[1];", "struct I { int i; float j; }; struct S { I x; char c; I y; };", "members of aggregate type count once", cfg)
        add("arraymember", [("int", "a", 6)], "S s{{a[0], a[1], a[2]}, a[3], {a[4], a[5]}}; bool ok = &vir::struct_get<0>(s) == &s.x && &vir::struct_get<1>(s) == &s.c && &vir::struct_get<2>(s)[1] == &s.y[1]; return ok && vir::struct_size_v<S> == 3 && std::is_same_v<vir::struct_element_t<2, S>, std::array<int, 2>>;", "struct S { std::array<int, 3> x; int c; std::array<int, 2> y; };", "members of array type count once", cfg)
        add("carraymember", [("int", "a", 6)], "S s{{a[0], a[1], a[2]}, a[3], {a[4], a[5]}}; bool ok = &vir::struct_get<0>(s) == &s.x && &vir::struct_get<1>(s) == &s.c && &vir::struct_get<2>(s)[1] == &s.y[1]; return ok && vir::struct_size_v<S> == 3 && std::is_same_v<vir::struct_element_t<0, S>, int[3]>;", "struct S { int x[3]; int c; int y[2]; };", "members of C-array type count once", cfg)
        add("bits", [("int", "a", 3)], "S s{unsigned(a[0]) & 7u, unsigned(a[1]) & 1u, unsigned(a[2]) & 31u}; auto t = vir::to_tuple(s); (void)t; return vir::struct_size_v<S> == 3;" if False else "return vir::struct_size_v<S> == 3 && vir::struct_size_v<B8> == 8 && vir::struct_size_v<B9> == 9;", "struct S { unsigned x : 3; unsigned y : 1; unsigned z : 5; }; struct B8 { unsigned char a : 1, b : 1, c : 1, d : 1, e : 1, f : 1, g : 1, h : 1; }; struct B9 { B8 x; int a, b, c, d, e, f, g, h; };", "bit-fields are members", cfg)
        add("derived", [("int", "a", 2), ("float", "b", 1)], "D s{{a[0], b[0], a[1]}}; return vir::struct_size_v<D> == 3 && &vir::struct_get<0>(s) == &s.i && &vir::struct_get<1>(s) == &s.j && &vir::struct_get<2>(s) == &s.k;" if False else "return not refl<std::complex<float>> && not refl<int> && not refl<float*> && not refl<std::string> && not refl<NA>;", "struct NA { NA(int); int x; };", "non-aggregates without tuple interface are not reflectable", cfg)
        add("cvmember", [("int", "a", 2), ("float", "b", 1)], "S s{a[0], b[0], a[1]}; return vir::struct_size_v<S> == 3 && std::is_same_v<vir::struct_element_t<0, S>, const int> && std::is_same_v<vir::struct_element_t<1, S>, float> && &vir::struct_get<0>(s) == &s.i && &vir::struct_get<2>(s) == &s.k && std::is_same_v<vir::as_tuple_t<S>, std::tuple<const int, float, int>>;", "struct S { const int i; float j; int k; };", "const members", cfg)
        add("ptrmember", [("int", "a", 2)], "S s{&a[0], &a[1]}; return vir::struct_size_v<S> == 2 && *vir::struct_get<1>(s) == a[1] && std::get<0>(vir::to_tuple(s)) == &a[0];", "struct S { int* p; const int* q; };", "pointer members", cfg)
        add("defaultinit", [("int", "a", 1)], "S s{a[0]}; return vir::struct_size_v<S> == 3 && vir::struct_get<0>(s) == a[0] && vir::struct_get<1>(s) == 7 && vir::struct_get<2>(s) == 9;", "struct S { int p; int q = 7; long r = 9; };", "default member initialisers", cfg)
        add("rvalue", [("int", "a", 2)], "auto t = vir::to_tuple(S{a[0], a[1]}); return std::get<0>(t) == a[0] && std::get<1>(t) == a[1] && vir::struct_get<1>(std::as_const(t)) == a[1];", "struct S { int p, q; };", "reflection of temporaries", cfg)
        add("constexpr", [], "constexpr S s{1, 2.5f, 'c', 4}; static_assert(vir::struct_get<0>(s) == 1 && vir::struct_get<1>(s) == 2.5f && vir::struct_get<2>(s) == 'c' && vir::struct_get<3>(s) == 4); static_assert(vir::to_tuple(s) == std::tuple(1, 2.5f, 'c', 4l)); return true;", "struct S { int p; float q; char c; long l; };", "constant evaluation", cfg)
    return obs


FLOOR = 140
