from common import *
TITLE = "where-expressions modify exactly the selected lanes and touch exactly the selected memory"
HDR = hdr("vir/simd.h")
SUB = "vir/simd.h stdx::where / (const_)where_expression"


def obligations(tier):
    obs = []
    def add(cfg, id, args, body, desc, pre="", sub=SUB):
        obs.append(Ob(cfg, id, sub, desc, args, body, pre))
    def gen(cfg, t, n):
        N = sz(n)
        isf = t in FT
        pre = "using T = %s; using V = %s; using M = V::mask_type; constexpr int N = %d;" % (t, fx(t, n), N)
        A, B, K = (t, "a", N), (t, "b", N), ("bool", "m", N)
        nm = "%s.%s" % (tid(t), n or "scalar")
        L = "V x(a, stdx::element_aligned), y(b, stdx::element_aligned); M k(m, stdx::element_aligned); bool ok = true;\n"
        def sel(expr):
            return "[&](int i) { return m[i] ? T(%s) : a[i]; }" % expr
        body = L + "{ V r = x; where(k, r) = y; ok &= vp::lanes(r, N, %s); }\n" % sel("b[i]")
        body += "{ V r = x; where(k, r) = b[0]; ok &= vp::lanes(r, N, %s); }\n" % sel("b[0]")
        body += "{ V r = x; where(k, r) = 3; ok &= vp::lanes(r, N, %s); }\n" % sel("3")
        body += "{ V r = x; where(k, r) = r[N - 1]; ok &= vp::lanes(r, N, %s); }\n" % sel("a[N - 1]")
        body += "ok &= vp::lanes(x, N, [&](int i) { return a[i]; }) & vp::lanes(y, N, [&](int i) { return b[i]; }); for (int i = 0; i < N; ++i) ok &= k[i] == m[i];\n"
        add(cfg, "assign." + nm, [A, B, K], body + "return ok;", "where(k, x) = y sets x[i] to y[i] iff k[i]; other lanes, y and k keep their value (also when y aliases a lane of x)", pre)
        ops = [("+", "add"), ("-", "sub"), ("*", "mul")] + ([] if isf else [("&", "and"), ("|", "or"), ("^", "xor")])
        for op, on in ops:
            add(cfg, "%s.%s" % (on, nm), [A, B, K], L + """{ V r = x; where(k, r) %s= y; ok &= vp::lanes(r, N, %s); }
               { V r = x; where(k, r) %s= b[0]; ok &= vp::lanes(r, N, %s); }
               { V r = x; where(k, r) %s= r[0]; ok &= vp::lanes(r, N, %s); }
               return ok;""" % (op, sel("a[i] %s b[i]" % op), op, sel("a[i] %s b[0]" % op), op, sel("a[i] %s a[0]" % op)),
                "where(k, x) %s= y equals T(x[i] %s y[i]) where k[i] and x[i] elsewhere" % (op, op), pre)
        for op, on in [("/", "div")] + ([] if isf else [("%", "mod")]):
            add(cfg, "%s.%s" % (on, nm), [A, B, K], "for (int i = 0; i < N; ++i) b[i] = vp::divisor(b[i]);" + L +
                "{ V r = x; where(k, r) %s= y; ok &= vp::lanes(r, N, %s); } return ok;" % (op, sel("a[i] %s b[i]" % op)),
                "where(k, x) %s= y" % op, pre)
        if not isf:
            # a masked-off divisor of zero must not be evaluated
            add(cfg, "divskip." + nm, [A], """for (int j = 0; j < N; ++j) { V x(a, stdx::element_aligned); V y(T(3)); y[j] = 0; M k(true); k[j] = false;
                   where(k, x) /= y; for (int i = 0; i < N; ++i) if (!(x[i] == (i == j ? a[i] : T(a[i] / 3)))) return false; }
                   return true;""", "a masked-off lane of where(k, x) /= y is not evaluated (zero divisor allowed there)", pre)
            for op, on in (("<<", "shl"), (">>", "shr")):
                add(cfg, "%s.%s" % (on, nm), [A, B, K], "for (int i = 0; i < N; ++i) b[i] = T(b[i] & T(vp::bits<T>::v - 1));" + L +
                    """{ V r = x; where(k, r) %s= y; ok &= vp::lanes(r, N, %s); }
                    { V r = x; where(k, r) %s= 1; ok &= vp::lanes(r, N, %s); } return ok;""" % (op, sel("a[i] %s b[i]" % op), op, sel("a[i] %s 1" % op)),
                    "where(k, x) %s= y" % op, pre)
        add(cfg, "unary." + nm, [A, K], """V x(a, stdx::element_aligned); M k(m, stdx::element_aligned); const V& cx = x;
            V p = x, q = x, r = x, s = x; where(k, p)++; where(k, q)--; ++where(k, r); --where(k, s);
            V n1 = -where(k, x); V n2 = -where(k, cx);
            return vp::lanes(p, N, %s) & vp::lanes(r, N, %s) & vp::lanes(q, N, %s) & vp::lanes(s, N, %s)
              & vp::lanes(n1, N, %s) & vp::lanes(n2, N, %s) & vp::lanes(x, N, [&](int i) { return a[i]; });""" %
            (sel("a[i] + 1"), sel("a[i] + 1"), sel("a[i] - 1"), sel("a[i] - 1"), sel("-a[i]"), sel("-a[i]")),
            "++, --, unary - of a where-expression act on the selected lanes only", pre)
        # memory
        for u in ("same", "float" if t != "float" else "double", "short" if t != "short" else "int"):
            ut = t if u == "same" else u
            dom = "T" if t not in FT else ut
            fix = ""
            if ut in FT and t not in FT:
                fix = "for (int i = 0; i < N; ++i) c[i] = (c[i] >= 0 && c[i] < 100) ? c[i] : U(1);"
            if t in FT and ut not in FT:
                fix += "for (int i = 0; i < N; ++i) a[i] = (a[i] >= 0 && a[i] < 100) ? a[i] : T(1);"
            add(cfg, "mem.%s.%s" % (u, nm), [A, (ut, "c", N), K], fix + """V x(a, stdx::element_aligned); M k(m, stdx::element_aligned); const V& cx = x;
              V r = x; where(k, r).copy_from(c, stdx::element_aligned);
              V r2 = x; where(k, r2).copy_from(c, stdx::vector_aligned);
              V r3 = where(k, cx).copy_from(c, stdx::element_aligned);
              alignas(64) U o[N + 1]; for (int i = 0; i < N; ++i) o[i] = c[i]; o[N] = c[0];
              alignas(64) U o2[N]; for (int i = 0; i < N; ++i) o2[i] = c[i];
              where(k, x).copy_to(o, stdx::element_aligned); where(k, cx).copy_to(o2, stdx::overaligned<64>);
              bool ok = vp::lanes(r, N, %s) & vp::lanes(r2, N, %s) & vp::lanes(r3, N, %s) & vp::lanes(x, N, [&](int i) { return a[i]; });
              for (int i = 0; i < N; ++i) ok &= vp::eq<U>(o[i], m[i] ? U(a[i]) : c[i]) & vp::eq<U>(o2[i], m[i] ? U(a[i]) : c[i]);
              return ok & vp::eq<U>(o[N], c[0]);""" % ((sel("T(c[i])"),) * 3),
                "masked copy_from/copy_to convert and move exactly the selected elements", pre + "using U = %s;" % ut)
        if N > 1:
            add(cfg, "memskip." + nm, [A, (t, "c", N - 1)], """V x(a, stdx::element_aligned); M k(true); k[N - 1] = false;
                T o[N - 1]; T in[N - 1]; for (int i = 0; i < N - 1; ++i) { in[i] = c[i]; o[i] = c[i]; }
                V r = x; where(k, r).copy_from(in, stdx::element_aligned); where(k, x).copy_to(o, stdx::element_aligned);
                const V cx = x; V r2 = where(k, cx).copy_from(in, stdx::element_aligned);
                bool ok = vp::lanes(r, N, [&](int i) { return i < N - 1 ? c[i] : a[i]; }) & vp::lanes(r2, N, [&](int i) { return i < N - 1 ? c[i] : a[i]; });
                for (int i = 0; i < N - 1; ++i) ok &= vp::eq<T>(o[i], a[i]);
                return ok;""", "masked-off elements are neither read nor written (memory ends before them)", pre)
    def genmask(cfg, t, n):
        N = sz(n)
        pre = "using M = %s::mask_type; constexpr int N = %d;" % (fx(t, n), N)
        for nm, st, ref in (("set", "where(k, r) = y", "b[i]"), ("and", "where(k, r) &= y", "bool(a[i] & b[i])"),
                            ("or", "where(k, r) |= y", "bool(a[i] | b[i])"), ("xor", "where(k, r) ^= y", "bool(a[i] ^ b[i])"),
                            ("true", "where(k, r) = true", "true")):
            add(cfg, "mask.%s.%s.%s" % (nm, tid(t), n or "scalar"), [("bool", "a", N), ("bool", "b", N), ("bool", "m", N)],
                """M x(a, stdx::element_aligned), y(b, stdx::element_aligned), k(m, stdx::element_aligned); bool ok = true;
                M r = x; %s;
                for (int i = 0; i < N; ++i) ok &= r[i] == (m[i] ? %s : a[i]);
                return ok;""" % (st, ref), "where on masks: assignment and &=, |=, ^= act on the selected lanes", pre)
    def genbool(cfg, t):
        isf = t in FT
        body = """T r = a[0]; stdx::where(m[0], r) = b[0]; bool ok = vp::eq<T>(r, m[0] ? b[0] : a[0]);
          T x = a[0]; const T& cx = x;
          { T q = x; stdx::where(m[0], q) += b[0]; ok &= vp::eq<T>(q, m[0] ? T(a[0] + b[0]) : a[0]); }
          { T q = x; stdx::where(m[0], q) -= b[0]; ok &= vp::eq<T>(q, m[0] ? T(a[0] - b[0]) : a[0]); }
          { T q = x; stdx::where(m[0], q) *= b[0]; ok &= vp::eq<T>(q, m[0] ? T(a[0] * b[0]) : a[0]); }
          { T q = x; ++stdx::where(m[0], q); ok &= vp::eq<T>(q, m[0] ? T(a[0] + 1) : a[0]); }
          { T q = x; stdx::where(m[0], q)++; ok &= vp::eq<T>(q, m[0] ? T(a[0] + 1) : a[0]); }
          { T q = x; --stdx::where(m[0], q); ok &= vp::eq<T>(q, m[0] ? T(a[0] - 1) : a[0]); }
          { T q = x; stdx::where(m[0], q)--; ok &= vp::eq<T>(q, m[0] ? T(a[0] - 1) : a[0]); }
          ok &= vp::eq<T>(-stdx::where(m[0], cx), m[0] ? T(-a[0]) : a[0]);
          { T q = x; stdx::where(m[0], q).copy_from(b, stdx::element_aligned); ok &= vp::eq<T>(q, m[0] ? b[0] : a[0]); }
          { ok &= vp::eq<T>(stdx::where(m[0], cx).copy_from(b, stdx::element_aligned), m[0] ? b[0] : a[0]); }
          { T o[2] = {b[0], b[0]}; stdx::where(m[0], x).copy_to(o, stdx::element_aligned); ok &= vp::eq<T>(o[0], m[0] ? a[0] : b[0]) & vp::eq<T>(o[1], b[0]); }
          ok &= vp::eq<T>(x, a[0]);
          """
        if not isf:
            for op in ("&", "|", "^"):
                body += "{ T q = x; stdx::where(m[0], q) %s= b[0]; ok &= q == (m[0] ? T(a[0] %s b[0]) : a[0]); }\n" % (op, op)
            for op in ("<<", ">>"):
                body += "{ T q = x; stdx::where(m[0], q) %s= 1; ok &= q == (m[0] ? T(a[0] %s 1) : a[0]); }\n" % (op, op)
            for op in ("/", "%"):
                body += "{ T q = x; T d = vp::divisor(b[0]); stdx::where(m[0], q) %s= d; ok &= q == (m[0] ? T(a[0] %s d) : a[0]); }\n" % (op, op)
        else:
            body += "{ T q = x; stdx::where(m[0], q) /= b[0]; ok &= vp::eq<T>(q, m[0] ? T(a[0] / b[0]) : a[0]); }\n"
        add(cfg, "bool." + tid(t), [(t, "a", 1), (t, "b", 1), ("bool", "m", 1)], body + "return ok;",
            "where(bool, scalar) behaves like a one-lane where-expression", "using T = %s;" % t)
    qt = ["int", "float", "unsigned char", "short", "double", "unsigned long"]
    # constraints: where(bool, simd) is deleted; where-expressions are only usable as rvalues
    add(FB20, "constraints", [], """using V = stdx::simd<float, stdx::simd_abi::fixed_size<4>>; using S = stdx::simd<int, stdx::simd_abi::scalar>;
        return !reject<V>() && !reject<S>() && good<V>() && good<S>();""", "where(bool, simd) is rejected, where(mask, simd) accepted",
        """template <class V> constexpr bool reject() { return requires(V& v) { where(true, v); }; }
        template <class V> constexpr bool good() { return requires(V& v) { where(v == v, v) = v; where(v == v, v) = typename V::value_type(); }; }""")
    if tier == "quick":
        for t in qt:
            for n in (0, 3, 4):
                gen(FB20, t, n)
        for t in ("float", "int"):
            gen(FB20V3, t, 5)
            gen(FB17, t, 2)
            for n in (8, 16, 17, 32):
                gen(FB20, t, n)
        for t, n in (("unsigned char", 16), ("short", 8), ("double", 2), ("double", 9), ("int", 33), ("signed char", 7), ("unsigned", 6), ("long long", 12), ("long double", 4)):
            gen(FB20, t, n)
        for t in ("float", "unsigned char", "long"):
            for n in (0, 2, 5, 8, 16, 17, 33):
                genmask(FB20, t, n)
        for t in qt + ["signed char", "long long"]:
            genbool(FB20, t)
    else:
        for t in IT + FT:
            for n in (0, 1, 3, 4, 8, 17):
                gen(FB20, t, n)
                genmask(FB20, t, n)
            gen(FB20V3, t, 5)
            gen(FB17, t, 3)
            genbool(FB20, t)
    return obs


FLOOR = 150
