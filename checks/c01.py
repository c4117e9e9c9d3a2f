from common import *
TITLE = "Element-wise operators of simd act on every lane like the scalar operator"
HDR = hdr("vir/simd.h")


def obligations(tier):
    obs = []
    def add(cfg, t, n, what, body, args, desc):
        V = fx(t, n)
        N = sz(n)
        pre = "using T = %s; using V = %s; constexpr int N = %d;" % (t, V, N)
        obs.append(Ob(cfg, "%s.%s.%s" % (what, tid(t), "scalar" if n == 0 else n), "vir/simd.h stdx::simd operator", desc,
                      args, body, pre))
    def gen(cfg, t, n):
        N = sz(n)
        A, B = (t, "a", N), (t, "b", N)
        L = "V x(a, stdx::element_aligned), y(b, stdx::element_aligned); "
        isf = t in FT
        ops = ["+", "-", "*"]
        iops = [] if isf else ["&", "|", "^"]
        # group: arithmetic binary, value and compound, simd-simd and simd-broadcast
        for op, nm in zip(ops + iops, ["add", "sub", "mul"] + ([] if isf else ["and", "or", "xor"])):
            add(cfg, t, n, nm, L + """
              V u = x; u %s= y;
              V w = x %s b[0]; V w2 = b[0] %s x;
              bool ok = vp::lanes(x %s y, N, [&](int i) { return T(a[i] %s b[i]); })
                & vp::lanes(u, N, [&](int i) { return T(a[i] %s b[i]); })
                & vp::lanes(w, N, [&](int i) { return T(a[i] %s b[0]); })
                & vp::lanes(w2, N, [&](int i) { return T(b[0] %s a[i]); })
                & vp::lanes(x, N, [&](int i) { return a[i]; }) & vp::lanes(y, N, [&](int i) { return b[i]; });
              return ok;""" % ((op,) * 8), [A, B], "(x %s y)[i] == T(x[i] %s y[i]) incl. compound and broadcast forms; operands unchanged" % (op, op))
        for op, nm in ([("/", "div")] if isf else [("/", "div"), ("%", "mod")]):
            add(cfg, t, n, nm, """for (int i = 0; i < N; ++i) b[i] = vp::divisor(b[i]);
              %s
              V u = x; u %s= y;
              return vp::lanes(x %s y, N, [&](int i) { return T(a[i] %s b[i]); })
                & vp::lanes(u, N, [&](int i) { return T(a[i] %s b[i]); })
                & vp::lanes(x %s b[0], N, [&](int i) { return T(a[i] %s b[0]); });""" % ((L,) + (op,) * 6), [A, B],
                "(x %s y)[i] == T(x[i] %s y[i])" % (op, op))
        if not isf:
            for op, nm in (("<<", "shl"), (">>", "shr")):
                add(cfg, t, n, nm, """for (int i = 0; i < N; ++i) b[i] = T(b[i] & T(vp::bits<T>::v - 1));
                  int s = int(b[0]);
                  %s
                  V u = x; u %s= y; V v = x; v %s= s;
                  return vp::lanes(x %s y, N, [&](int i) { return T(a[i] %s b[i]); })
                    & vp::lanes(u, N, [&](int i) { return T(a[i] %s b[i]); })
                    & vp::lanes(x %s s, N, [&](int i) { return T(a[i] %s s); })
                    & vp::lanes(v, N, [&](int i) { return T(a[i] %s s); });""" % ((L,) + (op,) * 8), [A, B],
                    "(x %s y)[i] == T(x[i] %s y[i]), for simd and int shift counts" % (op, op))
        # operands that alias the result; the result of an assignment operator is its left operand
        al = "V x(a, stdx::element_aligned), y(b, stdx::element_aligned); bool ok = true;\n"
        for op in ops + iops:
            al += """{ V u = x; u %s= u; ok &= vp::lanes(u, N, [&](int i) { return T(a[i] %s a[i]); });
              V v = x; v %s= v[N - 1]; ok &= vp::lanes(v, N, [&](int i) { return T(a[i] %s a[N - 1]); });
              V f = x; f %s= f[0]; ok &= vp::lanes(f, N, [&](int i) { return T(a[i] %s a[0]); });
              V w = x; V& r = (w %s= y); ok &= &r == &w; V z = w; w = w %s w; ok &= vp::lanes(w, N, [&](int i) { return T(z[i] %s z[i]); }); }\n""" % ((op,) * 9)
        al += """{ V u = x; V& p = ++u; ok &= &p == &u; V& q = --u; ok &= &q == &u; ok &= vp::lanes(u, N, [&](int i) { return %s; }); }
          { V u = x; u = u[N - 1]; ok &= vp::lanes(u, N, [&](int) { return a[N - 1]; }); u = V(y); ok &= vp::lanes(u, N, [&](int i) { return b[i]; }); }
          { V u = x; u[0] += b[0]; u[N - 1] = u[0]; ok &= vp::lanes(u, N, [&](int i) { return i == 0 || i == N - 1 ? T(a[0] + b[0]) : a[i]; }); }
          return ok;""" % ("T((a[i] + 1) - 1)" if isf else "a[i]")
        add(cfg, t, n, "alias", al, [A, B], "operators give the same result when operands alias; assignment operators return a reference to the left operand; lanes are writable through [i]")
        # unary
        u = """V x(a, stdx::element_aligned);
          V p = x, q = x, r = x, s = x;
          V p2 = p++; V q2 = q--; V r2 = ++r; V s2 = --s;
          bool ok = vp::lanes(-x, N, [&](int i) { return T(-a[i]); }) & vp::lanes(+x, N, [&](int i) { return a[i]; })
            & vp::lanes(p, N, [&](int i) { return T(a[i] + 1); }) & vp::lanes(p2, N, [&](int i) { return a[i]; })
            & vp::lanes(q, N, [&](int i) { return T(a[i] - 1); }) & vp::lanes(q2, N, [&](int i) { return a[i]; })
            & vp::lanes(r, N, [&](int i) { return T(a[i] + 1); }) & vp::lanes(r2, N, [&](int i) { return T(a[i] + 1); })
            & vp::lanes(s, N, [&](int i) { return T(a[i] - 1); }) & vp::lanes(s2, N, [&](int i) { return T(a[i] - 1); });
          auto nx = !x;
          ok &= int(nx.size()) == N && std::is_same_v<decltype(nx), typename V::mask_type>;
          for (int i = 0; i < N; ++i) ok &= bool(nx[i]) == !a[i];
          """
        if not isf:
            u += "ok &= vp::lanes(~x, N, [&](int i) { return T(~a[i]); });"
        add(cfg, t, n, "unary", u + "return ok;", [A], "unary -, +, ~, !, ++, -- act per lane; postfix forms return the old value")
        # compares
        body = L + "bool ok = true;\n"
        for op in ["==", "!=", "<", "<=", ">", ">="]:
            body += """{ auto k = x %s y; ok &= std::is_same_v<decltype(k), typename V::mask_type>;
              auto k2 = x %s b[0]; auto k3 = b[0] %s x;
              for (int i = 0; i < N; ++i) ok &= (bool(k[i]) == (a[i] %s b[i])) & (bool(k2[i]) == (a[i] %s b[0])) & (bool(k3[i]) == (b[0] %s a[i])); }\n""" % ((op,) * 6)
        add(cfg, t, n, "compare", body + "return ok;", [A, B], "(x OP y)[i] == (x[i] OP y[i]) for all six comparisons")
    types = IT + FT
    if tier == "quick":
        for t in types:
            for n in (0, 3, 4 if SIZE[t] > 1 else 16):
                gen(FB20, t, n)
        for t in ("int", "float", "unsigned char", "short", "double"):
            for n in (1, 17):
                gen(FB20V3, t, n)
            gen(FB17, t, 5)
            for n in (8, 12, 32):
                gen(FB20, t, n)
        for t in ("signed char", "unsigned short", "unsigned", "long", "unsigned long long", "long double"):
            for n in (2, 7, 16):
                gen(FB20, t, n)
        for t, n in (("float", 33), ("int", 64), ("unsigned char", 130)):
            gen(FB20, t, n)
    else:
        for t in types:
            for n in (0, 1, 2, 3, 4, 5, 7, 8, 16, 17, 31, 32):
                gen(FB20, t, n)
            for n in (0, 2, 5, 8):
                gen(FB17, t, n)
                gen(FB20V3, t, n)
            gen(FB23, t, 6)
            for n in (33, 64, 65):
                gen(FB20, t, n)
    return uniq(obs)


FLOOR = 400
