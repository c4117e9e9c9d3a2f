from common import *
TITLE = "Mask operators act per lane; mask reductions agree with the set of true lanes"
HDR = hdr("vir/simd.h")
SUB = "vir/simd.h stdx::simd_mask"


def mask(t, n):
    return "stdx::simd_mask<%s, stdx::simd_abi::%s>" % (t, "scalar" if n == 0 else "fixed_size<%d>" % n)


def obligations(tier):
    obs = []
    def add(cfg, t, n, what, args, body, desc, pre=""):
        obs.append(Ob(cfg, "%s.%s.%s" % (what, tid(t), n or "scalar"), SUB, desc, args, body,
                      "using T = %s; using M = %s; constexpr int N = %d;%s" % (t, mask(t, n), sz(n), pre)))
    def gen(cfg, t, n):
        N = sz(n)
        A, B = ("bool", "a", N), ("bool", "b", N)
        L = "M x(a, stdx::element_aligned), y(b, stdx::element_aligned); bool ok = true;\n"
        body = L
        for op, ref in (("&&", "a[i] & b[i]"), ("||", "a[i] | b[i]"), ("&", "a[i] & b[i]"), ("|", "a[i] | b[i]"),
                        ("^", "a[i] ^ b[i]"), ("==", "a[i] == b[i]"), ("!=", "a[i] != b[i]")):
            body += "{ auto r = x %s y; ok &= std::is_same_v<decltype(r), M>; for (int i = 0; i < N; ++i) ok &= r[i] == bool(%s); }\n" % (op, ref)
        for op in "&|^":
            body += "{ M r = x; M& q = (r %s= y); ok &= &q == &r; for (int i = 0; i < N; ++i) ok &= r[i] == bool(a[i] %s b[i]); }\n" % (op, op)
        body += """{ M r = !x; for (int i = 0; i < N; ++i) ok &= r[i] == !a[i]; }
          for (int i = 0; i < N; ++i) ok &= (x[i] == a[i]) & (y[i] == b[i]);
          return ok;"""
        add(cfg, t, n, "ops", [A, B], body, "&&, ||, &, |, ^, ==, !=, compound forms and ! act per lane on masks; operands unchanged")
        # construction, load, store, subscript, broadcast
        body = """bool ok = int(M::size()) == N;
          M x(a, stdx::element_aligned); M k(b, stdx::element_aligned);
          M l(true), f(false), ml(a, k, stdx::element_aligned);
          M v1(a, stdx::vector_aligned), v2(a, stdx::overaligned<64>);
          M c = x; c.copy_from(b, stdx::element_aligned);
          M c2 = x; c2.copy_from(b, stdx::vector_aligned);
          alignas(64) bool out[N + 2] = {}; out[N] = b[0]; out[N + 1] = a[0];
          x.copy_to(out, stdx::element_aligned);
          alignas(64) bool out2[N] = {}; x.copy_to(out2, stdx::vector_aligned);
          for (int i = 0; i < N; ++i)
            ok &= (x[i] == a[i]) & (l[i] == true) & (f[i] == false) & (ml[i] == (a[i] & b[i])) & (v1[i] == a[i])
              & (v2[i] == a[i]) & (c[i] == b[i]) & (c2[i] == b[i]) & (out[i] == a[i]) & (out2[i] == a[i]);
          ok &= (out[N] == b[0]) & (out[N + 1] == a[0]);
          for (int j = 0; j < N; j += N > 32 ? 31 : 1) { M w = x; w[j] = b[j];
            for (int i = 0; i < N; ++i) ok &= w[i] == (i == j ? b[i] : a[i]); }
          return ok;"""
        add(cfg, t, n, "mem", [A, B], body, "broadcast, (masked) load, store, copy_from, subscript read/write move exactly the addressed lanes")
        # reductions: case split over masks
        if N <= 6:
            cases, get = 1 << N, "bool((c >> i) & 1)"
        elif N > 32:
            cases, get = 12, "(c == 0 ? false : c == 1 ? true : c < 7 ? i == (c - 2) * (N - 1) / 4 : i != (c - 7) * (N - 1) / 4)"
        else:
            # single bits, complements, intervals
            cases, get = 3 * N, "(c < N ? i == c : c < 2 * N ? i != c - N : (i >= (c - 2 * N) / 2 && i < c - 2 * N))"
        pre = """template <int c> static bool one() { bool ok = true;
            M k(false); int cnt = 0, first = -1, last = -1;
            for (int i = 0; i < N; ++i) { const bool bit = %s; k[i] = bit; cnt += bit; if (bit) { last = i; if (first < 0) first = i; } }
            ok &= all_of(k) == (cnt == N); ok &= any_of(k) == (cnt > 0); ok &= none_of(k) == (cnt == 0);
            ok &= some_of(k) == (cnt > 0 && cnt < N); ok &= popcount(k) == cnt;
            if (cnt > 0) { ok &= find_first_set(k) == first; ok &= find_last_set(k) == last; }
            return ok; }
            template <int... c> static bool all(std::integer_sequence<int, c...>) { return (one<c>() & ...); }""" % get
        if N <= 6 or N in (8, 16, 17, 32, 33, 65):
            add(cfg, t, n, "reductions", [], "return all(std::make_integer_sequence<int, %d>());" % cases,
            "all_of, any_of, none_of, some_of, popcount, find_first_set, find_last_set equal the count/position of true lanes (case split over masks)", pre)
        if N <= 4:
            body = """M k(a, stdx::element_aligned); int cnt = 0; for (int i = 0; i < N; ++i) cnt += a[i];
              bool all = true, any = false; for (int i = 0; i < N; ++i) { all &= a[i]; any |= a[i]; }
              return (all_of(k) == all) & (any_of(k) == any) & (none_of(k) == !any) & (popcount(k) == cnt);"""
            add(cfg, t, n, "symred", [A], body, "all_of/any_of/none_of/popcount for symbolic masks")
        if N > 4:
            for what, ex in (("all", "all_of(k) == all"), ("any", "any_of(k) == any"), ("none", "none_of(k) == !any"), ("pop", "popcount(k) == cnt")):
                add(cfg, t, n, "sym" + what, [A], """M k(a, stdx::element_aligned); int cnt = 0; bool all = true, any = false;
                  for (int i = 0; i < N; ++i) { cnt += a[i]; all &= a[i]; any |= a[i]; } return %s;""" % ex, what + "_of/popcount for symbolic masks")
        if N > 1:
            for j in sorted({0, 1, N // 2, N - 2, N - 1}):
                add(cfg, t, n, "symfirst%d" % j, [A], "for (int i = 0; i < %d; ++i) a[i] = false; a[%d] = true; M k(a, stdx::element_aligned); return find_first_set(k) == %d;" % (j, j, j),
                    "find_first_set returns the position of the first true lane, whatever the lanes after it are")
                add(cfg, t, n, "symlast%d" % j, [A], "for (int i = %d; i < N; ++i) a[i] = false; a[%d] = true; M k(a, stdx::element_aligned); return find_last_set(k) == %d;" % (j + 1, j, j),
                    "find_last_set returns the position of the last true lane, whatever the lanes before it are")
                add(cfg, t, n, "symsome%d" % j, [A], "a[%d] = true; a[%d] = false; M k(a, stdx::element_aligned); return some_of(k);" % (j, (j + 1) % N),
                    "some_of is true if one lane is true and one is false")
    # bool reductions
    obs.append(Ob(FB20, "boolred", "vir/simd.h reductions of bool", "reductions of a plain bool behave like a one-lane mask", [("bool", "a", 1)],
                  """return (stdx::all_of(a[0]) == a[0]) & (stdx::any_of(a[0]) == a[0]) & (stdx::none_of(a[0]) == !a[0])
                     & (stdx::some_of(a[0]) == false) & (stdx::popcount(a[0]) == int(a[0])) & (stdx::find_first_set(true) == 0) & (stdx::find_last_set(true) == 0);"""))
    # conversions between masks of equal size
    for n in (0, 3, 8):
        for t, u in (("int", "float"), ("float", "unsigned"), ("short", "char16_t"), ("double", "long"), ("unsigned char", "int"), ("long long", "short")):
            obs.append(Ob(FB20, "cvt.%s.%s.%d" % (tid(t), tid(u), n), SUB + " conversions",
                          "converting, static_simd_cast-ing a mask to the mask of another element type keeps every lane", [("bool", "a", sz(n))],
                          """%s x(a, stdx::element_aligned); bool ok = true;
                          auto z = stdx::static_simd_cast<%s>(x); auto w = stdx::static_simd_cast<%s>(x);
                          %s
                          ok &= std::is_same_v<decltype(z), %s> && std::is_same_v<decltype(w), %s>;
                          for (int i = 0; i < %d; ++i) ok &= (z[i] == a[i]) & (w[i] == a[i]) %s;
                          return ok;""" % (mask(t, n), mask(u, n), u, ("%s y = x;" % mask(u, n)) if n else "", mask(u, n), mask(u, n), sz(n),
                                           "& (y[i] == a[i])" if n else "")))
    # masked copy of a where expression on masks is covered by C03
    types = ["int", "float", "unsigned char", "long double", "short", "double", "char16_t", "unsigned long"]
    if tier == "quick":
        for t in types[:4]:
            for n in (0, 1, 3, 4, 8):
                gen(FB20, t, n)
        for n in (17, 32):
            gen(FB20, "float", n)
            gen(FB20V3, "short", n)
        gen(FB17, "int", 5)
        for t, n in (("int", 7), ("unsigned char", 16), ("double", 2), ("float", 33), ("short", 65), ("unsigned char", 130)):
            gen(FB20, t, n)
    else:
        for t in types + ["char", "long long", "unsigned"]:
            for n in (0, 1, 2, 3, 4, 5, 7, 8, 16, 17, 31, 32):
                gen(FB20, t, n)
            gen(FB17, t, 5)
            gen(FB20V3, t, 8)
            for n in (33, 64, 65):
                gen(FB20, t, n)
    return obs


FLOOR = 80
