from common import *
TITLE = "Math functions of the fallback apply the corresponding <cmath> function to every lane"
# libm functions with out-parameters or hidden state are modelled as uninterpreted functions of their inputs
MODEL = """
#ifdef VP_CONCRETE
#define VP_U(R, N, P, E) static VP_INL R N P noexcept { return E; }
#else
#define VP_U(R, N, P, E) extern "C" __attribute__((const, nothrow)) R N P noexcept;
#endif
"""
for ty, s in (("float", "f"), ("double", ""), ("long double", "l")):
    MODEL += """
VP_U({T}, vpm_lgamma{s}, ({T} x), x * 3 + 1)
VP_U({T}, vpm_frexp{s}, ({T} x), x * 5 + 1) VP_U(int, vpe_frexp{s}, ({T} x), int(x) + 1)
VP_U({T}, vpm_modf{s}, ({T} x), x * 7 + 1) VP_U({T}, vpe_modf{s}, ({T} x), x * 2 + 3)
VP_U({T}, vpm_remquo{s}, ({T} x, {T} y), x * 7 + y + 1) VP_U(int, vpe_remquo{s}, ({T} x, {T} y), int(x) * 2 + int(y))
extern "C" {{
{T} lgamma{s}({T} x) noexcept {{ return vpm_lgamma{s}(x); }}
{T} frexp{s}({T} x, int* e) noexcept {{ *e = vpe_frexp{s}(x); return vpm_frexp{s}(x); }}
{T} modf{s}({T} x, {T}* e) noexcept {{ *e = vpe_modf{s}(x); return vpm_modf{s}(x); }}
{T} remquo{s}({T} x, {T} y, int* e) noexcept {{ *e = vpe_remquo{s}(x, y); return vpm_remquo{s}(x, y); }}
}}
""".format(T=ty, s=s)
HDR = hdr("vir/simd.h") + MODEL
SUB = "vir/simd.h math functions"
F1 = ["erf", "erfc", "tgamma", "lgamma", "sqrt", "trunc", "ceil", "floor", "round", "nearbyint", "rint", "sin", "cos",
      "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "log", "log10", "log1p", "log2",
      "logb", "exp", "exp2", "expm1", "cbrt", "abs"]
K1 = ["isnan", "isfinite", "isinf", "isnormal", "signbit"]
X1 = [("lround", "long"), ("llround", "long long"), ("lrint", "long"), ("llrint", "long long"), ("ilogb", "int"),
      ("fpclassify", "int")]
F2 = ["pow", "fmod", "remainder", "nextafter", "copysign", "fdim", "fmax", "fmin", "hypot", "atan2"]
K2 = ["isgreater", "isgreaterequal", "isless", "islessequal", "islessgreater", "isunordered"]
F3 = ["fma", "hypot"]


def obligations(tier):
    obs = []
    q = tier == "quick"
    def add(cfg, id, args, body, desc, pre=""):
        obs.append(Ob(cfg, id, SUB, desc, args, body, pre))
    def gen(cfg, t, n):
        N = sz(n)
        nm = "%s.%s" % (tid(t), n or "scalar")
        pre = "using T = %s; using V = %s; using M = V::mask_type; constexpr int N = %d;" % (t, fx(t, n), N)
        A, B, C = (t, "a", N), (t, "b", N), (t, "c", N)
        X = "V x(a, stdx::element_aligned); bool ok = true;\n"
        XY = "V x(a, stdx::element_aligned), y(b, stdx::element_aligned); bool ok = true;\n"
        for f in F1:
            add(cfg, "%s.%s" % (f, nm), [A], X + """auto r = %s(x); ok &= std::is_same_v<decltype(r), V>;
              return ok & vp::lanes(r, N, [&](int i) { return T(std::%s(a[i])); });""" % (f, f), "%s(x)[i] == std::%s(x[i])" % (f, f), pre)
        for f in K1:
            add(cfg, "%s.%s" % (f, nm), [A], X + """auto r = %s(x); ok &= std::is_same_v<decltype(r), M>;
              for (int i = 0; i < N; ++i) ok &= r[i] == bool(std::%s(a[i])); return ok;""" % (f, f), "%s(x)[i] == std::%s(x[i])" % (f, f), pre)
        for f, r in X1:
            dom = "for (int i = 0; i < N; ++i) a[i] = (a[i] > -1000 && a[i] < 1000) ? a[i] : T(1);" if f[0] == "l" else ""
            add(cfg, "%s.%s" % (f, nm), [A], dom + X + """auto r = %s(x); ok &= std::is_same_v<decltype(r), stdx::fixed_size_simd<%s, N>>;
              for (int i = 0; i < N; ++i) ok &= r[i] == std::%s(a[i]); return ok;""" % (f, r, f), "%s(x)[i] == std::%s(x[i])" % (f, f), pre)
        for f in F2:
            add(cfg, "%s2.%s" % (f, nm), [A, B], XY + """auto r = %s(x, y); auto s = %s(x, b[0]); auto u = %s(b[0], x); ok &= std::is_same_v<decltype(r), V>;
              return ok & vp::lanes(r, N, [&](int i) { return T(std::%s(a[i], b[i])); }) & vp::lanes(s, N, [&](int i) { return T(std::%s(a[i], b[0])); })
                & vp::lanes(u, N, [&](int i) { return T(std::%s(b[0], a[i])); });""" % ((f,) * 6), "%s(x, y)[i] == std::%s(x[i], y[i]), also with one scalar argument" % (f, f), pre)
        for f in K2:
            add(cfg, "%s.%s" % (f, nm), [A, B], XY + """auto r = %s(x, y); auto s = %s(x, b[0]); auto u = %s(b[0], x); ok &= std::is_same_v<decltype(r), M>;
              for (int i = 0; i < N; ++i) ok &= (r[i] == std::%s(a[i], b[i])) & (s[i] == std::%s(a[i], b[0])) & (u[i] == std::%s(b[0], a[i])); return ok;""" % ((f,) * 6),
                "%s(x, y)[i] == std::%s(x[i], y[i]), also with one scalar argument" % (f, f), pre)
        for f in F3:
            add(cfg, "%s3.%s" % (f, nm), [A, B, C], """V x(a, stdx::element_aligned), y(b, stdx::element_aligned), z(c, stdx::element_aligned); bool ok = true;
              auto r = %s(x, y, z); auto s = %s(x, b[0], c[0]); auto u = %s(a[0], y, c[0]); auto v = %s(a[0], b[0], z); ok &= std::is_same_v<decltype(r), V>;
              return ok & vp::lanes(r, N, [&](int i) { return T(std::%s(a[i], b[i], c[i])); }) & vp::lanes(s, N, [&](int i) { return T(std::%s(a[i], b[0], c[0])); })
                & vp::lanes(u, N, [&](int i) { return T(std::%s(a[0], b[i], c[0])); }) & vp::lanes(v, N, [&](int i) { return T(std::%s(a[0], b[0], c[i])); });""" % ((f,) * 8),
                "%s(x, y, z)[i] == std::%s(x[i], y[i], z[i]), also with scalar arguments" % (f, f), pre)
        add(cfg, "frexp." + nm, [A], X + """stdx::fixed_size_simd<int, N> e = 0; auto r = frexp(x, &e);
              for (int i = 0; i < N; ++i) { int q; T w = std::frexp(a[i], &q); ok &= vp::eq<T>(r[i], w) & (e[i] == q); } return ok;""",
            "frexp stores exponent i and returns significand i", pre)
        add(cfg, "modf." + nm, [A], X + """V e = T(0); auto r = modf(x, &e);
              for (int i = 0; i < N; ++i) { T q; T w = std::modf(a[i], &q); ok &= vp::eq<T>(r[i], w) & vp::eq<T>(e[i], q); } return ok;""",
            "modf stores integral part i and returns fractional part i", pre)
        add(cfg, "remquo." + nm, [A, B], XY + """stdx::fixed_size_simd<int, N> e = 0; auto r = remquo(x, y, &e);
              for (int i = 0; i < N; ++i) { int q; T w = std::remquo(a[i], b[i], &q); ok &= vp::eq<T>(r[i], w) & (e[i] == q); } return ok;""",
            "remquo stores quotient i and returns remainder i", pre)
        for f, e in (("ldexp", "int"), ("scalbn", "int"), ("scalbln", "long")):
            add(cfg, "%s.%s" % (f, nm), [A, (e, "b", N)], X + """stdx::fixed_size_simd<%s, N> e(b, stdx::element_aligned); auto r = %s(x, e);
              return ok & vp::lanes(r, N, [&](int i) { return T(std::%s(a[i], b[i])); });""" % (e, f, f), "%s(x, e)[i] == std::%s(x[i], e[i])" % (f, f), pre)
    def iabs(cfg, t, n):
        add(cfg, "iabs.%s.%s" % (tid(t), n or "scalar"), [(t, "a", sz(n))], """V x(a, stdx::element_aligned); auto r = abs(x);
          return vp::lanes(r, N, [&](int i) { return a[i] < 0 ? T(-a[i]) : a[i]; });""", "abs of a signed integer simd, per lane",
            "using T = %s; using V = %s; constexpr int N = %d;" % (t, fx(t, n), sz(n)))
    for t in FT:
        for n in ((0, 1, 2, 3, 4, 5, 8, 12, 16, 17) if t == "float" else (0, 3, 4, 9)) if q else (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 32):
            gen(FB20, t, n)
    gen(FB20V3, "float", 8 if q else 17)
    gen(FB17, "double", 2)
    for t in ("int", "long", "long long") + (() if q else ("short", "signed char")):
        for n in (0, 3, 4, 8):
            iabs(FB20, t, n)
    return uniq(obs)


FLOOR = 400
