from common import *
import concurrent.futures as cf, re, shutil, subprocess, tempfile
TITLE = "Every header works alone, in any order and in every supported configuration"
SUB = "vir/*.h"
HDR = hdr("vir/simd.h")

# documented use of every header; {S} is the simd namespace.  (feature macro or None, minimum standard, includes, code)
USES = {
    "simd": (None, 17, ["simd.h"], """using V = stdx::simd<float, stdx::simd_abi::fixed_size<4>>; using N = stdx::native_simd<int>; using M = V::mask_type;
      V v1(const float* p) { V x(p, stdx::element_aligned); where(x > 2.f, x) *= 3.f; x = stdx::sqrt(stdx::abs(x)) + stdx::sin(x); return stdx::min(x, V(4.f)); }
      float r1(const V& x) { return stdx::reduce(x) + stdx::hmin(x) + stdx::hmax(x) + stdx::reduce(where(x > 0.f, x), std::plus<>()); }
      int m1(const M& k) { return stdx::popcount(k) + stdx::find_first_set(k) + stdx::any_of(k) + stdx::all_of(k) + stdx::none_of(k) + stdx::some_of(k); }
      auto c1(const V& x) { return stdx::static_simd_cast<int>(x); } auto c2(const M& k) { return vir::stdx::static_simd_cast<stdx::simd_mask<int, stdx::simd_abi::fixed_size<4>>>(k); }
      auto s1(const V& x) { return stdx::split<2, 2>(x); } auto s2(const V& x) { return stdx::concat(x, x); } auto n1(int* p) { N n([](int i) { return i; }); n.copy_to(p, stdx::element_aligned); return n; }
      static_assert(stdx::is_simd_v<V> && stdx::is_simd_mask_v<M> && stdx::simd_size_v<float, stdx::simd_abi::fixed_size<4>> == 4 && stdx::is_abi_tag_v<stdx::simd_abi::scalar> && stdx::memory_alignment_v<V> >= alignof(float));
      stdx::rebind_simd_t<int, V> q1; stdx::resize_simd_t<2, V> q2; stdx::fixed_size_simd<int, 3> q3; stdx::fixed_size_simd_mask<int, 3> q4; stdx::native_simd_mask<int> q5; stdx::simd_abi::deduce_t<float, 4>* q6;"""),
    "simd_iota": ("VIR_HAVE_SIMD_IOTA", 20, ["simd_iota.h"], "auto f() { return vir::iota_v<stdx::native_simd<int>> + 1; } auto g() { return vir::iota_v<int[4]>; }"),
    "simd_cvt": ("VIR_HAVE_SIMD_CVT", 20, ["simd_cvt.h"], "using floatv = stdx::native_simd<float>; using intv = stdx::rebind_simd_t<int, floatv>; floatv f(intv x) { return vir::cvt(x); } int g(float x) { return vir::cvt(x); }"),
    "simd_permute": ("VIR_HAVE_SIMD_PERMUTE", 20, ["simd_permute.h"], """using V = stdx::native_simd<float>; V f(V x) { return vir::simd_permute(x, vir::simd_permutations::reverse) + vir::simd_permute(x, [](auto i, auto size) { return (i + 1) % size; }) + vir::simd_permute(x, [](unsigned i) { return i ^ 0; }); }
      V g(V x) { return vir::simd_permute(x, vir::simd_permutations::rotate<1>) + vir::simd_shift_in<1>(x, x); }"""),
    "simd_execution": ("VIR_HAVE_SIMD_EXECUTION", 20, ["simd_execution.h"], """void f(std::array<float, 100>& x) { std::for_each(vir::execution::simd, x.begin(), x.end(), [](auto& v) { v += 1; }); vir::for_each(vir::execution::simd.unroll_by<2>().prefer_aligned(), x, [](auto&... v) { ((v *= 2), ...); }); }
      float g(const std::array<float, 100>& x) { return vir::reduce(vir::execution::simd, x, 0.f) + std::transform_reduce(vir::execution::simd, x.begin(), x.end(), 0.f, std::plus<>(), [](auto v) { return v * v; }) + vir::count_if(vir::execution::simd, x, [](auto v) { return v > 1; }); }
      void h(const std::array<float, 100>& x, std::array<float, 100>& y) { std::transform(vir::execution::simd.auto_prologue(), x.begin(), x.end(), y.begin(), [](auto v) { return v + 1; }); vir::transform(vir::execution::simd, x, y, y, [](auto v, auto w) { return v + w; }); }"""),
    "simd_float_ops": (None, 17, ["simd_float_ops.h"], "using namespace vir::simd_float_ops; using V = stdx::native_simd<float>; V f(V x, V y) { return (x & y) | (x ^ y); }"),
    "simd_bitset": (None, 17, ["simd_bitset.h"], "using V = stdx::fixed_size_simd<float, 4>; std::bitset<4> f(V::mask_type k) { return vir::to_bitset(k); } V::mask_type g(std::bitset<4> b) { return vir::to_simd_mask<V::mask_type>(b); } auto h(std::bitset<4> b) { return vir::to_simd_mask<float, 4>(b); }"),
    "simd_resize": (None, 17, ["simd_resize.h"], "using V = stdx::fixed_size_simd<float, 4>; auto f(V x) { return vir::simd_resize<2>(x); } auto g(V x) { return vir::simd_size_cast<stdx::resize_simd_t<6, V>>(x); }"),
    "simd_bit": (None, 17, ["simd_bit.h"], "using V = stdx::fixed_size_simd<float, 4>; auto f(V x) { return vir::simd_bit_cast<stdx::fixed_size_simd<int, 4>>(x); }"),
    "simd_cast": (None, 17, ["simd_cast.h"], "using V = stdx::fixed_size_simd<float, 4>; auto f(V x) { return stdx::static_simd_cast<int>(x); }"),
    "simd_concepts": ("VIR_HAVE_SIMD_CONCEPTS", 20, ["simd_concepts.h"], """static_assert(vir::arithmetic<float> && vir::vectorizable<int> && vir::any_simd<stdx::native_simd<float>> && vir::any_simd_mask<stdx::native_simd_mask<float>> && vir::any_simd_or_mask<stdx::native_simd<float>> && vir::typed_simd<stdx::native_simd<float>, float> && vir::sized_simd<stdx::fixed_size_simd<float, 3>, 3>
      && vir::simd_abi_tag<stdx::simd_abi::scalar> && vir::sized_simd_mask<stdx::fixed_size_simd_mask<float, 3>, 3>);"""),
    "simdize": ("VIR_HAVE_SIMDIZE", 20, ["simdize.h"], "struct P { float x, y, z; }; using V = vir::simdize<P>; using T = vir::simdize<std::tuple<float, int>, 4>; P f(const P* p) { V v(p); auto& [x, y, z] = v; x = y + z; return v[0]; } static_assert(T::size() == 4); vir::simdize<float, 8> g;"),
    "struct_reflect": ("VIR_HAVE_STRUCT_REFLECT", 20, ["struct_reflect.h"], "struct P { float x; int y; }; static_assert(vir::struct_size_v<P> == 2 && std::is_same_v<vir::struct_element_t<1, P>, int>); auto f(const P& p) { return vir::to_tuple(p); } int& g(P& p) { return vir::struct_get<1>(p); }"),
    "simd_benchmarking": ("VIR_HAVE_SIMD_BENCHMARKING", 20, ["simd_benchmarking.h"], "void f(stdx::native_simd<float> x, int i, double d) { vir::fake_modify(x, i, d); vir::fake_read(x, i, d); }"),
    "constexpr_wrapper": ("VIR_HAVE_CONSTEXPR_WRAPPER", 20, ["constexpr_wrapper.h"], "auto f(vir::constexpr_value auto N) { int x[N] = {}; return sizeof(x); } auto g() { using namespace vir::literals; return f(10_cw) + f(vir::cw<3>); }"),
    "simd_version": (None, 17, ["simd_version.h"], "#if VIR_SIMD_VERSION <= 0x00000\n#error version\n#endif\nstatic_assert(vir::simd_version.major >= 0 && VIR_SIMD_VERSION_MAJOR >= 0 && VIR_SIMD_VERSION_MINOR >= 0 && VIR_SIMD_VERSION_PATCHLEVEL >= 0);"),
}
NEEDSTL = {"simd_execution": ["array", "algorithm", "numeric", "functional"], "simdize": ["tuple"], "struct_reflect": ["tuple"], "simd": ["functional"]}


def headers():
    return sorted(f for f in os.listdir(os.path.join(REPO, "vir")) if f.endswith(".h"))


def flags(backend, march, std, extra=()):
    return ["-std=" + std, "-march=" + march, "-I" + REPO, "-w"] + (["-DVIR_DISABLE_STDX_SIMD"] if backend == "fallback" else []) + list(extra)


def extra(tier, seed):
    q = tier == "quick"
    d = tempfile.mkdtemp(prefix="vp_C23_")
    jobs = []       # (id, subject, compiler, flags, source, kind, what)
    H = headers()
    ALL = "".join("#include <vir/%s>\n" % h for h in H)
    stds = ("gnu++17", "c++20", "gnu++23") if q else ("c++17", "gnu++17", "c++20", "gnu++20", "c++23", "gnu++23")
    marches = ("x86-64", "x86-64-v3", "x86-64-v4")
    BK = ("fallback", "stdlib")
    def compile_ok(id, subj, cc, fl, src, what):
        jobs.append((id, subj, cc, fl, src, "ok", what))
    for i, h in enumerate(H):
        for std in stds:
            for b in BK:
                for cc in (CLANG, GXX):
                    for m in marches[(i + len(jobs)) % 3:][:1] if q else marches:
                        compile_ok("alone.%s.%s.%s.%s.%s" % (h, b, std, m, cc), "vir/" + h, cc, flags(b, m, std), "#include <vir/%s>\n#include <vir/%s>\n" % (h, h), "the header compiles on its own and twice")
    # inclusion order
    for a in H:
        for b2 in H:
            if a != b2:
                for b, std, cc in (("fallback", "gnu++20", CLANG),) if q else (("fallback", "gnu++20", CLANG), ("stdlib", "gnu++23", GXX), ("fallback", "gnu++20", GXX), ("stdlib", "gnu++17", GXX)):
                    compile_ok("order.%s.%s.%s.%s.%s" % (a, b2, b, std, cc), "vir/" + b2, cc, flags(b, "x86-64", std), "#include <vir/%s>\n#include <vir/%s>\n" % (a, b2), "any inclusion order compiles")
    # documented uses
    for u, (mac, minstd, inc, code) in USES.items():
        for std in stds:
            n = int(std[-2:])
            for b in BK:
                for cc in (CLANG, GXX):
                    for drop in (False, True):
                        if drop and q and std != "gnu++23":
                            continue
                        for m in ("x86-64-v3",) if q else marches:
                            pre = "".join("#include <%s>\n" % x for x in NEEDSTL.get(u, [])) + "".join("#include <vir/%s>\n" % x for x in inc)
                            ns = "" if inc[0] in ("struct_reflect.h", "constexpr_wrapper.h", "simd_version.h") else "namespace stdx = %s;\n" % ("std::experimental" if drop else "vir::stdx")
                            fl = flags(b, m, std, ("-DVIR_SIMD_TS_DROPIN",) if drop else ())
                            if mac:
                                src = pre + "#ifdef %s\n%s%s\n#elif __cplusplus >= 202002L\n#error %s is not defined although the language standard suffices\n#endif\n" % (mac, ns, code, mac)
                            else:
                                src = pre + ns + code + "\n"
                            compile_ok("use.%s.%s.%s.%s.%s%s" % (u, b, std, m, cc, ".dropin" if drop else ""), "vir/" + inc[0], cc, fl, src, "the documented use compiles" + (" and the feature macro announces it" if mac else ""))
    # backend selection macros
    for b in BK:
        for cc in (CLANG, GXX):
            for std in stds:
                src = "#include <vir/simd.h>\n#if defined VIR_HAVE_STD_SIMD == defined VIR_HAVE_VIR_SIMD\n#error exactly one backend\n#endif\n#include <type_traits>\n"
                src += "#ifndef VIR_HAVE_VIR_SIMD\n#error VIR_DISABLE_STDX_SIMD must select the portable implementation\n#endif\n#ifdef _GLIBCXX_EXPERIMENTAL_SIMD\n#error included anyway\n#endif\n" if b == "fallback" else \
                       "#if __has_include(<experimental/simd>)\n#ifndef VIR_HAVE_STD_SIMD\n#error <experimental/simd> is available and must be used\n#endif\nstatic_assert(std::is_same_v<vir::stdx::simd<float>, std::experimental::parallelism_v2::simd<float>>);\n#endif\n"
                compile_ok("backend.%s.%s.%s" % (b, std, cc), "vir/simd.h", cc, flags(b, "x86-64", std), src, "backend selection")
    # TS drop-in: same entities in both namespaces
    for cc in (CLANG, GXX):
        for b in BK:
            src = "#include <vir/simd.h>\n#include <type_traits>\nnamespace ts = std::experimental::parallelism_v2;\nstatic_assert(std::is_same_v<vir::stdx::native_simd<float>, ts::native_simd<float>> && std::is_same_v<vir::stdx::simd_mask<int>, ts::simd_mask<int>> && std::is_same_v<vir::stdx::simd_abi::scalar, ts::simd_abi::scalar>);\n" \
                  "auto f(ts::native_simd<float> x) { return ts::reduce(x) + ts::hmax(x) + ts::reduce(ts::where(x > 0.f, x), std::plus<>()); }\n#include <functional>\n"
            src = "#include <functional>\n" + src
            compile_ok("dropin.%s.%s" % (b, cc), "vir/simd.h", cc, flags(b, "x86-64", "gnu++20", ("-DVIR_SIMD_TS_DROPIN",)), src, "VIR_SIMD_TS_DROPIN defines everything in the TS namespace")
    # language/codegen options
    for opts in (["-fno-exceptions", "-fno-rtti"], ["-ffast-math"], ["-O0"], ["-Os"], ["-O2", "-D_GLIBCXX_ASSERTIONS"], ["-funsigned-char"], ["-fshort-enums", "-O1"], ["-DVIR_CHECK_PRECONDITIONS=0"], ["-DVIR_CHECK_PRECONDITIONS=5"]):
        for b in BK:
            for cc in (CLANG, GXX):
                compile_ok("opt.%s.%s.%s" % ("".join(opts), b, cc), "vir/*.h", cc, flags(b, "x86-64", "gnu++20", opts), ALL, "all headers compile with " + " ".join(opts))
    # no strong definitions in headers; macros are prefixed
    for b in BK:
        for cc in (CLANG, GXX):
            for std in ("gnu++17", "gnu++20"):
                uses = "".join("namespace u_%s {\n%s\n}\n" % (u, "") for u in ())
                jobs.append(("odr.%s.%s.%s" % (b, std, cc), "vir/*.h", cc, flags(b, "x86-64", std, ("-O0",)), ALL, "nm", "headers define no strong symbols (usable in several translation units)"))
                jobs.append(("macros.%s.%s.%s" % (b, std, cc), "vir/*.h", cc, flags(b, "x86-64", std), ALL, "macros", "headers leave only macros prefixed VIR_/vir_ defined"))
    def go(ij):
        i, (id, subj, cc, fl, src, kind, what) = ij
        p = "%s/t%d.cpp" % (d, i)
        with open(p, "w") as f:
            f.write(src)
        bad, msg = False, ""
        if kind == "ok":
            rc, so, se = run([cc, "-fsyntax-only", p] + fl)
            bad, msg = rc != 0, "\n".join(l for l in se.split("\n") if "error" in l or "note" in l)[:2000]
        elif kind == "nm":
            o = p[:-4] + ".o"
            rc, so, se = run([cc, "-c", p, "-o", o] + fl)
            if rc:
                return None
            rc, so, se = run(["nm", "-C", o])
            strong = [l for l in so.split("\n") if re.match(r"^[0-9a-f]+ [TDBRC] ", l) and "vir" in l]
            bad, msg = bool(strong), "strong symbols: " + "; ".join(strong)[:1500]
        else:
            rc, so, se = run([cc, "-E", "-dD", p] + fl)
            if rc:
                return None
            inr, defs = False, {}
            for l in so.split("\n"):
                m = re.match(r'^# (\d+) "([^"]*)"', l)
                if m:
                    inr = m.group(2).startswith(REPO + "/") or "/vir/" in m.group(2)
                    continue
                m = re.match(r"^#(define|undef) (\w+)", l)
                if m and m.group(1) == "define" and inr:
                    defs[m.group(2)] = 1
                elif m and m.group(1) == "undef":
                    defs.pop(m.group(2), None)
            leak = [x for x in defs if not re.match(r"_*vir_|_*VIR_", x)]
            bad, msg = bool(leak), "macros: " + " ".join(leak)
        return {"id": id, "violation": bad, "subject": subj, "text": "" if not bad else "C23: %s [%s]: %s\n%s\nflags: %s\nsource:\n%s" % (what, id, subj, msg, " ".join(fl), src)}
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            out = [r for r in ex.map(go, enumerate(jobs)) if r]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    bad = [o for o in out if o["violation"]]
    for o in bad[12:]:
        o["violation"] = False
    return out


def obligations(tier):
    return [Ob(FB20, "anchor", SUB, "the configuration compiles", [], "constexpr stdx::simd<int, stdx::simd_abi::fixed_size<4>> v(3); return v[2] == 3;")]


FLOOR = 1
