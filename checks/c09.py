from common import *
import concurrent.futures as cf, re, shutil, tempfile
TITLE = "Violated preconditions act exactly as the selected checking level documents"
HDR = hdr("vir/simd.h", "vir/simd_execution.h") + "namespace ex = vir::execution;\n"
SUB = "vir/simd.h precondition checks (VIR_CHECK_PRECONDITIONS)"

# every precondition-carrying operation: (name, backends, params, call arguments' precondition, body, constant call that violates, constant call that satisfies, subject)
def sites():
    out = []
    for n in (0, 4, 3):
        for t in ("float", "short"):
            if n == 3 and t == "short":
                continue
            V = fx(t, n)
            k = "%s%d" % (t, n)
            N = sz(n)
            mk = "%s v([&](int i) { return x[i]; });" % V
            out.append(("simd_get." + k, ("fallback",), "const %s* x, std::size_t i" % t, "i < %d" % N, "const %s return int(v[i]);" % mk,
                        "const %s v(3); return int(v[%d]);" % (V, N), "const %s v(3); return int(v[%d]);" % (V, N - 1), "simd::operator[] const"))
            out.append(("simd_set." + k, ("fallback",), "const %s* x, std::size_t i" % t, "i < %d" % N, "%s v[i] = %s(7); return int(v[0]) + int(v[%d]);" % (mk, t, N - 1),
                        "%s v(3); v[%d] = %s(1); return int(v[0]);" % (V, N, t), "%s v(3); v[%d] = %s(1); return int(v[0]);" % (V, N - 1, t), "simd::operator[]"))
            M = V + "::mask_type"
            mkm = "%s k; for (int j = 0; j < %d; ++j) k[j] = x[j];" % (M, N)
            out.append(("mask_get." + k, ("fallback",), "const bool* x, std::size_t i", "i < %d" % N, "%s const auto& c = k; return int(c[i]);" % mkm,
                        "const %s k(true); return int(k[%d]);" % (M, N), "const %s k(true); return int(k[%d]);" % (M, N - 1), "simd_mask::operator[] const"))
            out.append(("mask_set." + k, ("fallback",), "const bool* x, std::size_t i", "i < %d" % N, "%s k[i] = true; return int(k[0]) + int(k[%d]);" % (mkm, N - 1),
                        "%s k(true); k[%d] = false; return int(k[0]);" % (M, N), "%s k(true); k[%d] = false; return int(k[0]);" % (M, N - 1), "simd_mask::operator[]"))
            for f in ("find_first_set", "find_last_set"):
                out.append(("%s.%s" % (f, k), ("fallback",), ", ".join("bool b%d" % j for j in range(N)), " || ".join("b%d" % j for j in range(N)), "%s k; %s return int(stdx::%s(k));" % (M, " ".join("k[%d] = b%d;" % (j, j) for j in range(N)), f),
                            "return int(stdx::%s(%s(false)));" % (f, M), "return int(stdx::%s(%s(true)));" % (f, M), f))
    P = "ex::simd.prefer_size<4>().assume_matching_size()"
    calls = {
        "for_each": "vir::for_each({P}, x, x + n, [](auto&... v) { ((v += 1), ...); }); return 0;",
        "transform": "vir::transform({P}, x, x + n, y, [](auto v) { return v + 1; }); return 0;",
        "transform2": "vir::transform({P}, x, x + n, y, y, [](auto v, auto w) { return v + w; }); return 0;",
        "transform_reduce": "return vir::transform_reduce({P}, x, x + n, 0, std::plus<>(), [](auto v) { return v + 1; });",
        "transform_reduce2": "return vir::transform_reduce({P}, x, x + n, y, 0);",
        "reduce": "return vir::reduce({P}, x, x + n);",
        "count_if": "return vir::count_if({P}, x, x + n, [](auto v) { return v > 0; });",
    }
    for nm, c in calls.items():
        for mod, f in (("", 1), (".unroll_by<2>()", 1)):
            PP = P + mod
            b = c.replace("{P}", PP)
            out.append((nm + (".unroll" if mod else ""), ("fallback", "stdlib"), "int* x, int* y, std::size_t n", "n %% %d == 0 && n < 64" % 4, b,
                        "constexpr int n = 6; static int x[16], y[16]; " + b, "constexpr int n = 8; static int x[16], y[16]; " + b, "vir::%s with assume_matching_size" % nm))
    return out


def closure(ll, fn):
    """text of all functions defined in the module and reachable from fn, and the set of called names"""
    fns = {}
    for m in re.finditer(r"^define [^\n]*?@(\"[^\"]*\"|[\w.$]+)\([^\n]*\{\n(.*?)^\}", ll, re.S | re.M):
        fns[m.group(1)] = m.group(2)
    seen, todo, called = set(), [fn], set()
    while todo:
        f = todo.pop()
        if f in seen or f not in fns:
            continue
        seen.add(f)
        for c in re.findall(r"(?:call|invoke)[^\n]*?@(\"[^\"]*\"|[\w.$]+)\(", fns[f]):
            called.add(c)
            todo.append(c)
    return fns.get(fn, ""), "\n".join(fns[f] for f in seen), called


PRINT = ("fprintf", "fputs", "fwrite", "fputc", "printf", "vfprintf")
LEVELS = ["default", 0, 1, 2, 3, 4, 5]


def job(d, tier, backend, level, std):
    """all sites of one backend at one level"""
    res = []
    S = [s for s in sites() if backend in s[1]]
    tag = "%s_%s_%s" % (backend, level, std.replace("+", "p"))
    base = ["-std=" + std, "-march=x86-64", "-I" + REPO, "-I" + ENG, "-w", "-O2", "-fno-vectorize", "-fno-slp-vectorize"]
    if backend == "fallback":
        base.append("-DVIR_DISABLE_STDX_SIMD")
    if level != "default":
        base.append("-DVIR_CHECK_PRECONDITIONS=%d" % level)
    L = 3 if level == "default" else level
    def bad(id, subj, text):
        res.append({"id": "%s.%s" % (id, tag), "violation": True, "subject": SUB + ": " + subj,
                    "text": "C09: %s at level %s (%s, %s): %s" % (id, level, backend, std, text)})
    def ok(id, subj):
        res.append({"id": "%s.%s" % (id, tag), "violation": False, "subject": SUB + ": " + subj, "text": ""})
    # ---- run-time action: CFG/call-graph rule on the IR
    src = HDR + "".join('extern "C" int site_%d(%s) { %s }\n' % (i, s[2], s[4]) for i, s in enumerate(S))
    # the checks are analysed in separate wrappers, so that the optimiser does not see the violation at the site itself
    wr = "#include <cstddef>\n"
    cases = []      # per site: ([wrappers on which the precondition is violated], [... holds])
    for i, s in enumerate(S):
        ps = [x.strip() for x in s[2].split(",")]
        names = [x.split()[-1] for x in ps]
        alg = ps[-1] == "std::size_t n"
        bools = all(x.startswith("bool ") for x in ps)
        wr += 'extern "C" int site_%d(%s);\n' % (i, s[2])
        bw, gw = [], []
        def wrap(k, good, pre, call, params):
            nm = "%s_%d_%d" % ("good" if good else "bad", i, k)
            (gw if good else bw).append(nm)
            return 'extern "C" int %s(%s) { %sreturn site_%d(%s); }\n' % (nm, ", ".join(params), pre, i, ", ".join(call))
        if alg:         # n = 4 * m + r for every m
            for r in range(4):
                wr += wrap(r, r == 0, "", names[:-1] + ["(n << 2) | %d" % r], ps)
        elif bools:     # every mask
            for m in range(1 << len(ps)):
                wr += wrap(m, m != 0, "", ["true" if m >> j & 1 else "false" for j in range(len(ps))], [])
        else:
            wr += wrap(0, False, "if (%s) __builtin_unreachable(); " % s[3], names, ps) + wrap(1, True, "if (!(%s)) __builtin_unreachable(); " % s[3], names, ps)
        cases.append((bw, gw))
    p, w = "%s/s_%s.cpp" % (d, tag), "%s/w_%s.cpp" % (d, tag)
    open(p, "w").write(src)
    open(w, "w").write(wr)
    rc, out, err = run([CLANG] + base + ["-emit-llvm", "-S", "-o", p + ".ll", p])
    if rc:
        if level == "default":
            return [("broken", "sites do not compile (%s): %s" % (tag, err[:800]))]
        bad("usable", "checking level", "the library does not compile at this level: %s" % err[:800])
        return res
    rc, out, err = run([CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-S", "-w", "-o", w + ".ll", w])
    if rc:
        return [("broken", err[:800])]
    # site functions may be inlined into the wrappers whatever attributes they carry
    rc, out, err = run(["llvm-link-18", "-S", p + ".ll", w + ".ll", "-o", p + ".l.ll"])
    if rc:
        return [("broken", err[:800])]
    t = open(p + ".l.ll").read()
    open(p + ".l.ll", "w").write(re.sub(r"\b(noinline|optnone)\b(?=[^\n]*(\{|\n))", "", t) if False else t)
    rc, out, err = run(["opt-18", "-S", "-inline-threshold=100000", "-inlinecold-threshold=100000", "-passes=default<O2>,default<O2>", p + ".l.ll", "-o", p + ".o.ll"])
    if rc:
        return [("broken", err[:800])]
    ll = open(p + ".o.ll").read()
    strs = {m.group(1): m.group(2) for m in re.finditer(r"^@([\w.$]+) = [^\n]*constant \[\d+ x i8\] c\"((?:[^\"\\]|\\.)*)\"", ll, re.M)}
    for i, s in enumerate(S):
        rets, tr, ab, prs, alls, calleds, own = 0, [], [], [], "", set(), ""
        for wn in cases[i][0]:
            own, allt, called = closure(ll, wn)
            rets += len(re.findall(r"^\s+ret ", own, re.M))
            tr.append("llvm.trap" in called)
            ab.append("abort" in called)
            prs.append(any(c in PRINT for c in called))
            alls += allt
            calleds |= called
        trap, abort, prn, called, allt = any(tr), any(ab), any(prs), calleds, alls
        every = all(tr) if L in (2, 3) else all(ab) and all(prs)
        id = "runtime." + s[0]
        if L < 2:
            if trap or abort or prn:
                bad(id, s[7], "documented: undefined behaviour without any run-time check, but the violating path calls %s" % sorted(c for c in called if c in ("llvm.trap", "abort") or c in PRINT))
            else:
                ok(id, s[7])
        elif L < 4:
            if not every or abort or prn or rets:
                bad(id, s[7], "documented: trap. On paths with a violated precondition (not (%s)): trap=%s abort=%s print=%s; returns to the caller on %d path(s)\n%s" % (s[3], trap, abort, prn, rets, own[:1200]))
            else:
                ok(id, s[7])
        else:
            if not every or trap or rets:
                bad(id, s[7], "documented: print and abort. On paths with a violated precondition (not (%s)): trap=%s abort=%s print=%s; returns to the caller on %d path(s)\n%s" % (s[3], trap, abort, prn, rets, own[:1200]))
            else:
                ok(id, s[7])
            # format string and arguments agree
            calls = [c for c in re.findall(r"call[^\n]*@fprintf\(([^\n]*)\)", allt)]
            pr = None
            for c in calls:
                m = re.search(r"@([\w.$]+)", c.split(",", 2)[1]) if c.count(",") else None
                if not m or m.group(1) not in strs:
                    continue
                fmt = strs[m.group(1)]
                want = re.findall(r"%(zu|d|s|u|ld|lu|%)", fmt)
                n_all = len(re.findall(r"%", fmt))
                got = [a.strip().split()[0] for a in re.split(r",(?![^(]*\))", c)[2:]]
                exp = [{"zu": "i64", "d": "i32", "u": "i32", "ld": "i64", "lu": "i64", "s": "ptr"}[x] for x in want if x != "%"]
                pr = exp == got and n_all == len(want) and "precondition" in fmt
                if not pr:
                    bad("format." + s[0], s[7], "diagnostic format string %r does not match its arguments %s" % (fmt, got))
                    break
            if pr:
                ok("format." + s[0], s[7])
        fire, noret = set(), 0
        for wn in cases[i][1]:
            own, allt, called = closure(ll, wn)
            fire |= {c for c in called if c in ("llvm.trap", "abort", "fprintf")}
            noret += not re.search(r"^\s+ret ", own, re.M)
        if fire or noret:
            bad("holds." + s[0], s[7], "the precondition holds but the call may not return: %s\n%s" % (sorted(fire), own[:1200]))
        else:
            ok("holds." + s[0], s[7])
    # ---- compile-time diagnostics: violations visible to the optimiser
    for cc in (GXX, CLANG):
        for kind in ("good", "bad"):
            if kind == "good":
                # subscript sites and the others in separate translation units: for the others, a subscript inside the
                # library diagnosed on an infeasible unrolled path is the optimiser's imprecision, not the site's precondition
                sub = lambda s: s[0].split(".")[0] in ("simd_get", "simd_set", "mask_get", "mask_set")
                err = ""
                for g, f in (("sub", sub), ("other", lambda s: not sub(s))):
                    src = HDR + "".join('extern "C" int site_%d() { %s }\n' % (i, s[6]) for i, s in enumerate(S) if f(s))
                    p = "%s/good_%s_%s_%s.cpp" % (d, g, cc, tag)
                    open(p, "w").write(src)
                    fl = [x for x in base if x != "-w" and "vectorize" not in x] + ["-c", "-o", "/dev/null"]
                    rc, out, e = run([cc] + fl + [p])
                    blocks = re.split(r"(?=^[^\n]*(?:warning|error): )", e, flags=re.M)
                    diag = [b for b in blocks if "precondition failure" in b and not (g == "other" and "Subscript" in b)]
                    if diag:
                        err += "".join(diag)
                    elif rc and "precondition failure" not in e:
                        return [("broken", e[:800])]
                if err:
                    bad("ct.holds." + cc, "compile-time diagnostics", "a satisfied precondition is diagnosed at compile time: %s" % err[:800])
                else:
                    ok("ct.holds." + cc, "compile-time diagnostics")
            else:
                src = HDR + "".join('extern "C" int site_%d() { %s }\n' % (i, s[5]) for i, s in enumerate(S))
                # one TU: count the diagnosed call sites
                p = "%s/%s_%s_%s.cpp" % (d, "bad", cc, tag)
                open(p, "w").write(src)
                fl = [f for f in base if f != "-w" and "vectorize" not in f] + ["-c", "-o", "/dev/null"]
                fl += ["-ferror-limit=0"] if cc == CLANG else ["-fmax-errors=0"]
                rc, out, err = run([cc] + fl + [p])
                ne, nw = len(re.findall(r"error: (?:call to )?[^\n]*(?:declared with|attribute)", err)), len(re.findall(r"warning: (?:call to )?[^\n]*(?:declared with|attribute)", err))
                want_err = bool(L & 1)
                # gcc: every site; clang: the optimiser-detectable sites (at least the subscript ones)
                n = len([s for s in S if s[0].split(".")[0] in ("simd_get", "simd_set", "mask_get", "mask_set")]) if backend == "fallback" else 1
                if "precondition failure" not in err and backend == "stdlib":
                    ok("ct.violated." + cc, "compile-time diagnostics")
                elif want_err and (rc == 0 or ne < n):
                    bad("ct.violated." + cc, "compile-time diagnostics", "documented: compile-time error; rc=%d, %d errors, %d warnings for %d call sites\n%s" % (rc, ne, nw, len(S), err[:800]))
                elif not want_err and (rc != 0 or nw < n):
                    bad("ct.violated." + cc, "compile-time diagnostics", "documented: compile-time warning; rc=%d, %d errors, %d warnings for %d call sites\n%s" % (rc, ne, nw, len(S), err[:800]))
                else:
                    ok("ct.violated." + cc, "compile-time diagnostics")
    return res


def extra(tier, seed):
    d = tempfile.mkdtemp(prefix="vp_C09x_")
    out = []
    try:
        jobs = [(b, l, s) for b in ("fallback", "stdlib") for l in LEVELS for s in (("gnu++20",) if tier == "quick" else ("gnu++20", "gnu++23"))]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(lambda j: job(d, tier, *j), jobs):
                if r and isinstance(r[0], tuple):
                    print("ANALYSIS-BROKEN property=C09: " + r[0][1][:1500])
                    sys.exit(2)
                out += r
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
    return out


def obligations(tier):
    obs = []
    for l in LEVELS:
        cfg = FB20 if l == "default" else Cfg("fallback", "x86-64", "gnu++20", ("-DVIR_CHECK_PRECONDITIONS=%d" % l,))
        for n in (0, 1, 4, 5):
            N = sz(n)
            for t in ("float", "int") if tier == "quick" else ("float", "int", "char", "double", "unsigned short"):
                obs.append(Ob(cfg, "valid.%s.%d" % (tid(t), n), SUB, "with satisfied preconditions the result does not depend on the level", [(t, "x", N), ("bool", "b", N)],
                  """V v(x, stdx::element_aligned); V::mask_type k(b, stdx::element_aligned); bool ok = true; for (int i = 0; i < N; ++i) ok &= vp::eq<T>(v[i], x[i]) & (k[i] == b[i]);
                  v[N - 1] = x[0]; ok &= vp::eq<T>(v[N - 1], x[0]); k[0] = true; ok &= k[0]; ok &= stdx::find_first_set(k) == 0; int l = 0; for (int i = 1; i < N; ++i) if (b[i]) l = i; ok &= stdx::find_last_set(k) == l; return ok;""",
                  "constexpr int N = %d; using T = %s; using V = %s;" % (N, t, fx(t, n))))
    return obs


FLOOR = 50
