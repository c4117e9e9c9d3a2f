"""C26: effect analysis over the IR call graph of every library function that the obligations of the other properties instantiate."""
import concurrent.futures as cf, importlib, re, shutil, tempfile
from common import *
import vp
TITLE = "No hidden effects: no allocation, throwing, output or mutable global state; callables may throw"
HDR = hdr("vir/simd.h", "vir/simd_execution.h", "vir/simdize.h") + "namespace ex = vir::execution;\n"
SUB = "all functions of vir/*.h instantiated by the obligations of C01-C23"
RULE = ("effects: in the call graph of the unoptimised IR, no function of namespace vir may reach an allocating, throwing, printing, exiting, locking or environment-dependent "
        "external function, use atomics or guards, or refer to a non-constant global of the library")
RULE2 = "propagation: after inlining, every call of a callable that may throw either unwinds to the caller or to landing pads that resume; none ends in terminate"
BAD = [
    (r"_Zn[wa]|malloc$|calloc$|realloc$|aligned_alloc$|posix_memalign$|memalign$|strdup$|reallocarray$|mmap$", "allocates memory"),
    (r"__cxa_throw$|__cxa_allocate_exception$|__cxa_rethrow$|_ZSt\d+__throw_", "throws an exception"),
    (r"f?printf$|v?f?printf$|__printf_chk$|__fprintf_chk$|puts$|fputs$|putchar$|putc$|fputc$|fwrite$|write$|perror$|_ZStls|_ZNSo|_ZNKSo", "writes output"),
    (r"abort$|exit$|_Exit$|_exit$|quick_exit$|raise$|kill$|longjmp$|_longjmp$", "ends the program"),
    (r"rand$|srand$|random$|time$|clock$|gettimeofday$|clock_gettime$|getenv$|setenv$|setlocale$|fesetround$|fesetenv$|feenableexcept$", "depends on or changes the environment"),
    (r"pthread_|__cxa_guard_|__cxa_thread_atexit|sem_|__atomic_", "synchronises or initialises on first use"),
]
LIBENT = re.compile(r"^_ZZ*N[rVKRO]*3vir")
MODS = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c18", "c19", "c22", "c23"]


def effects(path):
    """-> (library functions, {library function: [violation text]})"""
    t = open(path).read()
    glob = {}
    for m in re.finditer(r'^@(?:"([^"]+)"|([\w.$]+)) = ([^\n]*)', t, re.M):
        glob[m.group(1) or m.group(2)] = m.group(3)
    # non-constant variables of the library
    mutable = {g for g, d in glob.items() if "3vir" in g and not g.startswith("_ZGV") and re.search(r"\bglobal\b", d.split(" c\"")[0]) and not re.search(r"\bexternal\b.*\bconstant\b", d)}
    fns = {}
    for m in re.finditer(r'^define [^\n]*?@(?:"([^"]+)"|([\w.$]+))\(([^\n]*)\{\n(.*?)^\}', t, re.S | re.M):
        fns[m.group(1) or m.group(2)] = m.group(4)
    init = "\n".join(b for n, b in fns.items() if n.startswith("__cxx_global_var_init") or n.startswith("_GLOBAL__"))
    dyn = {g for g in mutable if "@" + g in init}
    calls, own = {}, {}
    for n, b in fns.items():
        cs = set()
        for m in re.finditer(r'\b(?:call|invoke)\b[^\n]*?@(?:"([^"]+)"|([\w.$]+))\(', b):
            cs.add(m.group(1) or m.group(2))
        calls[n] = cs
        o = []
        for c in cs:
            if c in fns:
                continue
            for r, what in BAD:
                if re.match(r, c):
                    o.append("%s: calls %s" % (what, c))
        for l in b.split("\n"):
            if re.search(r"= (atomicrmw|cmpxchg|load atomic)\b|^\s*(fence|store atomic)\b", l):
                o.append("uses an atomic operation: %s" % l.strip()[:120])
        if LIBENT.match(n):
            for g in set(re.findall(r"@([\w.$]+)", b)) & mutable:
                if g not in dyn or "thread_local" in glob[g]:
                    o.append("refers to the mutable global @%s (%s)" % (g, glob[g][:60]))
        if o:
            own[n] = o
    lib = [n for n in fns if LIBENT.match(n)]
    viol = {}
    for n in lib:
        seen, todo = {n: None}, [n]
        while todo:
            x = todo.pop()
            for o in own.get(x, ()):
                chain, y = [], x
                while y:
                    chain.append(y)
                    y = seen[y]
                viol.setdefault(n, []).append("%s\n    via %s" % (o, " <- ".join(chain[:6])))
            if x == "__clang_call_terminate":
                continue
            for c in calls.get(x, ()):
                # the functions of the obligations and their callables are the user's code
                if c not in seen and c in fns and not re.match(r"_ZZ*\d*vp_|_ZN2vp|vp_", c):
                    seen[c] = x
                    todo.append(c)
    return lib, viol


STDTHROW = re.compile(r"throws an exception: calls _ZSt\d+__throw_")


def confirm(path, viol):
    """A checked std access (bitset::set, array::at) in the library contains a throwing branch that index analysis removes when the index is in range:
    such a candidate counts only if the branch is still reachable after constant and range propagation (opt -O2)."""
    cand = [n for n, v in viol.items() if any(STDTHROW.match(x) for x in v)]
    if not cand:
        return viol
    t = open(path).read()
    for n in cand:
        for q in ("@%s(" % n, '@"%s"(' % n):
            t = re.sub(r"^define linkonce_odr ([^\n]*%s)" % re.escape(q), r"define weak_odr \1", t, flags=re.M)
    t = re.sub(r"^attributes #\d+ = \{[^\n]*", lambda m: re.sub(r" (noinline|optnone)\b", "", m.group(0)), t, flags=re.M)
    open(path + ".k.ll", "w").write(t)
    rc, so, se = run([vp.OPT, "-O2", "-S", path + ".k.ll", "-o", path + ".o2.ll"])
    if rc:
        return viol
    _, v2 = effects(path + ".o2.ll")
    out = {}
    for n, v in viol.items():
        keep = [x for x in v if not STDTHROW.match(x)] + [x for x in v2.get(n, []) if STDTHROW.match(x)]
        if keep:
            out[n] = keep
    return out


def obligations(tier):
    return []


def extra(tier, seed):
    q = tier == "quick"
    tmp = tempfile.mkdtemp(prefix="vp_C26_")
    res = []
    jobs = []
    for name in MODS:
        m = importlib.import_module(name)
        by = {}
        for o in m.obligations("quick"):
            by.setdefault(o.cfg.name, []).append(o)
        for cn, obs in sorted(by.items()):
            # every kind of obligation (id up to the parameters) is kept, the parameters are sampled
            step = 1 if not q else max(1, len(obs) // 60)
            kinds, pick = {}, []
            for o in obs:
                k = o.id.split(".")[0]
                if kinds.get(k, 0) % step == 0:
                    pick.append(o)
                kinds[k] = kinds.get(k, 0) + 1
            for i in range(0, len(pick), 80):
                jobs.append((name, m.HDR, pick[i].cfg, pick[i:i + 80]))

    def job(k):
        name, head, cfg, obs = jobs[k]
        E = vp.Engine("C26", tier, seed, head)
        try:
            c2 = Cfg(cfg.backend, cfg.march, cfg.std, tuple(cfg.extra) + ("-DVIR_CHECK_PRECONDITIONS=0",))
            src, rej = E.frontend(c2, list(enumerate(obs)))
            if src is None:
                return []
            lib, viol = effects(src)
            viol = confirm(src, viol)
        finally:
            E.cleanup()
        return [(cfg.name, n, viol.get(n)) for n in lib]

    seen = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(job, range(len(jobs))):
            for c, n, v in r:
                if (c, n) not in seen or v:
                    seen[c, n] = v
    reported = set()
    for (c, n), v in sorted(seen.items()):
        text = ""
        if v:
            key = v[0].split("\n")[0]
            if key in reported:
                continue
            reported.add(key)
            rc, dem, _ = run(["c++filt", n])
            text = "C26: %s [%s] %s" % (dem.strip()[:400] or n, c, "\n  ".join(v[:3]))
        res.append({"id": "effects.%s [%s]" % (n[:160], c), "violation": bool(v), "subject": SUB, "cfg": c, "rule": RULE, "text": text})
    res += propagation(tmp, q)
    if not os.environ.get("VP_KEEP"):
        shutil.rmtree(tmp, ignore_errors=True)
    bad = [r for r in res if r["violation"]]
    if len(bad) > 12:
        keep = {id(r) for r in bad[:12]}
        res = [r for r in res if not r["violation"] or id(r) in keep]
    return res


USER = 'extern "C" void vp_user(int);\n'


def propagation(tmp, q):
    """user callables that throw"""
    pr = {}
    def add(id, body, params="int* p, int* r, int* d, int n"):
        pr[id] = (params, body)
    pols = ["", ".prefer_size<4>()", ".prefer_size<3>()", ".unroll_by<2>()", ".prefer_size<2>().unroll_by<3>()", ".prefer_aligned()", ".auto_prologue()", ".prefer_aligned().unroll_by<4>()",
            ".prefer_size<4>().assume_matching_size()"]
    if not q:
        pols += [".prefer_size<%d>()" % s for s in (1, 5, 7, 8, 16, 17, 32)] + [".prefer_size<%d>().unroll_by<%d>()" % (s, u) for s in (1, 4, 8) for u in (2, 3, 5)]
    for pol in pols:
        P = "ex::simd" + pol
        for how in ("n", "0", "1", "2", "3", "7", "12", "13"):
            t = pol.replace("()", "") + ".n" + how
            L = "p, p + %s" % how
            add("for_each.w" + t, "vir::for_each(%s, %s, [](auto&... v) { vp_user(1); ((v += 1), ...); });" % (P, L))
            add("for_each.r" + t, "vir::for_each(%s, %s, [](const auto&...) { vp_user(1); });" % (P, L))
            add("transform" + t, "vir::transform(%s, %s, d, [](const auto& v) { vp_user(1); return v; });" % (P, L))
            add("transform2" + t, "vir::transform(%s, %s, r, d, [](const auto& v, const auto& w) { vp_user(1); return v + w; });" % (P, L))
            add("reduce" + t, "*d = vir::reduce(%s, %s, 1, [](auto a, auto b) { vp_user(1); return a + b; });" % (P, L))
            add("transform_reduce" + t, "*d = vir::transform_reduce(%s, %s, 1, [](auto a, auto b) { vp_user(2); return a + b; }, [](auto a) { vp_user(1); return a; });" % (P, L))
            add("transform_reduce2" + t, "*d = vir::transform_reduce(%s, %s, r, 1, [](auto a, auto b) { vp_user(2); return a + b; }, [](auto a, auto b) { vp_user(1); return a * b; });" % (P, L))
            add("count_if" + t, "*d = vir::count_if(%s, %s, [](const auto& v) { vp_user(1); return v == 3; });" % (P, L))
    for ns in ("vir", "std"):
        L = "p, p + n"
        add(ns + ".for_each", ns + "::for_each(ex::simd, p, p + n, [](auto& v) { vp_user(1); v += 1; });")
        add(ns + ".transform", ns + "::transform(ex::simd, p, p + n, d, [](const auto& v) { vp_user(1); return v; });")
        add(ns + ".transform2", ns + "::transform(ex::simd, p, p + n, r, d, [](const auto& v, const auto& w) { vp_user(1); return v + w; });")
        add(ns + ".reduce", "*d = " + ns + "::reduce(ex::simd, p, p + n, 1, [](auto a, auto b) { vp_user(1); return a + b; });")
        add(ns + ".transform_reduce", "*d = " + ns + "::transform_reduce(ex::simd, p, p + n, 1, [](auto a, auto b) { vp_user(2); return a + b; }, [](auto a) { vp_user(1); return a; });")
        add(ns + ".count_if", "*d = " + ns + "::count_if(ex::simd, p, p + n, [](const auto& v) { vp_user(1); return v == 3; });")
    A = "std::array<int, 13>& p, std::array<int, 13>& r, std::array<int, 13>& d"
    add("range.for_each", "vir::for_each(ex::simd, p, [](auto& v) { vp_user(1); v += 1; });", A)
    add("range.transform", "vir::transform(ex::simd, p, d, [](const auto& v) { vp_user(1); return v; });", A)
    add("range.transform2", "vir::transform(ex::simd, p, r, d, [](const auto& v, const auto& w) { vp_user(1); return v + w; });", A)
    add("range.reduce", "d[0] = vir::reduce(ex::simd, p, 1, [](auto a, auto b) { vp_user(1); return a + b; });", A)
    add("range.transform_reduce", "d[0] = vir::transform_reduce(ex::simd, p, 1, [](auto a, auto b) { vp_user(2); return a + b; }, [](auto a) { vp_user(1); return a; });", A)
    add("range.transform_reduce2", "d[0] = vir::transform_reduce(ex::simd, p, r, 1, [](auto a, auto b) { vp_user(2); return a + b; }, [](auto a, auto b) { vp_user(1); return a * b; });", A)
    add("range.count_if", "d[0] = vir::count_if(ex::simd, p, [](const auto& v) { vp_user(1); return v == 3; });", A)
    head = "#include <array>\n#include <algorithm>\n#include <numeric>\n" + HDR + USER
    ids = sorted(pr)
    res = []

    def job(x):
        cfg, g = x
        name = "p%s_%d" % (cfg.backend, g)
        part = ids[g:g + 60]
        src = os.path.join(tmp, name + ".cpp")
        with open(src, "w") as f:
            f.write(head)
            for i, id in enumerate(part):
                f.write('extern "C" void ep_%d(%s) { %s }\n' % (i, pr[id][0], pr[id][1]))
        rc, so, se = run([CLANG, src, "-S", "-emit-llvm", "-O1", "-Xclang", "-disable-llvm-passes", "-w", "-fno-vectorize", "-o", src + ".ll"] + cfg.flags())
        if rc:
            return [{"id": "propagation.%s [%s]" % (name, cfg.name), "violation": False, "undecided": True, "subject": SUB, "cfg": cfg.name, "text": se[:500]}]
        rc, so, se = run([vp.OPT, "-S", src + ".ll", "-o", src + ".o.ll", "-inline-threshold=100000", "-passes=function(sroa),cgscc(inline),function(sroa,simplifycfg,instsimplify),globaldce"])
        t = open(src + ".o.ll").read() if rc == 0 else ""
        attrs = dict(re.findall(r"^attributes #(\d+) = \{([^}]*)\}", t, re.M))
        out = []
        for m in re.finditer(r"^define ([^\n]*?)@ep_(\d+)\(([^\n]*)\{\n(.*?)^\}", t, re.S | re.M):
            id, body, sig = part[int(m.group(2))], m.group(4), m.group(3)
            err = None
            at = "".join(attrs.get(a, "") for a in re.findall(r"#(\d+)", sig))
            if "@vp_user" in body:
                # block name -> text
                blocks = {}
                cur = "entry"
                for l in body.split("\n"):
                    k = re.match(r'("[^"]*"|[\w.$-]+):', l)
                    if k:
                        cur = k.group(1).strip('"')
                    blocks.setdefault(cur, []).append(l)
                for k in re.finditer(r'invoke [^\n]*@vp_user\([^\n]*\n\s*to label %\S+ unwind label %("[^"]*"|[\w.$-]+)', body):
                    seen, todo = set(), [k.group(1).strip('"')]
                    while todo:
                        b = todo.pop()
                        if b in seen:
                            continue
                        seen.add(b)
                        txt = "\n".join(blocks.get(b, []))
                        if re.search(r"@__clang_call_terminate|@_ZSt9terminatev|@abort\b", txt):
                            err = "an exception thrown by the callable ends in std::terminate (block %%%s)" % b
                        if "@__cxa_begin_catch" in txt and "__clang_call_terminate" not in txt:
                            err = "an exception thrown by the callable is caught (block %%%s)" % b
                        if "catch ptr null" in txt and not err and "resume" not in txt:
                            pass
                        todo += [x.strip('"') for x in re.findall(r'label %("[^"]*"|[\w.$-]+)', txt)]
                if re.search(r"\bnounwind\b", at):
                    err = "the algorithm is compiled as non-throwing although the callable may throw"
                if re.search(r"call [^\n]*@vp_user\([^\n]*\) #(\d+)", body):
                    for a in re.findall(r"call [^\n]*@vp_user\([^\n]*\) #(\d+)", body):
                        if "nounwind" in attrs.get(a, ""):
                            err = "the call of the callable is assumed not to throw"
            out.append({"id": "propagation.%s [%s]" % (id, cfg.name), "violation": bool(err), "subject": "vir/simd_execution.h algorithms", "cfg": cfg.name, "rule": RULE2,
                        "text": "C26: %s [%s]: %s\n  %s" % (id, cfg.name, err, pr[id][1]) if err else ""})
        return out
    jobs = [(c, g) for c in (FB20, STD20, STD20V3) for g in range(0, len(ids), 60)]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(job, jobs):
            res += r
    return res


FLOOR = 0
