"""C25: byte footprint and alignment of memory accesses. See engine/footprint.py for the analysis."""
import concurrent.futures as cf, math, re, shutil, tempfile
from common import *
import footprint as F
TITLE = "Loads, stores and algorithms access exactly their elements, with no more than the promised alignment"
HDR = "#include <array>\n" + hdr("vir/simd.h", "vir/simd_execution.h", "vir/simdize.h") + """namespace ex = vir::execution;
template <class M, unsigned long B> VP_INL constexpr M mk() { M k(false); for (int i = 0; i < int(M::size()); ++i) k[i] = (B >> i) & 1; return k; }
#define VP_KNOW(p, a, k) __builtin_assume((reinterpret_cast<unsigned long>(p) & ((a) - 1)) == (k))
"""
SUB = "vir/simd.h copy_from/copy_to/where; vir/simdize.h load/store; vir/simd_execution.h algorithms"
RULE = ("footprint: the IR is reduced to accesses at constant offsets of an opaque pointer parameter (all of them made volatile right after inlining so that none is "
        "optimised away); bytes read and written must equal the elements the operation is specified to access and no access may assume more alignment than the flag, type or policy guarantees")
PAD = {"long double": 10}


def elems(t, idx):
    """(required bytes, permitted bytes) of the elements idx of an array of t"""
    must, may = set(), set()
    for i in idx:
        must |= set(range(i * SZ(t), i * SZ(t) + PAD.get(t, SZ(t))))
        may |= set(range(i * SZ(t), (i + 1) * SZ(t)))
    return must, may


def SZ(t):
    return 1 if t == "bool" else SIZE[t]


class Spec:
    """footprint of one pointer parameter"""
    def __init__(self, read=None, write=None, align=1, k=0, must_read=True):
        none = (set(), set())
        self.read, self.write, self.align, self.k, self.must_read = read or none, write or none, align, k, must_read


def judge(spec, acc):
    """list of violations; spec: {param: Spec}; parameters without a Spec are not constrained"""
    errs = []
    for p, s in spec.items():
        rd, wr = set(), set()
        for (q, off, size, kind, al, txt) in acc:
            if q != p:
                continue
            b = set(range(off, off + size))
            if kind == "r":
                rd |= b
                if b - s.read[1]:
                    errs.append("reads byte(s) %s outside of the elements to be read: %s" % (rngs(b - s.read[1]), txt))
            if kind == "w":
                wr |= b
                if b - s.write[1]:
                    errs.append("writes byte(s) %s outside of the elements to be written: %s" % (rngs(b - s.write[1]), txt))
            # the strongest guarantee about this address
            g = s.k + off
            g = s.align if g % s.align == 0 else math.gcd(g, s.align)
            if al > g:
                errs.append("assumes alignment %d of an address that is only guaranteed to be aligned to %d: %s" % (al, g, txt))
        if s.must_read and s.read[0] - rd:
            errs.append("byte(s) %s are never read" % rngs(s.read[0] - rd))
        if s.write[0] - wr:
            errs.append("byte(s) %s are never written" % rngs(s.write[0] - wr))
    return errs


def rngs(s):
    s, out = sorted(s), []
    for x in s:
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return ", ".join("%d..%d" % (a, b) for a, b in out[:4])


def cases(tier):
    """(cfg, id, C++ parameters and body, {param: Spec}, description)"""
    q = tier == "quick"
    out = []
    flags = lambda t, n: [("stdx::element_aligned", SZ(t), "ea"), ("stdx::vector_aligned", None, "va")] + [("stdx::overaligned<%d>" % a, a, "oa%d" % a) for a in (16, 64) if a >= SZ(t)]
    def add(cfg, id, params, body, spec, desc):
        out.append((cfg, id, params, body, spec, desc))
    def simd(cfg, t, n, u):
        N, V = sz(n), fx(t, n)
        e = elems(u, range(N))
        for fl, al, tag in flags(u, n):
            if al is None:
                al = ("memory_alignment", "stdx::memory_alignment_v<%s, %s>" % (V, u))
            nm = "%s.%s.%s.%s" % (tid(t), n or "scalar", tid(u), tag)
            add(cfg, "load." + nm, "const %s* p, %s& o" % (u, V), "o = %s(p, %s);" % (V, fl), {0: Spec(read=e, align=al)}, "load constructor")
            add(cfg, "from." + nm, "const %s* p, %s& o" % (u, V), "%s x((%s)0); x.copy_from(p, %s); o = x;" % (V, t, fl), {0: Spec(read=e, align=al)}, "copy_from")
            add(cfg, "to." + nm, "%s* p, const %s& x" % (u, V), "x.copy_to(p, %s);" % fl, {0: Spec(write=e, align=al)}, "copy_to")
    def mask(cfg, t, n):
        N, M = sz(n), fx(t, n) + "::mask_type"
        e = elems("bool", range(N))
        for fl, al, tag in flags("bool", n):
            if al is None:
                al = ("memory_alignment", "stdx::memory_alignment_v<%s, bool>" % M)
            nm = "%s.%s.%s" % (tid(t), n or "scalar", tag)
            add(cfg, "mload." + nm, "const bool* p, %s& o" % M, "o = %s(p, %s);" % (M, fl), {0: Spec(read=e, align=al)}, "mask load constructor")
            add(cfg, "mfrom." + nm, "const bool* p, %s& o" % M, "%s x(false); x.copy_from(p, %s); o = x;" % (M, fl), {0: Spec(read=e, align=al)}, "mask copy_from")
            add(cfg, "mto." + nm, "bool* p, const %s& x" % M, "x.copy_to(p, %s);" % fl, {0: Spec(write=e, align=al)}, "mask copy_to")
    def where(cfg, t, n, u, b):
        N, V = sz(n), fx(t, n)
        sel = [i for i in range(N) if b >> i & 1]
        must, may = elems(u, sel)
        top = elems(u, range(max(sel) + 1))[1] if sel else set()
        for fl, al, tag in flags(u, n)[:2]:
            if al is None:
                al = ("memory_alignment", "stdx::memory_alignment_v<%s, %s>" % (V, u))
            nm = "%s.%s.%s.%s.%x" % (tid(t), n or "scalar", tid(u), tag, b)
            k = "const auto k = mk<%s::mask_type, %dul>(); " % (V, b)
            add(cfg, "wfrom." + nm, "const %s* p, %s& x" % (u, V), k + "where(k, x).copy_from(p, %s);" % fl, {0: Spec(read=(must, top), align=al)}, "where(k, x).copy_from reads selected elements")
            add(cfg, "wcfrom." + nm, "const %s* p, const %s& x, %s& o" % (u, V, V), k + "o = where(k, x).copy_from(p, %s);" % fl, {0: Spec(read=(must, top), align=al)}, "const where(k, x).copy_from reads selected elements")
            add(cfg, "wto." + nm, "%s* p, const %s& x" % (u, V), k + "where(k, x).copy_to(p, %s);" % fl, {0: Spec(write=(must, may), align=al)}, "where(k, x).copy_to writes the selected elements only")
            add(cfg, "wto2." + nm, "%s* p, %s& x" % (u, V), k + "where(k, x).copy_to(p, %s);" % fl, {0: Spec(write=(must, may), align=al)}, "where(k, x).copy_to writes the selected elements only")
    def wbool(cfg, t, u):
        for b in (0, 1):
            e = elems(u, [0] if b else [])
            nm = "%s.%s.%d" % (tid(t), tid(u), b)
            add(cfg, "bfrom." + nm, "const %s* p, %s& x" % (u, t), "stdx::where(%s, x).copy_from(p, stdx::element_aligned);" % ("true" if b else "false"), {0: Spec(read=e, align=SZ(u))}, "where(bool, scalar).copy_from")
            add(cfg, "bto." + nm, "%s* p, const %s& x" % (u, t), "stdx::where(%s, x).copy_to(p, stdx::element_aligned);" % ("true" if b else "false"), {0: Spec(write=e, align=SZ(u))}, "where(bool, scalar).copy_to")
    def struct(cfg, name, decl, members, size, align, n):
        """members: (type, offset)"""
        must, may = set(), set(range(n * size))
        for i in range(n):
            for t, o in members:
                must |= set(range(i * size + o, i * size + o + PAD.get(t, SZ(t))))
        S = "S_" + name
        for fl, tag in (("stdx::element_aligned", "ea"), ("", "default")):
            c = ", " + fl if fl else ""
            nm = "%s.%d.%s" % (name, n, tag)
            W = "vir::simdize<%s, %d>" % (S, n)
            add(cfg, "sload." + nm, "const %s* p, %s& o" % (S, W), "o = %s(p%s);" % (W, c), {0: Spec(read=(must, may), align=align)}, "simdize<S, %d> load" % n)
            add(cfg, "sfrom." + nm, "const %s* p, %s& o" % (S, W), "o.copy_from(p%s);" % c, {0: Spec(read=(must, may), align=align)}, "simdize<S, %d> copy_from" % n)
            add(cfg, "sto." + nm, "%s* p, const %s& x" % (S, W), "x.copy_to(p%s);" % c, {0: Spec(write=(must, may), align=align)}, "simdize<S, %d> copy_to" % n)
    def algo(cfg, t, pol, ns, aligns=((None, 0),), kinds=("each", "read", "trans", "bin", "red", "inner", "cnt")):
        for n in ns:
            e = elems(t, range(n))
            for A, k in aligns:
                al, kn, k = (SZ(t), "", 0) if A is None else (A, "VP_KNOW(p, %d, %d); " % (A, k), k)
                nm = "%s%s.n%d%s" % (tid(t), pol.replace("()", "").replace("<", "").replace(">", ""), n, "" if A is None else ".a%d+%d" % (A, k))
                P = "ex::simd" + pol
                if "each" in kinds:
                    add(cfg, "each." + nm, "%s* p" % t, kn + "vir::for_each(%s, p, p + %d, [](auto&... v) { ((v = vp::map1(v)), ...); });" % (P, n), {0: Spec(e, e, al, k)}, "for_each, modifying")
                if "read" in kinds:
                    add(cfg, "read." + nm, "const %s* p, %s* o" % (t, t), kn + "%s s = 0; vir::for_each(%s, p, p + %d, [&](const auto&... v) { auto f = [&](const auto& w) { for (int i = 0; i < int(w.size()); ++i) s = vp::u2<%s>(s, w[i]); }; (f(v), ...); }); *o = s;" % (t, P, n, t), {0: Spec(e, None, al, k)}, "for_each, reading")
                if "trans" in kinds:
                    add(cfg, "trans." + nm, "const %s* s, %s* p" % (t, t), kn + "vir::transform(%s, s, s + %d, p, [](const auto& v) { return vp::map1(v); });" % (P, n), {0: Spec(e, None, SZ(t), 0), 1: Spec(None, e, al, k)}, "transform")
                if "bin" in kinds:
                    add(cfg, "bin." + nm, "const %s* s, const %s* r, %s* p" % (t, t, t), kn + "vir::transform(%s, s, s + %d, r, p, [](const auto& v, const auto& w) { return vp::map2(v, w); });" % (P, n), {0: Spec(e, None, SZ(t), 0), 1: Spec(e, None, SZ(t), 0), 2: Spec(None, e, al, k)}, "binary transform")
                if "red" in kinds:
                    add(cfg, "red." + nm, "const %s* p, %s* o" % (t, t), kn + "*o = vir::reduce(%s, p, p + %d);" % (P, n), {0: Spec(e, None, al, k)}, "reduce")
                if "inner" in kinds:
                    add(cfg, "inner." + nm, "const %s* p, const %s* r, %s* o" % (t, t, t), kn + "*o = vir::transform_reduce(%s, p, p + %d, r, *o);" % (P, n), {0: Spec(e, None, al, k), 1: Spec(e, None, SZ(t), 0)}, "transform_reduce of two ranges")
                if "cnt" in kinds:
                    add(cfg, "cnt." + nm, "const %s* p, int* o" % t, kn + "*o = vir::count_if(%s, p, p + %d, [](const auto& v) { return v == (%s)3; });" % (P, n, t), {0: Spec(e, None, al, k)}, "count_if")
    # ---- simd and mask loads/stores
    ts = IT + FT
    us = ("int", "float", "unsigned char", "double")
    for t in ts:
        for n in (0, 1, 3, 4, 8, 16) if q else (0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 32):
            simd(FB20, t, n, t)
            if n in (0, 3, 8) or not q:
                for u in us if q else ts:
                    if u != t:
                        simd(FB20, t, n, u)
    for t in ("char", "short", "int", "float", "double", "long double"):
        for n in (0, 1, 2, 3, 4, 8, 16, 32) if q else (0,) + tuple(range(1, 33)):
            mask(FB20, t, n)
    for t in ts if not q else ("float", "double", "int", "short", "signed char", "long double", "unsigned long"):
        for n in (1, 3, 4, 8) if q else (1, 2, 3, 4, 5, 8, 16):
            full = (1 << n) - 1
            for b in sorted({0, 1, full, full >> 1, 1 << (n - 1), 0x5555 & full, 0xaaaa & full, full & 0b110}):
                where(FB20, t, n, t, b)
                if n in (3, 8):
                    where(FB20, t, n, "float" if t != "float" else "int", b)
        for u in ("int", "double", t):
            wbool(FB20, t, u) if u != t or t not in ("int", "double") else None
    # ---- structures of arrays
    for cfg in (FB20, STD20, STD20V3) + (() if q else (FB20V3,)):
        for n in (1, 2, 3, 4, 5, 8, 16) if q else range(1, 17):
            for s in STRUCTS:
                if n <= 8 or s[2][0][0] != "long double":
                    struct(cfg, *s, n)
    # ---- algorithms
    algo(FB20, "int", "", range(0, 14))
    for s in (1, 2, 3, 4, 5, 7, 8, 16) if q else range(1, 18):
        algo(FB20, "int", ".prefer_size<%d>()" % s, sorted({0, 1, s - 1, s, s + 1, 2 * s - 1, 2 * s + 1}) if q else range(0, 2 * s + 2))
    for s, u in ((2, 2), (4, 2), (3, 3), (1, 4), (4, 3)) if q else [(s, u) for s in (1, 2, 3, 4, 5, 8) for u in (2, 3, 4, 5)]:
        algo(FB20, "int", ".prefer_size<%d>().unroll_by<%d>()" % (s, u), sorted({s, s * u - 1, s * u, s * u + 1, 2 * s * u - 1, 2 * s * u + s + 1}))
    for t in ("float", "short", "unsigned char", "double"):
        algo(FB20, t, ".prefer_size<4>()", (1, 3, 4, 7, 9))
    algo(FB20, "int", ".prefer_size<4>().assume_matching_size()", (0, 4, 8, 12))
    for cfg, w in ((STD20, 16), (STD20V3, 32)):
        for t in ("int", "float", "short", "double", "signed char"):
            s = w // SIZE[t]
            algo(cfg, t, "", sorted({0, 1, s // 2, s - 1, s, s + 1, 2 * s - 1, 2 * s + 1}))
            algo(cfg, t, ".unroll_by<2>()", sorted({s, 2 * s - 1, 2 * s, 4 * s - 1}), kinds=("each", "trans", "red"))
            for pol in (".prefer_aligned()", ".auto_prologue()"):
                offs = range(0, w, SIZE[t]) if not q or w == 16 and SIZE[t] >= 4 else sorted({0, SIZE[t], 2 * SIZE[t], w // 2, w - SIZE[t]})
                algo(cfg, t, pol, sorted({0, 1, s - 1, s, s + 1, 2 * s - 1, 3 * s}), tuple((w, k) for k in offs), kinds=("each", "trans", "red"))
                algo(cfg, t, pol + ".unroll_by<2>()", sorted({s - 1, 2 * s, 4 * s + 1}), tuple((w, k) for k in (0, SIZE[t], w - SIZE[t])), kinds=("each", "trans", "red"))
    return out


STRUCTS = [
    ("f3", "struct S_f3 { float a, b, c; };", [("float", 0), ("float", 4), ("float", 8)], 12, 4),
    ("f2", "struct S_f2 { float a, b; };", [("float", 0), ("float", 4)], 8, 4),
    ("d3", "struct S_d3 { double a, b, c; };", [("double", 0), ("double", 8), ("double", 16)], 24, 8),
    ("s1", "struct S_s1 { short a; };", [("short", 0)], 2, 2),
    ("mix", "struct S_mix { float a; int b; unsigned c; };", [("float", 0), ("int", 4), ("unsigned", 8)], 12, 4),
    ("f4", "struct S_f4 { float a, b, c, d; };", [("float", 0), ("float", 4), ("float", 8), ("float", 12)], 16, 4),
    ("c3", "struct S_c3 { signed char a, b, c; };", [("signed char", 0), ("signed char", 1), ("signed char", 2)], 3, 1),
    ("pad", "struct S_pad { double a; float b; };", [("double", 0), ("float", 8)], 16, 8),
    ("h3", "struct S_h3 { short a, b, c; };", [("short", 0), ("short", 2), ("short", 4)], 6, 2),
]


def obligations(tier):
    return []


def extra(tier, seed):
    tmp = tempfile.mkdtemp(prefix="vp_C25_")
    cs = cases(tier)
    only = os.environ.get("VP_ONLY")
    if only:
        cs = [c for c in cs if only in c[1]]
    seen = set()
    groups = {}
    for c in cs:
        key = (c[0].name, c[1])
        if key in seen:
            continue
        seen.add(key)
        groups.setdefault(c[0].name, []).append(c)
    jobs = []
    for g in groups.values():
        for i in range(0, len(g), 150):
            jobs.append(g[i:i + 150])
    head = HDR + "\n".join(s[1] for s in STRUCTS) + "\n"

    def job(k):
        g = jobs[k]
        cfg = g[0][0]
        fns, aligns = {}, {}
        for i, (c, id, params, body, spec, desc) in enumerate(g):
            src = 'extern "C" void fp_%d(%s) noexcept { %s }' % (i, params, body)
            for s in spec.values():
                if isinstance(s.align, tuple):
                    src += '\nextern "C" constexpr const unsigned long fa_%d = %s; unsigned long fb_%d() { return fa_%d; }' % (i, s.align[1], i, i)
                    src = src.replace('extern "C" constexpr const', 'extern "C" const')
            fns["fp_%d" % i] = src
        path, rej = F.build(tmp, "j%d" % k, cfg, head, fns)
        r = []
        for n, msg in rej.items():
            c = g[int(n[3:])]
            err = next((l for l in msg.split("\n") if "error" in l), msg[:300])
            r.append({"id": "%s [%s]" % (c[1], cfg.name), "violation": True, "subject": SUB,
                      "text": "C25: %s [%s] is rejected by the compiler: %s" % (c[1], cfg.name, err[:600])})
        if path is None:
            return r
        txt = open(path).read()
        for m in re.finditer(r"@fa_(\d+) = [^\n]*constant i64 (\d+)", txt):
            aligns[int(m.group(1))] = int(m.group(2))
        for n, (acc, prob, body) in F.analyse(path).items():
            i = int(n[3:])
            c, id, params, src, spec, desc = g[i]
            for s in spec.values():
                if isinstance(s.align, tuple):
                    s.align = aligns.get(i, 0)
                    if not s.align:
                        prob = prob + ["alignment unknown"]
            if prob:
                if os.environ.get("VP_VERBOSE"):
                    print("undecided %s [%s]: %s" % (id, cfg.name, prob[0][:150]))
                r.append({"id": "undecided.%s [%s]" % (id, cfg.name), "violation": False, "subject": SUB, "text": "", "undecided": True, "cfg": cfg.name})
                continue
            errs = judge(spec, acc)
            r.append({"id": "%s [%s]" % (id, cfg.name), "violation": bool(errs), "subject": SUB, "cfg": cfg.name, "rule": RULE,
                      "text": "C25: %s: %s [%s]\n  void f(%s) { %s }\n  %s\nIR:\n%s" % (id, desc, cfg.name, params, src, "\n  ".join(errs[:6]), body[:2000]) if errs else ""})
        return r

    res = []
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(job, range(len(jobs))):
                res += r
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(tmp, ignore_errors=True)
    bad = [r for r in res if r["violation"]]
    if len(bad) > 12:
        keep = {id(r) for r in bad[:12]}
        res = [r for r in res if not r["violation"] or id(r) in keep]
    return res


FLOOR = 0
