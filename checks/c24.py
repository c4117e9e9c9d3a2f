"""fake_modify / fake_read: optimisation barriers. Decided on the optimised IR of both compilers."""
from common import *
import re, os, shutil, tempfile, concurrent.futures as cf
TITLE = "fake_modify and fake_read keep values alive and unchanged without running code"
HDR = hdr("vir/simd.h", "vir/simd_benchmarking.h")
SUB = "vir/simd_benchmarking.h fake_modify, fake_read"


def types(backend, q):
    """(C++ type, element type, number of lanes, kind)"""
    out = []
    for t in ("int", "float", "double", "char", "short", "long", "unsigned", "long double", "unsigned char", "bool"):
        out.append((t, t, 1, "scalar"))
    ts = ("float", "int", "double", "signed char") if q else [x for x in IT + FT]
    ns = (2, 3, 4, 8, 16) if q else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32)
    for t in ts:
        for k, w in (("simd", "simd"), ("mask", "simd_mask")):
            out.append(("vir::stdx::%s<%s, vir::stdx::simd_abi::scalar>" % (w, t), t, 1, k))
            for n in ns:
                out.append(("vir::stdx::fixed_size_%s<%s, %d>" % (w, t, n), t, n, k))
            out.append(("vir::stdx::native_%s<%s>" % (w, t), t, 0, k))
    return out


def lane_fns(i, ty, t, n, kind, lanes):
    o = []
    for l in lanes:
        # the last lane of native types has index size()-1
        idx = "int(%s::size()) - 1" % ty if l < 0 else str(l)
        tag = "%d_%s" % (i, "L" if l < 0 else l)
        if kind == "scalar":
            o.append("bool m_%s() { %s x = (%s)(1); vir::fake_modify(x); return x == (%s)(1); }" % (tag, ty, ty, ty))
            o.append("void r_%s(%s a) { vir::fake_read(a); }" % (tag, ty))
            # every position of calls with up to six arguments
            for ar in (2, 3, 4, 5, 6):
                for pos in range(ar):
                    vs = ["x%d" % k for k in range(ar)]
                    dcl = " ".join("%s x%d = (%s)(%d);" % (ty if k == pos else "int", k, ty if k == pos else "int", 1) for k in range(ar))
                    o.append("bool s_%s_%d_%d() { %s vir::fake_modify(%s); return x%d == (%s)(1); }" % (tag, ar, pos, dcl, ", ".join(vs), pos, ty))
                    vs[pos] = "a"
                    o.append("void t_%s_%d_%d(%s a) { %s vir::fake_read(%s); }" % (tag, ar, pos, ty, dcl, ", ".join(vs)))
        elif kind == "simd":
            o.append("bool m_%s() { %s x = (%s)(3); vir::fake_modify(x); return x[%s] == (%s)(3); }" % (tag, ty, t, idx, t))
            o.append("void r_%s(%s a) { %s x = (%s)(0); x[%s] = a; vir::fake_read(x); }" % (tag, t, ty, t, idx))
            o.append("bool s_%s() { %s x = (%s)(3); %s y = (%s)(4); int z = 5; vir::fake_modify(z, x, y); return y[%s] == (%s)(4); }" % (tag, ty, t, ty, t, idx, t))
            o.append("void t_%s(%s a) { %s x = (%s)(0); %s y = x; x[%s] = a; int z = 1; vir::fake_read(z, y, x); }" % (tag, t, ty, t, ty, idx))
        else:
            o.append("bool m_%s() { %s x(true); vir::fake_modify(x); return x[%s]; }" % (tag, ty, idx))
            o.append("bool n_%s() { %s x(false); vir::fake_modify(x); return x[%s]; }" % (tag, ty, idx))
            o.append("void r_%s(bool a) { %s x(false); x[%s] = a; vir::fake_read(x); }" % (tag, ty, idx))
    return o


def asm_ok(line):
    """empty template, volatile, every output tied to an input"""
    m = re.search(r'asm (sideeffect )?(?:alignstack )?(?:inteldialect )?"([^"]*)", "([^"]*)"\((.*)\)', line)
    if not m:
        return "unrecognised inline assembly"
    se, tmpl, cons, args = m.groups()
    if not se:
        return "inline assembly is not volatile"
    if tmpl.strip():
        return "inline assembly has code"
    cs = [c for c in cons.split(",") if not c.startswith("~")]
    outs = [c for c in cs if c.startswith("=")]
    ins = [c for c in cs if not c.startswith("=")]
    indirect = [c for c in outs if c.startswith("=*")]
    tied = [c for c in ins if c[:1].isdigit()]
    ptrs = re.findall(r"ptr[^,]*?(%[\w.]+)", args)
    # every register output needs a tied input; every memory output is read through the same pointer
    if len(tied) + (len([p for p in set(ptrs) if ptrs.count(p) >= 2]) if indirect else 0) < len(outs):
        return "an output of the inline assembly is not an input: the value is lost"
    return None


def type_size(t, defs):
    """size in bytes (without padding) of an LLVM type"""
    t = t.strip()
    m = re.match(r"i(\d+)$", t)
    if m:
        return (int(m.group(1)) + 7) // 8
    if t in ("float", "double", "x86_fp80", "ptr", "half"):
        return {"float": 4, "double": 8, "x86_fp80": 10, "ptr": 8, "half": 2}[t]
    m = re.match(r"[\[<](\d+) x (.*)[\]>]$", t)
    if m:
        return int(m.group(1)) * type_size(m.group(2), defs)
    if t in defs:
        return type_size(defs[t], defs)
    m = re.match(r"<?\{(.*)\}>?$", t)
    if m:
        parts, depth, cur = [], 0, ""
        for ch in m.group(1):
            depth += (ch in "[<{(") - (ch in "]>})")
            if ch == "," and not depth:
                parts.append(cur)
                cur = ""
            else:
                cur += ch
        return sum(type_size(x, defs) for x in parts + [cur] if x.strip())
    raise KeyError(t)


def partial(lines, body, defs):
    """the memory operands of the inline assembly cover only a part of the local object they point to"""
    al = dict(re.findall(r"^\s*(%[\w.]+) = alloca ([^,]+(?:\{[^}]*\})?)", body, re.M))
    try:
        ops = {(p, ty) for l in lines for ty, p in re.findall(r"elementtype\(([^)]*)\) (%[\w.]+)", l)}
        total = sum(type_size(ty, defs) for p, ty in ops)
        for p, ty in ops:
            if p in al and "vir::stdx" in al[p] and total < type_size(al[p], defs):
                return "inline assembly accesses only %s of the object of type %s" % (ty, al[p])
    except KeyError:
        pass
    return None


def analyse_clang(ll, names):
    t = open(ll).read()
    defs = dict(re.findall(r'^(%(?:"[^"]*"|[\w.$:]+)) = type ([^\n]*)', t, re.M))
    out = {}
    for m in re.finditer(r"^define [^\n]*?@(\w+)\(([^\n]*?)\)[^\n]*\{\n(.*?)^\}", t, re.S | re.M):
        name, params, body = m.groups()
        if not re.match(r"[mnrst]_", name):
            continue
        asm = [l for l in body.split("\n") if " asm " in l]
        calls = [l for l in body.split("\n") if re.search(r"\b(call|invoke)\b", l) and " asm " not in l and "@llvm." not in l]
        err = None
        if not asm:
            err = "no inline assembly left after optimisation: the barrier has no effect"
        elif calls:
            err = "calls another function: " + calls[0].strip()
        else:
            for a in asm:
                err = err or asm_ok(a)
            err = err or partial(asm, body, defs)
        if not err and name[0] in "mns" and re.search(r"^\s*ret i1 (true|false|undef|poison)", body, re.M):
            err = "the compiler still knows the value after fake_modify: %s" % re.search(r"ret i1 \w+", body).group(0)
        if not err and name[0] in "rt":
            b = re.sub(r"(?m)^\s*(?:tail )?call void @llvm\.(dbg|lifetime).*$", "", body)
            p = re.findall(r"%\d+", params)
            if not p or not re.search(re.escape(p[0]) + r"\b", b):
                err = "the value passed to fake_read is not used: its computation can be removed"
        out[name] = (err, body)
    return out


def analyse_gcc(dump, names):
    t = open(dump).read()
    out = {}
    for m in re.finditer(r"^;; Function \S+ \((\w+),.*?\n(.*?)(?=^;; Function |\Z)", t, re.S | re.M):
        name, body = m.groups()
        if not re.match(r"[mnrst]_", name):
            continue
        err = None
        asm = re.findall(r"__asm__ (__volatile__)?\(\"([^\"]*)\"", body)
        if not asm:
            err = "no inline assembly left after optimisation: the barrier has no effect"
        elif any(not v or s.strip() for v, s in asm):
            err = "inline assembly is not an empty volatile statement"
        elif name[0] in "mns" and re.search(r"return [01];", body):
            err = "the compiler still knows the value after fake_modify"
        elif name[0] in "rt" and not re.search(r"\ba_\d+\(D\)|\ba\b", body.split("{", 1)[-1]):
            err = "the value passed to fake_read is not used: its computation can be removed"
        out[name] = (err, body)
    return out


def obligations(tier):
    return []


def extra(tier, seed):
    q = tier == "quick"
    res = []
    tmp = tempfile.mkdtemp(prefix="vp_C24_")
    jobs = []
    for backend in ("fallback", "stdlib"):
        for comp in (CLANG, GXX):
            ts = types(backend, q)
            for march in ("x86-64-v3", "x86-64", "x86-64-v4"):
                if q and march != "x86-64-v3":
                    ts = [x for x in ts if x[2] in (0, 3, 4) and x[1] != "signed char"]
                for std in ("gnu++20",) if q else ("gnu++20", "gnu++23"):
                    step = 20
                    for g in range(0, len(ts), step):
                        jobs.append((backend, comp, march, std, "-O2", [(g + j, x) for j, x in enumerate(ts[g:g + step])]))
                if march == "x86-64":
                    jobs.append((backend, comp, march, "gnu++20", "-O0", list(enumerate(ts))))

    def build(backend, comp, march, std, opt, items, name):
        fns = {}
        for i, (ty, t, n, kind) in items:
            lanes = [0] if kind == "scalar" or n == 1 else [0, -1] + ([] if n == 0 else list(range(1, min(n - 1, 2 if q else 4))))
            fns[i] = lane_fns(i, ty, t, n, kind, lanes)
        src = os.path.join(tmp, name + ".cpp")
        open(src, "w").write('#include <vir/simd_benchmarking.h>\n#if !VIR_HAVE_SIMD_BENCHMARKING\n#error VIR_HAVE_SIMD_BENCHMARKING\n#endif\nextern "C" {\n%s\n}\n' %
                             "\n".join('#line 1 "TY_%d"\n%s' % (i, "\n".join(f)) for i, f in fns.items()))
        cfg = Cfg(backend, march, std)
        out = os.path.join(tmp, name)
        cmd = [comp, src, opt, "-w", "-Wno-everything" if comp == CLANG else "-fno-ipa-icf", "-ffp-contract=off"] + cfg.flags()
        if opt == "-O2":
            cmd += ["-fno-slp-vectorize"] if comp == CLANG else []
            if comp == CLANG:
                rc, so, se = run(cmd + ["-S", "-emit-llvm", "-o", out + ".ll"])
                if rc == 0:      # code generation must accept the constraints as well
                    rc, so, se = run([comp, "-c", "-w", "-Wno-everything", "-O1", "-march=" + march, out + ".ll", "-o", out + ".o"])
            else:
                rc, so, se = run(cmd + ["-c", "-o", out + ".o", "-fdump-tree-optimized=%s.opt" % out])
        else:
            rc, so, se = run(cmd + ["-c", "-o", out + ".o"])
        return rc, se, out

    def job(k):
        backend, comp, march, std, opt, items = jobs[k]
        r = []
        rc, se, out = build(backend, comp, march, std, opt, items, "j%d" % k)
        tag = "%s/%s/%s/%s/%s" % (backend, "clang" if comp == CLANG else "gcc", march, std, opt)
        good = items
        if rc:
            good = []
            for i, it in items:
                rc1, se1, _ = build(backend, comp, march, std, opt, [(i, it)], "j%d_%d" % (k, i))
                if rc1:
                    msg = next((l for l in se1.split("\n") if "error" in l), se1[:300])
                    r.append({"id": "accept.%s.%s" % (tag, it[0]), "violation": True, "subject": SUB,
                              "text": "C24: fake_modify/fake_read of %s is rejected (%s): %s" % (it[0], tag, msg[:600])})
                else:
                    good.append((i, it))
            if not good:
                return r
            rc, se, out = build(backend, comp, march, std, opt, good, "j%d" % k)
        if opt == "-O0":
            r.append({"id": "accept.%s" % tag, "violation": False, "subject": SUB, "text": ""})
            return r
        a = analyse_clang(out + ".ll", None) if comp == CLANG else analyse_gcc(out + ".opt", None)
        seen = set()
        for name in sorted(a):
            err, body = a[name]
            i = int(name.split("_")[1])
            ty = dict(good)[i][0]
            seen.add(i)
            what = {"m": "fake_modify(x)", "n": "fake_modify(x)", "s": "fake_modify(several arguments)", "r": "fake_read(x)", "t": "fake_read(several arguments)"}[name[0]]
            r.append({"id": "%s.%s.%s.%s" % (name[0], tag, ty, "_".join(name.split("_")[2:])), "violation": bool(err), "subject": SUB,
                      "text": "C24: %s of %s, lane %s [%s]: %s\noptimised function %s:\n%s" % (what, ty, name.split("_")[2], tag, err, name, body[:1500]) if err else ""})
        for i, it in good:
            if i not in seen:
                r.append({"id": "missing.%s.%s" % (tag, it[0]), "violation": False, "subject": SUB, "text": ""})
        return r

    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(job, range(len(jobs))):
                res += r
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(tmp, ignore_errors=True)
    bad = [r for r in res if r["violation"]]
    if len(bad) > 12:       # report the first dozen
        keep = {id(r) for r in bad[:12]}
        res = [r for r in res if not r["violation"] or id(r) in keep]
    return res


FLOOR = 0
