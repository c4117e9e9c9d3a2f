"""Byte footprint and alignment of all memory accesses through pointer arguments, from LLVM IR.

A probe is an extern "C" function whose pointer parameters are opaque. The IR is normalised (inlining, full unrolling,
SROA, GVN); then every load/store/memory intrinsic whose address is a parameter plus a constant is collected.
"""
import os, re
from vp import run, CLANG, OPT, LLVM


class Unknown(Exception):
    pass


def split_types(s):
    parts, depth, cur = [], 0, ""
    for ch in s:
        depth += (ch in "[<{(") - (ch in "]>})")
        if ch == "," and not depth:
            parts.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        parts.append(cur.strip())
    return parts


class Types:
    def __init__(self, defs):
        self.defs = defs

    def layout(self, t):
        """(size, align, member offsets or None)"""
        t = t.strip()
        m = re.match(r"i(\d+)$", t)
        if m:
            n = 1
            while n * 8 < int(m.group(1)):
                n *= 2
            return n, min(n, 16), None
        b = {"float": (4, 4), "double": (8, 8), "x86_fp80": (16, 16), "ptr": (8, 8), "half": (2, 2)}.get(t)
        if b:
            return b + (None,)
        m = re.match(r"\[(\d+) x (.*)\]$", t)
        if m:
            s, a, _ = self.layout(m.group(2))
            return s * int(m.group(1)), a, None
        m = re.match(r"<(\d+) x (.*)>$", t)
        if m:
            if m.group(2) == "i1":
                s = (int(m.group(1)) + 7) // 8
            else:
                s = self.layout(m.group(2))[0] * int(m.group(1))
            a = 1
            while a < s:
                a *= 2
            return s, a, None
        if t in self.defs:
            return self.layout(self.defs[t])
        m = re.match(r"(<?)\{(.*)\}>?$", t)
        if m:
            off, al, offs = 0, 1, []
            for x in split_types(m.group(2)):
                s, a, _ = self.layout(x)
                if m.group(1):
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            return (off + al - 1) // al * al, al, offs
        raise Unknown("type " + t)

    def members(self, t):
        t = self.defs.get(t, t)
        m = re.match(r"<?\{(.*)\}>?$", t)
        return split_types(m.group(1)) if m else None

    def step(self, t, idx):
        """(offset, element type) of index idx inside aggregate t"""
        t0 = self.defs.get(t, t)
        m = re.match(r"[\[<](\d+) x (.*)[\]>]$", t0)
        if m:
            return idx * self.layout(m.group(2))[0], m.group(2)
        return self.layout(t0)[2][idx], self.members(t0)[idx]


FNRE = re.compile(r"^define [^\n]*?@(\w+)\(([^\n]*)\{\n(.*?)^\}", re.S | re.M)


def param_list(s):
    """the parameter list at the start of s, up to the matching parenthesis"""
    d = 1
    for i, ch in enumerate(s):
        d += (ch == "(") - (ch == ")")
        if not d:
            return s[:i]
    return s


def analyse(path):
    """{function: (accesses, problems)}; access = (param index, offset, size, 'r'|'w', align, text)"""
    t = open(path).read()
    defs = dict(re.findall(r'^(%(?:"[^"]*"|[\w.$:-]+)) = type ([^\n]*)', t, re.M))
    T = Types(defs)
    out = {}
    for m in FNRE.finditer(t):
        name, params, body = m.groups()
        if not name.startswith("fp_"):
            continue
        addr, acc, prob, assumes = {}, [], [], []
        for i, p in enumerate(split_types(param_list(params))):
            v = re.findall(r"%[\w.]+", p)
            if p.startswith("ptr") and v:
                addr[v[-1]] = (i, 0)
        local = set()
        lines = [l.strip() for l in body.split("\n") if l.strip() and not l.strip().startswith(";")]

        def where(p):
            p = p.strip()
            if p in addr:
                return addr[p]
            if p in local or p.startswith("@") or p.startswith("null"):
                return None
            raise Unknown("address " + p)

        def access(p, ty, rw, al, txt):
            w = where(p)
            if w is None:
                return
            size = T.layout(ty)[0] if isinstance(ty, str) else ty
            if ty == "x86_fp80":
                size = 10
            if isinstance(ty, str) and re.match(r"i\d+$", ty):
                size = (int(ty[1:]) + 7) // 8
            acc.append((w[0], w[1], size, rw, al, txt))

        try:
            for l in lines:
                l = re.sub(r", ![\w.]+ ![\w.]+", "", l)
                d = re.match(r"(%[\w.]+) = (.*)", l)
                ins = d.group(2) if d else l
                if ins.startswith("getelementptr"):
                    g = re.match(r"getelementptr (?:inbounds )?(?:nuw )?(.*)$", ins)
                    ps = split_types(g.group(1))
                    ty, base = ps[0], ps[1].replace("ptr ", "", 1)
                    w = where(base)
                    if w is None:
                        local.add(d.group(1))
                        continue
                    off, cur = 0, None
                    for k, x in enumerate(ps[2:]):
                        c = re.match(r"i\d+ (-?\d+)$", x)
                        if not c:
                            raise Unknown("variable index: " + l)
                        if k == 0:
                            off += int(c.group(1)) * T.layout(ty)[0]
                            cur = ty
                        else:
                            o, cur = T.step(cur, int(c.group(1)))
                            off += o
                    addr[d.group(1)] = (w[0], w[1] + off)
                elif re.match(r"load ", ins):
                    g = re.match(r"load (?:volatile )?(.*), ptr (\S+), align (\d+)", ins)
                    access(g.group(2), g.group(1), "r", int(g.group(3)), l)
                    if g.group(1) == "ptr":
                        local.add(d.group(1))
                elif re.match(r"store ", ins):
                    g = re.match(r"store (?:volatile )?(.*), ptr (\S+), align (\d+)", ins)
                    s = g.group(1)
                    # the stored value's type is the longest type prefix
                    ty = re.match(r"((?:<[^>]*>|\[[^\]]*\]|\{[^}]*\}|[\w.%\"]+))", s).group(1)
                    if ty == "ptr" and s.split()[-1] in addr:
                        raise Unknown("pointer escapes: " + l)
                    access(g.group(2), ty, "w", int(g.group(3)), l)
                elif ins.startswith("alloca"):
                    local.add(d.group(1))
                elif re.search(r"\bcall\b", ins) or ins.startswith("invoke"):
                    g = re.search(r"@([\w.]+)\((.*)\)", ins)
                    fn = g.group(1) if g else "?"
                    a = split_types(g.group(2)) if g else []
                    def ptr(x):
                        return re.findall(r"(%[\w.]+|@[\w.]+|null)", x)[-1]
                    def al(x):
                        k = re.search(r"align (\d+)", x)
                        return int(k.group(1)) if k else 1
                    if re.match(r"llvm\.(memcpy|memmove)", fn):
                        n = re.match(r"i64 (\d+)", a[2])
                        if not n:
                            raise Unknown("variable length: " + l)
                        access(ptr(a[0]), int(n.group(1)), "w", al(a[0]), l)
                        access(ptr(a[1]), int(n.group(1)), "r", al(a[1]), l)
                    elif fn.startswith("llvm.memset"):
                        n = re.match(r"i64 (\d+)", a[2])
                        if not n:
                            raise Unknown("variable length: " + l)
                        access(ptr(a[0]), int(n.group(1)), "w", al(a[0]), l)
                    elif fn.startswith("llvm.assume"):
                        for p, n in re.findall(r'"align"\(ptr (%[\w.]+), i64 (\d+)\)', ins):
                            w = where(p)
                            if w is not None:
                                acc.append((w[0], w[1], 0, "a", int(n), l))
                    elif fn.startswith("llvm.masked.") or fn.startswith("llvm.x86.") and re.search(r"mask(load|store|mov)", fn):
                        raise Unknown("masked access: " + l)
                    elif any(v in addr for v in re.findall(r"%[\w.]+", g.group(2) if g else "")):
                        if fn.startswith("llvm.lifetime") or fn.startswith("llvm.dbg"):
                            continue
                        raise Unknown("pointer passed to " + fn)
                elif ins.startswith("phi ptr") or ins.startswith("select") and " ptr " in ins:
                    vs = [v for v in re.findall(r"%[\w.]+", ins.split("ptr", 1)[1]) if v in addr]
                    if vs:
                        raise Unknown("merged pointers: " + l)
                    local.add(d.group(1))
                elif re.match(r"(br i1|switch|indirectbr)", ins):
                    raise Unknown("data-dependent control flow")
                elif re.match(r"(icmp|ptrtoint|br|ret|unreachable)", ins):
                    continue
        except Unknown as e:
            prob.append(str(e))
        out[name] = (acc, prob, body)
    return out


INLINE = ["-passes=function(sroa),cgscc(inline),function(sroa,simplifycfg,sccp,instsimplify,sroa),cgscc(inline),function(sroa,sccp,instsimplify,simplifycfg),globaldce"]
PASSES = ["-passes=default<O3>,default<O2>"]

PEEL = ["-passes=function(loop-simplify,lcssa,loop-unroll<peeling;O3>),default<O3>"]


def mark(path, out):
    """make every access outside of the function's own variables volatile: redundant reads and write-backs of unchanged values
    must not be optimised away before they are counted"""
    t = open(path).read()

    def fn(m):
        body = m.group(0)
        local = set(re.findall(r"(%[\w.]+) = alloca", body))
        while True:
            n = {d for d, b in re.findall(r"(%[\w.]+) = getelementptr [^\n]*?, ptr (%[\w.]+)", body) if b in local} - local
            if not n:
                break
            local |= n

        def acc(k):
            # constant memory (tables) is not part of the footprint
            return k.group(0) if k.group(4) in local or k.group(4).startswith("@") else "%s%s volatile %s, ptr %s" % k.groups()
        return re.sub(r"^(\s*(?:%[\w.]+ = )?)(load|store) (?!volatile)([^\n]*), ptr ([%@][\w.\"]+)(?=,)", acc, body, flags=re.M)
    t = re.sub(r"^define [^\n]*@fp_\w+\(.*?^\}", fn, t, flags=re.S | re.M)
    with open(out, "w") as f:
        f.write(t)


def build(tmp, name, cfg, header, fns):
    """compile probes {name: source}; returns (path or None, {name: error})"""
    rejected = {}
    todo = dict(fns)
    for _ in range(30):
        if not todo:
            return None, rejected
        src = os.path.join(tmp, name + ".cpp")
        with open(src, "w") as f:
            f.write(header)
            for k, s in todo.items():
                f.write('\nnamespace n_%s {\n#line 1 "%s"\n%s\n}\n' % (k, k, s))
        out = os.path.join(tmp, name + ".ll")
        cmd = [CLANG, "-x", "c++", src, "-S", "-emit-llvm", "-O2", "-Xclang", "-disable-llvm-passes", "-ferror-limit=0", "-w",
               "-fno-slp-vectorize", "-fno-vectorize", "-ffp-contract=off", "-fno-math-errno", "-ftemplate-depth=2000", "-o", out] + cfg.flags()
        rc, so, se = run(cmd)
        if rc == 0:
            break
        bad = {}
        for k in todo:
            mm = re.search(r"^.*\b%s:\d+:.*$" % re.escape(k), se, re.M)
            if mm:
                bad[k] = se[mm.start():mm.start() + 1500]
        if not bad:
            if len(todo) == 1:
                bad = {list(todo)[0]: se[:1500]}
            else:
                for k in todo:
                    _, r = build(tmp, name + "_s", cfg, header, {k: todo[k]})
                    bad.update(r)
                if not bad:
                    return None, {k: se[:1500] for k in todo}
        rejected.update(bad)
        todo = {k: s for k, s in todo.items() if k not in rejected}
    opt, inl = os.path.join(tmp, name + ".o.ll"), os.path.join(tmp, name + ".i.ll")
    rc, so, se = run([OPT, "-S", out, "-o", inl] + LLVM + INLINE)
    if rc:
        return None, rejected
    mark(inl, inl)
    rc, so, se = run([OPT, "-S", inl, "-o", opt] + LLVM + PASSES)
    # loops whose exit condition is an address comparison with the start of the range: peel iterations until it folds
    for _ in range(3):
        if rc or "= phi ptr" not in open(opt).read():
            break
        rc, so, se = run([OPT, "-S", opt, "-o", opt, "-unroll-peel-count=1"] + LLVM + PEEL)
    return (opt if rc == 0 else None), rejected
