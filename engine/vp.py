"""Static obligation prover for vir-simd.

Every property is turned into *obligations*: small C++ functions that call the public API of the library on
symbolic inputs and compare the outcome with a reference formulation, lane for lane, bit for bit.  An obligation
is never executed.  It is compiled from /repo's current headers to LLVM IR, and the IR is normalised by dataflow
passes (inlining, SROA/mem2reg, GVN, SCCP, instcombine, scalariser).  The rule applied to the normal form:

  PROVED      the obligation's function is exactly `ret i1 true` (no other instruction, no trap): the two sides are
              the same value for every input.
  REFUTED     the normal form is `ret i1 false`, poison/undef, a trap or `unreachable`; or, if the symbolic normal form
              is not decisive, substituting a compile-time witness (constants) for the inputs makes constant
              propagation derive false / a trap.
  REJECTED    the (well-formed by contract) use of the public API does not compile with clang++ nor with g++.
  UNDECIDED   none of the above. Never an alarm; reported in the evidence.
"""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, struct

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENG = os.path.join(VERIF, "engine")
CLANG, GXX, OPT, EXTRACT = "clang++-18", "g++-13", "opt-18", "llvm-extract-18"
T0 = time.time()
JOBS = max(1, min(8, os.cpu_count() or 8))

COMMON = ["-ffp-contract=off", "-fwrapv", "-fno-math-errno", "-ftrivial-auto-var-init=pattern", "-fno-slp-vectorize",
          "-fno-vectorize", "-fno-exceptions" if False else "-fexceptions", "-w", "-Wno-everything", "-ftemplate-depth=2000",
          "-fconstexpr-steps=100000000", "-fbracket-depth=2000"]
SAN = ["-fsanitize=unreachable,bounds,return,shift-exponent,integer-divide-by-zero,alignment,object-size",
       "-fsanitize-trap=all"]
LLVM = ["-inline-threshold=100000", "-unroll-threshold=100000", "-unroll-max-percent-threshold-boost=100000",
        "-unroll-full-max-count=512", "-memdep-block-scan-limit=2000", "-memdep-block-number-limit=2000",
        "-gvn-max-num-deps=1000", "-vectorize-slp=false", "-vectorize-loops=false", "-available-load-scan-limit=1000",
        "-dse-memoryssa-scanlimit=2000", "-memssa-check-limit=2000", "-bonus-inst-threshold=1", "-disable-builtin=memset"]
KEEP = "-internalize-public-api-list="
STAGES = [
    ("O2", ["-passes=default<O2>"]),
    ("scal", ["-scalarize-load-store", "-scalarize-min-bits=0",
              "-passes=default<O3>,scalarizer,default<O3>,default<O3>"]),
    # restart from the unoptimised IR: inline everything before the first simplification
    ("inl", ["-replexitval=always", "-scalarize-load-store", "-scalarize-min-bits=0",
             "-passes=internalize,always-inline,globaldce,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,sroa),default<O3>,scalarizer,default<O3>"]),
]


class Cfg:
    """one build configuration of the library"""
    def __init__(self, backend="fallback", march="x86-64", std="gnu++20", extra=(), long=False):
        # long: obligations over ranges too long to unroll; loops may remain, their exit values are
        # closed forms of scalar evolution (no sanitizer traps, only the returned value is judged)
        self.backend, self.march, self.std, self.extra, self.long = backend, march, std, tuple(extra), long

    @property
    def name(self):
        return "%s/%s/%s%s" % (self.backend, self.march, self.std, "".join("/" + e for e in self.extra) + ("/long" if self.long else ""))

    def flags(self):
        f = ["-std=" + self.std, "-march=" + self.march, "-I" + REPO, "-I" + ENG]
        if self.backend == "fallback":
            f.append("-DVIR_DISABLE_STDX_SIMD")
        return f + list(self.extra)

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return self.name == o.name


class Ob:
    """args: list of (ctype, name, count); body: C++ statements that `return` a bool"""
    def __init__(self, cfg, id, subject, desc, args, body, pre="", align=64, wit=None):
        self.cfg, self.id, self.subject, self.desc = cfg, id, subject, desc
        self.args, self.body, self.pre, self.align, self.wit = args, body, pre, align, wit
        self.status = None
        self.info = ""

    def params(self):
        return [(t, "%s_%d" % (n, i)) for (t, n, c) in self.args for i in range(c)]

    def nbool(self):
        return sum(c for (t, n, c) in self.args if t == "bool")

    def emit(self, k, witness=None, split=False):
        o = ["namespace ns_%d {" % k, '#line 1 "OB_%d"' % k, self.pre]
        ps = ", ".join("%s %s" % p for p in self.params())
        if witness is None and not split:
            o.append('extern "C" bool vp_%d(%s) {' % (k, ps))
        else:
            o.append('static inline __attribute__((always_inline)) bool vq_%d(%s) {' % (k, ps))
        for (t, n, c) in self.args:
            al = "alignas(%d) " % self.align if self.align else ""
            o.append("%s%s %s[%d] = {%s};" % (al, t, n, c, ", ".join("%s_%d" % (n, i) for i in range(c))))
        o.append('#line 1 "OB_%d"' % k)
        o.append(self.body)
        o.append("}")
        if witness is not None:
            for j, w in enumerate(witness):
                o.append('extern "C" bool vp_%d_w%d() { return vq_%d(%s); }' % (k, j, k, ", ".join(w)))
        if split:       # one function per assignment of the bool inputs; the other inputs stay symbolic
            pl = self.params()
            for c in range(1 << self.nbool()):
                call, bit = [], 0
                for (t, n) in pl:
                    if t == "bool":
                        call.append("true" if c >> bit & 1 else "false")
                        bit += 1
                    else:
                        call.append(n)
                o.append('extern "C" bool vp_%d_s%d(%s) { return vq_%d(%s); }' %
                         (k, c, ", ".join("%s %s" % p for p in pl if p[0] != "bool"), k, ", ".join(call)))
        o.append("}")
        return "\n".join(o) + "\n"


class Broken(Exception):
    pass


# quick tier: no new work after this time; what is left is reported as undecided
BUDGET = [float(os.environ.get("VP_BUDGET", "600"))]


def late():
    return time.time() - T0 > BUDGET[0]


def run(cmd, timeout=600, inp=None):
    timeout = max(45, min(timeout, T0 + BUDGET[0] + 60 - time.time()))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=inp,
                           errors="replace", text=True)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 124, "", "timeout"


# ---------------------------------------------------------------------------------------------- witnesses
INT = {"bool": (1, 0), "char": (8, 1), "signed char": (8, 1), "unsigned char": (8, 0), "short": (16, 1),
       "unsigned short": (16, 0), "int": (32, 1), "unsigned": (32, 0), "unsigned int": (32, 0), "long": (64, 1),
       "unsigned long": (64, 0), "long long": (64, 1), "unsigned long long": (64, 0), "char8_t": (8, 0),
       "char16_t": (16, 0), "char32_t": (32, 0), "wchar_t": (32, 1), "std::size_t": (64, 0)}


def lit(t, v):
    if t == "bool":
        return "true" if v & 1 else "false"
    if t in INT:
        b, s = INT[t]
        v &= (1 << b) - 1
        if s and v >> (b - 1):
            v -= 1 << b
        if v == -(1 << 63):
            return "(%s)(-9223372036854775807LL-1)" % t
        return "(%s)%d%s" % (t, v, "ULL" if v >= 1 << 63 else "LL")
    return "(%s)%s" % (t, v)


FEDGE = ["0.0", "-0.0", "1.0", "-1.0", "__builtin_inf()", "-__builtin_inf()", "__builtin_nan(\"\")", "0.5", "-2.5",
         "1.5", "1e30", "-1e-30", "3.0", "16777217.0", "1e-40", "100.0", "0x1.8p63", "3e9", "-0x1.8p62", "40000.0", "200.0",
         "1e300"]
LEDGE = ["0x1.0000000000000002p3L", "-0x1.8000000000000002p0L", "0x1p16000L", "0x1.fffffffffffffffep63L", "0x1p-16000L"]


def witnesses(ob, seed, n):
    rng = random.Random("%s:%s:%d" % (ob.id, ob.cfg.name, seed))
    ps = ob.params()
    out = []
    for j in range(n):
        w = []
        for i, (t, _) in enumerate(ps):
            isint = t in INT
            if j == 0:      # distinct lane tags
                w.append(lit(t, (i & 1) if t == "bool" else i + 1) if isint else lit(t, "%d.0" % (i + 1)))
            elif j == 1:
                w.append(lit(t, 1 if t == "bool" else 3 * i + 7) if isint else lit(t, "%d.25" % (i * 2 + 1)))
            elif j == 2:
                w.append(lit(t, 0) if isint else lit(t, "-%d.5" % (i + 2)))
            elif j == 3:    # equal values
                w.append(lit(t, 1) if isint else lit(t, "1.0"))
            elif j % 3 == 0:
                if isint:
                    b = INT[t][0]
                    w.append(lit(t, rng.choice([0, 1, -1, 2, 1 << (b - 1), (1 << (b - 1)) - 1, 127, 128, 255, -2,
                                                0x55555555, (1 << b) - 2, 3, b, b - 1])))
                else:
                    w.append(lit(t, rng.choice(FEDGE + LEDGE * 2 if t == "long double" else FEDGE)))
            elif j % 3 == 1:
                w.append(lit(t, rng.randrange(1 << 64)) if isint else
                         lit(t, "%.3f" % rng.uniform(-100, 100) + ("L" if t == "long double" else "")))
            else:
                w.append(lit(t, rng.choice([0, 1, 2, 3, 5, -1, -3])) if isint else
                         lit(t, rng.choice(["0.0", "1.0", "2.0", "-1.0", "-0.0", "7.0", "1000.0"])))
        out.append(w)
    for w in ob.wit or []:
        out.append(list(w))
    return out


# ---------------------------------------------------------------------------------------------- IR
FN = re.compile(r"^define [^\n]*?@(?:\"([^\"]+)\"|([\w.$]+))\([^\n]*\{\n(.*?)^\}", re.S | re.M)


def functions(ir):
    return {(m.group(1) or m.group(2)): m.group(3) for m in FN.finditer(ir)}


def classify(body, loose=False):
    lines = [l.strip() for l in body.split("\n")]
    lines = [re.sub(r",? *!dbg !\d+|, *!srcloc !\d+", "", l) for l in lines
             if l and not l.startswith(";") and not re.match(r"^(\"[^\"]*\"|[\w.$-]+):", l) and not l.startswith("#dbg")]
    lines = [l for l in lines if "@llvm.dbg." not in l]
    if len(lines) == 1:
        l = lines[0]
        if l == "ret i1 true":
            return "true"
        if re.match(r"ret i1 (false|undef|poison)$", l):
            return "false"
        if l == "unreachable":
            return "false"
    if len(lines) == 2 and re.search(r"call void @llvm\.(ubsan)?trap\(", lines[0]) and lines[1] == "unreachable":
        return "trap"
    # no return at all and a trap on every path
    if not any(l.startswith("ret ") for l in lines) and any("@llvm.ubsantrap" in l or "@llvm.trap" in l for l in lines):
        return "trap"
    if loose and not any("unreachable" in l or re.search(r"\b(call|invoke)\b(?!.*@llvm\.)", l) for l in lines):
        rets = {l for l in lines if l.startswith("ret ")}
        if rets == {"ret i1 true"}:
            return "true"
        if rets == {"ret i1 false"}:
            return "false"
    return "open"


# ---------------------------------------------------------------------------------------------- driver
class Engine:
    def __init__(self, prop, tier="quick", seed=1, header="", verbose=False):
        self.prop, self.tier, self.seed, self.header, self.verbose = prop, tier, seed, header, verbose
        self.tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop, dir=os.environ.get("VP_TMP", "/tmp"))
        self.t0 = time.time()
        self.fns = set()
        self.callsites = 0
        self.units = 0
        self.norm_runs = 0
        self.keep = {}

    def cleanup(self):
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(self.tmp, ignore_errors=True)

    # ---- front end
    def prelude(self, cfg, header):
        """precompiled prelude (harness header + library headers) per configuration"""
        key = (cfg.name, header)
        h = os.path.join(self.tmp, "pre_%s.h" % hashlib.sha1(repr(key).encode()).hexdigest()[:12])
        pch = h + ".pch"
        return h, pch

    def build_prelude(self, cfg, concrete=False):
        header = ("#define VP_CONCRETE 1\n" if concrete else "") + self.header
        h, pch = self.prelude(cfg, header)
        if os.path.exists(pch):
            return h, pch
        with open(h, "w") as f:
            f.write(header)
        cmd = [CLANG, "-x", "c++-header", h, "-o", pch, "-O2"] + cfg.flags() + COMMON + ([] if cfg.long else SAN)
        rc, so, se = run(cmd)
        if rc:
            raise Broken("the headers do not compile in configuration %s:\n%s" % (cfg.name, se[:3000]))
        return h, pch

    def frontend(self, cfg, obs, witness=None, concrete=False, dbg=False, split=False):
        """returns (path to unoptimised IR, rejected {k: msg}); obs: list of (k, ob)"""
        h, pch = self.build_prelude(cfg, concrete)
        rejected = {}
        todo = list(obs)
        for _ in range(40):
            if not todo:
                return None, rejected
            base = os.path.join(self.tmp, "u%s" % hashlib.sha1(
                ("%s%s%s%s" % (cfg.name, [k for k, _ in todo], bool(witness), (dbg, split))).encode()).hexdigest()[:16])
            src = base + ".cpp"
            with open(src, "w") as f:
                for k, ob in todo:
                    f.write(ob.emit(k, witness.get(k) if witness else None, split))
            out = base + ".ll"
            cmd = [CLANG, "-x", "c++", src, "-include-pch", pch, "-S", "-emit-llvm", "-O2", "-Xclang",
                   "-disable-llvm-passes", "-ferror-limit=0", "-o", out] + cfg.flags() + COMMON + ([] if cfg.long else SAN)
            if dbg:
                cmd.append("-gline-tables-only")
            else:
                cmd.append("-fno-discard-value-names" if False else "-g0")
            rc, so, se = run(cmd)
            self.units += 1
            if rc == 0:
                return out, rejected
            if rc == 124:
                return None, rejected
            bad = self.attribute(se)
            bad = {k: v for k, v in bad.items() if k in dict(todo)}
            if not bad:
                if len(todo) == 1:
                    bad = {todo[0][0]: se[:3000]}
                else:   # bisect
                    m = len(todo) // 2
                    good = []
                    for part in (todo[:m], todo[m:]):
                        _, r = self.frontend(cfg, part, witness, concrete, dbg, split)
                        bad.update(r)
            rejected.update(bad)
            todo = [(k, o) for k, o in todo if k not in rejected]
        raise Broken("front end did not converge")

    @staticmethod
    def attribute(se):
        bad = {}
        block = []
        def flush():
            if not block:
                return
            txt = "\n".join(block)
            m = re.search(r"OB_(\d+)", txt)
            if m and (": error:" in txt or "fatal error" in txt):
                bad.setdefault(int(m.group(1)), txt[:2500])
        for line in se.split("\n"):
            if re.search(r": (fatal )?error:", line) or re.search(r": warning:", line):
                # keep the preceding "In file included from" lines out of the previous block
                flush()
                block = [line]
            else:
                block.append(line)
        flush()
        return bad

    def inline_all(self, raw, keep):
        """copy of the unoptimised IR restricted to the functions `keep` and with every function marked alwaysinline"""
        ext = raw[:-3] + ".r.ll"
        rc, _, se = run([EXTRACT, "-S", "--recursive", raw, "-o", ext] + ["--func=" + f for f in keep])
        if rc:
            return None
        with open(ext) as f:
            t = f.read()
        def attr(m):
            s = m.group(0)
            if "optnone" in s or "convergent" in s:
                return s
            s = s.replace(" noinline ", " ")
            return s if "alwaysinline" in s else s.replace("{ ", "{ alwaysinline ", 1)
        t = re.sub(r"^attributes #\d+ = \{[^\n]*", attr, t, flags=re.M)
        with open(ext, "w") as f:
            f.write(t)
        self.keep[ext] = KEEP + ",".join(keep)
        return ext

    def normalise(self, src, passes, suffix):
        out = src[:-3] + suffix + ".ll"
        extra = [self.keep[src]] if src in self.keep else []
        rc, so, se = run([OPT, "-S", src, "-o", out] + LLVM + passes + extra, timeout=400)
        self.norm_runs += 1
        if rc:
            return None
        return out

    def count_functions(self, path):
        with open(path) as f:
            t = f.read()
        names = set(re.findall(r"^define [^\n]*?@([\w.$]+)\(", t, re.M))
        self.fns |= {n for n in names if "3vir" in n}
        self.callsites += len(re.findall(r"(?:call|invoke) [^\n]*@_Z\w*3vir", t))

    def batch(self, cfg, obs):
        """decide all obligations (k, ob) of one configuration; returns {k: (status, info)}"""
        res = {k: ("undecided", "not analysed within the time budget") for k, _ in obs}
        if late():
            return res
        src, rej = self.frontend(cfg, obs)
        for k, msg in rej.items():
            res[k] = ("rejected?", msg)
        if src is None:
            return res
        self.count_functions(src)
        cur = src
        open_ = {k for k, _ in obs if k not in rej}
        bodies = {}
        for i, (name, passes) in enumerate(STAGES):
            if name == "inl":
                cur = self.inline_all(src, ["vp_%d" % k for k in sorted(open_)])
                if cur is None:
                    break
            elif i and open_:
                ext = cur[:-3] + ".x.ll"
                rc, _, se = run([EXTRACT, "-S", cur, "-o", ext] + ["--func=vp_%d" % k for k in sorted(open_)])
                if rc == 0:
                    cur = ext
            nxt = self.normalise(cur, passes, "." + name)
            if nxt is None:
                continue
            cur = nxt
            with open(cur) as f:
                fs = functions(f.read())
            for k in sorted(open_):
                b = fs.get("vp_%d" % k)
                if b is None:
                    continue
                c = classify(b, cfg.long)
                bodies[k] = b
                if c == "true":
                    res[k] = ("proved", name)
                    open_.discard(k)
                elif c in ("false", "trap"):
                    res[k] = ("refuted", "symbolic normal form after %s:\n%s" % (name, b[:1500]))
                    open_.discard(k)
            if not open_:
                break
        for k in open_:
            res[k] = ("open", bodies.get(k, "")[:3000])
        lim = 6 if self.tier == "quick" else 9
        cs = [(k, o) for k, o in obs if k in open_ and 0 < o.nbool() <= lim]
        group, cost = [], 0
        for x in cs + [None]:
            if group and (x is None or cost > 128):
                res.update(self.casesplit(cfg, group))
                group, cost = [], 0
            if x:
                group.append(x)
                cost += 1 << x[1].nbool()
        return res

    def casesplit(self, cfg, obs):
        """finite case split over the bool inputs (masks) of open obligations"""
        res = {}
        if late():
            return res
        src, rej = self.frontend(cfg, obs, split=True)
        if src is None:
            return res
        pend = {k: set(range(1 << o.nbool())) for k, o in obs if k not in rej}
        cur = src
        for name, passes in STAGES:
            if name == "inl":
                cur = self.inline_all(src, ["vp_%d_s%d" % (k, c) for k in pend for c in pend[k]])
                if cur is None:
                    break
            nxt = self.normalise(cur, passes, ".s" + name)
            if nxt is None:
                break
            cur = nxt
            with open(cur) as f:
                fs = functions(f.read())
            for k in list(pend):
                for c in sorted(pend[k]):
                    b = fs.get("vp_%d_s%d" % (k, c))
                    r = classify(b, cfg.long) if b is not None else "open"
                    if r == "true":
                        pend[k].discard(c)
                    elif r in ("false", "trap"):
                        res[k] = ("refuted", "case %s of the bool inputs (lowest bit first): symbolic normal form "
                                  "after %s:\n%s" % (bin(c), name, b[:1200]))
                        break
                if k in res:
                    del pend[k]
                elif not pend[k]:
                    res[k] = ("proved", name + "+case split")
                    del pend[k]
            if not pend:
                break
        return res

    def refute(self, cfg, obs, n):
        """compile-time witnesses for open obligations"""
        res = {}
        if late():
            return {k: ("undecided", "no witness tried within the time budget") for k, _ in obs}
        wit = {k: witnesses(o, self.seed, n) for k, o in obs}
        src, rej = self.frontend(cfg, obs, witness=wit, concrete=True)
        if src is None:
            return res
        pend = {k for k, _ in obs}
        cur = src
        for name, passes in STAGES:
            if name == "inl":
                cur = self.inline_all(src, ["vp_%d_w%d" % (k, j) for k in pend for j in range(len(wit[k]))])
                if cur is None:
                    break
            nxt = self.normalise(cur, passes, ".w" + name)
            if nxt is None:
                break
            cur = nxt
            with open(cur) as f:
                fs = functions(f.read())
            folded = {}
            for k in sorted(pend):
                for j, w in enumerate(wit[k]):
                    b = fs.get("vp_%d_w%d" % (k, j))
                    if b is None:
                        continue
                    c = classify(b, cfg.long)
                    if c in ("false", "trap"):
                        ps = [p for _, p in dict(obs)[k].params()]
                        res[k] = ("refuted", "constant propagation of the witness\n  %s\nderives %s" %
                                  (", ".join("%s=%s" % x for x in zip(ps, w)), c if c == "trap" else "false"))
                        break
                    folded[k] = folded.get(k, 0) + (c == "true")
                if k in res:
                    pend.discard(k)
            for k in pend:
                if folded.get(k, 0) == len(wit[k]):
                    res[k] = ("undecided", "all %d witnesses agree" % len(wit[k]))
            pend -= set(res)
            if not pend:
                break
        for k in pend:
            res[k] = ("undecided", "%d of %d witnesses fold" % (folded.get(k, 0), len(wit[k])))
        return res

    def gcc_rejects(self, cfg, ob):
        """second opinion for an obligation that clang++ rejects"""
        src = os.path.join(self.tmp, "g%s.cpp" % hashlib.sha1(ob.id.encode()).hexdigest()[:12])
        with open(src, "w") as f:
            f.write(self.header + "\n" + ob.emit(0))
        rc, so, se = run([GXX, "-x", "c++", src, "-fsyntax-only", "-w"] + cfg.flags())
        return rc not in (0, 124), se[:2500]

    def locate(self, cfg, ob):
        """library functions on the obligation's call graph: file:line name"""
        try:
            src, rej = self.frontend(cfg, [(0, ob)], dbg=True)
            if src is None:
                return []
            t = open(src).read()
            files = dict(re.findall(r"^!(\d+) = !DIFile\(filename: \"([^\"]*)\"", t, re.M))
            sp = {}
            for m in re.finditer(r"^!(\d+) = distinct !DISubprogram\(name: \"([^\"]*)\".*?file: !(\d+), line: (\d+)", t, re.M):
                sp[m.group(1)] = (m.group(2), files.get(m.group(3), "?"), int(m.group(4)))
            calls, dbg = {}, {}
            for m in re.finditer(r"^define [^\n]*?@([\w.$]+)\(([^\n]*)\{\n(.*?)^\}", t, re.S | re.M):
                d = re.search(r"!dbg !(\d+)", m.group(2))
                dbg[m.group(1)] = sp.get(d.group(1)) if d else None
                calls[m.group(1)] = re.findall(r"@([\w.$]+)\(", m.group(3))
            seen, order, stack = set(), [], ["vp_0"]
            while stack:
                f = stack.pop(0)
                if f in seen:
                    continue
                seen.add(f)
                d = dbg.get(f)
                if d and "/vir/" in d[1] and d[1].startswith(REPO):
                    x = "%s:%d %s" % (d[1], d[2], d[0])
                    if x not in order:
                        order.append(x)
                stack += calls.get(f, [])
            return order
        except Exception as e:      # localisation is best effort
            return ["(no localisation: %s)" % e]


def decide(prop, obs, header, tier, seed, floor, extra_results=None, batch=None, title=""):
    """run all obligations, write evidence, print verdict, return exit code"""
    E = Engine(prop, tier, seed, header)
    t0 = T0
    try:
        return _decide(E, prop, obs, tier, seed, floor, extra_results or [], batch, t0, title)
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
        return 2
    finally:
        E.cleanup()


def _decide(E, prop, obs, tier, seed, floor, extra, batchsize, t0, title):
    cfgs = []
    for o in obs:
        if o.cfg not in cfgs:
            cfgs.append(o.cfg)
    ids = set()
    for o in obs:
        key = (o.id, o.cfg.name)
        if key in ids:
            raise Broken("duplicate obligation id %s" % (key,))
        ids.add(key)
    numbered = list(enumerate(obs))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        def prelude(c):
            try:
                E.build_prelude(c)
                return None
            except Broken as e:
                return str(e)
        failed = {c: m for c, m in zip(cfgs, ex.map(prelude, cfgs)) if m}
        if cfgs and len(failed) == len(cfgs):
            raise Broken(list(failed.values())[0])
        unusable = {}
        for c, m in failed.items():         # some configurations work, this one does not
            src = os.path.join(E.tmp, "hdr_%s.cpp" % hashlib.sha1(c.name.encode()).hexdigest()[:8])
            with open(src, "w") as f:
                f.write(E.header)
            rc, so, se = run([GXX, "-x", "c++", src, "-fsyntax-only", "-w"] + c.flags())
            unusable[c] = rc != 0
            if rc:
                extra.append({"id": "headers." + c.name, "violation": True, "subject": "headers",
                              "text": "%s: the library headers are rejected in configuration %s\nclang++: %s\ng++: %s" % (prop, c.name, m[:1500], se[:1500])})
        cfgs = [c for c in cfgs if c not in failed]
        if not batchsize:
            batchsize = max(4, min(60, (len(obs) + 4 * JOBS - 1) // (4 * JOBS)))
        jobs = []
        for c in cfgs:
            mine = [(k, o) for k, o in numbered if o.cfg == c]
            for i in range(0, len(mine), batchsize):
                jobs.append((c, mine[i:i + batchsize]))
        res = {}
        random.Random(1).shuffle(jobs)      # if time runs out, what was analysed is spread over the grid
        for r in ex.map(lambda j: E.batch(*j), jobs):
            res.update(r)
            if os.environ.get("VP_FAILFAST") and any(x[0] in ("refuted", "rejected?") for x in r.values()):
                BUDGET[0] = 0       # development aid: the first violation is enough
        # second opinion on rejected obligations (at most 40; the rest is treated alike only if all 40 agree)
        rej = [k for k in res if res[k][0] == "rejected?"]
        def second(k):
            bad, msg = E.gcc_rejects(obs[k].cfg, obs[k])
            return k, bad, msg
        for k, bad, msg in ex.map(second, rej[:48]):
            if bad:
                res[k] = ("rejected", "clang++: %s\n\ng++: %s" % (res[k][1], msg))
            else:
                res[k] = ("undecided", "rejected by clang++ only: %s" % res[k][1][:400])
        for k in rej[48:]:
            res[k] = ("undecided", "rejected by clang++ (no second opinion sought)")
        # compile-time witnesses for open obligations
        op = [k for k in res if res[k][0] == "open"]
        open_bodies = {k: res[k][1] for k in op}
        if op:
            list(ex.map(lambda c: E.build_prelude(c, True), {obs[k].cfg for k in op}))
        jobs = []
        nw = 12 if tier == "quick" else 40
        for c in cfgs:
            mine = [(k, obs[k]) for k in op if obs[k].cfg == c]
            for i in range(0, len(mine), 6):
                jobs.append((c, mine[i:i + 6]))
        random.Random(2).shuffle(jobs)
        for r in ex.map(lambda j: E.refute(j[0], j[1], nw), jobs):
            res.update(r)
        for k in op:
            if res[k][0] == "open":
                res[k] = ("undecided", "no witness could be compiled")
        for k, o in numbered:
            if o.cfg in failed:
                res[k] = ("undecided", "headers rejected by clang++ in this configuration")
        viol = [k for k in sorted(res) if res[k][0] in ("refuted", "rejected")]
        locs = dict(zip(viol[:12], ex.map(lambda k: E.locate(obs[k].cfg, obs[k]), viol[:12])))
    n = {}
    for k in res:
        n[res[k][0]] = n.get(res[k][0], 0) + 1
    proved = n.get("proved", 0)
    if len(obs) < floor:
        raise Broken("only %d obligations generated (floor %d)" % (len(obs), floor))
    agree = sum(1 for k in res if res[k][0] == "undecided" and "witnesses agree" in res[k][1])
    if obs and not viol and not [e for e in extra if e["violation"]] and not proved and not agree:
        raise Broken("none of %d obligations was decided" % len(obs))
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(prop + "_"):
            os.unlink(os.path.join(rdir, old))
    nv = 0
    for i, k in enumerate(viol):
        o = obs[k]
        nv += 1
        if i >= 12:
            continue
        path = os.path.join(rdir, "%s_%s.txt" % (prop, re.sub(r"\W+", "_", o.id + "_" + o.cfg.name)[:150]))
        loc = locs.get(k) or []
        txt = ["property %s: %s" % (prop, title), "obligation %s [%s]" % (o.id, o.cfg.name), "subject: " + o.subject,
               "rule: " + o.desc, "verdict: " + res[k][0].upper(), res[k][1], "",
               "library functions on the obligation's call graph:"] + ["  " + l for l in loc[:40]]
        if k in open_bodies:
            txt += ["", "residual normal form:", open_bodies[k]]
        txt += ["", "obligation source (compile with %s %s):" % (CLANG, " ".join(o.cfg.flags())), E.header, o.emit(0)]
        with open(path, "w") as f:
            f.write("\n".join(txt))
        print("%s: obligation %s [%s] %s" % (prop, o.id, o.cfg.name, res[k][0]))
        if i < 3:
            print("  subject: %s" % o.subject)
            print("  rule:    %s" % o.desc)
            print("  " + res[k][1][:700].replace("\n", "\n  "))
            for l in loc[:6]:
                print("  via %s" % l)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if len(viol) > 12:
        print("... and %d more violated obligations" % (len(viol) - 12))
    for e in extra:
        if e["violation"]:
            nv += 1
            path = os.path.join(rdir, "%s_%s.txt" % (prop, re.sub(r"\W+", "_", e["id"])[:150]))
            with open(path, "w") as f:
                f.write(e["text"])
            print(e["text"][:1500])
            print("VIOLATION property=%s replay=%s" % (prop, path))
    und = [k for k in sorted(res) if res[k][0] == "undecided"]
    if E.verbose or os.environ.get("VP_VERBOSE"):
        for k in und:
            print("undecided %s [%s] %s" % (obs[k].id, obs[k].cfg.name, res[k][1][:200].replace("\n", " ")))
    xs = [e for e in extra]
    rule = "; ".join(sorted({e["rule"] for e in xs if e.get("rule")}))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Each obligation is a use of the public API compared with its reference meaning, compiled "
                           "from /repo's current headers to LLVM IR and normalised by dataflow passes. Rule: the "
                           "normal form must be exactly `ret i1 true` without traps, which establishes the equality "
                           "for every value of the symbolic inputs; `ret i1 false`, poison, a trap, or a "
                           "compile-time witness that constant-propagates to false is a violation; an obligation "
                           "neither compiler accepts is a violation." + (" Further rules: " + rule if rule else ""),
            "obligations": len(obs) + len(xs),
            "discharged": proved + len([e for e in xs if not e["violation"] and not e.get("undecided")]),
            "witness_only": len(und) + len([e for e in xs if e.get("undecided")]),
            "violated": len(viol) + len([e for e in xs if e["violation"]]),
            "configurations": sorted({c.name for c in cfgs} | {e["cfg"] for e in xs if e.get("cfg")}),
            "translation_units": E.units,
            "normalisation_runs": E.norm_runs,
            "library_functions_instantiated": len(E.fns),
            "library_call_sites": E.callsites,
            "subjects": sorted({o.subject for o in obs} | {e.get("subject", "") for e in xs if e.get("subject")}),
            "other_rules": [e["id"] for e in xs][:200],
            "undecided_samples": ["%s [%s]: %s" % (obs[k].id, obs[k].cfg.name, res[k][1][:120]) for k in und[:40]],
            "samples": [{"id": obs[k].id, "cfg": obs[k].cfg.name, "rule": obs[k].desc, "status": res[k][0],
                         "source": obs[k].emit(k)[:800]} for k in sorted(res)[::max(1, len(res) // 4)][:5]],
            "checker_cmd": "clang++-18 -emit-llvm + opt-18 (%s)" % "; ".join(" ".join(p) for _, p in STAGES),
            "trusted_base": ["clang 18 front end and LLVM 18 mid-level passes", "the reference formulations in "
                             "/verif/checks", "IEEE semantics with -ffp-contract=off, wrapping signed arithmetic"],
        },
        "assumptions": ["enumerated element types, widths and configurations as listed in the obligation ids",
                        "signed overflow wraps (-fwrapv)", "libm functions are pure"],
        "wall_s": round(time.time() - t0, 1), "violations": nv,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations in %d configurations, %d proved, %d witness-only, %d violated; %d library functions; %.0f s" %
          (prop, len(obs) + len(xs), len(ev["coverage"]["configurations"]), ev["coverage"]["discharged"], ev["coverage"]["witness_only"], nv, len(E.fns), time.time() - t0))
    return 1 if nv else 0
