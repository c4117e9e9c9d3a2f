#!/usr/bin/env python3
"""development aid: random single-token mutants of a header; which survive the given checks?
usage: mutate.py FILE COUNT SEED CHECK...   [LINES=a-b]"""
import os, random, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUBST = [(r"(?<![<>=!-])<(?![<=>])(?= )", "<="), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* (?=[\w(])", " + "), (r" % ", " / "), (r" / ", " * "), (r" and ", " or "), (r" or ", " and "), (r" && ", " || "),
         (r" \|\| ", " && "), (r"\bnot ", ""), (r"(?<=[ (<,])0(?=[ );>,])", "1"), (r"(?<=[ (<,])1(?=[ );>,])", "2"), (r"(?<=[ (<,])1(?=[ );>,])", "0"), (r"(?<=[ (<,])2(?=[ );>,])", "3"),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "), (r" << ", " >> "), (r" >> ", " << "),
         (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\+\+", "--"), (r" \+= ", " -= "), (r" \|= ", " &= "), (r" &= ", " |= "), (r"\[i\]", "[0]"), (r"\bx\b", "y"), (r"\by\b", "x"),
         (r"(?<=\W)first2\b", "first1"), (r"vector_aligned", "element_aligned"), (r"element_aligned", "vector_aligned"), (r"sizeof\(T\)", "sizeof(int)"), (r"std::size_t\b", "unsigned short"), (r"\bint\b", "signed char")]


def mutants(text, lo, hi):
    out = []
    comment = False
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if "/*" in s:
            comment = "*/" not in s
            continue
        if comment:
            comment = "*/" not in s
            continue
        if not lo <= i + 1 <= hi or not s or s.startswith(("#", "//", "*", "template", "static_assert", "requires")) or "precondition" in s or '"' in s:
            continue
        body = l.split("//")[0]
        for pat, rep in SUBST:
            for m in re.finditer(pat, body):
                out.append((i, body[:m.start()] + m.expand(rep) + body[m.end():] + l[len(body):]))
        if re.match(r"^\s*[\w.\[\]()+*&>-]+ ?([-+|&^*]?=|\+\+|--|\().*;$", body) and "return" not in body and "using" not in body:
            out.append((i, re.sub(r"\S.*", ";", body)))
    return out


def main():
    f, n, seed, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    lo, hi = map(int, os.environ.get("LINES", "1-99999").split("-"))
    text = open("/repo/" + f).read()
    ms = mutants(text, lo, hi)
    rng = random.Random(seed)
    rng.shuffle(ms)
    print("%d mutants, %d tried" % (len(ms), min(n, len(ms))), flush=True)
    for i, new in ms[:n]:
        d = "/tmp/mutant_%d" % os.getpid()
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo/vir", d + "/repo/vir")
        for x in ("engine", "checks"):
            shutil.copytree(os.path.join(HERE, x), d + "/" + x)
        for x in ("run.py", "known-findings.txt"):
            shutil.copy(os.path.join(HERE, x), d)
        os.mkdir(d + "/evidence")
        ls = text.split("\n")
        old = ls[i]
        ls[i] = new
        open(d + "/repo/" + f, "w").write("\n".join(ls))
        t = time.time()
        killed = None
        for std, be in (("20", ""), ("20", "-DVIR_DISABLE_STDX_SIMD"), ("17", "-DVIR_DISABLE_STDX_SIMD")):
            if subprocess.run(["clang++-18", "-std=gnu++" + std, "-w", "-fsyntax-only", "-x", "c++", "-I", d + "/repo", d + "/repo/" + f] + ([be] if be else []), capture_output=True).returncode:
                killed = "does not compile"
        for c in checks:
            if killed:
                break
            r = subprocess.run([sys.executable, d + "/run.py", c], cwd=d, capture_output=True, text=True, env=dict(os.environ, VP_REPO=d + "/repo", VP_FAILFAST="1"))
            if r.returncode:
                killed = c if r.returncode == 1 else "%s rc=%d %s" % (c, r.returncode, (r.stdout + r.stderr)[-300:].replace("\n", " "))
                if "rejected" in r.stdout and "refuted" not in r.stdout:
                    killed += " (rejected)"
        print("%-9s %s:%d %4ds  -%s\n%50s+%s" % (killed or "SURVIVED", f, i + 1, time.time() - t, old.strip()[:110], "", new.strip()[:110]), flush=True)
        shutil.rmtree(d, ignore_errors=True)


main()
