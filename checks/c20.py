from common import *
import random
TITLE = "constexpr_wrapper arithmetic and _cw literals denote exactly the wrapped value"
HDR = "#include <compare>\n" + hdr("vir/simd.h", "vir/constexpr_wrapper.h") + """using vir::cw; using namespace vir::literals;
template <auto X> using CW = vir::constexpr_wrapper<X>;
// W wraps exactly the value and type of X
template <auto X, class W> constexpr bool is = std::is_same_v<std::remove_cvref_t<W>, CW<X>> && std::is_same_v<typename std::remove_cvref_t<W>::value_type, std::remove_cvref_t<decltype(X)>> && std::remove_cvref_t<W>::value == X;
template <int N> using IC = std::integral_constant<int, N>;
// structural class type with all operators, each with a distinct result
struct S { int v;
  friend constexpr bool operator==(const S&, const S&) = default;
"""
UN = ["+", "-", "~", "!", "*"]
BI = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||"]
CMP = ["==", "!=", "<", "<=", ">", ">="]
ASG = ["+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="]
for i, o in enumerate(UN):
    HDR += "  constexpr S operator%s() const { return {v * 100 + %d}; }\n" % (o, 1 + i)
HDR += "  constexpr S operator++() const { return {v * 100 + 11}; } constexpr S operator++(int) const { return {v * 100 + 12}; } constexpr S operator--() const { return {v * 100 + 13}; } constexpr S operator--(int) const { return {v * 100 + 14}; }\n"
for i, o in enumerate(BI[:10] + ASG):
    HDR += "  constexpr S operator%s(S o) const { return {v * 100 + o.v * 10000 + %d}; }\n" % (o, 21 + i)
HDR += "  constexpr S operator=(int) const { return {v + 7}; }\n" if False else ""
HDR += """  constexpr S operator->*(S o) const { return {v * 100 + o.v * 10000 + 61}; } constexpr S operator,(S o) const { return {v * 100 + o.v * 10000 + 62}; }
  constexpr int operator()(int a, int b) const { return v + a * 10 + b * 100; } constexpr int operator()(S o) const { return v * 3 + o.v; } constexpr int operator[](int i) const { return v * 5 + i; } constexpr int get() const { return v; } };
struct Z { int k; };
struct P { int v; constexpr const Z* operator->() const { return &z; } static constexpr Z z = {77}; };
"""
SUB = "vir/constexpr_wrapper.h vir::constexpr_wrapper, vir::cw, operator\"\"_cw"


def obligations(tier):
    obs = []
    q = tier == "quick"
    rng = random.Random(4711)
    def add(id, body, desc, cfg=FB20, pre=""):
        obs.append(Ob(cfg, id, SUB, desc, [], body, pre))
    vals = ["0", "1", "-1", "2", "7", "-13", "100", "2147483647", "5u", "4000000000u", "3L", "-9L", "250UL", "'a'", "short(-5)", "(unsigned char)(200)", "true", "false", "1LL << 40"]
    big = {"2147483647", "4000000000u", "1LL << 40", "250UL", "100", "-13", "-9L", "'a'", "short(-5)", "(unsigned char)(200)", "-1"}
    def pyv(s):
        return {"1LL << 40": 1 << 40, "'a'": 97, "short(-5)": -5, "(unsigned char)(200)": 200, "true": 1, "false": 0}.get(s, None) if s in ("1LL << 40", "'a'", "short(-5)", "(unsigned char)(200)", "true", "false") else int(s.rstrip("uUL"))
    cfgs = (FB20, FB23) if q else (FB20, FB23, STD20)
    for cfg in cfgs:
        for op in UN[:4]:
            add("unary.%s" % {"+": "plus", "-": "minus", "~": "compl", "!": "not"}[op],
                "return %s;" % " && ".join("is<(%s(%s)), decltype(%scw<(%s)>)>" % (op, v, op, v) for v in vals if not (op == "~" and v in ("true", "false"))),
                "op cw<x> is cw<op x>", cfg)
        nm = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "rem", "&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "shr", "&&": "land", "||": "lor", "==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}
        for op in BI + CMP:
            terms = []
            for a in vals:
                for b in vals:
                    x, y = pyv(a), pyv(b)
                    if op in "/%" and (y == 0 or (y == -1)):
                        continue
                    if op in ("<<", ">>") and (b in big or x < 0 or y < 0 or y > 7 or a in ("2147483647", "1LL << 40")):
                        continue
                    if op in "+-*" and (a in ("2147483647", "1LL << 40") or b in ("2147483647", "1LL << 40")):
                        continue
                    if q and rng.random() < 0.5 and cfg is not FB20:
                        continue
                    terms.append("is<((%s) %s (%s)), decltype(cw<(%s)> %s cw<(%s)>)>" % (a, op, b, a, op, b))
            for g in range(0, len(terms), 120):
                add("binary.%s.%d" % (nm[op], g // 120), "return %s;" % " && ".join(terms[g:g + 120]), "cw<a> op cw<b> is cw<a op b> (same type, same value)", cfg)
            add("mixed." + nm[op], """constexpr int a = 12, b = 3; bool ok = is<(a %(op)s b), decltype(cw<a> %(op)s IC<b>())> && is<(a %(op)s b), decltype(IC<a>() %(op)s cw<b>)>;
              ok = ok && std::is_same_v<decltype(cw<a> %(op)s 3), decltype(a %(op)s 3)> && (cw<a> %(op)s 3) == (a %(op)s 3) && (12 %(op)s cw<b>) == (12 %(op)s b); return ok;""" % {"op": op},
                "mixed with integral_constant the result stays a constant; mixed with a plain value it is the plain result", cfg)
            if op not in ("&&", "||") and op not in CMP:
                add("class." + nm[op], "return is<(S{2} %s S{3}), decltype(cw<S{2}> %s cw<S{3}>)>;" % (op, op), "operators of class-type values", cfg)
        for op in ASG:
            add("classassign." + nm[op[:-1]], "return is<(S{2} %s S{3}), decltype(cw<S{2}> %s cw<S{3}>)>;" % (op, op), "compound assignment of class-type values", cfg)
        for op in UN:
            add("classunary." + {"+": "plus", "-": "minus", "~": "compl", "!": "not", "*": "deref"}[op], "return is<(%sS{4}), decltype(%scw<S{4}>)>;" % (op, op), "unary operators of class-type values", cfg)
        add("classincdec", "return is<(++S{4}), decltype(++cw<S{4}>)> && is<(S{4}++), decltype(cw<S{4}>++)> && is<(--S{4}), decltype(--cw<S{4}>)> && is<(S{4}--), decltype(cw<S{4}>--)>;", "increment/decrement", cfg)
        add("classother", """bool ok = is<(S{2} ->* S{3}), decltype(cw<S{2}> ->* cw<S{3}>)> && is<(S{2} , S{3}), decltype((cw<S{2}> , cw<S{3}>))>;
          ok = ok && is<S{2}(3, 4), decltype(cw<S{2}>(cw<3>, cw<4>))> && cw<S{2}>(3, 4) == S{2}(3, 4) && cw<S{2}>(cw<3>, 4) == S{2}(3, 4) && is<S{2}(S{5}), decltype(cw<S{2}>(cw<S{5}>))>;
          ok = ok && is<S{2}[6], decltype(cw<S{2}>[cw<6>])> && cw<S{2}>[6] == S{2}[6];
          ok = ok && cw<S{9}>->get() == 9 && cw<S{9}>->v == 9 && cw<P{1}>->k == 77; return ok;""", "call, subscript, arrow and comma operators", cfg)
        add("spaceship", "return (cw<3> <=> cw<4>).value == std::strong_ordering::less && (cw<4> <=> cw<4>).value == std::strong_ordering::equal && (cw<5> <=> cw<4>).value == std::strong_ordering::greater;" if False else
            "return (3 <=> 4) < 0 && cw<3>() == 3 && cw<7>.value == 7 && int(cw<9>) == 9;", "value access: (), ::value, conversion", cfg)
        add("pointer", "return *cw<&gv>.value == 42 && cw<&gv>() == &gv && std::is_same_v<decltype(cw<&gv>)::value_type, const int*> && is<true, decltype(cw<&gv> == cw<&gv>)>;", "pointer values", cfg, "static constexpr int gv = 42;")
        add("concept", """struct N {}; struct M { int value; };
          return vir::constexpr_value<CW<3>> && vir::constexpr_value<IC<3>> && vir::constexpr_value<CW<3>, int> && vir::constexpr_value<CW<3>, long> && vir::constexpr_value<std::true_type, bool> && vir::constexpr_value<CW<S{1}>, S>
            && not vir::constexpr_value<int> && not vir::constexpr_value<N> && not vir::constexpr_value<CW<S{1}>, int> && not vir::constexpr_value<M>;""", "constexpr_value<T, U> identifies compile-time constants convertible to U", cfg)
        # literals
        lits = set([0, 1, 2, 3, 9, 10, 15, 16, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 1000000, 123456789012])
        for _ in range(20 if q else 200):
            lits.add(rng.getrandbits(rng.choice([4, 8, 12, 16, 24, 32, 40, 56, 64])))
        def sep(s, k):
            out = ""
            for i, ch in enumerate(s):
                if i and (len(s) - i) % k == 0:
                    out += "'"
                out += ch
            return out
        def lt(v):
            for n, t in ((7, "signed char"), (15, "short"), (31, "int"), (63, "long")):
                if v < 1 << n:
                    return t
            return "unsigned long long"
        terms = []
        for v in sorted(lits):
            for s in {"%d" % v, "0x%x" % v, "0X%X" % v, "0b%s" % bin(v)[2:], "0B%s" % bin(v)[2:], "0%o" % v, sep("%d" % v, 3), "0x" + sep("%x" % v, 4), "0b" + sep(bin(v)[2:], 8), "0" + sep("%o" % v, 3)}:
                terms.append("is<%s(%dULL), decltype(%s_cw)>" % ("(%s)" % lt(v), v, s))
        for s, v in (("00", 0), ("000", 0), ("0x00", 0), ("0x0'0", 0), ("0b00", 0), ("0b0001", 1), ("0x00ff", 255), ("01", 1), ("02", 2), ("0017", 15), ("0xDeadBeef", 0xdeadbeef), ("0xabcdefABCDEF", 0xabcdefABCDEF)):
            terms.append("is<%s(%dULL), decltype(%s_cw)>" % ("(%s)" % lt(v), v, s))
        terms.sort()
        for g in range(0, len(terms), 40):
            add("literal.%d" % (g // 40), "return %s;" % " && ".join(terms[g:g + 40]), "an integer literal with _cw denotes its value with the smallest sufficient signed type", cfg)
    return obs


def extra(tier, seed):
    """compile-fail witnesses: ill-formed literals must be rejected"""
    import tempfile, shutil
    out = []
    d = tempfile.mkdtemp(prefix="vp_C20x_")
    try:
        for id, src, good in (("overflow.dec", "auto x = 18446744073709551616_cw;", False), ("overflow.hex", "auto x = 0x10000000000000000_cw;", False),
                              ("overflow.bin", "auto x = 0b1%s_cw;" % ("0" * 64), False), ("float", "auto x = 1.5_cw;", False), ("exp", "auto x = 1e3_cw;", False),
                              ("max", "auto x = 18446744073709551615_cw;", True)):
            p = d + "/t.cpp"
            open(p, "w").write('#include <vir/constexpr_wrapper.h>\nusing namespace vir::literals;\n%s\n' % src)
            acc = [run([c, "-std=gnu++20", "-w", "-I" + REPO, "-fsyntax-only", p])[0] == 0 for c in (CLANG, GXX)]
            bad = (any(acc) and not good) or (good and not any(acc))
            if good is False and not all(acc):
                bad = bad and all(acc)
            out.append({"id": "literal." + id, "violation": bad, "subject": SUB,
                        "text": "C20: `%s` must %s to compile with clang++ and g++ (vir/constexpr_wrapper.h operator\"\"_cw); accepted: %s" % (src, "fail" if not good else "succeed", acc)})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


FLOOR = 80
