import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from vp import Cfg, Ob, decide, Broken, run, REPO, VERIF, ENG, CLANG, GXX, JOBS

IT = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long",
      "long long", "unsigned long long", "wchar_t", "char16_t", "char32_t"]
FT = ["float", "double", "long double"]
SIZE = {"char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned": 4,
        "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "wchar_t": 4, "char16_t": 2,
        "char32_t": 4, "float": 4, "double": 8, "long double": 16}
SIGNED = {"char", "signed char", "short", "int", "long", "long long", "wchar_t"} | set(FT)
FB20 = Cfg("fallback", "x86-64", "gnu++20")
FB20V3 = Cfg("fallback", "x86-64-v3", "gnu++20")
FB17 = Cfg("fallback", "x86-64", "gnu++17")
FB23 = Cfg("fallback", "x86-64", "gnu++23")
STD20 = Cfg("stdlib", "x86-64", "gnu++20")
STD20V3 = Cfg("stdlib", "x86-64-v3", "gnu++20")
FB20V4 = Cfg("fallback", "x86-64-v4", "gnu++20")
STD20V4 = Cfg("stdlib", "x86-64-v4", "gnu++20")
STD20AVX = Cfg("stdlib", "sandybridge", "gnu++20")
FB20AVX = Cfg("fallback", "sandybridge", "gnu++20")
STD23V3 = Cfg("stdlib", "x86-64-v3", "gnu++23")
STD17 = Cfg("stdlib", "x86-64", "gnu++17")


def tid(t):
    return t.replace(" ", "_").replace("unsigned", "u").replace("signed", "s")


def hdr(*incs):
    return "".join("#include <%s>\n" % i for i in incs) + '#include "vp.hpp"\nnamespace stdx = vir::stdx;\n'


def fx(t, n):
    return "stdx::simd<%s, stdx::simd_abi::%s>" % (t, "scalar" if n == 0 else "fixed_size<%d>" % n)


def sz(n):
    return n or 1


DIGITS = {"char": 7, "signed char": 7, "unsigned char": 8, "short": 15, "unsigned short": 16, "int": 31, "unsigned": 32,
          "long": 63, "unsigned long": 64, "long long": 63, "unsigned long long": 64, "wchar_t": 31, "char16_t": 16,
          "char32_t": 32, "float": 24, "double": 53, "long double": 64}


def vpres(u, t):
    """every value of arithmetic type u is representable in t"""
    if u in FT and t not in FT:
        return False
    return DIGITS[t] >= DIGITS[u] and (u not in SIGNED or t in SIGNED)


def bcast_ok(u, t):
    return vpres(u, t) or u == "int" or (u == "unsigned" and t not in SIGNED)


def cvt_ok(u, t):
    ll = ("long long", "unsigned long long")
    return u == t or (vpres(u, t) and (u in FT or t in FT or SIZE[t] > SIZE[u] or
                                       (SIZE[t] == SIZE[u] and t in ll and u not in ll)))


def uniq(obs):
    """drop obligations generated twice by overlapping parameter ranges"""
    seen = {}
    for o in obs:
        k = (o.id, o.cfg.name)
        if k in seen and seen[k].body != o.body:
            raise Broken("two different obligations named %s" % (k,))
        seen.setdefault(k, o)
    return list(seen.values())


# ---- ranges too long to unroll: constant length and address, exit values of the loops by scalar evolution
LONG_N = (1003, 4099, 20003, 70001, (1 << 20) + 5, (1 << 32) + 11)
LONG_CFG = [Cfg("fallback", "x86-64", "gnu++20", long=True), Cfg("stdlib", "x86-64", "gnu++20", long=True),
            Cfg("stdlib", "x86-64-v3", "gnu++20", long=True), Cfg("fallback", "x86-64-v3", "gnu++20", long=True)]
LONG_POL = ("", ".unroll_by<2>()", ".unroll_by<5>()", ".prefer_size<16>().unroll_by<9>()", ".prefer_size<32>().unroll_by<9>()", ".prefer_aligned()", ".auto_prologue()", ".prefer_aligned().unroll_by<3>()",
            ".auto_prologue().unroll_by<2>()", ".prefer_size<3>()", ".prefer_size<12>()", ".prefer_size<1>()")


def long_grid(tier):
    for ci, cfg in enumerate(LONG_CFG):
        for ti, t in enumerate(("float", "unsigned char", "short", "double", "int")):
            for pi, pol in enumerate(LONG_POL):
                if tier == "quick" and (ci > 2 or (ti > 1 and pi not in (1, 5, 6))):
                    continue
                if pol == ".prefer_size<32>().unroll_by<9>()" and t != "unsigned char":
                    continue
                for ni, n in enumerate(LONG_N):
                    for off in (0, 1, 3):
                        al = "aligned" in pol or "prologue" in pol
                        if tier == "quick" and (off == 3 or (off == 0 and not al) or (ni in (0, 4) and pi)):
                            continue
                        yield cfg, t, pol, n, off


def long_pre(t, n, off):
    return ("using T = %s; constexpr std::size_t N = %dul, OFF = %d;" % (t, n, off) +
            " static VP_INL T* arr(unsigned long a) { return reinterpret_cast<T*>(a) + OFF; }")


def long_id(t, pol, n, off):
    return "%s%s.n%d.o%d" % (tid(t), pol.replace("()", "").replace("<", "").replace(">", ""), n, off)
