from common import *
TITLE = "Bit-level views: bitset, simd_bit_cast and float bitwise operators are exact"
HDR = "#include <bitset>\n" + hdr("vir/simd.h", "vir/simd_bitset.h", "vir/simd_bit.h", "vir/simd_float_ops.h")
SUBB = "vir/simd_bitset.h vir::to_bitset, vir::to_simd_mask"
SUBC = "vir/simd_bit.h vir::simd_bit_cast"
SUBF = "vir/simd_float_ops.h operator&, operator|, operator^"


def obligations(tier):
    obs = []
    q = tier == "quick"
    def bitset(cfg, t, n, V=None):
        N = sz(n)
        nm = "%s.%s%s" % (tid(t), n or "scalar", ".native" if V else "")
        pre = "using T = %s; using V = %s; using M = V::mask_type; constexpr int N = %d;" % (t, V or fx(t, n), N)
        if N > 6:
            hot = pre + """ template <int j> static VP_INL bool one(bool v) { bool ok = true;
              std::bitset<N> b; b[j] = v; M k(false); k[j] = v; auto c = vir::to_bitset(k); M l = vir::to_simd_mask<M>(b);
              std::bitset<N> d; d.set(); d[j] = v; M e(true); e[j] = v; auto f = vir::to_bitset(e); M g = vir::to_simd_mask<M>(d);
              for (int i = 0; i < N; ++i) { ok &= c[i] == (i == j ? v : false); ok &= f[i] == (i == j ? v : true); ok &= l[i] == (i == j ? v : false); ok &= g[i] == (i == j ? v : true); }
              return ok; }
              template <int... j> static VP_INL bool all(bool v, std::integer_sequence<int, j...>) { return (one<j>(v) & ...); }"""
            obs.append(Ob(cfg, "hot." + nm, SUBB, "to_bitset and to_simd_mask for every one-hot and every one-cold mask", [],
                          "return all(false, std::make_integer_sequence<int, N>()) & all(true, std::make_integer_sequence<int, N>());", hot))
        obs.append(Ob(cfg, "tobitset." + nm, SUBB, "to_bitset(k)[i] == k[i]", [("bool", "m", N)], """M k(m, stdx::element_aligned);
          auto b = vir::to_bitset(k); bool ok = std::is_same_v<decltype(b), std::bitset<N>>;
          for (int i = 0; i < N; ++i) ok &= b[i] == m[i];
          return ok;""", pre))
        obs.append(Ob(cfg, "frombitset." + nm, SUBB, "to_simd_mask(b)[i] == b[i] for all three spellings; the round trip is the identity", [("bool", "m", N)],
          """std::bitset<N> b; for (int i = 0; i < N; ++i) b[i] = m[i];
          auto k = vir::to_simd_mask<M>(b); auto l = vir::to_simd_mask<T, typename V::abi_type>(b); auto o = vir::to_simd_mask<T, N>(b);
          bool ok = std::is_same_v<decltype(k), M> && std::is_same_v<decltype(l), M> && int(o.size()) == N && std::is_same_v<decltype(o)::simd_type::value_type, T>;
          for (int i = 0; i < N; ++i) { ok &= k[i] == m[i]; ok &= l[i] == m[i]; ok &= o[i] == m[i]; }
          return ok;""", pre))
        obs.append(Ob(cfg, "roundtrip." + nm, SUBB, "to_bitset(to_simd_mask(b)) == b", [("bool", "m", N)],
          """std::bitset<N> b; for (int i = 0; i < N; ++i) b[i] = m[i];
          auto c = vir::to_bitset(vir::to_simd_mask<M>(b)); bool ok = true; for (int i = 0; i < N; ++i) ok &= c[i] == m[i];
          return ok;""", pre))
    def bitcast(cfg, t, n, u, m, V=None, W=None):
        pre = "using T = %s; using U = %s; using V = %s; using W = %s; constexpr int N = %d, K = %d;" % (t, u, V or fx(t, n), W or fx(u, m), n, m)
        un = {1: "unsigned char", 2: "unsigned short", 4: "unsigned", 8: "unsigned long"}
        pre += """ using IT = %s; using IU = %s;
          static VP_INL IU want(const T* a, int i) { // little endian
            if constexpr (sizeof(T) >= sizeof(U)) { constexpr int q = sizeof(T) / sizeof(U); return IU(__builtin_bit_cast(IT, a[i / q]) >> (i %% q * 8 * int(sizeof(U)) %% 64)); }
            else { constexpr int q = sizeof(U) / sizeof(T); IU r = 0; for (int k = 0; k < q; ++k) r |= IU(IU(__builtin_bit_cast(IT, a[i * q + k])) << (k * 8 * int(sizeof(T)))); return r; } }""" % (un[SIZE[t]], un[SIZE[u]])
        obs.append(Ob(cfg, "bitcast.%s.%d.%s.%d%s" % (tid(t), n, tid(u), m, ".native" if V else ""), SUBC,
          "simd_bit_cast<W>(x) has exactly the object representation of the lanes of x", [(t, "a", n)], """V x(a, stdx::element_aligned);
          W r = vir::simd_bit_cast<W>(x); bool ok = sizeof(U[K]) == sizeof(a) && std::is_same_v<decltype(vir::simd_bit_cast<W>(x)), W>;
          for (int i = 0; i < K; ++i) { ok &= IU(__builtin_bit_cast(IU, U(r[i]))) == want(a, i); }
          V y = vir::simd_bit_cast<V>(r); for (int i = 0; i < N; ++i) ok &= __builtin_bit_cast(IT, T(y[i])) == __builtin_bit_cast(IT, a[i]);
          return ok;""", pre))
    def fops(cfg, t, n, V=None):
        N = sz(n)
        I = {"float": "unsigned", "double": "unsigned long", "long double": "unsigned __int128"}[t]
        pre = "using T = %s; using V = %s; constexpr int N = %d; using I = %s; using namespace vir::simd_float_ops;" % (t, V or fx(t, n), N, I)
        pre += " static VP_INL I mk(I x) { if constexpr (sizeof(I) == 16) return x << 48 >> 48; else return x; } // value bits of x87 long double"
        for op, nm in (("&", "and"), ("|", "or"), ("^", "xor")):
            obs.append(Ob(cfg, "fop.%s.%s.%s%s" % (nm, tid(t), n or "scalar", ".native" if V else ""), SUBF,
              "(x %s y)[i] is the bitwise %s of the representations of x[i] and y[i]" % (op, nm), [(t, "a", N), (t, "b", N)],
              """V x(a, stdx::element_aligned), y(b, stdx::element_aligned); auto r = x %s y; bool ok = std::is_same_v<decltype(r), V>;
              for (int i = 0; i < N; ++i) ok &= mk(__builtin_bit_cast(I, T(r[i]))) == mk(__builtin_bit_cast(I, a[i]) %s __builtin_bit_cast(I, b[i]));
              return ok;""" % (op, op), pre))
    ts = ["float", "int", "unsigned char", "double", "short"]
    for t in ts if q else IT + FT:
        for n in ((0, 1, 2, 3, 4, 5, 6) + {"int": (16,), "float": (7, 8, 31, 32), "unsigned char": (40,)}.get(t, ())) if q else tuple(range(0, 36)) + (40, 48, 63, 64, 65):
            bitset(FB20, t, n)
        bitset(FB17, t, 4)
    for cfg, b in ((STD20, 16), (STD20V3, 32)):
        for t in ts + ["unsigned long"]:
            bitset(cfg, t, b // SIZE[t], "stdx::native_simd<T>")
            for n in (0, 1, 2, 3, 5, 8, 12):
                bitset(cfg, t, n)
        for t in ("float", "double"):
            for n in (0, 1, 3, 4, 6):
                fops(cfg, t, n)
    for t in ("float", "double"):
        for cfg in (STD20AVX, STD20V4):
            fops(cfg, t, (32 if cfg is STD20AVX else 64) // SIZE[t], "stdx::native_simd<T>")
            fops(cfg, t, 3)
            bitset(cfg, t, (32 if cfg is STD20AVX else 64) // SIZE[t], "stdx::native_simd<T>")
    for n in (0, 1, 2, 3, 4) if q else (0, 1, 2, 3, 4, 5, 8):
        fops(FB20, "long double", n)
        fops(FB17, "long double", n)
    for t in ("float", "double"):
        for n in (0, 1, 2, 3, 4, 5, 8, 16) if q else tuple(range(0, 20)) + (32,):
            fops(FB20, t, n)
            fops(FB17, t, n)
        fops(STD20, t, 16 // SIZE[t], "stdx::native_simd<T>")
        fops(STD20V3, t, 32 // SIZE[t], "stdx::native_simd<T>")
        fops(FB20V3, t, 8)
    tt = ["float", "int", "unsigned", "double", "long", "unsigned long", "short", "unsigned char", "char16_t", "long long"]
    for t in tt:
        for u in tt:
            for nb in (8, 16, 32) if q else (8, 16, 24, 32, 48, 64):
                if nb % SIZE[t] == 0 and nb % SIZE[u] == 0 and nb // SIZE[t] <= 32 and nb // SIZE[u] <= 32:
                    bitcast(FB20, t, nb // SIZE[t], u, nb // SIZE[u])
                    if not q:
                        bitcast(FB17, t, nb // SIZE[t], u, nb // SIZE[u])
            if not q or (t in ("float", "int", "unsigned char") and u in ("float", "double", "short")):
                bitcast(STD20, t, 16 // SIZE[t], u, 16 // SIZE[u], "stdx::native_simd<T>", "stdx::native_simd<U>")
                bitcast(STD20V3, t, 32 // SIZE[t], u, 32 // SIZE[u], "stdx::native_simd<T>", "stdx::native_simd<U>")
    return obs


FLOOR = 200
