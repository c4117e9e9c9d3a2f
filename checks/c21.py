from common import *
TITLE = "Type traits, ABI tags, concepts and version comparison describe the types exactly"
HDR = "#include <string>\n" + hdr("vir/simd.h", "vir/simd_concepts.h", "vir/simd_version.h") + """
template <class T, class V, class = void> struct has_rebind_ : std::false_type {}; template <class T, class V> struct has_rebind_<T, V, std::void_t<stdx::rebind_simd_t<T, V>>> : std::true_type {};
template <int N, class V, class = void> struct has_resize_ : std::false_type {}; template <int N, class V> struct has_resize_<N, V, std::void_t<stdx::resize_simd_t<N, V>>> : std::true_type {};
template <class T, class A, class = void> struct has_size_ : std::false_type {}; template <class T, class A> struct has_size_<T, A, std::void_t<decltype(stdx::simd_size<T, A>::value)>> : std::true_type {};
template <class T, class U, class = void> struct has_align_ : std::false_type {}; template <class T, class U> struct has_align_<T, U, std::void_t<decltype(stdx::memory_alignment<T, U>::value)>> : std::true_type {};
namespace ab = stdx::simd_abi;
"""
SUB = "vir/simd.h type traits and ABI tags"


def obligations(tier):
    obs = []
    q = tier == "quick"
    def add(cfg, id, body, pre="", desc="", args=(), sub=SUB):
        obs.append(Ob(cfg, id, sub, desc, list(args), body, pre))
    for cfg in (FB17, FB20, FB20V3, STD20, STD20V3) if q else (FB17, FB20, FB20V3, FB23, STD17, STD20, STD20V3, STD23V3):
        fb = cfg.backend == "fallback"
        nb = {"x86-64": 16, "x86-64-v3": 32}[cfg.march]
        for t in IT + FT:
            nat = nb // SIZE[t] if SIZE[t] <= 8 else 1
            com = 16 // SIZE[t] if SIZE[t] <= 8 else 1
            for n in (() if not fb else (0, 1, 2, 3, 4, 7, 8, 16, 31, 32) if q else range(0, 33)):
                N = sz(n)
                A = "ab::scalar" if n == 0 else "ab::fixed_size<%d>" % n
                pre = "using T = %s; using A = %s; using V = stdx::simd<T, A>; using M = stdx::simd_mask<T, A>;" % (t, A)
                b = "bool ok = stdx::is_simd_v<V> && stdx::is_simd<V>::value && not stdx::is_simd_mask_v<V> && stdx::is_simd_mask_v<M> && not stdx::is_simd_v<M> && stdx::is_abi_tag_v<A> && V::size() == %d && M::size() == %d && stdx::simd_size_v<T, A> == %d;" % (N, N, N)
                b += "ok = ok && std::is_same_v<typename V::value_type, T> && std::is_same_v<typename M::value_type, bool> && std::is_same_v<typename V::mask_type, M> && std::is_same_v<typename M::simd_type, V> && std::is_same_v<typename V::abi_type, A> && std::is_same_v<typename M::abi_type, A>;"
                b += "ok = ok && std::is_default_constructible_v<V> && std::is_trivially_copyable_v<V> && std::is_destructible_v<M> && std::is_copy_assignable_v<M>;"
                if n:
                    b += "ok = ok && std::is_same_v<V, stdx::fixed_size_simd<T, %d>> && std::is_same_v<M, stdx::fixed_size_simd_mask<T, %d>>;" % (n, n)
                b += "ok = ok && stdx::memory_alignment_v<V> %% alignof(T) == 0 && stdx::memory_alignment_v<V> >= alignof(T) && (stdx::memory_alignment_v<V> & (stdx::memory_alignment_v<V> - 1)) == 0 && stdx::memory_alignment_v<V> <= %d && stdx::memory_alignment_v<M> >= 1 && stdx::memory_alignment_v<V, double> >= alignof(double) && stdx::memory_alignment_v<V, char> >= 1;" % (64 * 16)
                b += "return ok;"
                b = b.replace("%%", "%")
                add(cfg, "simd.%s.%d" % (tid(t), n), b, pre, "size, value_type, mask_type, abi_type and trait values of simd and simd_mask")
                if n in (0, 1, 4, 7, 32):
                    rb = "bool ok = true;"
                    for u in ("char", "int", "double", "float", "unsigned long"):
                        rb += "ok = ok && stdx::is_simd_v<stdx::rebind_simd_t<%s, V>> && std::is_same_v<typename stdx::rebind_simd_t<%s, V>::value_type, %s> && stdx::rebind_simd_t<%s, V>::size() == %d && stdx::is_simd_mask_v<stdx::rebind_simd_t<%s, M>> && stdx::rebind_simd_t<%s, M>::size() == %d && std::is_same_v<typename stdx::rebind_simd_t<%s, M>::simd_type::value_type, %s>;" % (u, u, u, u, N, u, u, N, u, u)
                    rb += "ok = ok && std::is_same_v<stdx::rebind_simd_t<T, V>, V> && std::is_same_v<stdx::rebind_simd_t<T, M>, M> && not has_rebind_<bool, V>::value && not has_rebind_<std::string, V>::value && not has_rebind_<int, T>::value && not has_rebind_<int, std::string>::value;" if fb else ""
                    for m in (1, 2, 3, 5, 8, 16, 32):
                        rb += "ok = ok && stdx::resize_simd_t<%d, V>::size() == %d && stdx::resize_simd_t<%d, M>::size() == %d && std::is_same_v<typename stdx::resize_simd_t<%d, V>::value_type, T> && stdx::is_simd_v<stdx::resize_simd_t<%d, V>> && stdx::is_simd_mask_v<stdx::resize_simd_t<%d, M>> && std::is_same_v<typename stdx::resize_simd_t<%d, M>::simd_type::value_type, T>;" % ((m,) * 8)
                    if fb:
                        rb += "ok = ok && not has_resize_<0, V>::value && not has_resize_<-1, V>::value && not has_resize_<4, T>::value;"
                    add(cfg, "rebind.%s.%d" % (tid(t), n), rb + "return ok;", pre, "rebind_simd changes the element type, resize_simd the size; nothing else")
            b = "bool ok = stdx::native_simd<T>::size() == %d && std::is_same_v<stdx::native_simd<T>, stdx::simd<T, ab::native<T>>> && std::is_same_v<stdx::native_simd_mask<T>, stdx::simd_mask<T, ab::native<T>>> && stdx::is_abi_tag_v<ab::native<T>> && stdx::is_abi_tag_v<ab::compatible<T>> && std::is_same_v<stdx::simd<T>, stdx::simd<T, ab::compatible<T>>> && std::is_same_v<stdx::simd_mask<T>, stdx::simd_mask<T, ab::compatible<T>>> && stdx::simd<T>::size() == %d && ab::max_fixed_size<T> >= 32;" % (nat, com)
            for n in (1, 2, 3, 4, 5, 8, 15, 16, 32):
                b += "ok = ok && stdx::simd<T, ab::deduce_t<T, %d>>::size() == %d && stdx::is_simd_v<stdx::simd<T, ab::deduce_t<T, %d>>>;" % (n, n, n)
            if fb:
                b += "ok = ok && has_size_<T, ab::scalar>::value && has_size_<T, ab::fixed_size<5>>::value && not has_size_<T, int>::value && not has_size_<bool, ab::scalar>::value && std::is_same_v<ab::deduce_t<T, 1>, ab::scalar> && std::is_same_v<ab::deduce_t<T, 4>, ab::fixed_size<4>>;"
            if fb: add(cfg, "abi." + tid(t), b + "return ok;", "using T = %s;" % t, "native, compatible and deduced ABI tags have the documented sizes")
            if cfg.std != "gnu++17":
                add(cfg, "concepts." + tid(t), """bool ok = vir::arithmetic<T> && vir::vectorizable<T> && not vir::vectorizable<const std::string> && not vir::arithmetic<T*>;
                  using V = stdx::fixed_size_simd<T, 4>; using M = V::mask_type; using X = stdx::simd<T, int>; using Y = stdx::simd<bool, ab::scalar>;
                  ok = ok && vir::any_simd<V> && not vir::any_simd<M> && vir::any_simd_mask<M> && not vir::any_simd_mask<V> && vir::any_simd_or_mask<V> && vir::any_simd_or_mask<M> && not vir::any_simd<T> && not vir::any_simd_mask<T> && not vir::any_simd_or_mask<T> && not vir::any_simd_or_mask<T*>;
                  ok = ok && vir::typed_simd<V, T> && not vir::typed_simd<V, bool> && not vir::typed_simd<M, T> && not vir::typed_simd<V, %s> && vir::sized_simd<V, 4> && not vir::sized_simd<V, 3> && not vir::sized_simd<M, 4> && vir::sized_simd_mask<M, 4> && not vir::sized_simd_mask<M, 5> && not vir::sized_simd_mask<V, 4>;
                  ok = ok && vir::simd_abi_tag<ab::scalar> && vir::simd_abi_tag<ab::fixed_size<3>> && not vir::simd_abi_tag<int> && not vir::simd_abi_tag<T> && not vir::any_simd<X> && not vir::any_simd<Y>; return ok;""" % ("int" if t != "int" else "long"),
                  "using T = %s;" % t, "the concepts are satisfied exactly by the documented types", sub="vir/simd_concepts.h concepts")
        if fb: add(cfg, "nonsimd", """struct S {}; bool ok = true; auto no = [&](auto* p) { using T = std::remove_pointer_t<decltype(p)>; ok = ok && not stdx::is_simd_v<T> && not stdx::is_simd_mask_v<T> && not stdx::is_abi_tag_v<T> && not stdx::is_simd_flag_type_v<T>; };
          no((int*)0); no((float*)0); no((bool*)0); no((S*)0); no((std::string*)0); no((int**)0); no((std::array<int, 4>*)0); no((stdx::simd<bool, ab::scalar>*)0); no((stdx::simd_mask<bool, ab::scalar>*)0); no((stdx::simd<int, int>*)0); no((stdx::simd<S, ab::scalar>*)0);
          return ok && not std::is_default_constructible_v<stdx::simd<bool, ab::scalar>> && not std::is_destructible_v<stdx::simd<S, ab::scalar>> && not std::is_destructible_v<stdx::simd<int, int>> && not std::is_copy_constructible_v<stdx::simd_mask<bool, ab::scalar>>;""", "", "other types are not simd types; simd of a non-vectorisable type is disabled")
        if fb: add(cfg, "flags", "return stdx::is_simd_flag_type_v<stdx::element_aligned_tag> && stdx::is_simd_flag_type_v<stdx::vector_aligned_tag> && stdx::is_simd_flag_type_v<stdx::overaligned_tag<16>> && stdx::is_simd_flag_type_v<stdx::overaligned_tag<1>> && not stdx::is_simd_flag_type_v<int> && not stdx::is_simd_flag_type_v<ab::scalar> && std::is_same_v<decltype(stdx::element_aligned), const stdx::element_aligned_tag> && std::is_same_v<decltype(stdx::vector_aligned), const stdx::vector_aligned_tag> && std::is_same_v<decltype(stdx::overaligned<64>), const stdx::overaligned_tag<64>>;", "", "load/store flag types")
        if cfg.std != "gnu++17":
            add(cfg, "concepts.non", "struct S {}; return not vir::vectorizable<bool> && vir::arithmetic<bool> && not vir::arithmetic<S> && not vir::vectorizable<S> && not vir::vectorizable<void> && not vir::any_simd<S> && not vir::any_simd_or_mask<void> && not vir::simd_abi_tag<void>;", "", "non-arithmetic types", sub="vir/simd_concepts.h concepts")
        # version
        VS = "vir/simd_version.h vir::simd_version_t"
        for c in ("==", "!=", "<", "<=", ">", ">="):
            for k in range(3):      # y shares the first k components with x and differs in the next one
                add(cfg, "version.%s.%d" % ({"==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}[c], k), "const V x{a[0], a[1], a[2]}, y{%s}; if (a[%d] == b[%d]) return true; return (x %s y) == (a[%d] %s b[%d]) && (x %s x) == (0 %s 0);" % (
                    ", ".join("%s[%d]" % ("a" if j < k else "b", j) for j in range(3)), k, k, c, k, c, k, c, c), "using V = vir::simd_version_t;", "versions compare lexicographically: major, minor, patchlevel", [("int", "a", 3), ("int", "b", 3)], VS)
            # finite set of orderings: case split on the sign of each component's comparison
            add(cfg, "version.cases." + {"==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}[c], """bool ok = true; for (int i = 0; i < 27; ++i) { const V x{0, 0, 0}, y{i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1}; const int k = y.major ? y.major : y.minor ? y.minor : y.patchlevel; ok &= (x C y) == (0 C k); } return ok;""".replace("C", c), "using V = vir::simd_version_t;", "versions compare lexicographically", [], VS)
        add(cfg, "version.current", "return vir::simd_version.major == VIR_SIMD_VERSION_MAJOR && vir::simd_version.minor == VIR_SIMD_VERSION_MINOR && vir::simd_version.patchlevel == VIR_SIMD_VERSION_PATCHLEVEL && VIR_SIMD_VERSION == VIR_SIMD_VERSION_MAJOR * 0x10000 + VIR_SIMD_VERSION_MINOR * 0x100 + VIR_SIMD_VERSION_PATCHLEVEL && VIR_SIMD_VERSION_MINOR < 256 && VIR_SIMD_VERSION_PATCHLEVEL < 256 && vir::simd_version >= vir::simd_version_t{0, 4, 0};", "", "macros and constant agree", [], VS)
    return obs


FLOOR = 500
