from common import *
TITLE = "Execution policy modifiers compose, exclude each other and select the chunk size"
HDR = "#include <vector>\n#include <list>\n#include <deque>\n#include <span>\n#include <string>\n#include <algorithm>\n#include <numeric>\n" + hdr("vir/simd.h", "vir/simd_execution.h") + """namespace ex = vir::execution;
template <class P> concept can_align = requires(P p) { p.prefer_aligned(); };
template <class P> concept can_auto = requires(P p) { p.auto_prologue(); };
template <class P> concept can_match = requires(P p) { p.assume_matching_size(); };
template <class P> concept can_unroll = requires(P p) { p.template unroll_by<2>(); };
template <class P> concept can_size = requires(P p) { p.template prefer_size<4>(); };
template <class P, class R> concept can_foreach = requires(P p, R& r) { vir::for_each(p, r, [](auto&...) {}); };
"""
SUB = "vir/simd_execution.h vir::execution::simd and its modifiers"

MODS = {"al": ".prefer_aligned()", "au": ".auto_prologue()", "ma": ".assume_matching_size()", "un": ".unroll_by<3>()", "si": ".prefer_size<2>()"}
EXCL = {"al", "au", "ma"}


def combos():
    """all valid modifier sequences up to length 3"""
    out = [()]
    lvl = [()]
    for _ in range(3):
        nxt = []
        for c in lvl:
            for m in MODS:
                if m in c or (m in EXCL and EXCL & set(c)):
                    continue
                nxt.append(c + (m,))
        out += nxt
        lvl = nxt
    return out


def obligations(tier):
    obs = []
    for cfg in (FB20, STD20) if tier == "quick" else (FB20, FB23, STD20, STD20V3):
        for c in combos():
            P = "ex::simd" + "".join(MODS[m] for m in c)
            s = set(c)
            free = not (EXCL & s)
            want = [("can_align", free), ("can_auto", free), ("can_match", free), ("can_unroll", "un" not in s), ("can_size", "si" not in s)]
            obs.append(Ob(cfg, "algebra." + ("+".join(c) or "none"), SUB,
              "prefer_aligned, auto_prologue and assume_matching_size are mutually exclusive; every modifier applies at most once; the rest stays applicable", [],
              "using P = std::remove_cvref_t<decltype(%s)>; return std::is_empty_v<P> && %s;" % (P, " && ".join("%scan_%s<P>" % ("" if w else "not ", k[4:]) for k, w in want))))
            n = 12 if "ma" in s else 13
            seen = "seen[w]"
            w = 2 if "si" in s else 4
            u = 3 if "un" in s else 1
            body = """alignas(64) int x[12 + N + 12] = {}; int one = 0, many = 0, big = 0, other = 0, total = 0; for (int i = 0; i < N; ++i) x[12 + i] = a[i];
              vir::for_each(%s, std::as_const(x) + 12, std::as_const(x) + 12 + N, [&](const auto&... v) { constexpr int c = sizeof...(v); total += (int(v.size()) + ...);
                if constexpr (c > 1) { many += 1; other += c != U; ((big += int(v.size()) != W), ...); } else { ((one += int(v.size()) == W), ...); ((big += int(v.size()) > W), ...); } });
              return total == N && big == 0 && other == 0 && %s;""" % (P, "many == N / (W * U) && one == (N %% (W * U)) / W" .replace("%%", "%") if u > 1 else "many == 0 && one == N / W")
            if cfg.march == "x86-64":
                obs.append(Ob(cfg, "chunks." + ("+".join(c) or "none"), SUB,
                  "prefer_size<N> selects chunks of N lanes, the default is native width; unroll_by<M> passes M chunks at once to for_each; no chunk is wider", [("int", "a", n)], body,
                  "constexpr int N = %d, W = %d, U = %d;" % (n, w, u)))
            if "ma" in s:
                obs.append(Ob(cfg, "onetype." + "+".join(c), SUB, "assume_matching_size calls the callables with a single simd type only", [],
                  """struct F { void operator()(%s V&) const {} %s }; int x[12] = {}; vir::for_each(%s, x, x + 12, F());
                  struct G { V operator()(const V& v) const { return v; } }; int y[12] = {}; return vir::transform(%s, x, x + 12, y, G()) == y + 12;""" % ("const", "void operator()(const V&, const V&, const V&) const {}" if u > 1 else "", P, P), "using V = vir::simdize<int, %d>;" % (2 if "si" in s else 0)))
        obs.append(Ob(cfg, "values", SUB, "order of modifiers is irrelevant for the selected behaviour", [], """
          auto p = ex::simd.prefer_size<8>().unroll_by<2>(); auto r = ex::simd.unroll_by<2>().prefer_size<8>(); int n1 = 0, n2 = 0; alignas(64) int x[16 + 35] = {};
          vir::for_each(p, x + 16, x + 16 + 35, [&](const auto&... v) { n1 = n1 * 3 + int(sizeof...(v)) * 100 + (int(v.size()) + ...); }); vir::for_each(r, x + 16, x + 16 + 35, [&](const auto&... v) { n2 = n2 * 3 + int(sizeof...(v)) * 100 + (int(v.size()) + ...); });
          return n1 == n2;"""))
        obs.append(Ob(cfg, "policy_concept", SUB, "the algorithms accept exactly simd policies and contiguous ranges", [], """
          using P = decltype(ex::simd); using Q = decltype(ex::simd.unroll_by<2>()); struct N {};
          return can_foreach<P, std::vector<float>> && can_foreach<Q, std::array<int, 3>> && can_foreach<P, std::span<short>> && can_foreach<P, int[4]> && can_foreach<P, std::string> && can_foreach<const P&, std::vector<int>>
            && not can_foreach<P, std::list<int>> && not can_foreach<P, std::deque<int>> && not can_foreach<int, std::vector<int>> && not can_foreach<N, std::vector<int>>;"""))
    return obs


FLOOR = 80
