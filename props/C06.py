"""Scalar selection, classification and component selection."""
from engine.obl import Spec
from .common import *

INCLUDES = ["scalar.h", "vec.h"]


def obligations(tier):
    s = Spec("C06")

    def o(name, ins, expr, want, T=NUM, pre="", **k):
        s.ob(name, ins, 1, f"out[0] = T({expr});", pre + f"out[0] = T({want});", T=T, **k)
    U = NUM + ["std::size_t"]
    o("min.1", "a", "vm::min(a[0])", "a[0]", U)
    o("max.1", "a", "vm::max(a[0])", "a[0]", U)
    for n, nm in ((2, "abc"), (3, "abc"), (4, "abcd"), (5, "abcde")):
        v = nm[:n]
        ins = " ".join(v)
        args = ", ".join(x + "[0]" for x in v)
        arr = f"const T v[{n}] = {{{args}}}; "
        big = "T r = v[0]; for (T x : v) r = x > r ? x : r; "
        sml = "T r = v[0]; for (T x : v) r = x < r ? x : r; "
        o(f"min.{n}", ins, f"vm::min({args})", "r", U, arr + sml)
        o(f"max.{n}", ins, f"vm::max({args})", "r", U, arr + big)
        if n > 4:
            continue
        dist = "".join(f"vp_assume(s_abs({x}[0]) != s_abs({y}[0])); " for i, x in enumerate(v) for y in v[:i])
        abig = "T r = v[0]; for (T x : v) r = s_abs(x) > s_abs(r) ? x : r; "
        asml = "T r = v[0]; for (T x : v) r = s_abs(x) < s_abs(r) ? x : r; "
        TT = NUM if n < 4 else ["double"]
        o(f"abs_min.{n}", ins, f"vm::abs_min({args})", "r", TT, dist + arr + asml)
        o(f"abs_max.{n}", ins, f"vm::abs_max({args})", "r", TT, dist + arr + abig)
        # ties: the magnitude is still right
        o(f"abs_min.{n}.mag", ins, f"vm::abs(vm::abs_min({args}))", "s_abs(r)", TT, arr + asml)
        o(f"abs_max.{n}.mag", ins, f"vm::abs(vm::abs_max({args}))", "s_abs(r)", TT, arr + abig)
        nins = " ".join(x + "::n" for x in v)
        sel = "T r = v[0]; for (T x : v) r = r != r ? x : (x != x ? r : (x @ r ? x : r)); "
        o(f"safe_min.{n}", nins, f"vm::safe_min({args})", "r", FD, arr + sel.replace("@", "<"))
        o(f"safe_max.{n}", nins, f"vm::safe_max({args})", "r", FD, arr + sel.replace("@", ">"))
    o("safe_min.1", "a::n", "vm::safe_min(a[0])", "a[0]", FD)
    o("safe_max.1", "a::n", "vm::safe_max(a[0])", "a[0]", FD)
    o("abs", "a", "vm::abs(a[0])", "a[0] < 0 ? -a[0] : a[0]")
    o("abs_difference", "a b", "vm::abs_difference(a[0], b[0])", "s_abs(a[0] - b[0])", pre="vp_assume(a[0] >= 0); vp_assume(b[0] >= 0); ")
    o("abs_difference.unsigned", "a b", "vm::abs_difference(a[0], b[0])", "a[0] > b[0] ? a[0] - b[0] : b[0] - a[0]", ["std::size_t"])
    o("abs_difference.magnitudes", "a b", "vm::abs_difference(a[0], b[0])", "s_abs(s_abs(a[0]) - s_abs(b[0]))")
    o("clamp", "v lo hi", "vm::clamp(v[0], lo[0], hi[0])", "v[0] < lo[0] ? lo[0] : (v[0] > hi[0] ? hi[0] : v[0])", pre="vp_assume(lo[0] <= hi[0]); ")
    o("clamp.default", "v", "vm::clamp(v[0])", "v[0] < 0 ? T(0) : (v[0] > 1 ? T(1) : v[0])")
    o("sign", "v", "vm::sign(v[0])", "v[0] > 0 ? 1 : (v[0] < 0 ? -1 : 0)")
    o("step", "e v", "vm::step(e[0], v[0])", "v[0] >= e[0] ? 1 : 0")
    ss = "const T t = (v[0] - e[0]) / (g[0] - e[0]); "
    o("smoothstep", "e g v", "vm::smoothstep(e[0], g[0], v[0])", "v[0] <= e[0] ? T(0) : (v[0] >= g[0] ? T(1) : t * t * (3 - 2 * t))", FD, "vp_assume(e[0] < g[0]); " + ss)
    o("mix", "a b t", "vm::mix(a[0], b[0], t[0])", "a[0] + t[0] * (b[0] - a[0])", FD)
    o("is_equal", "a b eps", "vm::is_equal(a[0], b[0], eps[0])", "a[0] - b[0] <= eps[0] && b[0] - a[0] <= eps[0] ? 1 : 0", FD, "vp_assume(eps[0] >= 0); ")
    o("is_equal.nan", "a::n b::n eps", "vm::is_equal(a[0], b[0], eps[0])", "a[0] - b[0] <= eps[0] && b[0] - a[0] <= eps[0] ? 1 : 0", FD, "vp_assume(eps[0] >= 0); ")
    o("is_zero", "a eps", "vm::is_zero(a[0], eps[0])", "a[0] <= eps[0] && -a[0] <= eps[0] ? 1 : 0", FD, "vp_assume(eps[0] >= 0); ")
    o("contains", "v p q", "vm::contains(v[0], p[0], q[0])", "v[0] >= s_min(p[0], q[0]) && v[0] <= s_max(p[0], q[0]) ? 1 : 0")
    o("is_nan", "a::x", "vm::is_nan(a[0])", "a[0] != a[0] ? 1 : 0", FD)
    o("is_inf", "a::x", "vm::is_inf(a[0])", "(a[0] > std::numeric_limits<T>::max() || a[0] < -std::numeric_limits<T>::max()) ? 1 : 0", FD,
      "vp_assume(!(a[0] > std::numeric_limits<T>::max()) || a[0] == std::numeric_limits<T>::infinity()); vp_assume(!(a[0] < -std::numeric_limits<T>::max()) || a[0] == -std::numeric_limits<T>::infinity()); ")
    s.ob("nan", "a", 1, "out[0] = vm::nan<T>() != vm::nan<T>() ? 1 : 0;", "out[0] = 1;", T=FD)
    o("identity", "a", "vm::identity()(a[0])", "a[0]")
    # k-th largest component: value, index, axis
    dist = "for (std::size_t i = 0; i < S; ++i) for (std::size_t j = 0; j < i; ++j) vp_assume({f}(a[i]) != {f}(a[j])); "
    kth = "T r = 0; std::size_t w = 0; for (std::size_t i = 0; i < S; ++i) { std::size_t above = 0; for (std::size_t j = 0; j < S; ++j) above += {f}(a[j]) > {f}(a[i]) ? 1u : 0u; if (above == K) { r = a[i]; w = i; } } (void)r; (void)w; "
    for fn, f in (("max", ""), ("abs_max", "s_abs")):
        for T in FD + ["int"]:
            for n in (1, 2, 3, 4):
                if T != "double" and n == 4:
                    continue
                p = (dist + kth).replace("{f}", f)
                e = dict(T=T, S=[n], K=list(range(n)), time=120)
                s.ob(f"get_{fn}_component", "a:S", 1, f"out[0] = vm::get_{fn}_component(V<S>(a), K);", p + "out[0] = r;", **e)
                s.ob(f"find_{fn}_component", "a:S", 1, f"out[0] = T(vm::find_{fn}_component(V<S>(a), K));", p + "out[0] = T(w);", **e)
                if fn == "abs_max":
                    s.ob("get_abs_max_component_axis", "a:S", n, "put(out, vm::get_abs_max_component_axis(V<S>(a), K));", p + "for (std::size_t i = 0; i < S; ++i) out[i] = i != w ? T(0) : (r < 0 ? T(-1) : T(1));", **e)
        # ties: the selected component still has the k-th largest magnitude
        for n in (2, 3):
            srt = "T m[S]; for (std::size_t i = 0; i < S; ++i) m[i] = {f}(a[i]); for (std::size_t i = 0; i < S; ++i) for (std::size_t j = 0; j + 1 < S; ++j) if (m[j] < m[j+1]) { const T t = m[j]; m[j] = m[j+1]; m[j+1] = t; } ".replace("{f}", f)
            e = dict(T=["double", "int"], S=[n], K=list(range(n)), time=120)
            g = f or "+"
            s.ob(f"get_{fn}_component.ties", "a:S", 1, f"out[0] = {g}(vm::get_{fn}_component(V<S>(a), K));", srt + "out[0] = m[K];", **e)
            s.ob(f"find_{fn}_component.ties", "a:S", 1, f"const std::size_t w = vm::find_{fn}_component(V<S>(a), K); out[0] = {g}(w == 0 ? a[0] : (w == 1 ? a[1] : a[S-1]));", srt + "out[0] = m[K];", **e)
        s.ob(f"get_{fn}_component.default", "a:3", 2, f"out[0] = vm::get_{fn}_component(V<3>(a)) - vm::get_{fn}_component(V<3>(a), 0u); out[1] = T(vm::find_{fn}_component(V<3>(a))) - T(vm::find_{fn}_component(V<3>(a), 0u));", "out[0] = 0; out[1] = 0;", T=FD)
    return s.obs
