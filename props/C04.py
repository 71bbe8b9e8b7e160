"""Vector operations act component by component."""
from engine.obl import Spec
from .common import *

INCLUDES = ["scalar.h", "vec.h"]


def obligations(tier):
    s = Spec("C04")
    U = NUM + ["std::size_t"]

    def both(name, ins, expr, comp, T, pre="", spre="", out="S", api=""):
        s.ob(name, ins, out, pre + f"put(out, {expr});", spre + FOR + f"out[i] = {comp};", T=T, S=S4, api=api)

    both("operator+.unary", "a:S", "+V<S>(a)", "a[i]", U)
    both("operator-.unary", "a:S", "-V<S>(a)", "-a[i]", NUM)
    both("operator+", "a:S b:S", "V<S>(a) + V<S>(b)", "a[i] + b[i]", U)
    both("operator-", "a:S b:S", "V<S>(a) - V<S>(b)", "a[i] - b[i]", U)
    both("operator*.vec", "a:S b:S", "V<S>(a) * V<S>(b)", "a[i] * b[i]", U)
    both("operator*.right", "a:S k", "V<S>(a) * k[0]", "a[i] * k[0]", U)
    both("operator*.left", "a:S k", "k[0] * V<S>(a)", "a[i] * k[0]", U)
    both("operator/.vec", "a:S b:S", "V<S>(a) / V<S>(b)", "a[i] / b[i]", U)
    both("operator/.right", "a:S k", "V<S>(a) / k[0]", "a[i] / k[0]", U)
    both("operator/.left", "a:S k", "k[0] / V<S>(a)", "k[0] / a[i]", U)
    both("min.vec2", "a:S b:S", "min(V<S>(a), V<S>(b))", "a[i] <= b[i] ? a[i] : b[i]", U)
    both("max.vec2", "a:S b:S", "max(V<S>(a), V<S>(b))", "a[i] >= b[i] ? a[i] : b[i]", U)
    both("min.vec3", "a:S b:S c:S", "min(V<S>(a), V<S>(b), V<S>(c))", "s_min(s_min(a[i], b[i]), c[i])", NUM)
    both("max.vec3", "a:S b:S c:S", "max(V<S>(a), V<S>(b), V<S>(c))", "s_max(s_max(a[i], b[i]), c[i])", NUM)
    both("min.vec4", "a:S b:S c:S d:S", "min(V<S>(a), V<S>(b), V<S>(c), V<S>(d))", "s_min(s_min(a[i], b[i]), s_min(c[i], d[i]))", FD)
    both("max.vec4", "a:S b:S c:S d:S", "max(V<S>(a), V<S>(b), V<S>(c), V<S>(d))", "s_max(s_max(a[i], b[i]), s_max(c[i], d[i]))", FD)
    # the value of smallest / largest magnitude; on a tie of magnitudes either is allowed: fix by |.|
    both("abs_min.vec2", "a:S b:S", "abs(abs_min(V<S>(a), V<S>(b)))", "s_min(s_abs(a[i]), s_abs(b[i]))", NUM)
    both("abs_max.vec2", "a:S b:S", "abs(abs_max(V<S>(a), V<S>(b)))", "s_max(s_abs(a[i]), s_abs(b[i]))", NUM)
    tie = FOR + "vp_assume(s_abs(a[i]) != s_abs(b[i])); "
    both("abs_min.vec2.signed", "a:S b:S", "abs_min(V<S>(a), V<S>(b))", "s_abs(a[i]) < s_abs(b[i]) ? a[i] : b[i]", NUM, spre=tie)
    both("abs_max.vec2.signed", "a:S b:S", "abs_max(V<S>(a), V<S>(b))", "s_abs(a[i]) > s_abs(b[i]) ? a[i] : b[i]", NUM, spre=tie)
    tie3 = FOR + "{ vp_assume(s_abs(a[i]) != s_abs(b[i])); vp_assume(s_abs(b[i]) != s_abs(c[i])); vp_assume(s_abs(a[i]) != s_abs(c[i])); } "
    both("abs_min.vec3.signed", "a:S b:S c:S", "abs_min(V<S>(a), V<S>(b), V<S>(c))",
         "s_abs(a[i]) < s_abs(b[i]) ? (s_abs(a[i]) < s_abs(c[i]) ? a[i] : c[i]) : (s_abs(b[i]) < s_abs(c[i]) ? b[i] : c[i])", FD, spre=tie3)
    both("abs_max.vec3.signed", "a:S b:S c:S", "abs_max(V<S>(a), V<S>(b), V<S>(c))",
         "s_abs(a[i]) > s_abs(b[i]) ? (s_abs(a[i]) > s_abs(c[i]) ? a[i] : c[i]) : (s_abs(b[i]) > s_abs(c[i]) ? b[i] : c[i])", FD, spre=tie3)
    order = FOR + "vp_assume(lo[i] <= hi[i]); "
    both("clamp.vec", "a:S lo:S hi:S", "clamp(V<S>(a), V<S>(lo), V<S>(hi))", "a[i] < lo[i] ? lo[i] : (a[i] > hi[i] ? hi[i] : a[i])", NUM, spre=order)
    both("abs.vec", "a:S", "abs(V<S>(a))", "a[i] < 0 ? -a[i] : a[i]", NUM)
    both("sign.vec", "a:S", "sign(V<S>(a))", "a[i] < 0 ? T(-1) : (a[i] > 0 ? T(1) : T(0))", NUM)
    both("step.vec", "e:S v:S", "step(V<S>(e), V<S>(v))", "v[i] < e[i] ? T(0) : T(1)", NUM)
    both("smoothstep.vec", "e:S g:S v:S", "smoothstep(V<S>(e), V<S>(g), V<S>(v))",
         "v[i] <= e[i] ? T(0) : (v[i] >= g[i] ? T(1) : ((v[i] - e[i]) / (g[i] - e[i])) * ((v[i] - e[i]) / (g[i] - e[i])) * (3 - 2 * ((v[i] - e[i]) / (g[i] - e[i]))))",
         FD, spre=FOR + "vp_assume(e[i] < g[i]); ")
    both("mix.vec", "a:S b:S w:S", "mix(V<S>(a), V<S>(b), V<S>(w))", "a[i] + w[i] * (b[i] - a[i])", FD)
    # rounding functions: lifted from the library's scalar functions (those are C07)
    nf = FOR + "{ vp_assume(n[i] <= 4503599627370496); vp_assume(n[i] >= -4503599627370496); vp_assume(f[i] >= 0); vp_assume(f[i] < 1); } T x[S]; " + FOR + "x[i] = T(n[i]) + f[i]; "
    I = "n:S:i:long f:S"
    for fn in ("floor", "ceil", "trunc", "round", "fract"):
        s.ob(f"{fn}.vec", I, "S", nf + f"put(out, {fn}(V<S>(x)));", nf + FOR + f"out[i] = vm::{fn}(x[i]);", T=FD, S=S4)
    nfg = FOR + "{ vp_assume(n[i] <= 4503599627370496); vp_assume(n[i] >= -4503599627370496); vp_assume(f[i] >= 0); vp_assume(f[i] < 1); vp_assume(g[i] > 0); } T x[S]; " + FOR + "x[i] = g[i] * (T(n[i]) + f[i]); "
    for fn in ("snap", "snapUp", "snapDown", "mod"):
        s.ob(f"{fn}.vec", I + " g:S", "S", nfg + f"put(out, {fn}(V<S>(x), V<S>(g)));", nfg + FOR + f"out[i] = vm::{fn}(x[i], g[i]);", T=FD, S=S4)
    s.ob("correct.vec", I + " eps", "S", nf + "put(out, correct(V<S>(x), 0u, eps[0]));", nf + FOR + "out[i] = vm::correct(x[i], 0u, eps[0]);", T=FD, S=S4)
    s.ob("correct.vec.decimals", I + " eps", "S", nf + "put(out, correct(V<S>(x), 2u, eps[0]));", nf + FOR + "out[i] = vm::correct(x[i], 2u, eps[0]);", T=FD, S=S4)
    s.ob("correct.vec.default", I, "S", nf + "put(out, correct(V<S>(x)));", nf + FOR + "out[i] = vm::correct(x[i]);", T=FD, S=S4)
    # average of a range of vectors
    s.ob("average", "a:9", 3, "const vm::vec<T,3> r[3] = {V<3>(a), V<3>(a+3), V<3>(a+6)}; put(out, vm::average(r, r + @N@));",
         "for (std::size_t i = 0; i < 3; ++i) { T t = 0; for (std::size_t k = 0; k < N; ++k) t += a[3*k+i]; out[i] = t / T(N); }", T=FD, N=[1, 2, 3])
    s.ob("average.get", "a:9", 3, "const vm::vec<T,3> r[3] = {V<3>(a), V<3>(a+3), V<3>(a+6)}; put(out, vm::average(r, r + @N@, [](const vm::vec<T,3>& v) { return v * T(2); }));",
         "for (std::size_t i = 0; i < 3; ++i) { T t = 0; for (std::size_t k = 0; k < N; ++k) t += 2*a[3*k+i]; out[i] = t / T(N); }", T=FD, N=[1, 2, 3])
    return s.obs
