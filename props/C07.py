"""Rounding, snapping, error correction, angle normalisation, cyclic indices."""
from engine.obl import Spec
from .common import *

INCLUDES = ["scalar.h", "vec.h"]
P = "vp_assume(n[0] <= 4503599627370496); vp_assume(n[0] >= -4503599627370496); vp_assume(f[0] >= 0); vp_assume(f[0] < 1); const T x = T(n[0]) + f[0]; const T N = T(n[0]); const T F = f[0]; (void)N; (void)F; "
IN = "n:1:i:long f"


def obligations(tier):
    s = Spec("C07")

    def o(name, call, want, T=FD, ins=IN, pre=P, ipre=None, **k):
        s.ob(name, ins, 1, (ipre or pre) + f"out[0] = T({call});", pre + f"out[0] = T({want});", T=T, **k)
    o("trunc", "vm::trunc(x)", "x >= 0 ? N : (F == 0 ? N : N + 1)")
    o("floor", "vm::floor(x)", "N")
    o("ceil", "vm::ceil(x)", "F == 0 ? N : N + 1")
    o("round", "vm::round(x)", "x > 0 ? (F < T(0.5) ? N : N + 1) : (F <= T(0.5) ? N : N + 1)")
    o("round_up", "vm::round_up(x)", "F == 0 ? N : (x < 0 ? N : N + 1)")
    o("round_down", "vm::round_down(x)", "F == 0 ? N : (x < 0 ? N + 1 : N)")
    o("fract", "vm::fract(x)", "x > 0 ? F : (F == 0 ? T(0) : F - 1)")
    G = "vp_assume(n[0] <= 4503599627370496); vp_assume(n[0] >= -4503599627370496); vp_assume(f[0] >= 0); vp_assume(f[0] < 1); vp_assume(g[0] > 0); const T N = T(n[0]); const T F = f[0]; const T x = g[0] * (N + F); (void)N; (void)F; "
    g = dict(ins=IN + " g", pre=G)
    o("snap", "vm::snap(x, g[0])", "g[0] * (x > 0 ? (F < T(0.5) ? N : N + 1) : (F <= T(0.5) ? N : N + 1))", **g)
    o("snapUp", "vm::snapUp(x, g[0])", "g[0] * (F == 0 ? N : (x < 0 ? N : N + 1))", **g)
    o("snapDown", "vm::snapDown(x, g[0])", "g[0] * (F == 0 ? N : (x < 0 ? N + 1 : N))", **g)
    H = G.replace("vp_assume(g[0] > 0)", "vp_assume(g[0] != 0)")
    o("mod", "vm::mod(x, g[0])", "g[0] * ((N + F) >= 0 ? F : (F == 0 ? T(0) : F - 1))", ins=IN + " g", pre=H)
    o("correct", "vm::correct(x, 0u, eps[0])", "F < eps[0] && F <= T(0.5) ? N : (1 - F < eps[0] && F >= T(0.5) ? N + 1 : x)", ins=IN + " eps",
      pre=P + "vp_assume(eps[0] > 0); vp_assume(eps[0] <= T(0.25)); ")
    o("correct.default", "vm::correct(x)", "vm::correct(x, 0u, vm::constants<T>::correct_epsilon())")
    V = "T y[S]; " + FOR + "{ vp_assume(n[i] <= 4503599627370496); vp_assume(n[i] >= -4503599627370496); vp_assume(f[i] >= 0); vp_assume(f[i] < 1); y[i] = T(n[i]) + f[i]; } "
    s.ob("is_integral", "n:S:i:long f:S eps", 1, V + "out[0] = vm::is_integral(V<S>(y), eps[0]) ? 1 : 0;",
         V + "vp_assume(eps[0] >= 0); bool q = true; " + FOR + "q = q && (f[i] <= eps[0] || 1 - f[i] <= eps[0]); out[0] = q ? 1 : 0;", T=FD, S=[1, 2, 3])
    s.ob("is_integral.default", "n:S:i:long f:S", 1, V + "out[0] = vm::is_integral(V<S>(y)) ? 1 : 0;",
         V + "bool q = true; " + FOR + "q = q && f[i] == 0; out[0] = q ? 1 : 0;", T=FD, S=[1, 2, 3])
    # numbers without fraction, of any magnitude
    I = "const T x = T(n[0]); "
    for fn in ("trunc", "floor", "ceil", "round_up", "round_down"):
        s.ob(fn + ".integral", "n:1:i:long", 1, I + f"out[0] = vm::{fn}(x);", "out[0] = T(n[0]);", T=FD)
    s.ob("fract.integral", "n:1:i:long", 1, I + "out[0] = vm::fract(x);", "out[0] = 0;", T=FD)
    # angles
    PI = "3.141592653589793"
    s.ob("to_radians", "a", 1, "out[0] = vm::to_radians(a[0]);", f"out[0] = a[0] * T({PI}) / 180;", T=FD)
    s.ob("to_degrees", "a", 1, "out[0] = vm::to_degrees(a[0]);", f"out[0] = a[0] * 180 / T({PI});", T=FD)
    s.ob("degrees.inverse", "a", 2, "out[0] = vm::to_degrees(vm::to_radians(a[0])); out[1] = vm::to_radians(vm::to_degrees(a[0]));", "out[0] = a[0]; out[1] = a[0];", T=FD)
    for nm, per in (("normalize_degrees", "T(360)"), ("normalize_radians", f"(T(2) * T({PI}))")):
        # every angle in [-K, K] turns
        R = "vp_assume(n[0] >= -4); vp_assume(n[0] <= 4); "
        s.ob(nm, IN, 1, P + R + f"out[0] = vm::{nm}({per} * x);", P + f"out[0] = F * {per};", T=FD)
        s.ob(nm + ".positive", IN, 1, P + f"vp_assume(n[0] >= 0); out[0] = vm::{nm}({per} * x);", P + f"out[0] = F * {per};", T=FD)
    # constants
    for c, v in (("pi", PI), ("two_pi", f"2 * T({PI})"), ("half_pi", f"T({PI}) / 2"), ("quarter_pi", f"T({PI}) / 4"), ("three_half_pi", f"3 * T({PI}) / 2"),
                 ("e", "2.718281828459045"), ("almost_zero", "0.001"), ("point_status_epsilon", "0.0001"), ("correct_epsilon", "0.001"), ("colinear_epsilon", "0.00001"), ("angle_epsilon", "0.00000001")):
        s.ob("constants." + c, "a", 1, f"out[0] = vm::constants<T>::{c}();", f"out[0] = T({v});", T=FD, api="vm::constants")
    # cyclic successor and predecessor
    for T in ("int", "long", "std::size_t"):
        C = "vp_assume(c[0] > 0); vp_assume(i[0] >= 0); vp_assume(i[0] < c[0]); "
        R = "vp_assume(k[0] >= 0); vp_assume(k[0] < c[0]); "
        s.ob("succ.anycount", "i c", 1, "out[0] = vm::succ(i[0], c[0]);", C + "out[0] = i[0] + 1 == c[0] ? T(0) : i[0] + 1;", T=T)
        s.ob("pred.anycount", "i c", 1, "out[0] = vm::pred(i[0], c[0]);", C + "out[0] = i[0] == 0 ? c[0] - 1 : i[0] - 1;", T=T)
        s.ob("succ.anystride", "i c k", 1, "out[0] = vm::succ(i[0], c[0], k[0]);", C + R + "out[0] = i[0] + k[0] >= c[0] ? i[0] + k[0] - c[0] : i[0] + k[0];", T=T)
        s.ob("pred.anystride", "i c k", 1, "out[0] = vm::pred(i[0], c[0], k[0]);", C + R + "out[0] = i[0] >= k[0] ? i[0] - k[0] : i[0] + c[0] - k[0];", T=T)
        for n in (1, 2, 3, 4, 5, 8):
            C = f"vp_assume(i[0] >= 0); vp_assume(i[0] < {n}); "
            s.ob("succ", "i", 1, f"out[0] = vm::succ(i[0], T({n}));", C + f"out[0] = i[0] + 1 == T({n}) ? T(0) : i[0] + 1;", T=T, N=[n])
            s.ob("pred", "i", 1, f"out[0] = vm::pred(i[0], T({n}));", C + f"out[0] = i[0] == 0 ? T({n} - 1) : i[0] - 1;", T=T, N=[n])
            s.ob("succ.stride", "i", 1, f"out[0] = vm::succ(i[0], T({n}), T(@K@));", C + f"T r = i[0]; for (int z = 0; z < @K@; ++z) r = r + 1 == T({n}) ? T(0) : r + 1; out[0] = r;", T=T, N=[n], K=[0, 1, 2, 3, 5])
            s.ob("pred.stride", "i", 1, f"out[0] = vm::pred(i[0], T({n}), T(@K@));", C + f"T r = i[0]; for (int z = 0; z < @K@; ++z) r = r == 0 ? T({n} - 1) : r - 1; out[0] = r;", T=T, N=[n], K=[0, 1, 2, 3, 5])
    s.ob("nextgreater", "a", 1, "out[0] = vm::nextgreater(a[0]);", "out[0] = std::nextafter(a[0], std::numeric_limits<T>::infinity());", T=FD)
    return s.obs
