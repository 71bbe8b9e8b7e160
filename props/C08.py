"""Metric functions and their compile-time twins."""
from engine.obl import Spec
from .common import *

INCLUDES = ["scalar.h", "vec.h"]


def obligations(tier):
    s = Spec("C08")
    for n in S4:
        e = dict(S=[n])
        DOT = "T d = 0; " + FOR + "d += a[i] * b[i]; "
        LEN = "T q = 0; " + FOR + "q += a[i] * a[i]; "
        DIF = "T q = 0; " + FOR + "q += (a[i] - b[i]) * (a[i] - b[i]); "
        s.ob("dot", "a:S b:S", 1, "out[0] = dot(V<S>(a), V<S>(b));", DOT + "out[0] = d;", T=NUM, **e)
        s.ob("squared_length", "a:S", 1, "out[0] = squared_length(V<S>(a));", LEN + "out[0] = q;", T=NUM, **e)
        s.ob("squared_distance", "a:S b:S", 1, "out[0] = squared_distance(V<S>(a), V<S>(b));", DIF + "out[0] = q;", T=NUM, **e)
        NZ = "vp_assume(q != 0); "
        for c in ("", "_c"):
            s.ob("length" + c, "a:S", 1, f"out[0] = length{c}(V<S>(a));", LEN + "out[0] = s_sqrt(q);", T=FD, **e)
            s.ob("distance" + c, "a:S b:S", 1, f"out[0] = distance{c}(V<S>(a), V<S>(b));", DIF + "out[0] = s_sqrt(q);", T=FD, **e)
            s.ob("normalize" + c, "a:S", n, f"put(out, normalize{c}(V<S>(a)));", LEN + NZ + FOR + "out[i] = a[i] / s_sqrt(q);", T=FD, **e)
            s.ob("normalize" + c + ".unit", "a:S", 1, f"out[0] = squared_length(normalize{c}(V<S>(a)));", LEN + NZ + "out[0] = 1;", T=FD, **e)
            s.ob("is_unit" + c, "a:S eps", 1, f"out[0] = is_unit{c}(V<S>(a), eps[0]) ? 1 : 0;", "vp_assume(eps[0] >= 0); " + LEN + "const T l = s_sqrt(q); out[0] = l - 1 <= eps[0] && 1 - l <= eps[0] ? 1 : 0;", T=FD, **e)
            if n >= 2:
                PAR = "T q = 0, p = 0, d = 0; " + FOR + "{ q += a[i] * a[i]; p += b[i] * b[i]; d += a[i] * b[i]; } vp_assume(q != 0); vp_assume(p != 0); "
                s.ob("is_parallel" + c, "a:S b:S eps", 1, f"out[0] = is_parallel{c}(V<S>(a), V<S>(b), eps[0]) ? 1 : 0;",
                     PAR + "vp_assume(eps[0] >= 0); const T k = s_abs(d) / (s_sqrt(q) * s_sqrt(p)); out[0] = k - 1 <= eps[0] && 1 - k <= eps[0] ? 1 : 0;", T=FD, **e)
                s.ob("is_parallel" + c + ".default", "a:S b:S", 1, f"out[0] = is_parallel{c}(V<S>(a), V<S>(b)) ? 1 : 0;",
                     PAR + f"out[0] = vm::is_parallel{c}(V<S>(a), V<S>(b), vm::constants<T>::colinear_epsilon()) ? 1 : 0;", T=FD, **e)
                # scalar multiples of either sign are parallel, whatever the tolerance
                s.ob("is_parallel" + c + ".multiple", "a:S k eps", 1, f"T b[S]; {FOR} b[i] = k[0] * a[i]; out[0] = is_parallel{c}(V<S>(a), V<S>(b), eps[0]) ? 1 : 0;",
                     LEN + "vp_assume(q != 0); vp_assume(k[0] != 0); vp_assume(eps[0] >= 0); out[0] = 1;", T=FD, **e)
            # p on the line through a and b: between iff the parameter is in [0, 1]
            s.ob("is_between" + c, "a:S d:S t", 1, f"T p[S], b[S]; {FOR} {{ p[i] = a[i] + t[0] * d[i]; b[i] = a[i] + d[i]; }} out[0] = is_between{c}(V<S>(p), V<S>(a), V<S>(b)) ? 1 : 0;",
                 f"T q = 0; {FOR} q += d[i] * d[i]; vp_assume(q != 0); out[0] = t[0] >= 0 && t[0] <= 1 ? 1 : 0;", T=FD, **e)
        COL = "T j = 0, k = 0, l = 0; " + FOR + "{ j += (a[i] - c[i]) * (b[i] - a[i]); k += (a[i] - c[i]) * (a[i] - c[i]); l += (b[i] - a[i]) * (b[i] - a[i]); } const T D = k * l - j * j; "
        s.ob("is_colinear", "a:S b:S c:S eps", 1, "out[0] = is_colinear(V<S>(a), V<S>(b), V<S>(c), eps[0]) ? 1 : 0;", COL + "vp_assume(eps[0] >= 0); out[0] = D <= eps[0] && -D <= eps[0] ? 1 : 0;", T=FD, **e)
        s.ob("is_colinear.default", "a:S b:S c:S", 1, "out[0] = is_colinear(V<S>(a), V<S>(b), V<S>(c)) ? 1 : 0;", COL + "const T eps = vm::constants<T>::colinear_epsilon(); out[0] = D <= eps && -D <= eps ? 1 : 0;", T=FD, **e)
        # points of one line are colinear, whatever the tolerance
        s.ob("is_colinear.line", "a:S d:S t eps", 1, f"T p[S], b[S]; {FOR} {{ p[i] = a[i] + t[0] * d[i]; b[i] = a[i] + d[i]; }} out[0] = is_colinear(V<S>(a), V<S>(p), V<S>(b), eps[0]) ? 1 : 0;",
             "vp_assume(eps[0] >= 0); out[0] = 1;", T=FD, **e)
    X = "const T r[3] = {a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}; "
    s.ob("cross", "a:3 b:3", 3, "put(out, cross(V<3>(a), V<3>(b)));", X + "for (int i = 0; i < 3; ++i) out[i] = r[i];", T=NUM)
    s.ob("cross.orthogonal", "a:3 b:3", 2, "out[0] = dot(cross(V<3>(a), V<3>(b)), V<3>(a)); out[1] = dot(cross(V<3>(a), V<3>(b)), V<3>(b));", "out[0] = 0; out[1] = 0;", T=NUM)
    s.ob("cross.lagrange", "a:3 b:3", 1, "out[0] = squared_length(cross(V<3>(a), V<3>(b))) + dot(V<3>(a), V<3>(b)) * dot(V<3>(a), V<3>(b));", "out[0] = (a[0]*a[0]+a[1]*a[1]+a[2]*a[2]) * (b[0]*b[0]+b[1]*b[1]+b[2]*b[2]);", T=FD)
    # counter-clockwise angle about up, in [0, 2pi)
    s.ob("measure_angle", "v:3 a:3 u:3", 1, "out[0] = measure_angle(V<3>(v), V<3>(a), V<3>(u));",
         "T c = 0; for (int i = 0; i < 3; ++i) c += v[i] * a[i]; const T side = (a[1]*v[2] - a[2]*v[1]) * u[0] + (a[2]*v[0] - a[0]*v[2]) * u[1] + (a[0]*v[1] - a[1]*v[0]) * u[2]; "
         "const T w = std::acos(c < -1 ? T(-1) : (c > 1 ? T(1) : c)); out[0] = side >= 0 ? w : 2 * vm::constants<T>::pi() - w;", T=FD)
    # the compile-time root away from its iteration
    ns = dict(nosummary=["float vm::sqrt_c<float>", "double vm::sqrt_c<double>"])
    s.ob("sqrt_c.negative", "a", 1, "out[0] = vm::sqrt_c(a[0]);", "vp_assume(a[0] < 0); out[0] = std::numeric_limits<T>::quiet_NaN();", pre="vp_assume(a[0] < 0); ", T=FD, **ns)
    s.ob("sqrt_c.zero", "a", 1, "out[0] = vm::sqrt_c(T(0)) + a[0];", "out[0] = a[0];", T=FD, **ns)
    s.ob("sqrt_c.nan", "a", 1, "out[0] = vm::sqrt_c(std::numeric_limits<T>::quiet_NaN()) + a[0];", "out[0] = std::numeric_limits<T>::quiet_NaN();", T=FD, **ns)
    s.ob("sqrt_c.infinity", "a", 1, "out[0] = vm::sqrt_c(std::numeric_limits<T>::infinity());", "out[0] = std::numeric_limits<T>::infinity();", T=FD, **ns)
    return s.obs
