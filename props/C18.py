"""Distances between points, rays, segments and lines are minimal."""
from engine.obl import Spec
from .common import *
from .C16 import HDR as H16

INCLUDES = ["scalar.h", "vec.h", "mat.h", "mat_ext.h", "plane.h", "line.h", "ray.h", "segment.h", "abstract_line.h", "distance.h"]
HDR = H16 + """
template <typename T> void put(T* out, const vm::point_distance<T>& d) { out[0] = d.position; out[1] = d.distance; }
template <typename T> void put(T* out, const vm::line_distance<T>& d) { out[0] = d.parallel; out[1] = d.position1; out[2] = d.distance; out[3] = d.position2; }
template <typename T> T s_clamp(T x, T a, T b) { return x < a ? a : (x > b ? b : x); }
"""
# a number is clear of the library's tolerance
CLEAR = "{ const T c_ = (%s); vp_assume(c_ > Z || c_ < -Z); } "
Z = "const T Z = vm::constants<T>::almost_zero(); "


def dots(u, v, w):
    """a..e as in: minimise |w + s*u - t*v|"""
    return f"const T a = s_dot<S>({u}, {u}), b = s_dot<S>({u}, {v}), c = s_dot<S>({v}, {v}), d = s_dot<S>({u}, {w}), e = s_dot<S>({v}, {w}); "


def obligations(tier):
    s = Spec("C18")
    g = dict(T=FD, S=[1, 2, 3], hdr=HDR)
    g2 = dict(T=FD, S=[2, 3], hdr=HDR)
    unit = "vp_assume((s_dot<S>(v, v)) == 1); "
    unitu = "vp_assume((s_dot<S>(u, u)) == 1); "
    # points: the point is o + w
    pt = "T p[S]; " + FOR + "p[i] = o[i] + w[i]; "
    for fn, rt in (("squared_distance", ""), ("distance", "out[1] = s_sqrt(out[1]);")):
        s.ob(f"ray_point.{fn}", "o:S v:S w:S", 2, pt + f"put(out, vm::{fn}(R<S>(o, v), V<S>(p)));",
             unit + "const T e = s_dot<S>(v, w), t = e > 0 ? e : 0; out[0] = t; out[1] = 0; " + FOR + "out[1] += (w[i] - t * v[i]) * (w[i] - t * v[i]); " + rt, api=f"vm::{fn}", **g)
        # the segment goes from o to o + l*u with unit u, first component positive so that o is its start
        seg = pt + "T q[S]; " + FOR + "q[i] = o[i] + l[0] * u[i]; const auto g = G<S>(o, q); "
        sp = "vp_assume(l[0] > 0); vp_assume(u[0] > 0); " + unitu
        s.ob(f"segment_point.{fn}", "o:S u:S l w:S", 2, seg + f"put(out, vm::{fn}(g, V<S>(p)));",
             sp + "const T e = s_dot<S>(u, w); " + ("vp_assume(e != l[0]); " if rt else "") + "const T t = s_clamp(e, T(0), l[0]); out[0] = t; out[1] = 0; " + FOR + "out[1] += (w[i] - t * u[i]) * (w[i] - t * u[i]); " + rt, api=f"vm::{fn}", **g)
        rt = rt.replace("[1]", "[2]")
        # ray from o along v, line through o + w along u
        ln = "T p[S]; " + FOR + "p[i] = o[i] + w[i]; const auto k = L<S>(p, u); const auto r = R<S>(o, v); "
        s.ob(f"ray_line.{fn}", "o:S v:S u:S w:S", 4, ln + f"put(out, vm::{fn}(r, k));",
             Z + unit + unitu + dots("u", "v", "w") + "const T D = 1 - b*b; vp_assume(D > Z); const T x = (e - b*d) / D, t = x < 0 ? 0 : x, y = x < 0 ? -d : (b*e - d) / D; "
             "out[0] = 0; out[1] = t; out[3] = y; out[2] = 0; " + FOR + "{ const T z = w[i] + y * u[i] - t * v[i]; out[2] += z * z; } " + rt, api=f"vm::{fn}", **g2)
        s.ob(f"ray_line.{fn}.parallel", "o:S v:S w:S", 4, "T u[S]; " + FOR + "u[i] = K ? -v[i] : v[i]; " + ln + f"put(out, vm::{fn}(r, k));",
             unit + "const T e = s_dot<S>(v, w); out[0] = 1; out[1] = 0; out[3] = K ? e : -e; out[2] = 0; " + FOR + "{ const T z = w[i] - e * v[i]; out[2] += z * z; } " + rt, api=f"vm::{fn}", K=[0, 1], **g)
        # two rays: o + t*v and o + w + s*u
        rr = "T p[S]; " + FOR + "p[i] = o[i] + w[i]; const auto k = R<S>(p, u); const auto r = R<S>(o, v); "
        s.ob(f"ray_ray.{fn}", "o:S v:S u:S w:S", 4, rr + f"put(out, vm::{fn}(r, k));",
             Z + unit + unitu + dots("u", "v", "w") + "const T D = a*c - b*b; vp_assume(D > Z); " + CLEAR % "b*e - c*d" + CLEAR % "a*e - b*d" + CLEAR % "e" + CLEAR % "d"
             + "const T sn = b*e - c*d; T x = sn < 0 ? T(0) : sn / D, y = sn < 0 ? e / c : (a*e - b*d) / D; if (y < 0) { y = 0; x = d < 0 ? -d / a : 0; } "
             "out[0] = 0; out[1] = y; out[3] = x; out[2] = 0; " + FOR + "{ const T z = w[i] + x * u[i] - y * v[i]; out[2] += z * z; } " + rt, api=f"vm::{fn}", **g2)
        s.ob(f"ray_ray.{fn}.parallel", "o:S v:S w:S", 4, "T u[S]; " + FOR + "u[i] = K ? -v[i] : v[i]; " + rr + f"put(out, vm::{fn}(r, k));",
             unit + "const T e = s_dot<S>(v, w); const T q = K ? e : -e; out[0] = 1; out[1] = e > 0 ? e : 0; out[3] = q > 0 ? q : 0; out[2] = 0; " + FOR + "{ const T z = K && e < 0 ? w[i] : w[i] - e * v[i]; out[2] += z * z; } " + rt, api=f"vm::{fn}", K=[0, 1], **g)
        # ray o + t*v and segment from o + w to o + w + u
        rs = "T p[S], q[S]; " + FOR + "{ p[i] = o[i] + w[i]; q[i] = p[i] + u[i]; } const auto k = G<S>(p, q); const auto r = R<S>(o, v); "
        if rt:
            s.ob(f"ray_segment.{fn}", "o:S v:S p:S q:S", 4, "put(out, vm::distance(R<S>(o, v), G<S>(p, q)));", "put(out, vm::squared_distance(R<S>(o, v), G<S>(p, q))); out[2] = std::sqrt(out[2]);", api=f"vm::{fn}", **g2)
        else:
            first = {"s0": ("sn < -Z", "e", "0"), "s1": ("sn > D", "e + b", "1"), "in": ("sn > Z && sn < D", "(a*e - b*d) / D", "sn / D")}
            for f, (cond, y, x) in first.items():
                num = "a*e - b*d" if f == "in" else y
                tail = "out[0] = 0; out[1] = y; out[3] = x * s_sqrt(a); out[2] = 0; " + FOR + "{ const T z = w[i] + x * u[i] - y * v[i]; out[2] += z * z; }"
                head = Z + unit + "vp_assume(u[0] > 0); " + dots("u", "v", "w") + f"const T D = a - b*b, sn = b*e - d; vp_assume(a > Z); vp_assume(D > Z); vp_assume({cond}); "
                s.ob(f"ray_segment.{fn}.{f}.ahead", "o:S v:S u:S w:S", 4, rs + f"put(out, vm::{fn}(r, k));", head + f"vp_assume({num} > Z); const T x = {x}, y = {y}; " + tail, api=f"vm::{fn}", **g2)
                for h, c2, x in (("start", "d >= 0", "0"), ("end", "-d > a", "1"), ("inner", "d < -Z && -d < a", "-d / a")):
                    s.ob(f"ray_segment.{fn}.{f}.behind.{h}", "o:S v:S u:S w:S", 4, rs + f"put(out, vm::{fn}(r, k));", head + f"vp_assume({num} < -Z); vp_assume({c2}); const T x = {x}, y = 0; " + tail, api=f"vm::{fn}", **g2)
        s.ob(f"ray_segment.{fn}.parallel", "o:S v:S w:S l", 4, "T u[S]; " + FOR + "u[i] = l[0] * v[i]; " + rs + f"put(out, vm::{fn}(r, k));",
             unit + ("vp_assume(l[0] > 0); vp_assume(v[0] > 0); ") +
             "const T e = s_dot<S>(v, w), f = e + l[0]; const T t = f < 0 ? T(0) : (e > 0 ? e : T(0)), y = f < 0 ? l[0] : (e > 0 ? T(0) : -e); "
             "out[0] = 1; out[1] = t; out[3] = y; out[2] = 0; " + FOR + "{ const T z = w[i] + y * v[i] - t * v[i]; out[2] += z * z; } " + rt, api=f"vm::{fn}", **g)
        s.ob(f"ray_segment.{fn}.antiparallel", "o:S v:S w:S l", 4, "T u[S]; " + FOR + "u[i] = -l[0] * v[i]; " + rs + f"put(out, vm::{fn}(r, k));",
             unit + ("vp_assume(l[0] > 0); vp_assume(v[0] < 0); ") +
             "const T e = s_dot<S>(v, w), f = e - l[0]; const T t = e < 0 ? T(0) : (f > 0 ? f : T(0)), y = e < 0 ? T(0) : (f > 0 ? l[0] : e); "
             "out[0] = 1; out[1] = t; out[3] = y; out[2] = 0; " + FOR + "{ const T z = w[i] - y * v[i] - t * v[i]; out[2] += z * z; } " + rt, api=f"vm::{fn}", **g)
    s.ob("line_distance.is_colinear", "p d q m", 3, "const auto a = vm::line_distance<T>::Parallel(p[0], d[0], q[0]), b = vm::line_distance<T>::NonParallel(p[0], d[0], q[0]); out[0] = a.is_colinear(m[0]); out[1] = b.is_colinear(m[0]); out[2] = a.is_colinear();",
         "out[0] = d[0] <= m[0]; out[1] = 0; out[2] = d[0] <= vm::constants<T>::almost_zero();", T=FD, hdr=HDR)
    return s.obs
