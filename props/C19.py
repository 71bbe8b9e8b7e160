"""Intersections: first hit of a ray with planes, triangles, polygons, boxes and spheres; lines and planes."""
import itertools
from engine.obl import Spec
from .common import *
from .C16 import HDR as H16

INCLUDES = ["scalar.h", "vec.h", "mat.h", "mat_ext.h", "plane.h", "line.h", "ray.h", "bbox.h", "abstract_line.h", "scalar.h", "intersection.h"]
HDR = H16 + """
template <typename T> void putn(T* out, T x) { const bool n = x != x; out[0] = n; out[1] = n ? T(0) : x; }
template <typename T> void hit(T* out, T x) { out[0] = 0; out[1] = x; }
template <typename T> void miss(T* out) { out[0] = 1; out[1] = 0; }
template <typename T> T s_det(const T* a, const T* b, const T* c) { return a[0]*(b[1]*c[2] - b[2]*c[1]) - a[1]*(b[0]*c[2] - b[2]*c[0]) + a[2]*(b[0]*c[1] - b[1]*c[0]); }
"""
Z = "const T Z = vm::constants<T>::almost_zero(); "


# frame of a projection along axis A: (first, second, dropped) coordinate
FRAME = {0: (1, 2, 0), 1: (2, 0, 1), 2: (0, 1, 2)}
AX = {0: "vm::axis::x", 1: "vm::axis::y", 2: "vm::axis::z"}


def vertices(n, A, exprs=None):
    """points o + (x, y, z) with x, y in the projected plane"""
    a, b, c = FRAME[A]
    t = f"vm::vec<T,3> q[{n}]; "
    for i in range(n):
        x, y = exprs[i] if exprs else (f"x[{i}]", f"y[{i}]")
        t += f"q[{i}][{a}] = o[{a}] + {x}; q[{i}][{b}] = o[{b}] + {y}; q[{i}][{c}] = o[{c}] + z[{i}]; "
    return t


def even_odd(code):
    """region of the vertices relative to the point, and the even-odd count there"""
    n = len(code)
    pre = Z
    for i, (sx, sy) in enumerate(code):
        pre += f"vp_assume(x[{i}] {'> Z' if sx > 0 else '< -Z'}); "
        pre += f"vp_assume(y[{i}] > Z); " if sy > 0 else f"vp_assume(y[{i}] < -Z); " if sy < 0 else ""
    edges = [(i, (i + 1) % n) for i in range(n)]
    if any(code[i][1] == 0 == code[j][1] and code[i][0] != code[j][0] for i, j in edges):
        return pre, "out[0] = 1;"
    k, sp = 0, ""
    for i, j in edges:
        if (code[i][1] > 0) == (code[j][1] > 0):
            continue
        if code[i][0] == code[j][0]:
            k += code[i][0] > 0
            continue
        ye = [f"y[{q}]" if code[q][1] else "T(0)" for q in range(n)]
        sp += f"{{ const T c = (x[{i}] * {ye[j]} - {ye[i]} * x[{j}]) / ({ye[j]} - {ye[i]}); vp_assume(c > Z || c < -Z); if (c > 0) odd = !odd; }} "
    return pre, f"bool odd = {'true' if k % 2 else 'false'}; {sp} out[0] = odd;"


def obligations(tier):
    s = Spec("C19")
    g = dict(T=FD, S=[2, 3], hdr=HDR)
    e = dict(T=FD, hdr=HDR)
    unit = "vp_assume((s_dot<S>(n, n)) == 1); "
    S3 = "constexpr std::size_t S = 3; "
    # ---- planes: the ray starts at o, the plane has normal n and lies h in front of o along n
    pl = "T D = h[0]; " + FOR + "D += n[i] * o[i]; const vm::plane<T,S> p(D, V<S>(n)); "
    f = "const T f = s_dot<S>(v, n); "
    s.ob("ray_plane", "o:S v:S n:S h", 2, pl + "putn(out, vm::intersect_ray_plane(R<S>(o, v), p));",
         Z + unit + f + "vp_assume(f > Z || f < -Z); const T t = h[0] / f; vp_assume(t > 0 || t < -Z); if (t > 0) hit(out, t); else miss(out);", api="vm::intersect_ray_plane", **g)
    s.ob("ray_plane.at_origin", "o:S v:S n:S", 2, "const T h[1] = {0}; " + pl + "putn(out, vm::intersect_ray_plane(R<S>(o, v), p));",
         Z + unit + f + "vp_assume(f > Z || f < -Z); hit(out, T(0));", api="vm::intersect_ray_plane", **g)
    s.ob("ray_plane.parallel", "o:S v:S n:S h", 2, pl + "putn(out, vm::intersect_ray_plane(R<S>(o, v), p));",
         unit + f + "vp_assume(f == 0); miss(out);", api="vm::intersect_ray_plane", **g)
    s.ob("line_plane", "o:3 v:3 n:3 h", 2, S3 + pl + "putn(out, vm::intersect_line_plane(L<S>(o, v), p));",
         S3 + Z + unit + f + "vp_assume(f > Z || f < -Z); hit(out, h[0] / f);", api="vm::intersect_line_plane", **e)
    s.ob("line_plane.parallel", "o:3 v:3 n:3 h", 2, S3 + pl + "putn(out, vm::intersect_line_plane(L<S>(o, v), p));",
         S3 + unit + f + "vp_assume(f == 0); miss(out);", api="vm::intersect_line_plane", **e)
    # ---- triangle p, p+a, p+b; the carrier of the ray passes through p + x*a + y*b at distance t
    tri = S3 + "T o[S], q[S], r[S]; " + FOR + "{ q[i] = p[i] + a[i]; r[i] = p[i] + b[i]; o[i] = p[i] + x[0] * a[i] + y[0] * b[i] - t[0] * v[i]; } putn(out, vm::intersect_ray_triangle(R<S>(o, v), V<S>(p), V<S>(q), V<S>(r)));"
    for nm, cond in (("positive", "f > Z"), ("negative", "f < -Z")):
        s.ob(f"ray_triangle.{nm}", "p:3 a:3 b:3 v:3 x y t", 2, tri,
             S3 + Z + f"const T f = s_det(v, a, b); vp_assume({cond}); if (t[0] >= 0 && x[0] >= 0 && y[0] >= 0 && x[0] + y[0] <= 1) hit(out, t[0]); else miss(out);", api="vm::intersect_ray_triangle", **e)
    s.ob("ray_triangle.parallel", "p:3 a:3 b:3 v:3 x y t", 2, tri, S3 + "const T f = s_det(v, a, b); vp_assume(f == 0); miss(out);", api="vm::intersect_ray_triangle", **e)
    # ---- sphere: its centre lies off + b*v from the origin, off at right angles to v; half chord k
    sp = "T w[S]; if constexpr (S == 2) { w[0] = -v[1] * m[0]; w[1] = v[0] * m[0]; } else { w[0] = v[1]*m[2] - v[2]*m[1]; w[1] = v[2]*m[0] - v[0]*m[2]; w[2] = v[0]*m[1] - v[1]*m[0]; } T c[S]; " + FOR + "c[i] = o[i] + w[i] + b[0] * v[i]; "
    uv = "vp_assume((s_dot<S>(v, v)) == 1); vp_assume(k[0] > 0); "
    s.ob("ray_sphere.hit", "o:S v:S m:2*S-3 b k", 2, sp + "const T r = std::sqrt(s_dot<S>(w, w) + k[0]*k[0]); putn(out, vm::intersect_ray_sphere(R<S>(o, v), V<S>(c), r));",
         uv + sp + "(void)c; vp_assume(s_dot<S>(w, w) + k[0]*k[0] > 0); vp_assume(b[0] != k[0]); vp_assume(b[0] != -k[0]); if (b[0] > k[0]) hit(out, b[0] - k[0]); else if (b[0] > -k[0]) hit(out, b[0] + k[0]); else miss(out);", api="vm::intersect_ray_sphere", **g)
    s.ob("ray_sphere.miss", "o:S v:S m:2*S-3 b k", 2, sp + "const T r = std::sqrt(s_dot<S>(w, w) - k[0]*k[0]); putn(out, vm::intersect_ray_sphere(R<S>(o, v), V<S>(c), r));",
         uv + sp + "(void)c; vp_assume(s_dot<S>(w, w) > k[0]*k[0]); miss(out);", api="vm::intersect_ray_sphere", **g)
    # ---- box: along axis i the ray passes the near side of the box after a, the far side after b (both negative when behind)
    for S in (1, 2, 3):
        # per axis: i inside, a ahead (box in front), b behind; direction sign; z: parallel (inside or outside)
        kinds = ["i+", "i-", "a+", "a-", "b+", "b-", "zi", "z<", "z>"]
        for ks in itertools.product(kinds, repeat=S):
            if all(k[0] == "z" for k in ks):
                continue
            pre, box = "", ""
            for i, k in enumerate(ks):
                if k[0] == "z":
                    pre += f"vp_assume(v[{i}] == 0); vp_assume(a[{i}] < b[{i}]); " + {"i": f"vp_assume(a[{i}] < 0); vp_assume(b[{i}] > 0); ", "<": f"vp_assume(a[{i}] > 0); ", ">": f"vp_assume(b[{i}] < 0); "}[k[1]]
                    box += f"lo[{i}] = o[{i}] + a[{i}]; hi[{i}] = o[{i}] + b[{i}]; "
                    continue
                pre += {"i": f"vp_assume(a[{i}] < 0); vp_assume(b[{i}] > 0); ", "a": f"vp_assume(a[{i}] > 0); vp_assume(a[{i}] < b[{i}]); ", "b": f"vp_assume(b[{i}] < 0); vp_assume(a[{i}] < b[{i}]); "}[k[0]]
                if k[1] == "+":
                    pre += f"vp_assume(v[{i}] > 0); "
                    box += f"lo[{i}] = o[{i}] + a[{i}] * v[{i}]; hi[{i}] = o[{i}] + b[{i}] * v[{i}]; "
                else:
                    pre += f"vp_assume(v[{i}] < 0); "
                    box += f"lo[{i}] = o[{i}] + b[{i}] * v[{i}]; hi[{i}] = o[{i}] + a[{i}] * v[{i}]; "
            if any(k[0] == "b" or k in ("z<", "z>") for k in ks):
                spec = "miss(out);"
            else:
                ent = [f"a[{i}]" for i in range(S) if ks[i][0] == "a"]
                ext = [f"b[{i}]" for i in range(S) if ks[i][0] != "z"]
                if not ent:
                    # from the inside: the first side passed (distances are representable numbers)
                    spec = "".join(f"vp_assume({q} < std::numeric_limits<T>::max()); " for q in ext) if "zi" in ks else ""
                    spec += f"T t = {ext[0]}; " + "".join(f"if ({q} < t) t = {q}; " for q in ext[1:]) + "hit(out, t);"
                else:
                    spec = f"T t = {ent[0]}; " + "".join(f"if ({q} > t) t = {q}; " for q in ent[1:]) + "bool ok = true; " + "".join(f"if (t > {q}) ok = false; " for q in ext) + "if (ok) hit(out, t); else miss(out);"
            s.ob(f"ray_bbox.{S}d.{'.'.join(ks)}", f"o:{S} v:{S} a:{S} b:{S}", 2, f"constexpr std::size_t S = {S}; T lo[S], hi[S]; {box} putn(out, vm::intersect_ray_bbox(R<S>(o, v), vm::bbox<T,S>(V<S>(lo), V<S>(hi))));", spec, pre=pre, api="vm::intersect_ray_bbox", T=FD if S < 3 else ["double"], hdr=HDR)
    # ---- polygons: the point is o, the vertices are o + (x, y) in the projection
    signs = [(1, 1), (1, -1), (-1, 1), (-1, -1), (1, 0), (-1, 0)]
    def contains(nm, code, A, T):
        n = len(code)
        pre, spec = even_odd(code)
        ex = [(f"x[{i}]", f"y[{i}]" if code[i][1] else "T(0)") for i in range(n)]
        s.ob(f"contains.{nm}.{'xyz'[A]}.{''.join('-0+'[a + 1] + '-0+'[b + 1] for a, b in code)}", f"o:3 x:{n} y:{n} z:{n}", 1,
             vertices(n, A, ex) + f"out[0] = vm::polygon_contains_point(V<3>(o), {AX[A]}, q, q + {n});", spec, pre=pre, api="vm::polygon_contains_point", T=T, hdr=HDR)
    tris = list(itertools.product(signs, repeat=3))
    for code in tris:
        contains("triangle", code, 2, ["double"])
    for k, code in enumerate(tris):
        if tier != "quick" or k % 5 == 0:
            contains("triangle", code, 2, ["float"])
        for A in (0, 1):
            if tier != "quick" or k % 7 == A:
                contains("triangle", code, A, ["double"])
    for k, code in enumerate(itertools.product(signs, repeat=4)):
        if tier != "quick" or k % 13 == 0:
            contains("quad", code, 2, ["double"])
    P, N = (1, 1), (1, -1)
    for k, code in enumerate(([P, N, P, N, P, (-1, -1)], [P, N, P, N, P, N], [P, N, P, N, (-1, -1)], [(-1, 1), N, P, N, P, (-1, -1)], [(-1, -1), P, (1, 0), P, (-1, -1), P], [N, (1, 0), P, (-1, -1), (1, 0), P], [P, N, P, N, P, N, P, (-1, -1)])):
        contains("star", code, 2, ["double"])
    for A in (0, 1, 2):
        for n in (3, 4):
            for k in range(n if n == 3 else 2):
                ins = f"o:3 x:{n} y:{n} z:{n}"
                ex = [(f"x[{i}]", f"y[{i}]") if i != k else ("T(0)", "T(0)") for i in range(n)]
                s.ob(f"contains.vertex.{'xyz'[A]}.{n}.{k}", ins, 1, vertices(n, A, ex).replace(f"z[{k}]", "T(0)") + f"out[0] = vm::polygon_contains_point(V<3>(o), {AX[A]}, q, q + {n});", "out[0] = 1;", api="vm::polygon_contains_point", **e)
                if n == 3 and (k < 2 or tier != "quick"):
                    j, m = (k + 1) % n, (k + 2) % n
                    ex = [(f"x[{i}]", f"y[{i}]") for i in range(n)]
                    ex[k], ex[j] = ("-l[0] * x[%d]" % k, "-l[0] * y[%d]" % k), ("(1 - l[0]) * x[%d]" % k, "(1 - l[0]) * y[%d]" % k)
                    for q, c in (("up", f"y[{k}] > 0"), ("down", f"y[{k}] < 0"), ("right", f"y[{k}] == 0 && x[{k}] > 0"), ("left", f"y[{k}] == 0 && x[{k}] < 0")):
                        for w, c2 in (("a", f" && x[{m}] > 1 && y[{m}] > 1"), ("b", f" && x[{m}] < -1 && y[{m}] > 1"), ("c", f" && x[{m}] < -1 && y[{m}] < -1"), ("d", f" && x[{m}] > 1 && y[{m}] < -1")):
                            s.ob(f"contains.edge.{'xyz'[A]}.{k}.{q}.{w}", ins + " l", 1, vertices(n, A, ex) + f"out[0] = vm::polygon_contains_point(V<3>(o), {AX[A]}, q, q + {n});", "out[0] = 1;", pre="vp_assume(l[0] > 0); vp_assume(l[0] < 1); " + "".join(f"vp_assume({u}); " for u in (c + c2).split(" && ")), api="vm::polygon_contains_point", T=FD if A == 2 else ["double"], hdr=HDR)
    # the projection is along the largest component of the normal; the mapping is applied to every element
    arr = "vm::vec<T,3> q[3] = { V<3>(v), V<3>(v + 3), V<3>(v + 6) }; "
    for A in (0, 1, 2):
        a, b, c = FRAME[A]
        for sg in ("", "-"):
            big = f"vp_assume({sg}n[{A}] > 0); " + "".join(f"vp_assume({sg}n[{A}] > n[{k}]); vp_assume({sg}n[{A}] > -n[{k}]); " for k in range(3) if k != A)
            for inside in (1, 0):
                # a triangle around the origin (or beside it) in the projection along A and only there
                rel = [(-1, -1), (3, -1), (-1, 3)] if inside else [(1, 1), (2, 1), (1, 2)]
                off = [5, 6, 7] if inside else [-1, 3, -1]
                tri = "vm::vec<T,3> q[3]; " + "".join(f"q[{i}][{a}] = o[{a}] + T({x}); q[{i}][{b}] = o[{b}] + T({y}); q[{i}][{c}] = o[{c}] + T({off[i]}); " for i, (x, y) in enumerate(rel))
                s.ob(f"contains.by_normal.{'xyz'[A]}.{'neg' if sg else 'pos'}.{inside}", "o:3 n:3", 1, tri + "out[0] = vm::polygon_contains_point(V<3>(o), V<3>(n), q, q + 3);", f"out[0] = {inside};", pre=big, api="vm::polygon_contains_point", **e)
        for inside, rel in ((1, [(-1, -2), (5, -1), (-1, 3)]), (0, [(1, 1), (2, 1), (1, 2)]), (1, [(5, 4), (-3, 4), (-3, -4)]), (0, [(2, 1), (-2, 3), (-2, 2)])):
            # tilted triangles in one plane with the point (z = x/2 - y/4 in the frame)
            tri = "vm::vec<T,3> q[3]; " + "".join(f"q[{i}][{a}] = o[{a}] + T({x}); q[{i}][{b}] = o[{b}] + T({y}); q[{i}][{c}] = o[{c}] + T({x / 2 - y / 4}); " for i, (x, y) in enumerate(rel))
            s.ob(f"contains.by_points.{'xyz'[A]}.{rel[0][0]}", "o:3", 1, tri + "out[0] = vm::polygon_contains_point(V<3>(o), q, q + 3);", f"out[0] = {inside};", api="vm::polygon_contains_point", **e)
            rayed = tri + f"T u[3], w[3]; u[{a}] = T(0.25); u[{b}] = T(0.5); u[{c}] = -1; for (std::size_t i = 0; i < 3; ++i) w[i] = o[i] - t[0] * u[i]; "
            s.ob(f"ray_polygon.by_points.{'xyz'[A]}.{rel[0][0]}", "o:3 t", 2, rayed + "putn(out, vm::intersect_ray_polygon(R<3>(w, u), q, q + 3));", "vp_assume(t[0] > 0 || t[0] < T(-0.01)); " + ("if (t[0] > 0) hit(out, t[0]); else miss(out);" if inside else "miss(out);"), api="vm::intersect_ray_polygon", **e)
            if inside:
                s.ob(f"ray_polygon.colinear.{'xyz'[A]}.{rel[0][0]}", "o:3 t v:3", 2, tri + "for (std::size_t i = 0; i < 3; ++i) q[2][i] = q[0][i] + t[0] * (q[1][i] - q[0][i]); putn(out, vm::intersect_ray_polygon(R<3>(o, v), q, q + 3));", "miss(out);", api="vm::intersect_ray_polygon", **e)
        s.ob(f"contains.mapped.{'xyz'[A]}", "o:3 v:9", 1, arr + f"std::size_t ix[3] = {{2, 0, 1}}; out[0] = vm::polygon_contains_point(V<3>(o), {AX[A]}, ix, ix + 3, [&](std::size_t i) {{ return q[i]; }});", "vm::vec<T,3> q[3] = { V<3>(v + 6), V<3>(v), V<3>(v + 3) }; " + f"out[0] = vm::polygon_contains_point(V<3>(o), {AX[A]}, q, q + 3);", api="vm::polygon_contains_point", **e)
    # ---- ray and polygon: the hit on the plane, if the polygon contains it
    for A in (0, 1, 2):
        a, b, c = FRAME[A]
        for sg in ("", "-"):
            big = Z + f"vp_assume((s_dot<3>(n, n)) == 1); vp_assume({sg}n[{A}] > Z); " + "".join(f"vp_assume({sg}n[{A}] > n[{k}]); vp_assume({sg}n[{A}] > -n[{k}]); " for k in range(3) if k != A)
            for inside, rel in ((1, [(-1, -1), (3, -1), (-1, 3)]), (0, [(1, 1), (2, 1), (1, 2)])):
                tri = "vm::vec<T,3> q[3]; " + "".join(f"q[{i}][{a}] = o[{a}] + T({x}); q[{i}][{b}] = o[{b}] + T({y}); q[{i}][{c}] = o[{c}] + z[{i}]; " for i, (x, y) in enumerate(rel))
                s.ob(f"ray_polygon.{'xyz'[A]}.{'neg' if sg else 'pos'}.{inside}", "o:3 n:3 z:3 k", 2,
                     tri + f"T u[3] = {{0, 0, 0}}; u[{c}] = 1; T D = n[{c}] * k[0]; for (std::size_t i = 0; i < 3; ++i) D += n[i] * o[i]; putn(out, vm::intersect_ray_polygon(R<3>(o, u), vm::plane<T,3>(D, V<3>(n)), q, q + 3));",
                     "vp_assume(k[0] > 0 || k[0] < -Z); " + ("if (k[0] > 0) hit(out, k[0]); else miss(out);" if inside else "miss(out);"), pre=big, api="vm::intersect_ray_polygon", **e)
    # ---- two planes
    uu = "vp_assume((s_dot<3>(n, n)) == 1); vp_assume((s_dot<3>(m, m)) == 1); "
    cr = "const T c[3] = { n[1]*m[2] - n[2]*m[1], n[2]*m[0] - n[0]*m[2], n[0]*m[1] - n[1]*m[0] }; const T f = s_dot<3>(n, m); "
    pp = "const auto l = vm::intersect_plane_plane(vm::plane<T,3>(d[0], V<3>(n)), vm::plane<T,3>(g[0], V<3>(m))); out[0] = n[0]*l.point[0] + n[1]*l.point[1] + n[2]*l.point[2]; out[1] = m[0]*l.point[0] + m[1]*l.point[1] + m[2]*l.point[2]; put(out + 2, l.direction);"
    req = Z + uu + cr + "const T L = std::sqrt(s_dot<3>(c, c)); vp_assume(s_dot<3>(c, c) - Z*L > 0); out[0] = d[0]; out[1] = g[0]; for (std::size_t i = 0; i < 3; ++i) out[2+i] = c[i] / L;"
    for nm, ax in (("x", "1, 0, 0"), ("y", "0, 1, 0"), ("z", "0, 0, 1"), ("nx", "-1, 0, 0"), ("ny", "0, -1, 0"), ("nz", "0, 0, -1")):
        s.ob(f"plane_plane.first_{nm}", "m:3 d g", 5, f"const T n[3] = {{ {ax} }}; " + pp, f"const T n[3] = {{ {ax} }}; " + req, api="vm::intersect_plane_plane", **e)
        s.ob(f"plane_plane.second_{nm}", "n:3 d g", 5, f"const T m[3] = {{ {ax} }}; " + pp, f"const T m[3] = {{ {ax} }}; " + req, api="vm::intersect_plane_plane", **e)
    s.ob("plane_plane", "n:3 m:3 d g", 5, pp, req, api="vm::intersect_plane_plane", **e)
    s.ob("plane_plane.tilted", "n:3 m:3 d g", 5, pp, req, api="vm::intersect_plane_plane", pre="vp_assume(n[0] == 0); vp_assume(m[1] == 0); ", **e)
    s.ob("plane_plane.parallel", "n:3 d g", 6, "T m[3]; for (std::size_t i = 0; i < 3; ++i) m[i] = K ? -n[i] : n[i]; const auto l = vm::intersect_plane_plane(vm::plane<T,3>(d[0], V<3>(n)), vm::plane<T,3>(g[0], V<3>(m))); put(out, l);",
         "vp_assume((s_dot<3>(n, n)) == 1); for (std::size_t i = 0; i < 6; ++i) out[i] = 0;", api="vm::intersect_plane_plane", K=[0, 1], **e)
    # ---- torus: the smallest positive solution of its equation along the ray (the solver is opaque here, see C20)
    s.ob("ray_torus", "o:3 v:3 c:3 M m", 2, "putn(out, vm::intersect_ray_torus(R<3>(o, v), V<3>(c), M[0], m[0]));",
         "vp_assume((s_dot<3>(v, v)) == 1); T w[3]; for (std::size_t i = 0; i < 3; ++i) w[i] = o[i] - c[i]; const T k0 = s_dot<3>(w, w) + M[0]*M[0] - m[0]*m[0], k1 = 2*s_dot<3>(w, v), k2 = s_dot<3>(v, v), F = 4*M[0]*M[0]; "
         "const auto q = vm::solve_quartic(T(k2*k2), T(2*k1*k2), T(k1*k1 + 2*k0*k2 - F*(v[0]*v[0] + v[1]*v[1])), T(2*k0*k1 - 2*F*(w[0]*v[0] + w[1]*v[1])), T(k0*k0 - F*(w[0]*w[0] + w[1]*w[1])), vm::constants<T>::almost_zero()); "
         "const T s[4] = { std::get<1>(q), std::get<2>(q), std::get<3>(q), std::get<4>(q) }; miss(out); for (std::size_t i = 0; i < 4; ++i) if (i < std::get<0>(q) && s[i] > 0 && (out[0] != 0 || s[i] < out[1])) hit(out, s[i]);", api="vm::intersect_ray_torus", opaque=[("solve_quartic", 4)], **e)
    return s.obs
