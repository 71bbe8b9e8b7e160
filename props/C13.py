"""Transformation matrices do to points what their name says."""
from itertools import permutations
from engine.obl import Spec
from .common import *

INCLUDES = ["scalar.h", "vec.h", "mat.h", "bbox.h", "quat.h", "mat_ext.h"]
PI = "vm::constants<T>::pi()"


def obligations(tier):
    s = Spec("C13")
    e = dict(T=FD)
    RC = "for (std::size_t c = 0; c < N; ++c) for (std::size_t r = 0; r < N; ++r) "
    for n in (1, 2, 3):
        k = dict(e, S=[n], N=[n + 1])
        s.ob("translation_matrix", "d:S", (n + 1) ** 2, "put(out, vm::translation_matrix(V<S>(d)));", RC + "out[c*N+r] = r == c ? T(1) : (c == S ? d[r] : T(0));", **k)
        s.ob("translation_matrix.point", "d:S p:S", n, "put(out, vm::translation_matrix(V<S>(d)) * V<S>(p));", FOR + "out[i] = p[i] + d[i];", **k)
        s.ob("scaling_matrix", "d:S", (n + 1) ** 2, "put(out, vm::scaling_matrix(V<S>(d)));", RC + "out[c*N+r] = r != c ? T(0) : (c == S ? T(1) : d[r]);", **k)
        s.ob("scaling_matrix.point", "d:S p:S", n, "put(out, vm::scaling_matrix(V<S>(d)) * V<S>(p));", FOR + "out[i] = p[i] * d[i];", **k)
        s.ob("translation_matrix.of", "a:N*N", (n + 1) ** 2, "put(out, vm::translation_matrix(M<N,N>(a)));", RC + "out[c*N+r] = r == c ? T(1) : (c == S ? a[c*N+r] : T(0));", **k)
        s.ob("strip_translation", "a:N*N", (n + 1) ** 2, "put(out, vm::strip_translation(M<N,N>(a)));", RC + "out[c*N+r] = c == S && r < S ? T(0) : a[c*N+r];", **k)
    s.ob("mirror_matrix", "p:3", 3, "put(out, vm::mirror_matrix<T>(vm::axis::type(@K@)) * V<3>(p));", "for (std::size_t i = 0; i < 3; ++i) out[i] = i == K ? -p[i] : p[i];", K=[0, 1, 2], **e)
    s.ob("shear_matrix", "h:6 p:3", 3, "put(out, vm::shear_matrix(h[0], h[1], h[2], h[3], h[4], h[5]) * V<3>(p));",
         "out[0] = p[0] + h[2]*p[1] + h[4]*p[2]; out[1] = p[1] + h[0]*p[0] + h[5]*p[2]; out[2] = p[2] + h[1]*p[0] + h[3]*p[1];", **e)
    s.ob("shear_matrix.affine", "h:6", 7, "const auto m = vm::shear_matrix(h[0], h[1], h[2], h[3], h[4], h[5]); for (int i = 0; i < 4; ++i) out[i] = m[3][i]; for (int i = 0; i < 3; ++i) out[4+i] = m[i][3];", "for (int i = 0; i < 7; ++i) out[i] = i == 3 ? 1 : 0;", **e)
    # view, perspective, orthographic projection
    s.ob("view_matrix", "d:3 u:3", 16, "put(out, vm::view_matrix(V<3>(d), V<3>(u)));",
         "const T r[3] = {d[1]*u[2] - d[2]*u[1], d[2]*u[0] - d[0]*u[2], d[0]*u[1] - d[1]*u[0]}; const T w[3] = {r[1]*d[2] - r[2]*d[1], r[2]*d[0] - r[0]*d[2], r[0]*d[1] - r[1]*d[0]}; "
         "for (int c = 0; c < 4; ++c) { out[4*c] = c < 3 ? r[c] : 0; out[4*c+1] = c < 3 ? w[c] : 0; out[4*c+2] = c < 3 ? -d[c] : 0; out[4*c+3] = c < 3 ? 0 : 1; }", **e)
    OP = "const T w = right[0] - left[0], h = top[0] - bottom[0], d = far[0] - near[0]; vp_assume(w != 0); vp_assume(h != 0); vp_assume(d != 0); "
    s.ob("ortho_matrix", "near far left top right bottom p:3", 3, "put(out, vm::ortho_matrix(near[0], far[0], left[0], top[0], right[0], bottom[0]) * V<3>(p));",
         OP + "out[0] = (2*p[0] - left[0] - right[0]) / w; out[1] = (2*p[1] - top[0] - bottom[0]) / h; out[2] = (-2*p[2] - far[0] - near[0]) / d;", **e)
    s.ob("ortho_matrix.affine", "near far left top right bottom", 4, "const auto m = vm::ortho_matrix(near[0], far[0], left[0], top[0], right[0], bottom[0]); for (int i = 0; i < 4; ++i) out[i] = m[i][3];", OP + "for (int i = 0; i < 4; ++i) out[i] = i == 3 ? 1 : 0;", **e)
    s.ob("perspective_matrix", "h near far w:1:i:int g:1:i:int", 16, f"put(out, vm::perspective_matrix(h[0] * 360 / {PI}, near[0], far[0], w[0], g[0]));",
         "const T v = std::tan(h[0]) * T(0.75), u = v * T(w[0]) / T(g[0]); vp_assume(std::cos(h[0]) != 0); vp_assume(std::sin(h[0]) != 0); vp_assume(near[0] != 0); vp_assume(far[0] != near[0]); vp_assume(w[0] > 0); vp_assume(g[0] > 0); "
         "for (int i = 0; i < 16; ++i) out[i] = 0; out[0] = 1 / u; out[5] = 1 / v; out[10] = -(far[0] + near[0]) / (far[0] - near[0]); out[14] = -2 * far[0] * near[0] / (far[0] - near[0]); out[11] = -1;", **e)
    # boxes
    B = "const vm::bbox<T,3> b(V<3>(lo), V<3>(hi)); "
    NE = "for (int i = 0; i < 3; ++i) vp_assume(lo[i] < hi[i]); "
    s.ob("scale_bbox_matrix", "lo:3 hi:3 nlo:3 nhi:3 t:3", 3, B + "const vm::bbox<T,3> nb(V<3>(nlo), V<3>(nhi)); T p[3]; for (int i = 0; i < 3; ++i) p[i] = lo[i] + t[i] * (hi[i] - lo[i]); put(out, vm::scale_bbox_matrix(b, nb) * V<3>(p));",
         NE + "for (int i = 0; i < 3; ++i) { vp_assume(nlo[i] <= nhi[i]); out[i] = nlo[i] + t[i] * (nhi[i] - nlo[i]); }", **e)
    s.ob("scale_bbox_matrix_with_anchor", "lo:3 hi:3 n:3 a:3 p:3", 3, B + "put(out, vm::scale_bbox_matrix_with_anchor(b, V<3>(n), V<3>(a)) * V<3>(p));",
         NE + "for (int i = 0; i < 3; ++i) out[i] = a[i] + (p[i] - a[i]) * n[i] / (hi[i] - lo[i]);", **e)
    for ax in range(3):
        for sg in (1, -1):
            side = f"vm::vec<T,3>::{'pos' if sg > 0 else 'neg'}_{'xyz'[ax]}()"
            # t = 0 on the opposite side, 1 on the sheared side
            s.ob(f"shear_bbox_matrix.{'+' if sg > 0 else '-'}{'xyz'[ax]}", "lo:3 hi:3 d:3 p:3", 3, B + f"put(out, vm::shear_bbox_matrix(b, {side}, V<3>(d)) * V<3>(p));",
                 NE + f"constexpr int A = {ax}; const T t = {'(p[A] - lo[A])' if sg > 0 else '(hi[A] - p[A])'} / (hi[A] - lo[A]); for (int i = 0; i < 3; ++i) out[i] = i == A ? p[i] : p[i] + t * d[i];", **e)
    # change of coordinates: axes x, y, z (columns of an invertible matrix) and an offset
    for pi in permutations(range(3)):
        lu = "T A[9] = {}; const T L[3][3] = {{1,0,0},{l[0],1,0},{l[1],l[2],1}}; const T U[3][3] = {{d[0],u[0],u[1]},{0,d[1],u[2]},{0,0,d[2]}}; "
        lu += f"const std::size_t pi[3] = {{{', '.join(map(str, pi))}}}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) A[j*3+pi[i]] += L[i][k] * U[k][j]; "
        pre = "for (std::size_t i = 0; i < 3; ++i) { vp_assume(l[i] < 1); vp_assume(l[i] > -1); vp_assume(d[i] >= T(1.0e-15)); } "
        tag = "".join(map(str, pi))
        TT = FD if tag in ("012", "120") else "double"
        s.ob(f"coordinate_system_matrix.{tag}", "l:3 u:3 d:3 o:3 c:3", 3, lu + "T p[3]; for (int i = 0; i < 3; ++i) p[i] = o[i] + A[i] * c[0] + A[3+i] * c[1] + A[6+i] * c[2]; put(out, vm::coordinate_system_matrix(V<3>(A), V<3>(A+3), V<3>(A+6), V<3>(o)) * V<3>(p));",
             pre + "for (int i = 0; i < 3; ++i) out[i] = c[i];", T=TT)
        # affine map through four points; the three edge vectors are the rows of an invertible matrix
        pts = lu + "T q[4][3]; for (int k = 0; k < 4; ++k) for (int i = 0; i < 3; ++i) q[k][i] = p[i] + (k ? A[i*3+k-1] : T(0)); "
        if tier == "quick":
            TT = "float" if tag == "012" else "double"
            if tag not in ("012", "201", "120"):
                continue
        s.ob(f"points_transformation_matrix.{tag}", "l:3 u:3 d:3 p:3 w:12", 12, pts + "const auto m = vm::points_transformation_matrix(V<3>(q[0]), V<3>(q[1]), V<3>(q[2]), V<3>(q[3]), V<3>(w), V<3>(w+3), V<3>(w+6), V<3>(w+9)); for (int k = 0; k < 4; ++k) put(out + 3*k, m * V<3>(q[k]));",
             pre + "for (int i = 0; i < 12; ++i) out[i] = w[i];", T=TT, time=240)
    s.ob("points_transformation_matrix.singular", "p:3 v:6 w:12", 1, "T q[9]; for (int i = 0; i < 9; ++i) q[i] = p[i % 3] + (i < 3 ? T(0) : v[i-3]); const auto m = vm::points_transformation_matrix(V<3>(q), V<3>(q), V<3>(q+3), V<3>(q+6), V<3>(w), V<3>(w+3), V<3>(w+6), V<3>(w+9)); out[0] = m[0][0] != m[0][0] ? 1 : 0;", "out[0] = 1;", **e)
    # three points: the unit normal is mapped to the unit normal; input triangle in a coordinate plane, output arbitrary
    for k in range(3):
        i, j = (k + 1) % 3, (k + 2) % 3
        tri = f"T q[4][3]; for (int c = 0; c < 4; ++c) for (int r = 0; r < 3; ++r) q[c][r] = p[r]; q[1][{i}] += a[0]; q[2][{j}] += a[1]; q[2][{i}] += a[2]; q[3][{k}] += 1; "
        OUT = f"T w[9]; for (int c = 0; c < 9; ++c) w[c] = o[c % 3]; w[3+{j}] += g[0]; w[6+{k}] += g[1]; w[6+{j}] += g[2]; "
        PRE = "vp_assume(a[0] >= T(1.0e-15)); vp_assume(a[1] >= T(1.0e-15)); vp_assume(a[2] < a[0]); vp_assume(a[2] > -a[0]); vp_assume(g[0] > 0); vp_assume(g[1] != 0); "
        s.ob(f"points_transformation_matrix.3.{'xyz'[k]}", "p:3 a:3 o:3 g:3", 12, tri + OUT + "const auto m = vm::points_transformation_matrix(V<3>(q[0]), V<3>(q[1]), V<3>(q[2]), V<3>(w), V<3>(w+3), V<3>(w+6)); for (int k = 0; k < 4; ++k) put(out + 3*k, m * V<3>(q[k]));",
             PRE + OUT + f"for (int i = 0; i < 9; ++i) out[i] = w[i]; for (int i = 0; i < 3; ++i) out[9+i] = o[i] + (i == {i} ? (g[1] > 0 ? T(1) : T(-1)) : T(0));", T="double")
    # projection onto a plane: points of the plane get z = 0, and moving along the direction changes z only
    for k in range(3):
        i, j = (k + 1) % 3, (k + 2) % 3
        for sg in (1, -1):
            nm = f"vm::vec<T,3>::{'pos' if sg > 0 else 'neg'}_{'xyz'[k]}()"
            pt = f"T p[3]; p[{k}] = {sg} * dist[0] + t[0] * dir[{k}]; p[{i}] = a[0] + t[0] * dir[{i}]; p[{j}] = a[1] + t[0] * dir[{j}]; "
            dirp = f"VP_VALID(dir[0]*dir[0] + dir[1]*dir[1] + dir[2]*dir[2] == 1) vp_assume(dir[{k}] >= T(0.5)); "
            s.ob(f"plane_projection_matrix.{'+' if sg > 0 else '-'}{'xyz'[k]}", "dist dir:3 t a:2", 1, pt + f"out[0] = (vm::plane_projection_matrix(dist[0], {nm}, V<3>(dir)) * V<3>(p))[2];", dirp + "out[0] = t[0];", T=FD)
            s.ob(f"plane_projection_matrix.along.{'+' if sg > 0 else '-'}{'xyz'[k]}", "dist dir:3 t a:2", 2, pt + f"const auto m = vm::plane_projection_matrix(dist[0], {nm}, V<3>(dir)); const auto w = m * V<3>(p) - m * (V<3>(p) - V<3>(dir) * t[0]); out[0] = w[0]; out[1] = w[1];", dirp + "out[0] = 0; out[1] = 0;", T=FD)
            s.ob(f"plane_projection_matrix.normal.{'+' if sg > 0 else '-'}{'xyz'[k]}", "dist p:3", 2, f"const auto w = vm::plane_projection_matrix(dist[0], {nm}) * V<3>(p); out[0] = w[2]; out[1] = w[0]*w[0] + w[1]*w[1];",
                 f"out[0] = {sg} * p[{k}] - dist[0]; out[1] = p[{i}]*p[{i}] + p[{j}]*p[{j}];", T=FD)
    # oblique planes: normals with three different components (chosen so that the axes are rational), each component being the largest once
    for nm, cs in (("xyz", (48, 36, 25)), ("yzx", (25, 48, 36)), ("zxy", (36, 25, 48)), ("-y", (25, -48, -36)), ("-x", (-48, 36, 25)), ("-z", (25, 36, -48))):
        fix = "".join(f"vp_assume(n[{i}] * 65 == {c}); " for i, c in enumerate(cs))
        pt = "T e[3]; e[0] = a[0]*n[1]; e[1] = -a[0]*n[0] + a[1]*n[2]; e[2] = -a[1]*n[1]; T p[3]; for (int i = 0; i < 3; ++i) p[i] = dist[0]*n[i] + e[i] + t[0]*dir[i]; "
        s.ob(f"plane_projection_matrix.oblique.{nm}", "dist n:3 t a:2", 2, "const T* dir = n; " + pt + "const auto w = vm::plane_projection_matrix(dist[0], V<3>(n)) * V<3>(p); out[0] = w[2]; out[1] = w[0]*w[0] + w[1]*w[1];",
             fix + "const T* dir = n; " + pt + "out[0] = t[0]; out[1] = e[0]*e[0] + e[1]*e[1] + e[2]*e[2];", T="double")
        for dn, ds in (("skew", (2, 3, 6)), ("skew2", (-6, 3, 2))):
            if abs(sum(x * y for x, y in zip(cs, ds))) < 100:
                continue
            fd = fix + "".join(f"vp_assume(dir[{i}] * 7 == {d}); " for i, d in enumerate(ds))
            s.ob(f"plane_projection_matrix.oblique.{nm}.{dn}", "dist n:3 dir:3 t a:2", 3, pt + "const auto m = vm::plane_projection_matrix(dist[0], V<3>(n), V<3>(dir)); const auto w = m * V<3>(p); const auto u = w - m * (V<3>(p) - V<3>(dir) * t[0]); out[0] = w[2]; out[1] = u[0]; out[2] = u[1];",
                 fd + "out[0] = t[0]; out[1] = 0; out[2] = 0;", T="double")
    # lists of vectors
    for r, c in ((2, 2), (3, 3), (4, 4), (2, 3), (3, 2)):
        for nn in (0, 1, 2, 3):
            k = dict(T=FD if r == c else "double", R=[r], C=[c], N=[nn])
            for nm, dim, odim, ls in (("left", "C", "R", True), ("left.point", "C-1", "R-1", True), ("right", "R", "C", False), ("right.point", "R-1", "C-1", False)):
                d = eval(dim, {"R": r, "C": c})
                od = eval(odim, {"R": r, "C": c})
                mk = "std::vector<vm::vec<T,%s>> v; for (std::size_t i = 0; i < N; ++i) v.push_back(V<%s>(b + i*(%s))); " % (dim, dim, dim)
                mv = "M<R,C>(a) * v" if ls else "v * M<R,C>(a)"
                mo = f"M<R,C>(a) * V<{dim}>(b + i*({dim}))" if ls else f"V<{dim}>(b + i*({dim})) * M<R,C>(a)"
                want = f"out[0] = N; for (std::size_t i = 0; i < N; ++i) {{ const vm::vec<T,{odim}> w = {mo}; put(out + 1 + i*({odim}), w); }}"
                s.ob("mat.list." + nm, f"a:R*C b:{max(1, nn * d)}", 1 + nn * od, mk + f"const std::vector<vm::vec<T,{odim}>> w = {mv}; out[0] = T(w.size()); for (std::size_t i = 0; i < N; ++i) put(out + 1 + i*({odim}), w[i]);", want, **k)
                if nn:
                    mk = "std::array<vm::vec<T,%s>, N> v{}; for (std::size_t i = 0; i < N; ++i) v[i] = V<%s>(b + i*(%s)); " % (dim, dim, dim)
                    s.ob("mat.array." + nm, f"a:R*C b:{nn * d}", 1 + nn * od, mk + f"const std::array<vm::vec<T,{odim}>, N> w = {mv}; out[0] = T(w.size()); for (std::size_t i = 0; i < N; ++i) put(out + 1 + i*({odim}), w[i]);", want, **k)
    return s.obs
