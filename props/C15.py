"""Planes: sides, projections, missing coordinates, construction from points."""
from engine.obl import Spec
from .common import *

INCLUDES = ["scalar.h", "vec.h", "mat.h", "mat_ext.h", "plane.h"]
HDR = """template <typename T, std::size_t S> void put(T* out, const vm::plane<T,S>& p) { out[0] = p.distance; put(out + 1, p.normal); }
template <std::size_t S, typename T> vm::plane<T,S> P(const T* d, const T* n) { return vm::plane<T,S>(d[0], V<S>(n)); }
template <typename T> T st(vm::plane_status s) { return s == vm::plane_status::above ? T(1) : (s == vm::plane_status::below ? T(-1) : (s == vm::plane_status::inside ? T(0) : T(7))); }
template <std::size_t S, typename T> T s_dot(const T* a, const T* b) { T r = a[0] * b[0]; for (std::size_t i = 1; i < S; ++i) r += a[i] * b[i]; return r; }
// rotation matrix of a unit quaternion, column-major, optionally mirrored
template <typename T> void s_qmat(const T* q, T* m) {
  m[0] = 1 - 2*(q[2]*q[2] + q[3]*q[3]); m[1] = 2*(q[1]*q[2] + q[0]*q[3]); m[2] = 2*(q[1]*q[3] - q[0]*q[2]);
  m[3] = 2*(q[1]*q[2] - q[0]*q[3]); m[4] = 1 - 2*(q[1]*q[1] + q[3]*q[3]); m[5] = 2*(q[2]*q[3] + q[0]*q[1]);
  m[6] = 2*(q[1]*q[3] + q[0]*q[2]); m[7] = 2*(q[2]*q[3] - q[0]*q[1]); m[8] = 1 - 2*(q[1]*q[1] + q[2]*q[2]);
}
template <typename T> vm::mat<T,4,4> A4(const T* l, const T* t) {
  vm::mat<T,4,4> m; for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) m[c][r] = l[c*3+r]; for (int r = 0; r < 3; ++r) m[3][r] = t[r]; return m;
}
"""


def obligations(tier):
    s = Spec("C15")
    e = dict(T=FD, S=[2, 3, 4], hdr=HDR)
    e3 = dict(T=FD, hdr=HDR)
    unit = "vp_assume((s_dot<S>(n, n)) == 1); "
    p = "const auto p = P<S>(d, n); "
    s.ob("plane.default", "a", "S+1", "put(out, vm::plane<T,S>());", "for (std::size_t i = 0; i <= S; ++i) out[i] = 0;", **e)
    s.ob("plane.distance_normal", "d n:S", "S+1", p + "put(out, p);", "out[0] = d[0]; " + FOR + "out[i+1] = n[i];", **e)
    s.ob("plane.anchor_normal", "a:S n:S", "S+1", "put(out, vm::plane<T,S>(V<S>(a), V<S>(n)));", "out[0] = s_dot<S>(a, n); " + FOR + "out[i+1] = n[i];", **e)
    s.ob("plane.convert", "d:1:r:float n:S:r:float", "S+1", "put(out, vm::plane<T,S>(P<S>(d, n)));", "out[0] = T(d[0]); " + FOR + "out[i+1] = T(n[i]);", **e)
    s.ob("plane.copy", "d n:S", "S+1", p + "auto q = p; vm::plane<T,S> w; w = q; put(out, w);", "out[0] = d[0]; " + FOR + "out[i+1] = n[i];", **e)
    s.ob("plane.anchor", "d n:S", "S", p + "put(out, p.anchor());", FOR + "out[i] = d[0] * n[i];", **e)
    s.ob("plane.anchor.on_plane", "d n:S", 1, p + "out[0] = p.point_distance(p.anchor());", unit + "out[0] = 0;", **e)
    s.ob("point_distance", "d n:S x:S", 1, p + "out[0] = p.point_distance(V<S>(x));", "out[0] = (s_dot<S>(x, n)) - d[0];", api="vm::plane::point_distance", **e)
    s.ob("point_distance.anchor", "a:S n:S x:S", 1, "out[0] = vm::plane<T,S>(V<S>(a), V<S>(n)).point_distance(V<S>(x));", "T r = 0; " + FOR + "r += (x[i] - a[i]) * n[i]; out[0] = r;", api="vm::plane::point_distance", **e)
    s.ob("point_status", "d n:S x:S eps", 1, p + "out[0] = st<T>(p.point_status(V<S>(x), eps[0]));", "vp_assume(eps[0] >= 0); const T r = (s_dot<S>(x, n)) - d[0]; out[0] = r > eps[0] ? 1 : (r < -eps[0] ? -1 : 0);", api="vm::plane::point_status", **e)
    s.ob("point_status.default", "d n:S x:S", 1, p + "out[0] = st<T>(p.point_status(V<S>(x)));", "const T E = vm::constants<T>::point_status_epsilon(); const T r = (s_dot<S>(x, n)) - d[0]; out[0] = r > E ? 1 : (r < -E ? -1 : 0);", api="vm::plane::point_status", **e)
    s.ob("flip", "d n:S", "S+1", p + "put(out, p.flip());", "out[0] = -d[0]; " + FOR + "out[i+1] = -n[i];", api="vm::plane::flip", **e)
    s.ob("flip.sides", "d n:S x:S", 1, p + "out[0] = p.flip().point_distance(V<S>(x));", "out[0] = d[0] - (s_dot<S>(x, n));", api="vm::plane::flip", **e)
    # missing coordinate
    for S in (2, 3, 4):
        for k in range(min(S, 4)):
            ins = "d n:S x:S-1"
            spec = f"constexpr std::size_t K = {k}; T t = d[0]; std::size_t j = 0; {FOR} if (i != K) t -= n[i] * x[j++]; out[0] = n[K] == 0 ? 0 : t / n[K];"
            s.ob(f"plane.at.{k}", ins, 1, p + f"out[0] = p.at(V<S-1>(x), {k});", spec, T=FD, S=[S], hdr=HDR, api="vm::plane::at")
            if k < 3 and S == 3:
                s.ob(f"plane.{'xyz'[k]}At", ins, 1, p + f"out[0] = p.{'xyz'[k]}At(V<S-1>(x));", spec, T=FD, S=[S], hdr=HDR, api="vm::plane::at")
            s.ob(f"plane.at.on_plane.{k}", ins, 1, p + f"T c[S]; std::size_t j = 0; {FOR} c[i] = i == {k} ? p.at(V<S-1>(x), {k}) : x[j++]; out[0] = p.point_distance(V<S>(c));", f"vp_assume(n[{k}] != 0); out[0] = 0;", T=FD, S=[S], hdr=HDR, api="vm::plane::at")
    # projections
    s.ob("project_point", "d n:S x:S", "S", p + "put(out, p.project_point(V<S>(x)));", unit + "const T r = (s_dot<S>(x, n)) - d[0]; " + FOR + "out[i] = x[i] - r * n[i];", api="vm::plane::project_point", **e)
    s.ob("project_point.on_plane", "d n:S x:S", 1, p + "out[0] = p.point_distance(p.project_point(V<S>(x)));", unit + "out[0] = 0;", api="vm::plane::project_point", **e)
    dz = "const T c = s_dot<S>(w, n), E = vm::constants<T>::almost_zero(); const bool par = s_abs(c) <= E; "
    s.ob("project_point.direction", "d n:S x:S w:S", "S", p + "put(out, p.project_point(V<S>(x), V<S>(w)));",
         unit + dz + "const T r = (d[0] - (s_dot<S>(x, n))) / c; " + FOR + "out[i] = par ? std::numeric_limits<T>::quiet_NaN() : x[i] + r * w[i];", api="vm::plane::project_point", **e)
    s.ob("project_point.direction.on_plane", "d n:S x:S w:S", 1, p + "out[0] = p.point_distance(p.project_point(V<S>(x), V<S>(w)));", unit + dz + "vp_assume(!par); out[0] = 0;", api="vm::plane::project_point", **e)
    s.ob("project_vector", "d n:S x:S", "S", p + "put(out, p.project_vector(V<S>(x)));", unit + "const T r = s_dot<S>(x, n); " + FOR + "out[i] = x[i] - r * n[i];", api="vm::plane::project_vector", **e)
    s.ob("project_vector.direction", "d n:S x:S w:S", "S", p + "put(out, p.project_vector(V<S>(x), V<S>(w)));",
         unit + dz + "vp_assume(!par); const T r = (s_dot<S>(x, n)) / c; " + FOR + "out[i] = x[i] - r * w[i];", api="vm::plane::project_vector", **e)
    # comparison
    s.ob("equal", "d n:S f m:S", 3, p + "const auto q = P<S>(f, m); out[0] = p == q; out[1] = p != q; out[2] = p == p;", "out[0] = d[0] == f[0]; " + FOR + "if (n[i] != m[i]) out[0] = 0; out[1] = 1 - out[0]; out[2] = 1;", api="vm::operator==", **e)
    s.ob("is_equal", "d n:S f m:S eps", 1, p + "out[0] = vm::is_equal(p, P<S>(f, m), eps[0]);", "vp_assume(eps[0] >= 0); out[0] = s_abs(d[0] - f[0]) <= eps[0]; " + FOR + "if (s_abs(n[i] - m[i]) > eps[0]) out[0] = 0;", api="vm::is_equal", **e)
    # transformation: every point of the plane lands on the transformed plane, normal side kept
    for nm, fn in (("transform", "transform"), ("transform_c", "transform_c")):
        s.ob(nm + ".translate", "d n:S x:S t:S", "S+2", p + f"vm::mat<T,S+1,S+1> m; {FOR} m[S][i] = t[i]; const auto q = p.{fn}(m); put(out, q); out[S+1] = q.point_distance(V<S>(x) + V<S>(t));",
             unit + "out[0] = d[0] + (s_dot<S>(n, t)); " + FOR + "out[i+1] = n[i]; out[S+1] = (s_dot<S>(x, n)) - d[0];", api="vm::plane::transform", **e)
        s.ob(nm + ".scale", "d n:S x:S k t:S", "S+2", p + f"vm::mat<T,S+1,S+1> m; {FOR} {{ m[i][i] = k[0]; m[S][i] = t[i]; }} const auto q = p.{fn}(m); put(out, q); out[S+1] = q.point_distance(V<S>(x) * k[0] + V<S>(t));",
             unit + "vp_assume(k[0] > 0); out[0] = k[0] * d[0] + (s_dot<S>(n, t)); " + FOR + "out[i+1] = n[i]; out[S+1] = k[0] * ((s_dot<S>(x, n)) - d[0]);", api="vm::plane::transform", **e)
        s.ob(nm + ".turn2", "d n:2 x:2 c:2 t:2", 4, "constexpr std::size_t S = 2; " + p + f"vm::mat<T,3,3> m; m[0][0] = c[0]; m[0][1] = c[1]; m[1][0] = -c[1]; m[1][1] = c[0]; m[2][0] = t[0]; m[2][1] = t[1]; const auto q = p.{fn}(m); put(out, q); out[3] = q.point_distance(m * V<2>(x));",
             "constexpr std::size_t S = 2; " + unit + "vp_assume(c[0]*c[0] + c[1]*c[1] == 1); out[1] = c[0]*n[0] - c[1]*n[1]; out[2] = c[1]*n[0] + c[0]*n[1]; out[0] = d[0] + t[0]*out[1] + t[1]*out[2]; out[3] = (s_dot<2>(x, n)) - d[0];", api="vm::plane::transform", **e3)
        for ax in range(3):
            a, b = (ax + 1) % 3, (ax + 2) % 3
            s.ob(nm + f".turn.{'xyz'[ax]}", "d n:3 x:3 c:2 t:3", 5, "constexpr std::size_t S = 3; " + p + f"T l[9] = {{1,0,0,0,1,0,0,0,1}}; l[{a*3+a}] = l[{b*3+b}] = c[0]; l[{a*3+b}] = c[1]; l[{b*3+a}] = -c[1]; const auto m = A4(l, t); const auto q = p.{fn}(m); put(out, q); out[4] = q.point_distance(m * V<3>(x));",
                 f"constexpr std::size_t S = 3; " + unit + f"vp_assume(c[0]*c[0] + c[1]*c[1] == 1); out[{1+ax}] = n[{ax}]; out[{1+a}] = c[0]*n[{a}] - c[1]*n[{b}]; out[{1+b}] = c[1]*n[{a}] + c[0]*n[{b}]; out[0] = d[0] + (s_dot<3>(t, out+1)); out[4] = (s_dot<3>(x, n)) - d[0];", api="vm::plane::transform", **e3)
            s.ob(nm + f".mirror.{'xyz'[ax]}", "d n:3 x:3 t:3", 5, "constexpr std::size_t S = 3; " + p + f"T l[9] = {{1,0,0,0,1,0,0,0,1}}; l[{ax*4}] = -1; const auto m = A4(l, t); const auto q = p.{fn}(m); put(out, q); out[4] = q.point_distance(m * V<3>(x));",
                 f"constexpr std::size_t S = 3; " + unit + f"for (int i = 0; i < 3; ++i) out[1+i] = i == {ax} ? -n[i] : n[i]; out[0] = d[0] + (s_dot<3>(t, out+1)); out[4] = (s_dot<3>(x, n)) - d[0];", api="vm::plane::transform", **e3)
    # from points: p1 + two vectors v = p3 - p1, u = p2 - p1
    pts = "T b[3], c[3]; for (int i = 0; i < 3; ++i) { b[i] = a[i] + u[i]; c[i] = a[i] + v[i]; } "
    cr = ("const T x[3] = {v[1]*u[2] - v[2]*u[1], v[2]*u[0] - v[0]*u[2], v[0]*u[1] - v[1]*u[0]}; const T sx = std::sqrt(s_dot<3>(x, x)), su = std::sqrt(s_dot<3>(u, u)), sv = std::sqrt(s_dot<3>(v, v)); "
          "vp_assume(su > 0); vp_assume(sv > 0); ")
    dE = "const T E = vm::constants<T>::angle_epsilon(); "
    pn = "const bool ok = sx >= E * su * sv; out[0] = ok; for (int i = 0; i < 3; ++i) out[1+i] = ok ? x[i] / sx : 0;"
    fp = "const bool ok = sx >= E * su * sv; out[0] = ok; for (int i = 0; i < 3; ++i) out[2+i] = ok ? x[i] / sx : 0; out[1] = ok ? (s_dot<3>(a, x)) / sx : 0;"
    s.ob("plane_normal.eps", "a:3 u:3 v:3 eps", 4, pts + "const auto [ok, n] = vm::plane_normal(V<3>(a), V<3>(b), V<3>(c), eps[0]); out[0] = ok; put(out + 1, n);", cr + "const T E = eps[0]; vp_assume(E > 0); " + pn, **e3)
    s.ob("plane_normal", "a:3 u:3 v:3", 4, pts + "const auto [ok, n] = vm::plane_normal(V<3>(a), V<3>(b), V<3>(c)); out[0] = ok; put(out + 1, n);", cr + dE + pn, **e3)
    s.ob("from_points", "a:3 u:3 v:3", 5, pts + "const auto [ok, q] = vm::from_points(V<3>(a), V<3>(b), V<3>(c)); out[0] = ok; put(out + 1, q);", cr + dE + fp, **e3)
    s.ob("from_points.contains", "a:3 u:3 v:3 w:3", 3, pts + "const auto [ok, q] = vm::from_points(V<3>(a), V<3>(b), V<3>(c)); out[0] = q.point_distance(V<3>(a)); out[1] = q.point_distance(V<3>(b)); out[2] = q.point_distance(V<3>(c));",
         cr + "out[0] = 0; out[1] = 0; out[2] = 0;", **e3)
    # degenerate triples never give a plane
    for nm, x, y, z in (("p1=p2", "a", "a", "b"), ("p1=p3", "a", "b", "a"), ("p2=p3", "a", "b", "b"), ("all", "a", "a", "a")):
        s.ob("plane_normal.degenerate." + nm, "a:3 b:3", 9, f"const auto [ok, n] = vm::plane_normal(V<3>({x}), V<3>({y}), V<3>({z})); out[0] = ok; put(out + 1, n); const auto [k2, q] = vm::from_points(V<3>({x}), V<3>({y}), V<3>({z})); out[4] = k2; put(out + 5, q);",
             "bool same = true; for (int i = 0; i < 3; ++i) { vp_assume(a[i] == a[i]); vp_assume(b[i] == b[i]); same = same && a[i] == b[i]; } " + ("" if nm == "all" else "vp_assume(!same); ") + "for (int i = 0; i < 9; ++i) out[i] = 0;", **e3)
    s.ob("plane_normal.colinear", "a:3 u:3 k", 4, "T b[3], c[3]; for (int i = 0; i < 3; ++i) { b[i] = a[i] + u[i]; c[i] = a[i] + k[0] * u[i]; } const auto [ok, n] = vm::plane_normal(V<3>(a), V<3>(b), V<3>(c)); out[0] = ok; put(out + 1, n);",
         "vp_assume(k[0] != 0); vp_assume(u[0]*u[0] + u[1]*u[1] + u[2]*u[2] > 0); for (int i = 0; i < 4; ++i) out[i] = 0;", **e3)
    arr = pts + "vm::vec<T,3> k[4]; k[0] = V<3>(a); k[1] = V<3>(b); k[2] = V<3>(c); k[3] = V<3>(w); "
    for N in (3, 4):
        s.ob("from_points.range", "a:3 u:3 v:3 w:3", 5, arr + "const auto [ok, q] = vm::from_points(k, k + N); out[0] = ok; put(out + 1, q);", cr + dE + fp, N=[N], **e3)
    for N in (0, 1, 2):
        s.ob("from_points.range", "a:3 u:3 v:3 w:3", 5, arr + "const auto [ok, q] = vm::from_points(k, k + N); out[0] = ok; put(out + 1, q);", "for (int i = 0; i < 5; ++i) out[i] = 0;", N=[N], **e3)
    s.ob("from_points.range.get", "a:3 u:3 v:3 w:3", 5, arr + "const auto [ok, q] = vm::from_points(k, k + 3, [](const vm::vec<T,3>& z) { return z + vm::vec<T,3>(1, 2, 3); }); out[0] = ok; put(out + 1, q);",
         cr + dE + fp + " out[1] = ok ? (s_dot<3>(a, x) + x[0] + 2*x[1] + 3*x[2]) / sx : 0;", **e3)
    s.ob("from_points.range.member", "a:3 u:3 v:3 w:3", 5, arr + "struct X { int t; vm::vec<T,3> z; }; X y[3]; for (int i = 0; i < 3; ++i) y[i] = X{i, k[i]}; const auto [ok, q] = vm::from_points(y, y + 3, [](const X& x) -> const vm::vec<T,3>& { return x.z; }); out[0] = ok; put(out + 1, q);",
         cr + dE + fp, **e3)
    s.ob("horizontal_plane", "a:3", 4, "put(out, vm::horizontal_plane(V<3>(a)));", "out[0] = a[2]; out[1] = 0; out[2] = 0; out[3] = 1;", **e3)
    s.ob("orthogonal_plane", "a:3 w:3", 4, "put(out, vm::orthogonal_plane(V<3>(a), V<3>(w)));", "const T l = std::sqrt(s_dot<3>(w, w)); vp_assume(l > 0); for (int i = 0; i < 3; ++i) out[1+i] = w[i] / l; out[0] = (s_dot<3>(a, w)) / l;", **e3)
    s.ob("aligned_orthogonal_plane", "a:3 w:3", 4, "put(out, vm::aligned_orthogonal_plane(V<3>(a), V<3>(w)));",
         "int k = 0; if (s_abs(w[1]) > s_abs(w[k])) k = 1; if (s_abs(w[2]) > s_abs(w[k])) k = 2; vp_assume(s_abs(w[0]) != s_abs(w[1]) && s_abs(w[1]) != s_abs(w[2]) && s_abs(w[0]) != s_abs(w[2])); "
         "for (int i = 0; i < 3; ++i) { out[1+i] = i == k ? (w[i] > 0 ? 1 : -1) : 0; } out[0] = s_dot<3>(a, out + 1);", **e3)
    return s.obs
