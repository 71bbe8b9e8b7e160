"""Quaternions and rotation matrices describe the same right-handed rotations."""
from engine.obl import Spec
from .common import *

INCLUDES = ["scalar.h", "vec.h", "mat.h", "quat.h", "mat_ext.h"]

HDR = """template <typename T> vm::quat<T> Q(const T* p) { return vm::quat<T>(p[0], V<3>(p + 1)); }
template <typename T> void put(T* out, const vm::quat<T>& q) { out[0] = q.r; for (std::size_t i = 0; i < 3; ++i) out[i+1] = q.v[i]; }
template <typename T> void s_qmul(const T* p, const T* q, T* r) {
  r[0] = p[0]*q[0] - p[1]*q[1] - p[2]*q[2] - p[3]*q[3];
  r[1] = p[0]*q[1] + p[1]*q[0] + p[2]*q[3] - p[3]*q[2];
  r[2] = p[0]*q[2] - p[1]*q[3] + p[2]*q[0] + p[3]*q[1];
  r[3] = p[0]*q[3] + p[1]*q[2] - p[2]*q[1] + p[3]*q[0];
}
// Rodrigues: rotate v about the unit axis k, cosine c, sine s, counter clockwise
template <typename T> void s_rot(const T* k, const T* v, T c, T s, T* r) {
  const T d = (k[0]*v[0] + k[1]*v[1] + k[2]*v[2]) * (1 - c);
  r[0] = v[0]*c + (k[1]*v[2] - k[2]*v[1])*s + k[0]*d;
  r[1] = v[1]*c + (k[2]*v[0] - k[0]*v[2])*s + k[1]*d;
  r[2] = v[2]*c + (k[0]*v[1] - k[1]*v[0])*s + k[2]*d;
}
"""
U = "vp_assume({v}[0]*{v}[0] + {v}[1]*{v}[1] + {v}[2]*{v}[2] == 1); "


def unit(v):
    return U.replace("{v}", v)


UQ = "vp_assume(q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3] == 1); "
OUT3 = "for (int i = 0; i < 3; ++i) out[i] = {x}[i];"


def obligations(tier):
    s = Spec("C12")
    e = dict(T=FD, hdr=HDR)
    s.ob("quat.default", "a", 4, "put(out, vm::quat<T>());", "for (int i = 0; i < 4; ++i) out[i] = 0;", **e)
    s.ob("quat.convert", "q:4:r:float", 4, "put(out, vm::quat<T>(vm::quat<float>(q[0], V<3>(q+1))));", "for (int i = 0; i < 4; ++i) out[i] = T(q[i]);", **e)
    s.ob("quat.copy", "q:4 p:4", 4, "const auto c = Q(q); auto d = c; auto w = Q(p); w = d; put(out, w);", "for (int i = 0; i < 4; ++i) out[i] = q[i];", **e)
    s.ob("quat.conjugate", "q:4", 4, "put(out, Q(q).conjugate());", "out[0] = q[0]; for (int i = 1; i < 4; ++i) out[i] = -q[i];", **e)
    s.ob("quat.plus", "q:4", 4, "put(out, +Q(q));", "for (int i = 0; i < 4; ++i) out[i] = q[i];", **e)
    s.ob("quat.minus", "q:4", 4, "put(out, -Q(q));", "out[0] = -q[0]; for (int i = 1; i < 4; ++i) out[i] = q[i];", **e)
    s.ob("quat.scale", "q:4 k", 8, "put(out, Q(q) * k[0]); put(out + 4, k[0] * Q(q));", "for (int i = 0; i < 8; ++i) out[i] = k[0] * q[i % 4];", **e)
    s.ob("quat.product", "p:4 q:4", 4, "put(out, Q(p) * Q(q));", "s_qmul(p, q, out);", **e)
    s.ob("quat.product.associative", "p:4 q:4 r:4", 4, "put(out, (Q(p) * Q(q)) * Q(r));", "put(out, Q(p) * (Q(q) * Q(r)));", **e)
    s.ob("quat.product.norm", "p:4 q:4", 1, "const auto r = Q(p) * Q(q); out[0] = r.r * r.r + dot(r.v, r.v);", "out[0] = (p[0]*p[0]+p[1]*p[1]+p[2]*p[2]+p[3]*p[3]) * (q[0]*q[0]+q[1]*q[1]+q[2]*q[2]+q[3]*q[3]);", **e)
    s.ob("quat.conjugate.product", "p:4 q:4", 4, "put(out, (Q(p) * Q(q)).conjugate());", "put(out, Q(q).conjugate() * Q(p).conjugate());", **e)
    # equality
    EQ = "bool v = true; for (int i = 1; i < 4; ++i) v = v && p[i] == q[i]; const bool eq = v && (p[0] == q[0] || p[0] == -q[0]); "
    s.ob("quat.equal", "p:4 q:4", 2, "out[0] = Q(p) == Q(q) ? 1 : 0; out[1] = Q(p) != Q(q) ? 1 : 0;", EQ + "out[0] = eq ? 1 : 0; out[1] = eq ? 0 : 1;", **e)
    s.ob("quat.is_equal", "p:4 q:4 eps", 1, "out[0] = is_equal(Q(p), Q(q), eps[0]) ? 1 : 0;",
         "vp_assume(eps[0] >= 0); bool v = true; for (int i = 1; i < 4; ++i) v = v && s_abs(p[i] - q[i]) <= eps[0]; out[0] = v && (s_abs(p[0] - q[0]) <= eps[0] || s_abs(p[0] + q[0]) <= eps[0]) ? 1 : 0;", time=120, cells=100000, **e)
    # action on vectors
    s.ob("quat.apply", "q:4 v:3", 3, "put(out, Q(q) * V<3>(v));", "const T w[4] = {0, v[0], v[1], v[2]}; const T c[4] = {q[0], -q[1], -q[2], -q[3]}; T x[4], y[4]; s_qmul(q, w, x); s_qmul(x, c, y); for (int i = 0; i < 3; ++i) out[i] = y[i+1];", **e)
    s.ob("quat.apply.compose", "p:4 q:4 v:3", 3, "put(out, (Q(p) * Q(q)) * V<3>(v));", "put(out, Q(p) * (Q(q) * V<3>(v)));", **e)
    s.ob("quat.apply.isometry", "q:4 v:3 w:3", 1, "out[0] = dot(Q(q) * V<3>(v), Q(q) * V<3>(w));", UQ + "out[0] = v[0]*w[0] + v[1]*w[1] + v[2]*w[2];", **e)
    s.ob("quat.apply.orientation", "q:4 v:3 w:3", 3, "put(out, cross(Q(q) * V<3>(v), Q(q) * V<3>(w)));", UQ + "put(out, Q(q) * cross(V<3>(v), V<3>(w)));", **e)
    # axis and angle (the angle is 2h)
    AA = "T r[3]; s_rot(k, v, std::cos(2*h[0]), std::sin(2*h[0]), r); " + OUT3.replace("{x}", "r")
    s.ob("quat.axis_angle", "k:3 h v:3", 3, "put(out, vm::quat<T>(V<3>(k), 2*h[0]) * V<3>(v));", unit("k") + AA, **e)
    s.ob("quat.axis_angle.unit", "k:3 h", 1, "const vm::quat<T> q(V<3>(k), h[0]); out[0] = q.r * q.r + dot(q.v, q.v);", unit("k") + "out[0] = 1;", **e)
    s.ob("quat.angle", "q:4", 1, "out[0] = Q(q).angle();", "vp_assume(q[0] >= -1); vp_assume(q[0] <= 1); out[0] = 2 * std::acos(q[0]);", **e)
    s.ob("quat.axis", "k:3 h", 3, "put(out, vm::quat<T>(V<3>(k), 2*h[0]).axis());", unit("k") + "vp_assume(std::sin(h[0]) > 0); vp_assume(k[0] * std::sin(h[0]) > T(0.001)); " + OUT3.replace("{x}", "k"), **e)
    # rotation matrices
    MV = "put(out, {m} * V<3>(v));"
    s.ob("rotation_matrix.axis_angle", "k:3 h v:3", 3, MV.replace("{m}", "vm::rotation_matrix(V<3>(k), h[0])"), unit("k") + "T r[3]; s_rot(k, v, std::cos(h[0]), std::sin(h[0]), r); " + OUT3.replace("{x}", "r"), **e)
    s.ob("rotation_matrix.axis_angle.affine", "k:3 h", 16, "put(out, vm::rotation_matrix(V<3>(k), h[0]));",
         unit("k") + "for (int c = 0; c < 4; ++c) { T b[3] = {}, r[3] = {}; if (c < 3) { b[c] = 1; s_rot(k, b, std::cos(h[0]), std::sin(h[0]), r); } for (int i = 0; i < 3; ++i) out[4*c+i] = r[i]; out[4*c+3] = c == 3 ? 1 : 0; }", **e)
    s.ob("rotation_matrix.quat", "q:4 v:3", 3, MV.replace("{m}", "vm::rotation_matrix(Q(q))"), UQ + "put(out, Q(q) * V<3>(v));", **e)
    s.ob("rotation_matrix.quat.affine", "q:4", 16, "put(out, vm::rotation_matrix(Q(q)));",
         UQ + "for (int c = 0; c < 4; ++c) { vm::vec<T,3> r; if (c < 3) r = Q(q) * vm::vec<T,3>::axis(std::size_t(c)); for (std::size_t i = 0; i < 3; ++i) out[4*c+i] = r[i]; out[4*c+3] = c == 3 ? 1 : 0; }", **e)
    X, Y, Z = "{1,0,0}", "{0,1,0}", "{0,0,1}"
    RPY = f"const T ax[3][3] = {{{X}, {Y}, {Z}}}; T w[3] = {{v[0], v[1], v[2]}}, r[3]; const T an[3] = {{a[0], a[1], a[2]}}; for (int i = 0; i < 3; ++i) {{ s_rot(ax[i], w, std::cos(an[i]), std::sin(an[i]), r); for (int j = 0; j < 3; ++j) w[j] = r[j]; }} "
    s.ob("rotation_matrix.euler", "a:3 v:3", 3, MV.replace("{m}", "vm::rotation_matrix(a[0], a[1], a[2])"), RPY + OUT3.replace("{x}", "w"), **e)
    s.ob("rotation_matrix.euler.affine", "a:3", 7, "const auto m = vm::rotation_matrix(a[0], a[1], a[2]); for (int i = 0; i < 4; ++i) out[i] = m[3][i]; for (int i = 0; i < 3; ++i) out[4+i] = m[i][3];", "for (int i = 0; i < 7; ++i) out[i] = i == 3 ? 1 : 0;", **e)
    s.ob("euler.roundtrip", "a:3 v:3", 3, "const auto m = vm::rotation_matrix(a[0], a[1], a[2]); const auto b = vm::rotation_matrix_to_euler_angles(m); put(out, vm::rotation_matrix(b[0], b[1], b[2]) * V<3>(v));",
         "vp_assume(std::cos(a[1]) > 0); put(out, vm::rotation_matrix(a[0], a[1], a[2]) * V<3>(v));", **e)
    s.ob("euler.roundtrip.neg", "a:3 v:3", 3, "const auto m = vm::rotation_matrix(a[0], a[1], a[2]); const auto b = vm::rotation_matrix_to_euler_angles(m); put(out, vm::rotation_matrix(b[0], b[1], b[2]) * V<3>(v));",
         "vp_assume(std::cos(a[1]) < 0); put(out, vm::rotation_matrix(a[0], a[1], a[2]) * V<3>(v));", **e)
    # gimbal lock: pitch of +-90 degrees
    for sg in (1, -1):
        P = f"const T h = vm::constants<T>::half_pi(); const T pitch = {'-' if sg < 0 else ''}h; "
        s.ob(f"euler.gimbal{'+' if sg > 0 else '-'}", "r y v:3", 3, P + "const auto m = vm::rotation_matrix(r[0], pitch, y[0]); const auto b = vm::rotation_matrix_to_euler_angles(m); put(out, vm::rotation_matrix(b[0], b[1], b[2]) * V<3>(v));",
             P + "put(out, vm::rotation_matrix(r[0], pitch, y[0]) * V<3>(v));", **e)
    # rotation of one unit vector onto another
    FT = unit("a") + unit("b") + "const T c = a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; "
    GEN = FT + "vp_assume(1 - c > T(0.001)); vp_assume(1 + c > T(0.001)); "
    s.ob("quat.from_to", "a:3 b:3", 3, "put(out, vm::quat<T>(V<3>(a), V<3>(b)) * V<3>(a));", GEN + OUT3.replace("{x}", "b"), **e)
    s.ob("quat.from_to.axis", "a:3 b:3", 3, "put(out, vm::quat<T>(V<3>(a), V<3>(b)) * cross(V<3>(a), V<3>(b)));", GEN + "put(out, cross(V<3>(a), V<3>(b)));", **e)
    s.ob("quat.from_to.same", "a:3 b:3", 4, "put(out, vm::quat<T>(V<3>(a), V<3>(b)));", FT + "vp_assume(1 - c <= T(0.001)); vp_assume(c - 1 <= T(0.001)); out[0] = 1; for (int i = 1; i < 4; ++i) out[i] = 0;", **e)
    s.ob("quat.from_to.opposite", "a:3", 3, "const auto f = V<3>(a); put(out, vm::quat<T>(f, -f) * f);", unit("a") + "for (int i = 0; i < 3; ++i) out[i] = -a[i];", **e)
    s.ob("quat.from_to.opposite.unit", "a:3", 2, "const auto f = V<3>(a); const vm::quat<T> q(f, -f); out[0] = q.r; out[1] = dot(q.v, q.v);", unit("a") + "out[0] = 0; out[1] = 1;", **e)
    s.ob("rotation_matrix.from_to", "a:3 b:3", 16, "put(out, vm::rotation_matrix(V<3>(a), V<3>(b)));", "VP_VALID(a[0]*a[0] + a[1]*a[1] + a[2]*a[2] == 1) VP_VALID(b[0]*b[0] + b[1]*b[1] + b[2]*b[2] == 1) put(out, vm::rotation_matrix(vm::quat<T>(V<3>(a), V<3>(b))));", **e)
    # equality is documented to hold exactly for quaternions that describe the same rotation (known findings)
    s.ob("quat.minus.same_rotation", "q:4 v:3", 3, "put(out, (-Q(q)) * V<3>(v));", UQ + "put(out, Q(q) * V<3>(v));", **e)
    s.ob("quat.equal.antipode", "q:4", 1, "T p[4]; for (int i = 0; i < 4; ++i) p[i] = -q[i]; out[0] = Q(p) == Q(q) ? 1 : 0;", UQ + "out[0] = 1;", **e)
    return s.obs
