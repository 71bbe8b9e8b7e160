"""Bounding boxes are the closed axis-aligned boxes they claim to be."""
from engine.obl import Spec
from .common import *

INCLUDES = ["scalar.h", "vec.h", "mat.h", "bbox.h"]
HDR = """template <typename T, std::size_t S> void put(T* out, const vm::bbox<T,S>& b) { put(out, b.min); put(out + S, b.max); }
template <std::size_t S, typename T> vm::bbox<T,S> B(const T* p, const T* q) { return vm::bbox<T,S>(V<S>(p), V<S>(q)); }
template <typename T> T s_get(const T* p, int i) { return p[i]; }
"""


def obligations(tier):
    s = Spec("C14")
    e = dict(T=FD, S=[1, 2, 3, 4], hdr=HDR)
    ok = FOR + "vp_assume(lo[i] <= hi[i]); "
    ok2 = ok + FOR + "vp_assume(p[i] <= q[i]); "
    b = "const auto b = B<S>(lo, hi); "
    c = "const auto c = B<S>(p, q); "
    # construction
    s.ob("bbox.default", "a", "2*S", "put(out, vm::bbox<T,S>());", "for (std::size_t i = 0; i < 2*S; ++i) out[i] = 0;", **e)
    s.ob("bbox.min_max", "lo:S hi:S", "2*S", b + "put(out, b);", ok + FOR + "{ out[i] = lo[i]; out[S+i] = hi[i]; }", **e)
    s.ob("bbox.scalars", "l h", "2*S", "put(out, vm::bbox<T,S>(l[0], h[0]));", "vp_assume(l[0] <= h[0]); " + FOR + "{ out[i] = l[0]; out[S+i] = h[0]; }", **e)
    s.ob("bbox.centered", "h", "2*S", "put(out, vm::bbox<T,S>(h[0]));", "vp_assume(h[0] >= 0); " + FOR + "{ out[i] = -h[0]; out[S+i] = h[0]; }", **e)
    s.ob("bbox.convert", "lo:S:r:float hi:S:r:float", "2*S", "put(out, vm::bbox<T,S>(vm::bbox<float,S>(V<S>(lo), V<S>(hi))));", ok + FOR + "{ out[i] = T(lo[i]); out[S+i] = T(hi[i]); }", **e)
    s.ob("bbox.convert.down", "lo:S:r:double hi:S:r:double", "2*S", "put(out, vm::bbox<float,S>(vm::bbox<double,S>(V<S>(lo), V<S>(hi))));", ok + FOR + "{ out[i] = T(lo[i]); out[S+i] = T(hi[i]); }", T="float", S=[1, 2, 3], hdr=HDR)
    s.ob("bbox.copy", "lo:S hi:S p:S q:S", "2*S", b + c + "vm::bbox<T,S> d(b); vm::bbox<T,S> w(c); w = d; put(out, w);", ok2 + FOR + "{ out[i] = lo[i]; out[S+i] = hi[i]; }", **e)
    # smallest box around points
    e3 = dict(T=FD, S=[1, 2, 3], hdr=HDR)
    mm = "T a = p[i], z = p[i]; for (std::size_t k = 1; k < N; ++k) { if (p[k*S+i] < a) a = p[k*S+i]; if (p[k*S+i] > z) z = p[k*S+i]; } out[i] = a; out[S+i] = z; "
    arr = "vm::vec<T,S> x[N]; for (std::size_t k = 0; k < N; ++k) x[k] = V<S>(p + k*S); "
    g = ", [](const vm::vec<T,S>& v) { return v * T(2); }"
    for n in (1, 2, 3):
        k = dict(e3, N=[n])
        s.ob("merge_all", "p:N*S", "2*S", arr + "put(out, vm::bbox<T,S>::merge_all(x, x + N));", FOR + "{" + mm + "}", api="vm::bbox::merge_all", **k)
        s.ob("merge_all.get", "p:N*S", "2*S", arr + f"put(out, vm::bbox<T,S>::merge_all(x, x + N{g}));", FOR + "{" + mm + "out[i] *= 2; out[S+i] *= 2; }", api="vm::bbox::merge_all", **k)
        s.ob("builder.points", "p:N*S", "2*S+1", arr + "typename vm::bbox<T,S>::builder w; for (auto& v : x) w.add(v); put(out, w.bounds()); out[2*S] = w.initialized();", FOR + "{" + mm + "} out[2*S] = 1;", api="vm::bbox::builder::add", **k)
        s.ob("builder.range", "p:N*S", "2*S+1", arr + "typename vm::bbox<T,S>::builder w; w.add(x, x + N); put(out, w.bounds()); out[2*S] = w.initialized();", FOR + "{" + mm + "} out[2*S] = 1;", api="vm::bbox::builder::add", **k)
        s.ob("builder.range.get", "p:N*S", "2*S+1", arr + f"typename vm::bbox<T,S>::builder w; w.add(x, x + N{g}); put(out, w.bounds()); out[2*S] = w.initialized();", FOR + "{" + mm + "out[i] *= 2; out[S+i] *= 2; } out[2*S] = 1;", api="vm::bbox::builder::add", **k)
    s.ob("builder.empty", "a", "2*S+1", "typename vm::bbox<T,S>::builder w; put(out, w.bounds()); out[2*S] = w.initialized();", "for (std::size_t i = 0; i <= 2*S; ++i) out[i] = 0;", api="vm::bbox::builder::bounds", **e)
    s.ob("builder.boxes", "lo:S hi:S p:S q:S", "2*S+1", "typename vm::bbox<T,S>::builder w; w.add(B<S>(lo, hi)); w.add(B<S>(p, q)); put(out, w.bounds()); out[2*S] = w.initialized();",
         ok2 + FOR + "{ out[i] = s_min(lo[i], p[i]); out[S+i] = s_max(hi[i], q[i]); } out[2*S] = 1;", api="vm::bbox::builder::add", **e)
    s.ob("builder.mixed", "lo:S hi:S p:S", "4*S", "typename vm::bbox<T,S>::builder w; w.add(B<S>(lo, hi)); w.add(V<S>(p)); put(out, w.bounds()); typename vm::bbox<T,S>::builder u; u.add(V<S>(p)); u.add(B<S>(lo, hi)); put(out + 2*S, u.bounds());",
         ok + FOR + "{ out[2*S+i] = out[i] = s_min(lo[i], p[i]); out[3*S+i] = out[S+i] = s_max(hi[i], p[i]); }", api="vm::bbox::builder::add", **e)
    s.ob("builder.sequence", "lo:S hi:S p:S q:S", "2*S", "typename vm::bbox<T,S>::builder w; w.add(V<S>(p)); w.add(B<S>(lo, hi)); w.add(V<S>(q)); put(out, w.bounds());",
         ok + FOR + "{ out[i] = s_min(s_min(lo[i], p[i]), q[i]); out[S+i] = s_max(s_max(hi[i], p[i]), q[i]); }", api="vm::bbox::builder::add", **e3)
    # predicates
    s.ob("is_valid", "lo:S hi:S", 2, "out[0] = vm::bbox<T,S>::is_valid(V<S>(lo), V<S>(hi)); vm::bbox<T,S> b; b.min = V<S>(lo); b.max = V<S>(hi); out[1] = b.is_valid();", "out[0] = 1; " + FOR + "if (lo[i] > hi[i]) out[0] = 0; out[1] = out[0];", api="vm::bbox::is_valid", **e)
    s.ob("is_empty", "lo:S hi:S", 1, b + "out[0] = b.is_empty();", ok + "out[0] = 0; " + FOR + "if (lo[i] == hi[i]) out[0] = 1;", api="vm::bbox::is_empty", **e)
    s.ob("contains.point", "lo:S hi:S p:S", 1, b + "out[0] = b.contains(V<S>(p));", ok + "out[0] = 1; " + FOR + "if (p[i] < lo[i] || p[i] > hi[i]) out[0] = 0;", api="vm::bbox::contains", **e)
    s.ob("contains.box", "lo:S hi:S p:S q:S", 1, b + c + "out[0] = b.contains(c);", ok2 + "out[0] = 1; " + FOR + "if (p[i] < lo[i] || q[i] > hi[i]) out[0] = 0;", api="vm::bbox::contains", **e)
    s.ob("encloses", "lo:S hi:S p:S q:S", 1, b + c + "out[0] = b.encloses(c);", ok2 + "out[0] = 1; " + FOR + "if (p[i] <= lo[i] || q[i] >= hi[i]) out[0] = 0;", api="vm::bbox::encloses", **e)
    s.ob("intersects", "lo:S hi:S p:S q:S", 2, b + c + "out[0] = b.intersects(c); out[1] = c.intersects(b);", ok2 + "out[0] = 1; " + FOR + "if (s_max(p[i], lo[i]) > s_min(q[i], hi[i])) out[0] = 0; out[1] = out[0];", api="vm::bbox::intersects", **e)
    s.ob("equal", "lo:S hi:S p:S q:S", 3, b + c + "out[0] = b == c; out[1] = b != c; out[2] = b == b;", ok2 + "out[0] = 1; " + FOR + "if (p[i] != lo[i] || q[i] != hi[i]) out[0] = 0; out[1] = 1 - out[0]; out[2] = 1;", api="vm::operator==", **e)
    s.ob("is_equal", "lo:S hi:S p:S q:S eps", 1, b + c + "out[0] = vm::is_equal(b, c, eps[0]);", ok2 + "vp_assume(eps[0] >= 0); out[0] = 1; " + FOR + "if (s_abs(p[i] - lo[i]) > eps[0] || s_abs(q[i] - hi[i]) > eps[0]) out[0] = 0;", api="vm::is_equal", time=150, **e)
    # measures
    s.ob("center", "lo:S hi:S", "S", b + "put(out, b.center());", ok + FOR + "out[i] = (lo[i] + hi[i]) / 2;", api="vm::bbox::center", **e)
    s.ob("size", "lo:S hi:S", "S", b + "put(out, b.size());", ok + FOR + "out[i] = hi[i] - lo[i];", api="vm::bbox::size", **e)
    s.ob("volume", "lo:S hi:S", 1, b + "out[0] = b.volume();", ok + "out[0] = 1; " + FOR + "out[0] *= hi[i] - lo[i];", api="vm::bbox::volume", **e)
    s.ob("constrain", "lo:S hi:S p:S", "S", b + "put(out, b.constrain(V<S>(p)));", ok + FOR + "out[i] = p[i] < lo[i] ? lo[i] : (p[i] > hi[i] ? hi[i] : p[i]);", api="vm::bbox::constrain", **e)
    s.ob("relative_position", "lo:S hi:S p:S", "S", b + "const auto r = b.relative_position(V<S>(p)); using R = typename vm::bbox<T,S>::Range; " + FOR + "out[i] = r[i] == R::less ? -1 : (r[i] == R::greater ? 1 : (r[i] == R::within ? 0 : 7));",
         ok + FOR + "out[i] = p[i] < lo[i] ? -1 : (p[i] > hi[i] ? 1 : 0);", api="vm::bbox::relative_position", **e)
    s.ob("corner", "lo:3 hi:3", 24, "constexpr std::size_t S = 3; " + b + "using C = typename vm::bbox<T,3>::Corner; for (int k = 0; k < 8; ++k) put(out + 3*k, b.corner(k & 1 ? C::max : C::min, k & 2 ? C::max : C::min, k & 4 ? C::max : C::min));",
         "constexpr std::size_t S = 3; " + ok + "for (int k = 0; k < 8; ++k) for (int i = 0; i < 3; ++i) out[3*k+i] = (k >> i) & 1 ? hi[i] : lo[i];", T=FD, api="vm::bbox::corner", hdr=HDR)
    s.ob("corner.array", "lo:S hi:S", "S", b + "using C = typename vm::bbox<T,S>::Corner; C c[S]; for (std::size_t i = 0; i < S; ++i) c[i] = (K >> i) & 1 ? C::max : C::min; put(out, b.corner(c));",
         ok + FOR + "out[i] = (K >> i) & 1 ? hi[i] : lo[i];", T=FD, S=[1, 2, 3, 4], K=[0, 1, 2, 3, 5, 10, 15], api="vm::bbox::corner", hdr=HDR)
    # new boxes
    s.ob("expand", "lo:S hi:S f", "2*S", b + "put(out, b.expand(f[0]));", ok + FOR + "{ vp_assume(lo[i] - f[0] <= hi[i] + f[0]); out[i] = lo[i] - f[0]; out[S+i] = hi[i] + f[0]; }", api="vm::bbox::expand", **e)
    s.ob("translate", "lo:S hi:S d:S", "2*S", b + "put(out, b.translate(V<S>(d)));", ok + FOR + "{ out[i] = lo[i] + d[i]; out[S+i] = hi[i] + d[i]; }", api="vm::bbox::translate", **e)
    s.ob("repair", "lo:S hi:S", "2*S", "vm::bbox<T,S> b; b.min = V<S>(lo); b.max = V<S>(hi); put(out, vm::repair(b));", FOR + "{ out[i] = s_min(lo[i], hi[i]); out[S+i] = s_max(lo[i], hi[i]); }", **e)
    s.ob("merge.box", "lo:S hi:S p:S q:S", "2*S", b + c + "put(out, vm::merge(b, c));", ok2 + FOR + "{ out[i] = s_min(lo[i], p[i]); out[S+i] = s_max(hi[i], q[i]); }", **e)
    s.ob("merge.point", "lo:S hi:S p:S", "2*S", b + "put(out, vm::merge(b, V<S>(p)));", ok + FOR + "{ out[i] = s_min(lo[i], p[i]); out[S+i] = s_max(hi[i], p[i]); }", **e)
    s.ob("intersect", "lo:S hi:S p:S q:S", "2*S", b + c + "put(out, vm::intersect(b, c));",
         ok2 + "bool some = true; " + FOR + "some = some && s_max(lo[i], p[i]) <= s_min(hi[i], q[i]); " + FOR + "{ out[i] = some ? s_max(lo[i], p[i]) : 0; out[S+i] = some ? s_min(hi[i], q[i]) : 0; }", **e3)
    # the image of a box under an affine map is bounded by |M| applied to the half size
    A = "T m[16]; for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) m[c*4+r] = r < 3 ? a[c*3+r] : (c == 3 ? 1 : 0); "
    for nm, pre in (("diagonal", "for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) if (r != c) vp_assume(a[c*3+r] == 0); "),
                    ("shear", "vp_assume(a[1] == 0); vp_assume(a[2] == 0); vp_assume(a[5] == 0); vp_assume(a[7] == 0); vp_assume(a[6] == 0); "),
                    ("permute", "for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) if (r != (c + 1) % 3) vp_assume(a[c*3+r] == 0); "),
                    ("affine", "")):
        s.ob("transform." + nm, "lo:3 hi:3 a:12", 6, "constexpr std::size_t S = 3; " + b + A + "put(out, b.transform(M<4,4>(m)));",
             "constexpr std::size_t S = 3; " + ok + pre + "for (int r = 0; r < 3; ++r) { T l = a[9+r], h = a[9+r]; for (int c = 0; c < 3; ++c) { const T u = a[c*3+r] * lo[c], v = a[c*3+r] * hi[c]; l += a[c*3+r] < 0 ? v : u; h += a[c*3+r] < 0 ? u : v; } out[r] = l; out[3+r] = h; }",
             T=FD, api="vm::bbox::transform", hdr=HDR, time=100)
    # faces, edges, vertices
    C3 = "constexpr std::size_t S = 3; "
    s.ob("vertices", "lo:3 hi:3", 25, C3 + b + "int n = 0; b.for_each_vertex([&](const vm::vec<T,3>& v) { if (n < 8) put(out + 3*n, v); ++n; }); out[24] = n;",
         C3 + ok + "const int w[8] = {7, 5, 4, 6, 0, 1, 3, 2}; for (int k = 0; k < 8; ++k) for (int i = 0; i < 3; ++i) out[3*k+i] = (w[k] >> i) & 1 ? hi[i] : lo[i]; out[24] = 8;", T=FD, api="vm::bbox::for_each_vertex", hdr=HDR)
    s.ob("vertices.array", "lo:3 hi:3", 24, C3 + b + "const auto a = b.vertices(); for (int k = 0; k < 8; ++k) put(out + 3*k, a[k]);",
         C3 + ok + "const int w[8] = {7, 5, 4, 6, 0, 1, 3, 2}; for (int k = 0; k < 8; ++k) for (int i = 0; i < 3; ++i) out[3*k+i] = (w[k] >> i) & 1 ? hi[i] : lo[i];", T=FD, api="vm::bbox::vertices", hdr=HDR)
    s.ob("edges", "lo:3 hi:3", 73, C3 + b + "int n = 0; b.for_each_edge([&](const vm::vec<T,3>& v, const vm::vec<T,3>& u) { if (n < 12) { put(out + 6*n, v); put(out + 6*n + 3, u); } ++n; }); out[72] = n;",
         C3 + ok + "const int w[12][2] = {{7,5},{5,4},{4,6},{6,7},{0,1},{1,3},{3,2},{2,0},{0,4},{2,6},{3,7},{1,5}}; for (int k = 0; k < 12; ++k) for (int j = 0; j < 2; ++j) for (int i = 0; i < 3; ++i) out[6*k+3*j+i] = (w[k][j] >> i) & 1 ? hi[i] : lo[i]; out[72] = 12;", T=FD, api="vm::bbox::for_each_edge", hdr=HDR)
    FC = C3 + b + "int n = 0; b.for_each_face([&](const vm::vec<T,3>& v0, const vm::vec<T,3>& v1, const vm::vec<T,3>& v2, const vm::vec<T,3>& v3, const vm::vec<T,3>& f) { const vm::vec<T,3>* q[5] = {&v0, &v1, &v2, &v3, &f}; "
    s.ob("faces", "lo:3 hi:3", 91, FC + "if (n < 6) for (int j = 0; j < 5; ++j) put(out + 15*n + 3*j, *q[j]); ++n; }); out[90] = n;",
         C3 + ok + "const int w[6][4] = {{7,5,4,6},{0,1,3,2},{0,4,5,1},{7,6,2,3},{0,2,6,4},{7,3,1,5}}; const T f[6][3] = {{0,0,1},{0,0,-1},{0,-1,0},{0,1,0},{-1,0,0},{1,0,0}}; "
         "for (int k = 0; k < 6; ++k) { for (int j = 0; j < 4; ++j) for (int i = 0; i < 3; ++i) out[15*k+3*j+i] = (w[k][j] >> i) & 1 ? hi[i] : lo[i]; for (int i = 0; i < 3; ++i) out[15*k+12+i] = f[k][i]; } out[90] = 6;", T=FD, api="vm::bbox::for_each_face", hdr=HDR)
    return s.obs
