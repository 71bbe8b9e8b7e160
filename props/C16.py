"""Lines, rays, segments and polygons."""
from engine.obl import Spec
from .common import *
from .C15 import HDR as H15

INCLUDES = ["scalar.h", "vec.h", "mat.h", "mat_ext.h", "plane.h", "line.h", "ray.h", "segment.h", "abstract_line.h"]
HDR = H15 + """
template <std::size_t S, typename T> vm::line<T,S> L(const T* p, const T* d) { return vm::line<T,S>(V<S>(p), V<S>(d)); }
template <std::size_t S, typename T> vm::ray<T,S> R(const T* p, const T* d) { return vm::ray<T,S>(V<S>(p), V<S>(d)); }
template <std::size_t S, typename T> vm::segment<T,S> G(const T* p, const T* d) { return vm::segment<T,S>(V<S>(p), V<S>(d)); }
template <typename T, std::size_t S> void put(T* out, const vm::line<T,S>& l) { put(out, l.point); put(out + S, l.direction); }
template <typename T, std::size_t S> void put(T* out, const vm::ray<T,S>& l) { put(out, l.origin); put(out + S, l.direction); }
template <typename T, std::size_t S> void put(T* out, const vm::segment<T,S>& l) { put(out, l.start()); put(out + S, l.end()); }
template <std::size_t S, typename T> int s_cmp(const T* a, const T* b, T e = T(0)) { for (std::size_t i = 0; i < S; ++i) { if (a[i] < b[i] - e) return -1; if (a[i] > b[i] + e) return 1; } return 0; }
template <std::size_t S, typename T> int s_cmp2(const T* a, const T* b, const T* c, const T* d, T e = T(0)) { const int r = s_cmp<S>(a, c, e); return r ? r : s_cmp<S>(b, d, e); }
template <std::size_t S, typename T> void s_sort(const T* a, const T* b, T* out) { const bool f = s_cmp<S>(a, b) <= 0; for (std::size_t i = 0; i < S; ++i) { out[i] = f ? a[i] : b[i]; out[S+i] = f ? b[i] : a[i]; } }
"""


def obligations(tier):
    s = Spec("C16")
    e = dict(T=FD, S=[1, 2, 3], hdr=HDR)
    e2 = dict(T=FD, S=[2, 3], hdr=HDR)
    e3 = dict(T=FD, hdr=HDR)
    two = FOR + "{ out[i] = p[i]; out[S+i] = d[i]; }"
    unit = "vp_assume((s_dot<S>(d, d)) == 1); "
    for nm, ty, mk in (("line", "line", "L"), ("ray", "ray", "R")):
        s.ob(f"{nm}.default", "a", "2*S", f"put(out, vm::{ty}<T,S>());", "for (std::size_t i = 0; i < 2*S; ++i) out[i] = 0;", **e)
        s.ob(f"{nm}.ctor", "p:S d:S", "4*S", f"const auto l = {mk}<S>(p, d); put(out, l); put(out + 2*S, l.get_origin()); put(out + 3*S, l.get_direction());", FOR + "{ out[i] = out[2*S+i] = p[i]; out[S+i] = out[3*S+i] = d[i]; }", **e)
        s.ob(f"{nm}.copy", "p:S d:S", "2*S", f"const auto l = {mk}<S>(p, d); auto k = l; vm::{ty}<T,S> w; w = k; put(out, w);", two, **e)
        s.ob(f"{nm}.convert", "p:S:r:float d:S:r:float", "2*S", f"put(out, vm::{ty}<T,S>({mk}<S>(p, d)));", FOR + "{ out[i] = T(p[i]); out[S+i] = T(d[i]); }", **e)
        s.ob(f"{nm}.distance_to_projected_point", "p:S d:S x:S", 1, f"out[0] = vm::distance_to_projected_point({mk}<S>(p, d), V<S>(x));", "T r = 0; " + FOR + "r += (x[i] - p[i]) * d[i]; out[0] = r;", api="vm::distance_to_projected_point", **e)
        s.ob(f"{nm}.point_at_distance", "p:S d:S t", "S", f"put(out, vm::point_at_distance({mk}<S>(p, d), t[0]));", FOR + "out[i] = p[i] + t[0] * d[i];", api="vm::point_at_distance", **e)
        s.ob(f"{nm}.project_point", "p:S d:S x:S", "S", f"put(out, vm::project_point({mk}<S>(p, d), V<S>(x)));", unit + "T r = 0; " + FOR + "r += (x[i] - p[i]) * d[i]; " + FOR + "out[i] = p[i] + r * d[i];", api="vm::project_point", **e)
        s.ob(f"{nm}.is_equal", "p:S d:S q:S f:S eps", 1, f"out[0] = vm::is_equal({mk}<S>(p, d), {mk}<S>(q, f), eps[0]);", "vp_assume(eps[0] >= 0); out[0] = 1; " + FOR + "if (s_abs(p[i] - q[i]) > eps[0] || s_abs(d[i] - f[i]) > eps[0]) out[0] = 0;", api="vm::is_equal", **e)
        for fn in ("transform", "transform_c"):
            # the image of the point; the direction is mapped without the translation and normalised
            s.ob(f"{nm}.{fn}", "p:S d:S a:S*(S+1)", "2*S", f"vm::mat<T,S+1,S+1> m; for (std::size_t c = 0; c <= S; ++c) for (std::size_t r = 0; r < S; ++r) m[c][r] = a[c*S+r]; put(out, {mk}<S>(p, d).{fn}(m));",
                 "T w[S]; for (std::size_t r = 0; r < S; ++r) { out[r] = a[S*S+r]; w[r] = 0; for (std::size_t c = 0; c < S; ++c) { out[r] += a[c*S+r] * p[c]; w[r] += a[c*S+r] * d[c]; } } const T l = std::sqrt(s_dot<S>(w, w)); vp_assume(l > 0); " + FOR + "out[S+i] = w[i] / l;", api=f"vm::{ty}::{fn}", **e)
    # lines: equality is equality of point sets
    s.ob("line.make_canonical", "p:S d:S", "2*S", "put(out, L<S>(p, d).make_canonical());",
         unit + "T r = 0; " + FOR + "r += p[i] * d[i]; bool neg = false, done = false; " + FOR + "if (!done && d[i] != 0) { neg = d[i] < 0; done = true; } " + FOR + "{ out[i] = p[i] - r * d[i]; out[S+i] = neg ? -d[i] : d[i]; }", api="vm::line::make_canonical", **e)
    s.ob("line.canonical.orthogonal", "p:S d:S", 1, "const auto l = L<S>(p, d).make_canonical(); out[0] = vm::dot(l.point, l.direction);", unit + "out[0] = 0;", api="vm::line::make_canonical", **e)
    s.ob("line.equal.same_set", "p:S d:S t", 4, "const auto l = L<S>(p, d); T q[S], f[S]; " + FOR + "{ q[i] = p[i] + t[0] * d[i]; f[i] = -d[i]; } const auto k = L<S>(q, d), m = L<S>(q, f); out[0] = l == k; out[1] = l == m; out[2] = l != k; out[3] = l != m;", unit + "out[0] = out[1] = 1; out[2] = out[3] = 0;", api="vm::operator==", **e)
    s.ob("line.equal", "p:S d:S q:S f:S", 2, "const auto l = L<S>(p, d), k = L<S>(q, f); out[0] = l == k; out[1] = l != k;",
         unit + "vp_assume((s_dot<S>(f, f)) == 1); T r = 0; " + FOR + "r += (q[i] - p[i]) * d[i]; bool on = true, pos = true, neg = true; " + FOR + "{ on = on && p[i] + r * d[i] == q[i]; pos = pos && d[i] == f[i]; neg = neg && d[i] == -f[i]; } out[0] = on && (pos || neg); out[1] = 1 - out[0];", api="vm::operator==", T=FD, S=[1, 2], hdr=HDR)
    s.ob("line.equal.parallel", "p:S d:S q:S", 4, "const auto l = L<S>(p, d), k = L<S>(q, d); T f[S]; " + FOR + "f[i] = -d[i]; const auto m = L<S>(q, f); out[0] = l == k; out[1] = l != k; out[2] = l == m; out[3] = l != m;",
         unit + "T r = 0; " + FOR + "r += (q[i] - p[i]) * d[i]; bool on = true; " + FOR + "on = on && p[i] + r * d[i] == q[i]; out[0] = on; out[1] = 1 - out[0]; out[2] = out[0]; out[3] = out[1];", api="vm::operator==", **e)
    # rays
    s.ob("ray.equal", "p:S d:S q:S f:S", 2, "const auto l = R<S>(p, d), k = R<S>(q, f); out[0] = l == k; out[1] = l != k;", "out[0] = 1; " + FOR + "if (p[i] != q[i] || d[i] != f[i]) out[0] = 0; out[1] = 1 - out[0];", api="vm::operator==", **e)
    s.ob("ray.point_status", "p:S d:S x:S", 1, "out[0] = st<T>(R<S>(p, d).point_status(V<S>(x)));", "const T E = vm::constants<T>::point_status_epsilon(); T r = 0; " + FOR + "r += (x[i] - p[i]) * d[i]; out[0] = r > E ? 1 : (r < -E ? -1 : 0);", api="vm::ray::point_status", **e)
    # segments: unordered pairs of points in canonical order
    s.ob("segment.ctor", "p:S q:S", "4*S", "put(out, G<S>(p, q)); put(out + 2*S, G<S>(q, p));", "s_sort<S>(p, q, out); s_sort<S>(p, q, out + 2*S);", **e)
    s.ob("segment.default", "a", "2*S", "put(out, vm::segment<T,S>());", "for (std::size_t i = 0; i < 2*S; ++i) out[i] = 0;", **e)
    s.ob("segment.copy", "p:S q:S", "2*S", "const auto g = G<S>(p, q); auto h = g; vm::segment<T,S> w; w = h; put(out, w);", "s_sort<S>(p, q, out);", **e)
    s.ob("segment.convert", "p:S:r:float q:S:r:float", "2*S", "put(out, vm::segment<T,S>(G<S>(p, q)));", "T a[S], b[S]; " + FOR + "{ a[i] = T(p[i]); b[i] = T(q[i]); } s_sort<S>(a, b, out);", **e)
    s.ob("segment.convert.to_int", "p:S:i q:S:i f:S g:S", 1, "T a[S], b[S]; " + FOR + "{ a[i] = p[i] + f[i]; b[i] = q[i] + g[i]; } const auto s1 = vm::segment<int,S>(G<S>(a, b)); out[0] = s1 == vm::segment<int,S>(s1.start(), s1.end());",
         FOR + "{ vp_assume(p[i] >= 0); vp_assume(q[i] >= 0); vp_assume(f[i] >= 0); vp_assume(f[i] < 1); vp_assume(g[i] >= 0); vp_assume(g[i] < 1); } out[0] = 1;", T=FD, S=[1, 2], hdr=HDR)
    s.ob("segment.origin", "p:S q:S", "S", "put(out, G<S>(p, q).get_origin());", "T w[2*S]; s_sort<S>(p, q, w); " + FOR + "out[i] = w[i];", api="vm::segment::get_origin", **e)
    s.ob("segment.direction", "p:S q:S", "2*S", "const auto g = G<S>(p, q); put(out, g.direction()); put(out + S, g.get_direction());", "T w[2*S]; s_sort<S>(p, q, w); T l = 0; " + FOR + "l += (q[i] - p[i]) * (q[i] - p[i]); vp_assume(l > 0); l = std::sqrt(l); " + FOR + "out[i] = out[S+i] = (w[S+i] - w[i]) / l;", api="vm::segment::direction", **e)
    s.ob("segment.length", "p:S q:S", 3, "const auto g = G<S>(p, q); out[0] = g.length(); out[1] = g.length_c(); out[2] = g.squared_length();", "T l = 0; " + FOR + "l += (q[i] - p[i]) * (q[i] - p[i]); out[0] = out[1] = std::sqrt(l); out[2] = l;", api="vm::segment::length", **e)
    s.ob("segment.center", "p:S q:S", "S", "put(out, G<S>(p, q).center());", FOR + "out[i] = (p[i] + q[i]) / 2;", api="vm::segment::center", **e)
    s.ob("segment.translate", "p:S q:S t:S", "4*S", "put(out, G<S>(p, q).translate(V<S>(t))); put(out + 2*S, vm::translate(G<S>(p, q), V<S>(t)));", "T a[S], b[S]; " + FOR + "{ a[i] = p[i] + t[i]; b[i] = q[i] + t[i]; } s_sort<S>(a, b, out); s_sort<S>(a, b, out + 2*S);", api="vm::segment::translate", **e)
    DQ = "T q[S]; " + FOR + "q[i] = p[i] + d[i]; "
    LEN = "T l = 0; " + FOR + "l += d[i] * d[i]; vp_assume(l > 0); "
    s.ob("segment.transform", "p:S d:S a:S*(S+1)", "2*S", DQ + "vm::mat<T,S+1,S+1> m; for (std::size_t c = 0; c <= S; ++c) for (std::size_t r = 0; r < S; ++r) m[c][r] = a[c*S+r]; put(out, G<S>(p, q).transform(m));",
         DQ + "T x[S], y[S]; for (std::size_t r = 0; r < S; ++r) { x[r] = y[r] = a[S*S+r]; for (std::size_t c = 0; c < S; ++c) { x[r] += a[c*S+r] * p[c]; y[r] += a[c*S+r] * q[c]; } } s_sort<S>(x, y, out);", api="vm::segment::transform", **e2)
    s.ob("segment.distance_to_projected_point", "p:S d:S x:S", 1, DQ + "out[0] = vm::distance_to_projected_point(G<S>(p, q), V<S>(x));", DQ + LEN + "T r = 0; " + FOR + "r += (x[i] - (s_cmp<S>(p, q) < 0 ? p[i] : q[i])) * d[i]; out[0] = ((s_cmp<S>(p, q)) < 0 ? r : -r) / std::sqrt(l);", api="vm::distance_to_projected_point", **e)
    s.ob("segment.project_point", "p:S d:S x:S", "S", DQ + "put(out, vm::project_point(G<S>(p, q), V<S>(x)));", LEN + "T r = 0; " + FOR + "r += (x[i] - p[i]) * d[i]; " + FOR + "out[i] = p[i] + (r / l) * d[i];", api="vm::project_point", **e)
    # the points within a distance of a segment: x = start + t * (end - start) + w with w orthogonal
    s.ob("segment.contains.on", "p:S d:S t m", 1, DQ + "T x[S]; " + FOR + "x[i] = p[i] + t[0] * d[i]; out[0] = G<S>(p, q).contains(V<S>(x), m[0]);", "vp_assume(t[0] >= 0); vp_assume(t[0] <= 1); vp_assume(m[0] >= 0); " + LEN + "out[0] = 1;", api="vm::segment::contains", **e)
    s.ob("segment.contains.beyond", "p:S d:S t m", 2, DQ + "T x[S], y[S]; " + FOR + "{ x[i] = p[i] - t[0] * d[i]; y[i] = q[i] + t[0] * d[i]; } out[0] = G<S>(p, q).contains(V<S>(x), m[0]); out[1] = G<S>(p, q).contains(V<S>(y), m[0]);",
         "vp_assume(t[0] > 0); vp_assume(m[0] >= 0); " + LEN + "out[0] = out[1] = t[0]*t[0]*l <= m[0]*m[0];", api="vm::segment::contains", **e)
    s.ob("segment.contains.off", "p:2 d:2 t h m", 1, "constexpr std::size_t S = 2; " + DQ + "T x[2]; x[0] = p[0] + t[0] * d[0] - h[0] * d[1]; x[1] = p[1] + t[0] * d[1] + h[0] * d[0]; out[0] = G<2>(p, q).contains(V<2>(x), m[0]);",
         "constexpr std::size_t S = 2; vp_assume(m[0] >= 0); " + LEN + "const T u = t[0] < 0 ? -t[0] : (t[0] > 1 ? t[0] - 1 : 0); out[0] = (u*u + h[0]*h[0]) * l <= m[0]*m[0];", api="vm::segment::contains", **e3)
    CR = "const T w[3] = {d[1]*u[2] - d[2]*u[1], d[2]*u[0] - d[0]*u[2], d[0]*u[1] - d[1]*u[0]}; "
    D3 = "T d[3]; for (std::size_t i = 0; i < 3; ++i) d[i] = i < K ? T(0) : f[i]; "
    s.ob("segment.contains.off3", "p:3 f:3 u:3 t m", 1, "constexpr std::size_t S = 3; " + D3 + DQ + CR + "T x[3]; for (int i = 0; i < 3; ++i) x[i] = p[i] + t[0] * d[i] + w[i]; out[0] = G<3>(p, q).contains(V<3>(x), m[0]);",
         "constexpr std::size_t S = 3; vp_assume(m[0] >= 0); vp_assume(f[K] > 0); " + D3 + LEN + CR + "const T b = t[0] < 0 ? -t[0] : (t[0] > 1 ? t[0] - 1 : 0); out[0] = b*b*l + (s_dot<3>(w, w)) <= m[0]*m[0];", api="vm::segment::contains", K=[0, 1, 2], **e3)
    s.ob("segment.contains.point", "p:S x:S m", 1, "out[0] = G<S>(p, p).contains(V<S>(x), m[0]);", "vp_assume(m[0] >= 0); T l = 0; " + FOR + "l += (x[i] - p[i]) * (x[i] - p[i]); out[0] = l <= m[0]*m[0];", api="vm::segment::contains", **e)
    # order
    c4 = "p:S q:S u:S v:S"
    srt = "T a[2*S], b[2*S]; s_sort<S>(p, q, a); s_sort<S>(u, v, b); "
    s.ob("segment.compare", c4 + " eps", 1, "out[0] = vm::compare(G<S>(p, q), G<S>(u, v), eps[0]);", "vp_assume(eps[0] >= 0); " + srt + "out[0] = s_cmp2<S>(a, a + S, b, b + S, eps[0]);", api="vm::compare", **e)
    s.ob("segment.compare.default", c4, 1, "out[0] = vm::compare(G<S>(p, q), G<S>(u, v));", srt + "out[0] = s_cmp2<S>(a, a + S, b, b + S);", api="vm::compare", **e)
    s.ob("segment.is_equal", c4 + " eps", 1, "out[0] = vm::is_equal(G<S>(p, q), G<S>(u, v), eps[0]);", "vp_assume(eps[0] >= 0); " + srt + "out[0] = (s_cmp2<S>(a, a + S, b, b + S, eps[0])) == 0;", api="vm::is_equal", **e)
    for op in ("==", "!=", "<", "<=", ">", ">="):
        s.ob("segment.op" + op, c4, 1, f"out[0] = G<S>(p, q) {op} G<S>(u, v);", srt + f"out[0] = (s_cmp2<S>(a, a + S, b, b + S)) {op} 0;", api="vm::operator" + op, **e)
    s.ob("segment.equal.same_set", "p:S q:S", 4, "const auto g = G<S>(p, q), h = G<S>(q, p); out[0] = g == h; out[1] = g != h; out[2] = g < h; out[3] = vm::compare(g, h);", "out[0] = 1; out[1] = out[2] = out[3] = 0;", api="vm::operator==", **e)
    s.ob("segment.get_vertices", c4, "4*S+1", "const vm::segment<T,S> g[2] = {G<S>(p, q), G<S>(u, v)}; struct O { T* t; int n; O& operator=(const vm::vec<T,S>& w) { if (n < 4) put(t + n*S, w); return *this; } O& operator++() { ++n; return *this; } O& operator*() { return *this; } }; struct W { O* o; W& operator=(const vm::vec<T,S>& w) { *o = w; return *this; } W& operator++() { ++*o; return *this; } W& operator*() { return *this; } }; O o{out, 0}; vm::segment<T,S>::get_vertices(g, g + 2, W{&o}); out[4*S] = o.n;",
         "s_sort<S>(p, q, out); s_sort<S>(u, v, out + 2*S); out[4*S] = 4;", api="vm::segment::get_vertices", **e)
    return s.obs
