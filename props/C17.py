"""Polygons: canonical vertex order, equality up to rotation, transformation."""
from engine.obl import Spec
from .common import *

INCLUDES = ["scalar.h", "vec.h", "mat.h", "mat_ext.h", "vec_ext.h", "polygon.h", "segment.h"]
HDR = """
template <std::size_t N, std::size_t S, typename T> vm::polygon<T,S> P(const T* p) { std::vector<vm::vec<T,S>> v; for (std::size_t i = 0; i < N; ++i) v.push_back(V<S>(p + i*S)); return vm::polygon<T,S>(v); }
template <typename T, std::size_t S> void put(T* out, const vm::polygon<T,S>& p, std::size_t n) { out[0] = T(p.vertexCount()); for (std::size_t i = 0; i < n; ++i) put(out + 1 + i*S, p.vertices()[i]); }
template <std::size_t S, typename T> int s_cmp(const T* a, const T* b, T e = T(0)) { for (std::size_t i = 0; i < S; ++i) { if (a[i] < b[i] - e) return -1; if (a[i] > b[i] + e) return 1; } return 0; }
// the cyclic sequence starting at its first smallest vertex
template <std::size_t N, std::size_t S, typename T> void s_canon(const T* p, T* out) {
  std::size_t k = 0; for (std::size_t i = 1; i < N; ++i) if (s_cmp<S>(p + i*S, p + k*S) < 0) k = i;
  for (std::size_t j = 0; j < N; ++j) for (std::size_t i = 0; i < S; ++i) { T x = p[i]; for (std::size_t m = 0; m < N; ++m) if ((k + j) % N == m) x = p[m*S+i]; out[j*S+i] = x; }
}
template <std::size_t N, std::size_t S, typename T> int s_cmpv(const T* a, const T* b, T e = T(0)) { for (std::size_t i = 0; i < N; ++i) { const int c = s_cmp<S>(a + i*S, b + i*S, e); if (c) return c; } return 0; }
"""



def obligations(tier):
    s = Spec("C17")
    nv = dict(T=FD, S=[2, 3], N=[1, 2, 3], hdr=HDR)
    n1 = dict(T=FD, S=[2], N=[4], hdr=HDR)
    g = dict(T=FD, S=[2, 3], N=[1, 2, 3, 4], hdr=HDR)
    # "front": the first vertex is strictly smallest already, by its first coordinate
    front = "for (std::size_t i = 1; i < N; ++i) vp_assume(p[0] < p[i*S]); "
    frontq = front + "for (std::size_t i = 1; i < N; ++i) vp_assume(q[0] < q[i*S]); "
    for o in (nv, n1):
        s.ob("polygon.vector", "p:N*S", "N*S+1", "put(out, P<N,S>(p), N);", "out[0] = N; s_canon<N,S>(p, out + 1);", api="vm::polygon::polygon", **o)
    s.ob("polygon.move", "p:N*S", "N*S+1", "std::vector<vm::vec<T,S>> v; for (std::size_t i = 0; i < N; ++i) v.push_back(V<S>(p + i*S)); put(out, vm::polygon<T,S>(std::move(v)), N);", "out[0] = N; s_canon<N,S>(p, out + 1);", **nv)
    for n, l in ((1, "V<S>(p)"), (2, "V<S>(p), V<S>(p+S)"), (3, "V<S>(p), V<S>(p+S), V<S>(p+2*S)")):
        s.ob("polygon.list", "p:N*S", "N*S+1", "put(out, vm::polygon<T,S>{" + l + "}, N);", "out[0] = N; s_canon<N,S>(p, out + 1);", T=FD, S=[2, 3], N=[n], hdr=HDR)
    s.ob("polygon.default", "a", 1, "out[0] = T(vm::polygon<T,S>().vertexCount()); ", "out[0] = 0;", T=FD, S=[2, 3], hdr=HDR)
    s.ob("polygon.copy", "p:N*S", "2*N*S+2", "const auto a = P<N,S>(p); auto b = a; vm::polygon<T,S> c; c = b; put(out, c, N); vm::polygon<T,S> d(std::move(b)); vm::polygon<T,S> e; e = std::move(d); put(out + N*S+1, e, N);",
         "out[0] = out[N*S+1] = N; for (std::size_t i = 0; i < N*S; ++i) out[1+i] = out[N*S+2+i] = p[i];", pre=front, **g)
    s.ob("polygon.convert", "p:N*S:r:float", "N*S+1", "put(out, vm::polygon<T,S>(P<N,S>(p)), N);", "T t[N*S]; for (std::size_t i = 0; i < N*S; ++i) t[i] = T(p[i]); out[0] = N; s_canon<N,S>(t, out + 1);", **nv)
    s.ob("polygon.convert.to_int", "p:N*S:i f:N*S", "N*S+1", "T t[N*S]; for (std::size_t i = 0; i < N*S; ++i) t[i] = p[i] + f[i]; const vm::polygon<int,S> k(P<N,S>(t)); out[0] = T(k.vertexCount()); for (std::size_t i = 0; i < N; ++i) putc(out + 1 + i*S, k.vertices()[i]);",
         "T t[N*S]; for (std::size_t i = 0; i < N*S; ++i) { vp_assume(p[i] >= 0); vp_assume(f[i] >= 0); vp_assume(f[i] < 1); t[i] = p[i]; } out[0] = N; s_canon<N,S>(t, out + 1);", T=FD, S=[2], N=[2, 3], pre=front, hdr=HDR)
    s.ob("polygon.convert.to_int.tied", "a:1:i b:1:i f g:1:r", 4, "const T p[4] = { a[0] + f[0], T(b[0]), a[0] + g[0], T(b[0] - 1) }; const vm::polygon<int,2> k(P<2,2>(p)); putc(out, k.vertices()[0]); putc(out + 2, k.vertices()[1]);",
         "vp_assume(a[0] >= 0); vp_assume(b[0] >= 1); vp_assume(f[0] >= 0); vp_assume(f[0] < g[0]); vp_assume(g[0] < 1); out[0] = out[2] = a[0]; out[1] = b[0] - 1; out[3] = b[0];", T=FD, hdr=HDR)
    s.ob("polygon.hasVertex", "p:N*S x:S", 1, "out[0] = P<N,S>(p).hasVertex(V<S>(x));", "out[0] = 0; for (std::size_t i = 0; i < N; ++i) if (s_cmp<S>(p + i*S, x) == 0) out[0] = 1;", api="vm::polygon::hasVertex", pre=front, **g)
    s.ob("polygon.iterate", "p:N*S", "2*N*S+2", "const auto a = P<N,S>(p); std::size_t j = 0; for (auto it = a.begin(); it != a.end(); ++it, ++j) put(out + j*S, *it); out[2*N*S] = T(j); j = 0; for (auto it = a.rbegin(); it != a.rend(); ++it, ++j) put(out + (N + j)*S, *it); out[2*N*S+1] = T(j);",
         "for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < S; ++j) { out[i*S+j] = p[i*S+j]; out[(N+i)*S+j] = p[(N-1-i)*S+j]; } out[2*N*S] = out[2*N*S+1] = N;", pre=front, **g)
    s.ob("polygon.center", "p:N*S", "S", "put(out, P<N,S>(p).center());", "for (std::size_t j = 0; j < S; ++j) { T t = 0; for (std::size_t i = 0; i < N; ++i) t += p[i*S+j]; out[j] = t / T(N); }", api="vm::polygon::center", **nv)
    s.ob("polygon.center.front", "p:N*S", "S", "put(out, P<N,S>(p).center());", "for (std::size_t j = 0; j < S; ++j) { T t = 0; for (std::size_t i = 0; i < N; ++i) t += p[i*S+j]; out[j] = t / T(N); }", api="vm::polygon::center", T=FD, S=[2, 3], N=[4, 5], pre=front, hdr=HDR)
    s.ob("polygon.invert", "p:N*S", "N*S+1", "put(out, P<N,S>(p).invert(), N);", "out[0] = N; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < S; ++j) out[1+i*S+j] = p[((N - i) % N)*S+j];", api="vm::polygon::invert", pre=front, **g)
    s.ob("polygon.invert.twice", "p:N*S", "N*S+1", "put(out, P<N,S>(p).invert().invert(), N);", "out[0] = N; for (std::size_t i = 0; i < N*S; ++i) out[1+i] = p[i];", api="vm::polygon::invert", pre=front, **g)
    s.ob("polygon.translate", "p:N*S d:S", "N*S+1", "put(out, P<N,S>(p).translate(V<S>(d)), N);", "out[0] = N; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < S; ++j) out[1+i*S+j] = p[i*S+j] + d[j];", api="vm::polygon::translate", pre=front, **g)
    mat = "vm::mat<T,S+1,S+1> m; for (std::size_t c = 0; c <= S; ++c) for (std::size_t r = 0; r < S; ++r) m[c][r] = a[c*S+r]; "
    ms = "T w[N*S]; for (std::size_t i = 0; i < N; ++i) for (std::size_t r = 0; r < S; ++r) { w[i*S+r] = a[S*S+r]; for (std::size_t c = 0; c < S; ++c) w[i*S+r] += a[c*S+r] * p[i*S+c]; } "
    s.ob("polygon.transform", "p:N*S a:S*(S+1)", "N*S+1", mat + "put(out, P<N,S>(p).transform(m), N);", ms + "out[0] = N; s_canon<N,S>(w, out + 1);", api="vm::polygon::transform", T=FD, S=[2], N=[1, 2, 3], pre=front, hdr=HDR)
    s.ob("polygon.transform", "p:N*S a:S*(S+1)", "N*S+1", mat + "put(out, P<N,S>(p).transform(m), N);", ms + "out[0] = N; s_canon<N,S>(w, out + 1);", api="vm::polygon::transform", T=FD, S=[3], N=[1, 2], pre=front, hdr=HDR)
    s.ob("polygon.get_vertices", "p:2*S q:2*S", "5*S", "std::vector<vm::polygon<T,S>> v; v.push_back(P<2,S>(p)); v.push_back(P<2,S>(q)); std::vector<vm::vec<T,S>> o; vm::polygon<T,S>::get_vertices(v.begin(), v.end(), std::back_inserter(o)); out[0] = T(o.size()); for (std::size_t i = 0; i < 4; ++i) put(out + 1 + i*S, o[i]);",
         "vp_assume(p[0] < p[S]); vp_assume(q[0] < q[S]); out[0] = 4; for (std::size_t i = 0; i < 2*S; ++i) { out[1+i] = p[i]; out[1+2*S+i] = q[i]; }", api="vm::polygon::get_vertices", T=FD, S=[2, 3], hdr=HDR)
    s.ob("polygon.get_vertices.into_array", "p:3*S", "3*S", "const vm::polygon<T,S> v[1] = { P<3,S>(p) }; vm::vec<T,S> o[3]; vm::polygon<T,S>::get_vertices(v, v + 1, o); for (std::size_t i = 0; i < 3; ++i) put(out + i*S, o[i]);",
         "vp_assume(p[0] < p[S]); vp_assume(p[0] < p[2*S]); for (std::size_t i = 0; i < 3*S; ++i) out[i] = p[i];", api="vm::polygon::get_vertices", T=FD, S=[2, 3], hdr=HDR)
    s.ob("segment.get_vertices.into_array", "p:S q:S", "2*S", "const vm::segment<T,S> v[1] = { vm::segment<T,S>(V<S>(p), V<S>(q)) }; vm::vec<T,S> o[2]; vm::segment<T,S>::get_vertices(v, v + 1, o); put(out, o[0]); put(out + S, o[1]);",
         "vp_assume(p[0] < q[0]); for (std::size_t i = 0; i < S; ++i) { out[i] = p[i]; out[S+i] = q[i]; }", api="vm::segment::get_vertices", T=FD, S=[2, 3], hdr=HDR)
    # comparisons
    rel = "const auto a = P<N,S>(p), b = P<N,S>(q); "
    o = dict(T=FD, S=[2], N=[1, 2, 3, 4], hdr=HDR)
    o3 = dict(T=FD, S=[3], N=[1, 2, 3, 4], hdr=HDR)
    for k in (o, o3):
        s.ob("polygon.compare", "p:N*S q:N*S eps", 2, rel + "out[0] = vm::compare(a, b, eps[0]); out[1] = vm::isEqual(a, b, eps[0]);", "vp_assume(eps[0] >= 0); out[0] = s_cmpv<N,S>(p, q, eps[0]); out[1] = out[0] == 0;", pre=frontq, **k)
        s.ob("polygon.relational", "p:N*S q:N*S", 7, rel + "out[0] = vm::compare(a, b); out[1] = a == b; out[2] = a != b; out[3] = a < b; out[4] = a <= b; out[5] = a > b; out[6] = a >= b;",
             "const int c = s_cmpv<N,S>(p, q); out[0] = c; out[1] = c == 0; out[2] = c != 0; out[3] = c < 0; out[4] = c <= 0; out[5] = c > 0; out[6] = c >= 0;", api="vm::operator<", pre=frontq, **k)
    s.ob("polygon.equal.rotated", "p:N*S", "2", "T q[N*S]; for (std::size_t i = 0; i < N*S; ++i) q[i] = p[(i + K*S) % (N*S)]; " + rel + "out[0] = a == b; out[1] = a < b || b < a;", "out[0] = 1; out[1] = 0;", api="vm::operator==", T=FD, S=[2, 3], N=[2, 3, 4], K=[1, 2, 3], pre=front, hdr=HDR)
    s.ob("polygon.prefix", "p:N*S x:S", 4, "T q[(N+1)*S]; for (std::size_t i = 0; i < N*S; ++i) q[i] = p[i]; for (std::size_t i = 0; i < S; ++i) q[N*S+i] = x[i]; const auto a = P<N,S>(p); const auto b = P<N+1,S>(q); out[0] = vm::compare(a, b); out[1] = vm::compare(b, a); out[2] = vm::compareUnoriented(a, b); out[3] = vm::compareUnoriented(b, a);",
         "vp_assume(p[0] < x[0]); out[0] = -1; out[1] = 1; out[2] = -1; out[3] = 1;", api="vm::compare", T=FD, S=[2, 3], N=[1, 2, 3], pre=front, hdr=HDR)
    s.ob("polygon.empty", "p:S", 5, "const vm::polygon<T,S> e; const auto a = P<1,S>(p); out[0] = e == e; out[1] = vm::compare(e, a); out[2] = vm::compare(a, e); out[3] = vm::compareUnoriented(e, a); out[4] = vm::compareUnoriented(e, e);", "out[0] = 1; out[1] = -1; out[2] = 1; out[3] = -1; out[4] = 0;", T=FD, S=[2, 3], hdr=HDR)
    for k in (o, o3):
        s.ob("polygon.unoriented", "p:N*S q:N*S", 1, rel + "out[0] = vm::compareUnoriented(a, b);",
             "T r[N*S]; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < S; ++j) r[i*S+j] = q[((N - i) % N)*S+j]; const int c = s_cmpv<N,S>(p, q); out[0] = s_cmpv<N,S>(p, r) == 0 ? 0 : c; ", api="vm::compareUnoriented", pre=frontq, **k)
        s.ob("polygon.unoriented.eps", "p:N*S q:N*S eps", 2, rel + "out[0] = 0; out[1] = vm::compareUnoriented(a, b, eps[0]);", "T r[N*S]; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < S; ++j) r[i*S+j] = q[((N - i) % N)*S+j]; out[0] = 0; vp_assume(eps[0] >= 0); if (N > 2) vp_assume(s_cmp<S>(p + S % (N*S), q + S % (N*S), eps[0]) != 0); const int d = s_cmpv<N,S>(p, q, eps[0]); out[1] = s_cmpv<N,S>(p, r, eps[0]) == 0 ? 0 : d;", api="vm::compareUnoriented", pre=frontq, **k)
    s.ob("polygon.unoriented.inverted", "p:N*S", 2, "const auto a = P<N,S>(p); out[0] = vm::compareUnoriented(a, a.invert()); out[1] = vm::compareUnoriented(a.invert(), a);", "out[0] = out[1] = 0;", api="vm::compareUnoriented", pre=front, **g)
    s.ob("polygon.unoriented.fewer", "p:N*S q:(N+1)*S", 2, "const auto a = P<N,S>(p); const auto b = P<N+1,S>(q); out[0] = vm::compareUnoriented(a, b); out[1] = vm::compareUnoriented(b, a);",
         "vp_assume(q[0] < q[N*S]); out[0] = -1; out[1] = 1;", api="vm::compareUnoriented", T=FD, S=[2, 3], N=[1, 2, 3], pre=frontq, hdr=HDR)
    return s.obs
