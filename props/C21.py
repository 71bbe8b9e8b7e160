"""Lists of vectors and Bezier surfaces."""
from engine.obl import Spec
from .common import *

INCLUDES = ["scalar.h", "vec.h", "vec_ext.h", "bezier_surface.h"]
HDR = """
template <std::size_t N, std::size_t S, typename T> std::vector<vm::vec<T,S>> L(const T* p) { std::vector<vm::vec<T,S>> v; for (std::size_t i = 0; i < N; ++i) v.push_back(V<S>(p + i*S)); return v; }
template <std::size_t N, std::size_t S, typename T> std::array<vm::vec<T,S>, N> A(const T* p) { std::array<vm::vec<T,S>, N> v{}; for (std::size_t i = 0; i < N; ++i) v[i] = V<S>(p + i*S); return v; }
template <std::size_t N, typename R, typename T> void puts_(T* out, const R& r) { out[0] = T(r.size()); constexpr std::size_t S = R::value_type::size; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < S; ++j) out[1 + i*S + j] = r[i][j]; }
template <std::size_t S, typename T> std::array<std::array<vm::vec<T,S>, 3>, 3> CP(const T* p) { std::array<std::array<vm::vec<T,S>, 3>, 3> r{}; for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) r[i][j] = V<S>(p + (3*i + j)*S); return r; }
"""


def obligations(tier):
    s = Spec("C21")
    nn = [1, 2, 3, 5, 8] if tier == "quick" else [1, 2, 3, 4, 5, 8, 16, 33]
    o = dict(T=NUM, S=S4, N=nn, hdr=HDR)
    add = "out[0] = N; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < S; ++j) out[1+i*S+j] = p[i*S+j] + d[j];"
    mul = "out[0] = N; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < S; ++j) out[1+i*S+j] = p[i*S+j] * k[0];"
    for nm, f in (("vector", "L"), ("array", "A")):
        s.ob(f"{nm}.add", "p:N*S d:S", "N*S+1", f"puts_<N>(out, {f}<N,S>(p) + V<S>(d));", add, api="vm::operator+", **o)
        s.ob(f"{nm}.add.left", "p:N*S d:S", "N*S+1", f"puts_<N>(out, V<S>(d) + {f}<N,S>(p));", add, api="vm::operator+", **o)
        s.ob(f"{nm}.mul", "p:N*S k", "N*S+1", f"puts_<N>(out, {f}<N,S>(p) * k[0]);", mul, api="vm::operator*", **o)
        s.ob(f"{nm}.mul.left", "p:N*S k", "N*S+1", f"puts_<N>(out, k[0] * {f}<N,S>(p));", mul, api="vm::operator*", **o)
    s.ob("vector.empty", "d:S", 2, "const std::vector<vm::vec<T,S>> e; out[0] = T((e + V<S>(d)).size() + (V<S>(d) + e).size()); out[1] = T((e * d[0]).size() + (d[0] * e).size());", "out[0] = out[1] = 0;", T=NUM, S=S4, hdr=HDR, api="vm::operator+")
    # the operand is left alone
    s.ob("vector.operand", "p:2*S d:S", "2*S+1", "const auto l = L<2,S>(p); const auto r = l + V<S>(d); const auto q = r * d[0]; puts_<2>(out, l);", "out[0] = 2; for (std::size_t i = 0; i < 2*S; ++i) out[1+i] = p[i];", T=FD, S=S4, hdr=HDR, api="vm::operator+")
    b = dict(T=FD, S=S4, hdr=HDR)
    bern = "const T bu[3] = { (1 - u[0])*(1 - u[0]), 2*u[0]*(1 - u[0]), u[0]*u[0] }, bv[3] = { (1 - v[0])*(1 - v[0]), 2*v[0]*(1 - v[0]), v[0]*v[0] }; "
    s.ob("evaluate_quadratic_bezier_surface", "p:9*S u v", "S", "put(out, vm::evaluate_quadratic_bezier_surface(CP<S>(p), u[0], v[0]));",
         bern + FOR + "{ out[i] = 0; for (std::size_t a = 0; a < 3; ++a) for (std::size_t c = 0; c < 3; ++c) out[i] += bv[a] * bu[c] * p[(3*a + c)*S + i]; }", **b)
    for nm, u, v, k in (("00", 0, 0, 0), ("10", 1, 0, 2), ("01", 0, 1, 6), ("11", 1, 1, 8)):
        s.ob("evaluate_quadratic_bezier_surface.corner" + nm, "p:9*S", "S", f"put(out, vm::evaluate_quadratic_bezier_surface(CP<S>(p), T({u}), T({v})));", FOR + f"out[i] = p[{k}*S + i];", **b)
    # all control points equal: constant; control points moved by d: surface moved by d
    s.ob("evaluate_quadratic_bezier_surface.translate", "p:9*S d:S u v", "S", "auto q = CP<S>(p); for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) q[i][j] = q[i][j] + V<S>(d); put(out, vm::evaluate_quadratic_bezier_surface(q, u[0], v[0]));",
         bern + FOR + "{ out[i] = d[i]; for (std::size_t a = 0; a < 3; ++a) for (std::size_t c = 0; c < 3; ++c) out[i] += bv[a] * bu[c] * p[(3*a + c)*S + i]; }", **b)
    return s.obs
