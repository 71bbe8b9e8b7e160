"""Comparison: one lexicographic order on vectors and matrices, NaN above everything."""
from engine.obl import Spec
from .common import *

INCLUDES = ["scalar.h", "vec.h", "mat.h"]

LEX = """template <typename T> int s_cmp(const T* a, const T* b, std::size_t n, T eps) {
  for (std::size_t i = 0; i < n; ++i) {
    const bool an = a[i] != a[i], bn = b[i] != b[i];
    if (an && bn) continue;
    if (bn) return -1;
    if (an) return 1;
    if (a[i] < b[i] - eps) return -1;
    if (a[i] > b[i] + eps) return 1;
  }
  return 0;
}
"""


def obligations(tier):
    s = Spec("C05")
    K = "vp_assume(eps[0] >= 0); "
    ALL = NUM + ["std::size_t"]
    for T in NUM + ["std::size_t"]:
        k = "n" if T in FD else ""
        for n in S4:
            e = dict(T=T, S=[n], hdr=LEX)
            s.ob("compare.vec", f"a:S:{k} b:S:{k}", 1, "out[0] = T(compare(V<S>(a), V<S>(b)));", "out[0] = T(s_cmp(a, b, S, T(0)));", **e)
            if T != "std::size_t":
                s.ob("compare.vec.eps", f"a:S:{k} b:S:{k} eps", 1, "out[0] = T(compare(V<S>(a), V<S>(b), eps[0]));", K + "out[0] = T(s_cmp(a, b, S, eps[0]));", **e)
                s.ob("is_equal.vec", f"a:S:{k} b:S:{k} eps", 1, "out[0] = is_equal(V<S>(a), V<S>(b), eps[0]) ? 1 : 0;", K + "out[0] = s_cmp(a, b, S, eps[0]) == 0 ? 1 : 0;", **e)
            for op, nm in (("==", "eq"), ("!=", "ne"), ("<", "lt"), ("<=", "le"), (">", "gt"), (">=", "ge")):
                s.ob(f"operator.{nm}.vec", f"a:S:{k} b:S:{k}", 1, f"out[0] = (V<S>(a) {op} V<S>(b)) ? 1 : 0;", f"out[0] = s_cmp(a, b, S, T(0)) {op} 0 ? 1 : 0;", **e)
    # the laws that make it an order, stated on the library's own results
    for n in S4:
        e = dict(T=FD, S=[n])
        for op, nm in (("<", "lt"), ("<=", "le"), ("==", "eq")):
            if nm == "le" and n > 3:
                continue
            s.ob(f"transitive.{nm}.vec", "a:S:n b:S:n c:S:n", 1, f"out[0] = (V<S>(a) {op} V<S>(b)) && (V<S>(b) {op} V<S>(c)) && !(V<S>(a) {op} V<S>(c)) ? 1 : 0;", "out[0] = 0;", time=120, cells=100000, **e)
        s.ob("antisymmetric.vec", "a:S:n b:S:n", 1, "out[0] = T(compare(V<S>(a), V<S>(b)) + compare(V<S>(b), V<S>(a)));", "out[0] = 0;", **e)
        s.ob("antisymmetric.eps.vec", "a:S:n b:S:n eps", 1, "out[0] = T(compare(V<S>(a), V<S>(b), eps[0]) + compare(V<S>(b), V<S>(a), eps[0]));", K + "out[0] = 0;", **e)
        s.ob("reflexive.vec", "a:S:n", 1, "out[0] = T(compare(V<S>(a), V<S>(a))) + (V<S>(a) == V<S>(a) ? 0 : 4);", "out[0] = 0;", **e)
    # ranges: lexicographic over elements, a proper prefix sorts first
    RNG = LEX + """template <typename T> int s_rng(const T* a, std::size_t n, const T* b, std::size_t m, T eps) {
  for (std::size_t i = 0; i < n && i < m; ++i) { const int c = s_cmp(a + 2*i, b + 2*i, 2, eps); if (c != 0) return c; }
  return n < m ? -1 : (n > m ? 1 : 0);
}
"""
    A = "const vm::vec<T,2> p[2] = {V<2>(a), V<2>(a+2)}; const vm::vec<T,2> q[2] = {V<2>(b), V<2>(b+2)}; "
    for T in FD:
        s.ob("compare.range", "a:4:n b:4:n eps", 1, A + "out[0] = T(vm::compare(p, p + @N@, q, q + @K@, eps[0]));", K + "out[0] = T(s_rng(a, N, b, K, eps[0]));", T=T, hdr=RNG, N=[0, 1, 2], K=[0, 1, 2])
        s.ob("compare.range.exact", "a:4:n b:4:n", 1, A + "out[0] = T(vm::compare(p, p + @N@, q, q + @K@, T(0)));", "out[0] = T(s_rng(a, N, b, K, T(0)));", T=T, hdr=RNG, N=[0, 1, 2], K=[0, 1, 2])
    # matrices: entry-wise equality within epsilon; relational == != ; zero test
    for T in FD:
        for r, c in ((2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (1, 4), (4, 1)):
            e = dict(T=T, R=[r], C=[c])
            eqx = "bool q = true; for (std::size_t i = 0; i < R*C; ++i) q = q && a[i] == b[i]; "
            if r * c <= 6:
                s.ob("compare.mat", "a:R*C:n b:R*C:n eps", 1, "out[0] = T(compare(M<R,C>(a), M<R,C>(b), eps[0]));", K + "out[0] = T(s_cmp(a, b, R*C, eps[0]));", hdr=LEX, **e)
            s.ob("operator.eq.mat", "a:R*C b:R*C", 2, "out[0] = M<R,C>(a) == M<R,C>(b) ? 1 : 0; out[1] = M<R,C>(a) != M<R,C>(b) ? 1 : 0;", eqx + "out[0] = q ? 1 : 0; out[1] = q ? 0 : 1;", **e)
            s.ob("is_equal.mat", "a:R*C b:R*C eps", 1, "out[0] = is_equal(M<R,C>(a), M<R,C>(b), eps[0]) ? 1 : 0;", K + "bool q = true; for (std::size_t i = 0; i < R*C; ++i) q = q && a[i] >= b[i] - eps[0] && a[i] <= b[i] + eps[0]; out[0] = q ? 1 : 0;", **e)
            if r * c > 6:
                # a matrix whose only possibly non-zero entry is entry K
                s.ob("is_zero.mat.entry", "a eps", 1, "auto m = vm::mat<T,R,C>::zero(); m[K / R][K % R] = a[0]; out[0] = is_zero(m, eps[0]) ? 1 : 0;", K + "out[0] = s_abs(a[0]) <= eps[0] ? 1 : 0;", K=list(range(r * c)), **e)
                continue
            s.ob("is_zero.mat", "a:R*C eps", 1, "out[0] = is_zero(M<R,C>(a), eps[0]) ? 1 : 0;", K + "bool q = true; for (std::size_t i = 0; i < R*C; ++i) q = q && s_abs(a[i]) <= eps[0]; out[0] = q ? 1 : 0;", **e)
    for T in FD:
        for n in S4:
            e = dict(T=T, S=[n])
            s.ob("is_zero.vec", "a:S eps", 1, "out[0] = is_zero(V<S>(a), eps[0]) ? 1 : 0;", K + "bool q = true; for (std::size_t i = 0; i < S; ++i) q = q && s_abs(a[i]) <= eps[0]; out[0] = q ? 1 : 0;", **e)
            s.ob("is_nan.vec", "a:S:n", 1, "out[0] = is_nan(V<S>(a)) ? 1 : 0;", "bool q = false; for (std::size_t i = 0; i < S; ++i) q = q || a[i] != a[i]; out[0] = q ? 1 : 0;", **e)
    return s.obs
