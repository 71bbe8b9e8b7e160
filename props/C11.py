"""Determinant, adjugate, linear solve and inverse agree with the algebra of square matrices."""
from itertools import permutations
from engine.obl import Spec
from .common import *

INCLUDES = ["scalar.h", "vec.h", "mat.h"]


def det(n):
    terms = []
    for p in permutations(range(n)):
        inv = sum(1 for i in range(n) for j in range(i) if p[j] > p[i])
        terms.append(("-" if inv % 2 else "+") + "*".join(f"a[{p[i]}*{n}+{i}]" for i in range(n)))
    return "T(0)" + " ".join(terms)


def obligations(tier):
    s = Spec("C11")
    for n in S4:
        e = dict(T=FD, N=[n])
        s.ob("compute_determinant", "a:N*N", 1, "out[0] = compute_determinant(M<N,N>(a));", f"out[0] = {det(n)};", **e)
        s.ob("determinant.transpose", "a:N*N", 1, "out[0] = compute_determinant(transpose(M<N,N>(a)));", f"out[0] = {det(n)};", **e)
        ID = "for (std::size_t c = 0; c < N; ++c) for (std::size_t r = 0; r < N; ++r) out[c*N+r] = r == c ? D : T(0);"
        if n > 1:
            s.ob("compute_adjugate.left", "a:N*N", n * n, "put(out, compute_adjugate(M<N,N>(a)) * M<N,N>(a));", f"const T D = {det(n)}; " + ID, **e)
            s.ob("compute_adjugate.right", "a:N*N", n * n, "put(out, M<N,N>(a) * compute_adjugate(M<N,N>(a)));", f"const T D = {det(n)}; " + ID, **e)
    for n in (1, 2):
        e = dict(T=FD, N=[n])
        ID = "for (std::size_t c = 0; c < N; ++c) for (std::size_t r = 0; r < N; ++r) out[c*N+r] = r == c ? T(1) : T(0);"
        s.ob("invert.right", "a:N*N", n * n, "const auto r = invert(M<N,N>(a)); vp_assume(std::get<0>(r)); put(out, M<N,N>(a) * std::get<1>(r));", ID, **e)
        s.ob("lup_solve", "a:N*N b:N", n, "const auto r = lup_solve(M<N,N>(a), V<N>(b)); vp_assume(std::get<0>(r)); put(out, M<N,N>(a) * std::get<1>(r));", "for (std::size_t i = 0; i < N; ++i) out[i] = b[i];", **e)
    # Every invertible matrix is a row permutation of L*U; the pivots are the entries of largest magnitude, so |L| <= 1 below the diagonal.
    for n in (3, 4):
        nl = n * (n - 1) // 2
        for k, pi in enumerate(permutations(range(n))):
            for sg in (1, -1, 2):
                lu = "T A[N*N] = {}; T L[N][N] = {}; T U[N][N] = {}; std::size_t q = 0; for (std::size_t i = 0; i < N; ++i) { L[i][i] = 1; for (std::size_t j = 0; j < i; ++j) L[i][j] = l[q++]; } q = 0; "
                lu += f"for (std::size_t i = 0; i < N; ++i) {{ U[i][i] = {'-' if sg < 0 else ''}d[i]; for (std::size_t j = i + 1; j < N; ++j) U[i][j] = u[q++]; }} "
                lu += f"const std::size_t pi[N] = {{{', '.join(map(str, pi))}}}; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) for (std::size_t k = 0; k < N; ++k) A[j*N+pi[i]] += L[i][k] * U[k][j]; "
                pre = f"for (std::size_t i = 0; i < {nl}; ++i) {{ vp_assume(l[i] < 1); vp_assume(l[i] > -1); }} "
                pos = "for (std::size_t i = 0; i < N; ++i) vp_assume(d[i] >= T(1.0e-15)); "
                if n == 4 and tier == "quick":
                    # one sign pattern per permutation, multipliers non-zero; the thorough tier takes every pattern with zeros
                    if (1, -1, 2)[k % 3] != sg:
                        continue
                    c = {1: "l[i] > 0", -1: "l[i] < 0", 2: "(i % 2 ? l[i] : -l[i]) > 0"}[sg]
                    pre += f"for (std::size_t i = 0; i < {nl}; ++i) vp_assume({c}); "
                elif n == 4:
                    # the signs of the multipliers are fixed per obligation to keep the number of sign cells small
                    pre += {1: f"for (std::size_t i = 0; i < {nl}; ++i) vp_assume(l[i] >= 0); ", -1: f"for (std::size_t i = 0; i < {nl}; ++i) vp_assume(l[i] <= 0); ",
                            2: f"for (std::size_t i = 0; i < {nl}; ++i) {{ if (i % 2) vp_assume(l[i] >= 0); else vp_assume(l[i] <= 0); }} "}[sg]
                elif sg == 2:
                    continue
                tag = "".join(map(str, pi)) + {1: "+", -1: "-", 2: "*"}[sg]
                ins = f"l:{nl} u:{nl} d:N"
                TT = FD if n == 3 and k in (0, 3) else "double"
                s.ob(f"invert.{tag}", ins, n * n + 1, lu + "const auto r = invert(M<N,N>(A)); out[N*N] = std::get<0>(r) ? 1 : 0; put(out, M<N,N>(A) * std::get<1>(r));", pre + pos + "out[N*N] = 1; " + ID.replace("? D", "? T(1)"), T=TT, N=[n])
                if n == 3 or sg == 1:
                    s.ob(f"lup_solve.{tag}", ins + " b:N", n + 1, lu + "const auto r = lup_solve(M<N,N>(A), V<N>(b)); out[N] = std::get<0>(r) ? 1 : 0; put(out, M<N,N>(A) * std::get<1>(r));", pre + pos + "out[N] = 1; for (std::size_t i = 0; i < N; ++i) out[i] = b[i];", T=TT, N=[n])
                if sg == 1 or (n == 4 and tier == "quick"):
                    # a zero pivot at any step makes the matrix singular
                    s.ob(f"invert.singular.{tag}", ins, 2, lu.replace("d[i]", "(i == @Z@ ? T(0) : d[i])") + "out[0] = std::get<0>(invert(M<N,N>(A))) ? 1 : 0; out[1] = std::get<0>(lup_solve(M<N,N>(A), vm::vec<T,N>())) ? 1 : 0;", pre + pos + "out[0] = 0; out[1] = 0;", T="double", N=[n], Z=list(range(n)) if n == 3 or tier == "thorough" else [(0, 1, 3, 2)[k % 4]])
    for n in S4:
        for k in range(n):
            s.ob("invert.threshold", "d", 2, "auto m = vm::mat<T,N,N>::identity(); m[@K@][@K@] = d[0]; out[0] = std::get<0>(invert(m)) ? 1 : 0; out[1] = std::get<0>(lup_solve(m, vm::vec<T,N>())) ? 1 : 0;", "out[0] = out[1] = s_abs(double(d[0])) >= 1.0e-15 ? 1 : 0;", T=FD, N=[n], K=[k])
    return s.obs
