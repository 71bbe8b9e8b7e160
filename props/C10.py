"""Matrix arithmetic, products, structure and the table of constant matrices."""
from engine.obl import Spec
from .common import *

INCLUDES = ["scalar.h", "vec.h", "mat.h"]
SH = ((1, 1), (2, 2), (3, 3), (4, 4), (2, 3), (3, 2), (1, 4), (4, 1), (3, 4), (4, 3))


def rows(m):
    n = len(m)
    return "".join(f"out[{c * n + r}] = {m[r][c]}; " for r in range(n) for c in range(n))


def obligations(tier):
    s = Spec("C10")
    ALL = "for (std::size_t i = 0; i < R*C; ++i) "
    for r, c in SH:
        e = dict(T=FD, R=[r], C=[c])
        A, B = "M<R,C>(a)", "M<R,C>(b)"
        for nm, ins, ex, w in (("plus", "a:R*C", f"+{A}", "a[i]"), ("minus", "a:R*C", f"-{A}", "-a[i]"),
                               ("add", "a:R*C b:R*C", f"{A} + {B}", "a[i] + b[i]"), ("sub", "a:R*C b:R*C", f"{A} - {B}", "a[i] - b[i]"),
                               ("scale", "a:R*C k", f"{A} * k[0]", "a[i] * k[0]"), ("scale.left", "a:R*C k", f"k[0] * {A}", "a[i] * k[0]"),
                               ("div", "a:R*C k", f"{A} / k[0]", "a[i] / k[0]")):
            s.ob("mat." + nm, ins, r * c, f"put(out, {ex});", ALL + f"out[i] = {w};", **e)
        for k in (1, 2, 3, 4):
            if r * c * k > 27 and k != c:
                continue
            s.ob("mat.product", "a:R*C b:C*K", r * k, "put(out, M<R,C>(a) * M<C,K>(b));",
                 "for (std::size_t j = 0; j < K; ++j) for (std::size_t i = 0; i < R; ++i) { T t = 0; for (std::size_t l = 0; l < C; ++l) t += a[l*R+i] * b[j*C+l]; out[j*R+i] = t; }", K=[k], **e)
        s.ob("mat.vec", "a:R*C b:C", r, "const vm::vec<T,R> w = M<R,C>(a) * V<C>(b); put(out, w);", "for (std::size_t i = 0; i < R; ++i) { T t = 0; for (std::size_t l = 0; l < C; ++l) t += a[l*R+i] * b[l]; out[i] = t; }", **e)
        s.ob("vec.mat", "a:R*C b:R", c, "const vm::vec<T,C> w = V<R>(b) * M<R,C>(a); put(out, w);", "for (std::size_t j = 0; j < C; ++j) { T t = 0; for (std::size_t l = 0; l < R; ++l) t += b[l] * a[j*R+l]; out[j] = t; }", **e)
        # points: homogeneous coordinate 1 appended, result divided by its last coordinate
        if c > 1 and r > 1:
            s.ob("mat.point", f"a:R*C b:{c - 1}", r - 1, "const vm::vec<T,R-1> w = M<R,C>(a) * V<C-1>(b); put(out, w);",
                 "T h[R]; for (std::size_t i = 0; i < R; ++i) { h[i] = a[(C-1)*R+i]; for (std::size_t l = 0; l + 1 < C; ++l) h[i] += a[l*R+i] * b[l]; } vp_assume(h[R-1] != 0); for (std::size_t i = 0; i + 1 < R; ++i) out[i] = h[i] / h[R-1];", **e)
            s.ob("point.mat", f"a:R*C b:{r - 1}", c - 1, "const vm::vec<T,C-1> w = V<R-1>(b) * M<R,C>(a); put(out, w);",
                 "T h[C]; for (std::size_t j = 0; j < C; ++j) { h[j] = a[j*R+R-1]; for (std::size_t l = 0; l + 1 < R; ++l) h[j] += a[j*R+l] * b[l]; } vp_assume(h[C-1] != 0); for (std::size_t j = 0; j + 1 < C; ++j) out[j] = h[j] / h[C-1];", **e)
        s.ob("transpose", "a:R*C", r * c, "const vm::mat<T,C,R> t = transpose(M<R,C>(a)); put(out, t);", "for (std::size_t c = 0; c < C; ++c) for (std::size_t r = 0; r < R; ++r) out[r*C+c] = a[c*R+r];", **e)
        s.ob("transpose.involution", "a:R*C", r * c, "put(out, transpose(transpose(M<R,C>(a))));", ALL + "out[i] = a[i];", **e)
        for p in range(1, r + 1):
            for q in range(1, c + 1):
                e2 = dict(e, T="double" if r * c > 9 else FD)
                s.ob("slice.mat", "a:R*C", p * q, "put(out, vm::slice<P,Q>(M<R,C>(a), @K@, @L@));", "for (std::size_t c = 0; c < Q; ++c) for (std::size_t r = 0; r < P; ++r) out[c*P+r] = a[(c+L)*R+r+K];",
                     P=[p], Q=[q], K=list(range(r - p + 1)), L=list(range(c - q + 1)), **e2)
        if r > 1 and c > 1:
            s.ob("extract_minor", "a:R*C", (r - 1) * (c - 1), "put(out, extract_minor(M<R,C>(a), @K@, @L@));",
                 "std::size_t o = 0; for (std::size_t c = 0; c < C; ++c) if (c != L) for (std::size_t r = 0; r < R; ++r) if (r != K) out[o++] = a[c*R+r];", K=list(range(r)), L=list(range(c)), **dict(e, T="double" if r * c > 9 else FD))
    # algebra the products satisfy
    for n in (2, 3):
        e = dict(T=FD, N=[n])
        s.ob("product.associative", "a:N*N b:N*N c:N*N", n * n, "put(out, (M<N,N>(a) * M<N,N>(b)) * M<N,N>(c));", "put(out, M<N,N>(a) * (M<N,N>(b) * M<N,N>(c)));", **e)
        s.ob("product.transpose", "a:N*N b:N*N", n * n, "put(out, transpose(M<N,N>(a) * M<N,N>(b)));", "put(out, transpose(M<N,N>(b)) * transpose(M<N,N>(a)));", **e)
        s.ob("product.vec", "a:N*N b:N*N v:N", n, "put(out, (M<N,N>(a) * M<N,N>(b)) * V<N>(v));", "put(out, M<N,N>(a) * (M<N,N>(b) * V<N>(v)));", **e)
    I = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]

    def rot(ax, c, sn):
        m = [row[:] for row in I]
        i, j = (ax + 1) % 3, (ax + 2) % 3
        m[i][i], m[i][j], m[j][i], m[j][j] = c, -sn, sn, c
        return m

    def mir(ax):
        m = [row[:] for row in I]
        m[ax][ax] = -1
        return m
    for k, ax in enumerate("xyz"):
        s.ob(f"rot_90_{ax}_ccw", "a", 16, f"put(out, vm::mat<T,4,4>::rot_90_{ax}_ccw());", rows(rot(k, 0, 1)), T=FD)
        s.ob(f"rot_90_{ax}_cw", "a", 16, f"put(out, vm::mat<T,4,4>::rot_90_{ax}_cw());", rows(rot(k, 0, -1)), T=FD)
        s.ob(f"rot_180_{ax}", "a", 16, f"put(out, vm::mat<T,4,4>::rot_180_{ax}());", rows(rot(k, -1, 0)), T=FD)
        s.ob(f"mirror_{ax}", "a", 16, f"put(out, vm::mat<T,4,4>::mirror_{ax}());", rows(mir(k)), T=FD)
    return s.obs
