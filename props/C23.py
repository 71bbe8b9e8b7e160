"""Approximate comparison."""
from engine.obl import Spec
from .common import *

INCLUDES = ["scalar.h", "vec.h", "mat.h", "line.h", "approx.h"]
HDR = """
template <std::size_t S, typename T> int s_lex(const T* a, const T* b, T shift) { for (std::size_t i = 0; i < S; ++i) { if (a[i] < b[i] + shift) return -1; if (a[i] > b[i] + shift) return 1; } return 0; }
template <typename T> std::vector<vm::approx<T>> AL(const T* p, std::size_t n, T e) { std::vector<vm::approx<T>> r; for (std::size_t i = 0; i < n; ++i) r.emplace_back(p[i], e); return r; }
template <typename T> std::vector<T> TL(const T* p, std::size_t n) { std::vector<T> r; for (std::size_t i = 0; i < n; ++i) r.push_back(p[i]); return r; }
"""
E0 = "vp_assume(e[0] >= 0); "


def obligations(tier):
    s = Spec("C23")
    t = dict(T=FD, hdr=HDR)
    D = "const T z = vm::constants<T>::almost_zero(); "
    ops = (("eq", "==", "s_abs(a[0] - b[0]) <= {e}", "s_abs(a[0] - b[0]) <= {e}"),
           ("ne", "!=", "!(s_abs(a[0] - b[0]) <= {e})", "!(s_abs(a[0] - b[0]) <= {e})"),
           ("lt", "<", "a[0] < b[0] - {e}", "b[0] < a[0] - {e}"),
           ("le", "<=", "a[0] <= b[0] + {e}", "b[0] <= a[0] + {e}"),
           ("gt", ">", "a[0] > b[0] + {e}", "b[0] > a[0] + {e}"),
           ("ge", ">=", "a[0] >= b[0] - {e}", "b[0] >= a[0] - {e}"))
    for nm, op, right, left in ops:
        # value op approx(b), approx(b) op value
        s.ob(f"approx.{nm}", "a b e", 2, f"const vm::approx<T> x(b[0], e[0]); out[0] = a[0] {op} x; out[1] = x {op} a[0];", E0 + f"out[0] = {right.format(e='e[0]')}; out[1] = {left.format(e='e[0]')};", **t)
        s.ob(f"approx.{nm}.default", "a b", 2, f"const vm::approx<T> x(b[0]); out[0] = a[0] {op} x; out[1] = x {op} a[0];", D + f"out[0] = {right.format(e='z')}; out[1] = {left.format(e='z')};", **t)
    nan = "vp_assume(s_isnan(a[0])); "
    v = dict(T=FD, S=[1, 2, 3], hdr=HDR)
    near = "out[0] = 1; " + FOR + "if (!(s_abs(a[i] - b[i]) <= {e})) out[0] = 0; "
    for nm, ctor, e, pre in (("", "vm::approx<vm::vec<T,S>> x(V<S>(b), e[0]); ", "e[0]", E0), (".default", "vm::approx<vm::vec<T,S>> x(V<S>(b)); ", "z", D)):
        i = "a:S b:S e" if not nm else "a:S b:S"
        s.ob("approx.vec.eq" + nm, i, 2, "const " + ctor + "out[0] = V<S>(a) == x; out[1] = x == V<S>(a);", pre + near.format(e=e) + "out[1] = out[0];", **v)
        s.ob("approx.vec.ne" + nm, i, 2, "const " + ctor + "out[0] = V<S>(a) != x; out[1] = x != V<S>(a);", pre + near.format(e=e) + "out[0] = out[1] = 1 - out[0];", **v)
    for nm, op, sh, c in (("lt", "<", "-", "< 0"), ("le", "<=", "", "<= 0"), ("gt", ">", "", "> 0"), ("ge", ">=", "-", ">= 0")):
        s.ob("approx.vec." + nm, "a:S b:S e", 2, f"const vm::approx<vm::vec<T,S>> x(V<S>(b), e[0]); out[0] = V<S>(a) {op} x; out[1] = x {op} V<S>(a);",
             E0 + f"out[0] = s_lex<S>(a, b, {sh}e[0]) {c}; out[1] = s_lex<S>(b, a, {sh}e[0]) {c};", **v)
    m = dict(T=FD, hdr=HDR)
    for R, C in ((1, 1), (2, 2), (2, 3), (3, 2)) if tier == "quick" else ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (3, 3)):
        M = f"vm::mat<T,{R},{C}> A, B; for (std::size_t c = 0; c < {C}; ++c) for (std::size_t r = 0; r < {R}; ++r) {{ A[c][r] = a[c*{R}+r]; B[c][r] = b[c*{R}+r]; }} "
        n = R * C
        near = f"out[0] = 1; for (std::size_t i = 0; i < {n}; ++i) if (!(s_abs(a[i] - b[i]) <= {{e}})) out[0] = 0; out[1] = out[0]; out[2] = out[3] = 1 - out[0]; "
        for nm, ctor, e, pre in (("", f"vm::approx<vm::mat<T,{R},{C}>> x(B, e[0]); ", "e[0]", E0), (".default", f"vm::approx<vm::mat<T,{R},{C}>> x(B); ", "z", D)):
            i = f"a:{n} b:{n} e" if not nm else f"a:{n} b:{n}"
            s.ob(f"approx.mat{R}x{C}" + nm, i, 4, M + "const " + ctor + "out[0] = A == x; out[1] = x == A; out[2] = A != x; out[3] = x != A;", pre + near.format(e=e), **m)
    ln = dict(T=FD, S=[2, 3], hdr=HDR)
    near = "out[0] = 1; " + FOR + "if (!(s_abs(a[i] - b[i]) <= {e}) || !(s_abs(d[i] - g[i]) <= {e})) out[0] = 0; out[1] = out[0]; "
    for nm, ctor, e, pre in (("", "vm::approx<vm::line<T,S>> x(vm::line<T,S>(V<S>(b), V<S>(g)), e[0]); ", "e[0]", E0), (".default", "vm::approx<vm::line<T,S>> x(vm::line<T,S>(V<S>(b), V<S>(g))); ", "z", D)):
        i = "a:S b:S d:S g:S" + ("" if nm else " e")
        s.ob("approx.line" + nm, i, 2, "const vm::line<T,S> l(V<S>(a), V<S>(d)); const " + ctor + "out[0] = l == x; out[1] = x == l;", pre + near.format(e=e), **ln)
    # lists
    for n, k in ((0, 0), (1, 1), (2, 2), (3, 3), (0, 1), (1, 0), (2, 3), (3, 2)):
        s.ob(f"approx.list.{n}.{k}", f"a:{max(n,1)} b:{max(k,1)} e", 4, f"const auto l = TL(a, {n}); const auto r = AL(b, {k}, e[0]); out[0] = l == r; out[1] = r == l; out[2] = l != r; out[3] = r != l;",
             E0 + ("out[0] = 0; " if n != k else f"out[0] = 1; for (std::size_t i = 0; i < {n}; ++i) if (!(s_abs(a[i] - b[i]) <= e[0])) out[0] = 0; ") + "out[1] = out[0]; out[2] = out[3] = 1 - out[0];", **t)
    return s.obs
