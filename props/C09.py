"""Construction, conversion, element access, slicing and re-ordering keep every value in its place."""
from engine.obl import Spec
from .common import *

INCLUDES = ["scalar.h", "vec.h", "mat.h"]


def obligations(tier):
    s = Spec("C09")
    ALL = NUM + ["std::size_t"]
    for n in S4:
        e = dict(S=[n])
        s.ob("vec.default", "a", n, "put(out, vm::vec<T,S>());", FOR + "out[i] = 0;", T=ALL, **e)
        args = ", ".join(f"a[{i}]" for i in range(n))
        s.ob("vec.values", "a:S", n, f"put(out, vm::vec<T,S>({args}));", FOR + "out[i] = a[i];", T=ALL, **e)
        s.ob("vec.values.mixed", "a:S:i:int", n, f"put(out, vm::vec<T,S>({args}));", FOR + "out[i] = T(a[i]);", T=FD + ["long"], **e)
        for k in range(0, 6):
            il = ", ".join(f"a[{i}]" for i in range(k))
            s.ob(f"vec.list{k}", "a:6", n, f"const std::initializer_list<T> l = {{{il}}}; put(out, vm::vec<T,S>(l));", FOR + f"out[i] = i < {k} ? a[i] : T(0);", T=["double", "float", "int"], **e)
        s.ob("vec.braces", "a:S", n, f"const vm::vec<T,S> r{{{args}}}; put(out, r);", FOR + "out[i] = a[i];", T=ALL, **e)
        s.ob("vec.copy", "a:S b:S", 3 * n, "const vm::vec<T,S> p = V<S>(a); vm::vec<T,S> q(p); put(out, q); vm::vec<T,S> r = V<S>(b); r = p; put(out + S, r); vm::vec<T,S> w = V<S>(b); w = std::move(r); put(out + 2*S, w);",
             FOR + "{ out[i] = a[i]; out[S+i] = a[i]; out[2*S+i] = a[i]; }", T=ALL, **e)
        for m in S4:
            s.ob("vec.convert", "a:M", n, "put(out, vm::vec<T,S>(V<M>(a)));", FOR + "out[i] = i < M ? a[i] : T(0);", T=["double", "int"], M=[m], **e)
            s.ob("vec.convert.float", "a:M:r:float", n, "put(out, vm::vec<T,S>(V<M>(a)));", FOR + "out[i] = i < M ? T(a[i]) : T(0);", T="double", M=[m], **e)
            s.ob("vec.convert.int", "a:M:i:int", n, "put(out, vm::vec<T,S>(V<M>(a)));", FOR + "out[i] = i < M ? T(a[i]) : T(0);", T=["double", "float", "long"], M=[m], **e)
            if m < n:
                rest = ", ".join(f"b[{i}]" for i in range(n - m))
                s.ob("vec.extend", f"a:M b:{n - m}", n, f"put(out, vm::vec<T,S>(V<M>(a), {rest}));", FOR + "out[i] = i < M ? a[i] : b[i - M];", T=["double", "float", "int"], M=[m], **e)
                s.ob("vec.extend.mixed", f"a:M:r:float b:{n - m}:i:int", n, f"put(out, vm::vec<T,S>(V<M>(a), {rest}));", FOR + "out[i] = i < M ? T(a[i]) : T(b[i - M]);", T="double", M=[m], **e)
            if m <= n:
                s.ob("slice.vec", "a:S", m, "put(out, vm::slice<M>(V<S>(a), @K@));", "for (std::size_t i = 0; i < M; ++i) out[i] = a[i + K];", T=["double", "float", "int"], M=[m], K=list(range(n - m + 1)), **e)
        s.ob("vec.convert.trunc", "n:S:i:long f:S:r:double", n, frac() + "double x[S]; " + FOR + "x[i] = double(n[i]) + f[i]; put(out, vm::vec<T,S>(V<S>(x)));",
             FOR + "{ const double x = double(n[i]) + f[i]; out[i] = x >= 0 || f[i] == 0 ? T(n[i]) : T(n[i] + 1); }", T=["int", "long"], **e)
        s.ob("vec.fill", "a", n, "put(out, vm::vec<T,S>::fill(a[0]));", FOR + "out[i] = a[0];", T=ALL, **e)
        s.ob("vec.axis", "a", n, "put(out, vm::vec<T,S>::axis(@K@));", FOR + "out[i] = i == K ? 1 : 0;", T=ALL, K=list(range(n)), **e)
        s.ob("vec.subscript", "a:S b", n + 1, "vm::vec<T,S> v; " + FOR + "v[i] = a[i]; v[@K@] = b[0]; const vm::vec<T,S>& c = v; " + FOR + "out[i] = c[i]; out[S] = v.v[@K@];",
             FOR + "out[i] = i == K ? b[0] : a[i]; out[S] = b[0];", T=["double", "int"], K=list(range(n)), **e)
        for k, c in enumerate("xyzw"[:n]):
            s.ob(f"vec.{c}", "a:S", 1, f"out[0] = V<S>(a).{c}();", f"out[0] = a[{k}];", T=ALL, **e)
        for nm, ix in (("xy", (0, 1)), ("xz", (0, 2)), ("yz", (1, 2)), ("xyz", (0, 1, 2)), ("xyzw", (0, 1, 2, 3))):
            if max(ix) < n:
                s.ob(f"vec.{nm}", "a:S", len(ix), f"put(out, V<S>(a).{nm}());", " ".join(f"out[{j}] = a[{i}];" for j, i in enumerate(ix)), T=ALL, **e)
        for k, c in enumerate("xyz"[:n]):
            s.ob(f"vec.pos_{c}", "a", n, f"put(out, vm::vec<T,S>::pos_{c}());", FOR + f"out[i] = i == {k} ? 1 : 0;", T=NUM, **e)
            s.ob(f"vec.neg_{c}", "a", n, f"put(out, vm::vec<T,S>::neg_{c}());", FOR + f"out[i] = i == {k} ? -1 : 0;", T=NUM, **e)
        s.ob("vec.zero", "a", n, "put(out, vm::vec<T,S>::zero());", FOR + "out[i] = 0;", T=ALL, **e)
        s.ob("vec.one", "a", n, "put(out, vm::vec<T,S>::one());", FOR + "out[i] = 1;", T=ALL, **e)
        s.ob("vec.min", "a", n, "put(out, vm::vec<T,S>::min());", FOR + "out[i] = std::numeric_limits<T>::min();", T=NUM, **e)
        s.ob("vec.max", "a", n, "put(out, vm::vec<T,S>::max());", FOR + "out[i] = std::numeric_limits<T>::max();", T=NUM, **e)
        s.ob("vec.nan", "a", n, "const auto v = vm::vec<T,S>::nan(); " + FOR + "out[i] = v[i] != v[i] ? 1 : 0;", FOR + "out[i] = 1;", T=FD, **e)
        s.ob("to_homogeneous_coords", "a:S", n + 1, "put(out, to_homogeneous_coords(V<S>(a)));", FOR + "out[i] = a[i]; out[S] = 1;", T=FD, **e)
        if n > 1:
            s.ob("to_cartesian_coords", "a:S", n - 1, "put(out, to_cartesian_coords(V<S>(a)));", "vp_assume(a[S-1] != 0); for (std::size_t i = 0; i + 1 < S; ++i) out[i] = a[i] / a[S-1];", T=FD, **e)
        s.ob("homogeneous.roundtrip", "a:S", n, "put(out, to_cartesian_coords(to_homogeneous_coords(V<S>(a))));", FOR + "out[i] = a[i];", T=FD, **e)
    # cyclic relabelling of axes and its inverse
    s.ob("swizzle", "a:3", 3, "put(out, vm::swizzle(V<3>(a), @K@));", "const std::size_t o = K == 0 ? 1 : (K == 1 ? 2 : 0); for (std::size_t i = 0; i < 3; ++i) out[i] = a[(i + o) % 3];", T=NUM, K=[0, 1, 2, 3])
    s.ob("swizzle.inverse", "a:3", 6, "put(out, vm::unswizzle(vm::swizzle(V<3>(a), @K@), @K@)); put(out + 3, vm::swizzle(vm::unswizzle(V<3>(a), @K@), @K@));", "for (std::size_t i = 0; i < 6; ++i) out[i] = a[i % 3];", T=NUM, K=[0, 1, 2, 3])
    # matrices: values are given row by row, columns are what operator[] yields
    for r, c in ((1, 1), (2, 2), (3, 3), (4, 4), (2, 3), (3, 2), (1, 4), (4, 1), (3, 4), (4, 3)):
        e = dict(R=[r], C=[c])
        RC = "for (std::size_t c = 0; c < C; ++c) for (std::size_t r = 0; r < R; ++r) "
        args = ", ".join(f"a[{i}]" for i in range(r * c))
        s.ob("mat.default", "a", r * c, "put(out, vm::mat<T,R,C>());", RC + "out[c*R+r] = r == c ? 1 : 0;", T=FD, **e)
        s.ob("mat.identity", "a", r * c, "put(out, vm::mat<T,R,C>::identity());", RC + "out[c*R+r] = r == c ? 1 : 0;", T=FD, **e)
        s.ob("mat.zero", "a", r * c, "put(out, vm::mat<T,R,C>::zero());", RC + "out[c*R+r] = 0;", T=FD, **e)
        s.ob("mat.fill", "a", r * c, "put(out, vm::mat<T,R,C>::fill(a[0]));", RC + "out[c*R+r] = a[0];", T=FD, **e)
        if r * c > 1:
            s.ob("mat.values", "a:R*C", r * c, f"put(out, vm::mat<T,R,C>({args}));", RC + "out[c*R+r] = a[r*C+c];", T=FD, **e)
            s.ob("mat.values.mixed", "a:R*C:i:int", r * c, f"put(out, vm::mat<T,R,C>({args}));", RC + "out[c*R+r] = T(a[r*C+c]);", T=FD, **e)
        s.ob("mat.list", "a:R*C", r * c, f"const vm::mat<T,R,C> m{{{args}}}; put(out, m);", RC + "out[c*R+r] = a[r*C+c];", T=FD, **e)
        s.ob("mat.copy", "a:R*C b:R*C", 2 * r * c, "const auto m = M<R,C>(a); auto w = m; put(out, w); auto q = M<R,C>(b); q = m; put(out + R*C, q);", "for (std::size_t i = 0; i < R*C; ++i) { out[i] = a[i]; out[R*C+i] = a[i]; }", T=FD, **e)
        s.ob("mat.convert", "a:R*C:r:float", r * c, "put(out, vm::mat<T,R,C>(M<R,C>(a)));", "for (std::size_t i = 0; i < R*C; ++i) out[i] = T(a[i]);", T="double", **e)
        s.ob("mat.convert.narrow", "a:R*C:r:double", r * c, "put(out, vm::mat<T,R,C>(M<R,C>(a)));", "for (std::size_t i = 0; i < R*C; ++i) out[i] = T(a[i]);", T="float", **e)
        s.ob("mat.subscript", "a:R*C b:R", r * c, "auto m = M<R,C>(a); m[@K@] = V<R>(b); const auto& k = m; for (std::size_t c = 0; c < C; ++c) put(out + c*R, k[c]);",
             RC + "out[c*R+r] = c == K ? b[r] : a[c*R+r];", T=FD, K=list(range(c)), **e)
        s.ob("mat.set", "a:R*C b", r * c, "put(out, vm::set(M<R,C>(a), @K@, @L@, b[0]));", RC + "out[c*R+r] = r == K && c == L ? b[0] : a[c*R+r];", T="double", K=list(range(r)), L=list(range(c)), **e)
        if r == c:
            s.ob("mat.zero_out", "a", r * c, "put(out, vm::mat<T,R,C>::template zero_out<@K@>());", RC + "out[c*R+r] = r == c && r != K ? 1 : 0;", T=FD, K=list(range(r)), **e)
    s.ob("get_vertices", "a:6", 6, "const vm::vec<T,3> v[2] = {V<3>(a), V<3>(a+3)}; std::vector<vm::vec<T,3>> o; vm::vec<T,3>::get_vertices(v, v + 2, std::back_inserter(o)); put(out, o[0]); put(out+3, o[1]);",
         "for (int i = 0; i < 6; ++i) out[i] = a[i];", T=FD)
    s.ob("get_vertices.into_array", "a:6", 6, "const vm::vec<T,3> v[2] = {V<3>(a), V<3>(a+3)}; vm::vec<T,3> o[2]; vm::vec<T,3>::get_vertices(v, v + 2, o); put(out, o[0]); put(out+3, o[1]);",
         "for (int i = 0; i < 6; ++i) out[i] = a[i];", T=FD)
    return s.obs
