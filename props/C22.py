"""Text output and input."""
from engine.obl import Spec
from .common import *

INCLUDES = ["#include <cstddef>", "#undef _GLIBCXX_EXTERN_TEMPLATE", "#define _GLIBCXX_EXTERN_TEMPLATE 0", "#include <ostream>", "#include <string>", "#include <string_view>", "scalar.h", "vec.h", "vec_io.h", "mat.h", "mat_io.h", "bbox.h", "bbox_io.h", "line.h", "line_io.h", "ray.h", "ray_io.h", "plane.h", "plane_io.h", "quat.h", "approx.h"]
HDR = """
extern "C" std::ostream* vp_stream();
extern "C" double vp_at(std::ostream*, std::size_t, std::size_t);
extern "C" std::size_t vp_items(std::ostream*);
constexpr std::size_t W = 90;
template <typename T> void dump(T* out, std::ostream* s) { out[0] = T(vp_items(s)); for (std::size_t i = 0; i < W; ++i) { out[1+2*i] = T(vp_at(s, i, 0)); out[2+2*i] = T(vp_at(s, i, 1)); } }
template <typename T> struct Text { T* out; std::size_t n = 0; int k = 1;
  Text(T* o) : out(o) { for (std::size_t i = 0; i < 2*W + 1; ++i) out[i] = 0; if (T(1)/T(2) == T(0)) k = 2; }
  Text& operator<<(const char* c) { for (; *c; ++c) { out[1+2*n] = 0; out[2+2*n] = T(*c); ++n; out[0] = T(n); } return *this; }
  Text& operator<<(T v) { out[1+2*n] = T(k); out[2+2*n] = v; ++n; out[0] = T(n); return *this; }
  template <std::size_t S> Text& vec(const T* p) { for (std::size_t i = 0; i < S; ++i) { if (i) *this << " "; *this << p[i]; } return *this; }
};
"""
NO = 181
BL = [" ", "\\t", "\\n", "\\r", "(", ")"]


def tok(toks):
    """text layout: # is any digit; returns (initialiser of the char array, number of digits, [value expressions])"""
    chars, n, vals = [], 0, []
    for t in toks:
        isnum = isinstance(t, tuple)
        x = t[0] if isnum else t
        v, sgn, frac, seen = "T(0)", "", 0, False
        i = 0
        while i < len(x):
            c = x[i]
            if c == "\\":
                c = x[i:i + 2]
                i += 1
            i += 1
            if c == "#":
                chars.append(f"d[{n}]")
                dig = f"T(d[{n}] - '0')"
                n += 1
                if seen:
                    frac += 1
                    v = f"({v} + {dig}/T({10**frac}))"
                else:
                    v = f"(T(10)*{v} + {dig})"
            else:
                chars.append(f"'{c}'")
                if c == "-":
                    sgn = "-"
                if c == ".":
                    seen = True
        if isnum:
            vals.append(sgn + v)
    return "const char b[] = { " + ", ".join(chars + ["'7'", "0"]) + " }; ", len(chars), max(n, 1), vals


def obligations(tier):
    s = Spec("C22")
    o = dict(T=FD, hdr=HDR, text=True)
    out = "std::ostream* os = vp_stream(); *os << {0}; dump(out, os);"
    s.ob("write.vec", "a:S", NO, out.format("V<S>(a)"), "Text<T>(out).template vec<S>(a);", api="vm::operator<<", T=NUM, S=S4, hdr=HDR, text=True)
    s.ob("write.vec.twice", "a:S b:S", NO, out.format('V<S>(a) << "|" << V<S>(b) << "!"'), 'Text<T> t(out); t.template vec<S>(a); t << "|"; t.template vec<S>(b); t << "!";', api="vm::operator<<", T=FD, S=S4, hdr=HDR, text=True)
    for R, Cn in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (2, 4), (4, 2)):
        s.ob(f"write.mat{R}x{Cn}", f"a:{R*Cn}", NO, out.format(f"M<{R},{Cn}>(a)"), f'Text<T> t(out); for (std::size_t r = 0; r < {R}; ++r) for (std::size_t c = 0; c < {Cn}; ++c) {{ if (r + c) t << " "; t << a[c*{R}+r]; }}', api="vm::operator<<", **o)
    two = 'Text<T> t(out); t << "{{ {0}: ("; t.template vec<S>(a); t << "), {1}: ("; t.template vec<S>(b); t << ") }}";'
    w = dict(T=FD, S=[1, 2, 3], hdr=HDR, text=True, api="vm::operator<<")
    s.ob("write.bbox", "a:S b:S", NO, out.format("vm::bbox<T,S>(V<S>(a), V<S>(b))"), FOR + "vp_assume(a[i] <= b[i]); " + two.format("min", "max"), **w)
    s.ob("write.line", "a:S b:S", NO, out.format("(vm::line<T,S>(V<S>(a), V<S>(b)))"), two.format("point", "direction"), **w)
    s.ob("write.ray", "a:S b:S", NO, out.format("(vm::ray<T,S>(V<S>(a), V<S>(b)))"), two.format("origin", "direction"), **w)
    s.ob("write.plane", "a:S b", NO, out.format("(vm::plane<T,S>(b[0], V<S>(a)))"), 'Text<T> t(out); t << "{ normal: ("; t.template vec<S>(a); t << "), distance: "; t << b[0]; t << " }";', **w)
    s.ob("write.approx", "a e", NO, out.format("vm::approx<T>(a[0], e[0])"), "vp_assume(e[0] >= 0); Text<T>(out) << a[0];", **o)
    s.ob("write.approx.vec", "a:S e", NO, out.format("(vm::approx<vm::vec<T,S>>(V<S>(a), e[0]))"), "vp_assume(e[0] >= 0); Text<T>(out).template vec<S>(a);", **w)
    # reading: layouts of a text, # stands for any digit
    D = lambda n: f"d:{n}::char"  # noqa: E731
    dig = "for (std::size_t i = 0; i < {0}; ++i) {{ vp_assume(d[i] >= 48); vp_assume(d[i] <= 57); }} "
    forms = [("#",), ("##.#",), ("-#",), ("+#.##",), ("-###",)]
    seps = [" ", "  ", "\\t", "\\n", "\\r", "\\r\\n", ") (", "(", ")", " ( "]
    fr = [("", ""), ("(", ")"), (" ", " "), ("( ", " )"), ("\\t(", ")\\n"), ("((", "))")]

    def read(name, S, toks, ok, T=FD, **kw):
        b, n, nd, vals = tok(toks)
        g = ("out[0] = 1; " + " ".join(f"out[{1+i}] = {vals[i]};" for i in range(S))) if ok else f"for (std::size_t i = 0; i < {S+1}; ++i) out[i] = 0;"
        s.ob(name, D(nd), S + 1, b + f"const auto r = vm::parse<T,{S}>(std::string_view(b, {n})); out[0] = r.has_value(); if (r) put(out + 1, *r); else for (std::size_t i = 0; i < {S}; ++i) out[1+i] = 0;", dig.format(nd) + g, api="vm::parse", T=T, hdr=HDR, text=True, **kw)
    for S in S4:
        for si, sp in enumerate(seps):
            pre, post = fr[(si + S) % len(fr)]
            toks = [pre] if pre else []
            for i in range(S):
                if i:
                    toks.append(sp)
                toks.append(forms[(i + si) % len(forms)])
            toks += [post] if post else []
            read(f"read.vec{S}.sep{si}", S, toks, True)
        for fi, (pre, post) in enumerate(fr):
            toks = [pre] if pre else []
            for i in range(S):
                toks += ([" "] if i else []) + [("#",)]
            read(f"read.vec{S}.frame{fi}", S, toks + ([post] if post else []), True)
            read(f"read.vec{S}.long{fi}", S, toks + [" ", ("#",), " ", ("##",)] + ([post] if post else []), True)
            # one component missing
            short = [pre] if pre else []
            for i in range(S - 1):
                short += ([" "] if i else []) + [("#.#",)]
            read(f"read.vec{S}.short{fi}", S, short + ([post] if post else []), False)
        read(f"read.vec{S}.none", S, [], False)
        for bi, bc in enumerate(BL):
            read(f"read.vec{S}.blank{bi}", S, [bc, bc], False)
        ints = []
        for i in range(S):
            ints += ([" "] if i else []) + [("##",)]
        read(f"read.vec{S}.int", S, ints, True, T=["int"])

    def readm(name, R, Cn, toks, ok):
        b, n, nd, vals = tok(toks)
        g = ("out[0] = 1; " + " ".join(f"out[{1+c*R+r}] = {vals[r*Cn+c]};" for r in range(R) for c in range(Cn))) if ok else f"for (std::size_t i = 0; i < {R*Cn+1}; ++i) out[i] = 0;"
        s.ob(name, D(nd), R * Cn + 1, b + f"const auto r = vm::parse<T,{R},{Cn}>(std::string_view(b, {n})); out[0] = r.has_value(); if (r) put(out + 1, *r); else for (std::size_t i = 0; i < {R*Cn}; ++i) out[1+i] = 0;", dig.format(nd) + g, api="vm::parse", T=FD, hdr=HDR, text=True)
    for R, Cn in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4)):
        for fi, (pre, post) in enumerate(fr):
            for nm, cnt, ok in (("", R * Cn, True), (".long", R * Cn + 1, True), (".short", R * Cn - 1, False)):
                toks = [pre] if pre else []
                for i in range(cnt):
                    toks += ([seps[fi]] if i else []) + [forms[(i + fi) % 5] if R * Cn < 5 else ("#",)]
                readm(f"read.mat{R}x{Cn}{nm}.{fi}", R, Cn, toks + ([post] if post else []), ok)
    # lists
    for S in (1, 2, 3):
        for pi, (l, m, r) in enumerate((("", " ", ""), ("(", ") (", ")"), ("(", "), (", ")"), ("(", "),(", ")"), ("(", ");(", ")"), ("(", "); (", ")"), ("", ", ", ""), ("", "; ", ""), ("", "\\n", ""), ("(", ")\\n(", ")"), ("(", ") ; (", ") "), ("", "\\t", ""), ("(", ")\\t(", ")"), ("(", ")\\r(", ")"), ("(", ")\\r\\n(", ")"), ("", "\\r", "\\r"),
                                         ("(", "),\\n(", ")\\n"), ("", ",\\t", ""), ("", ";\\n", ""), (" ( ", " ) ( ", " ) "), ("(", ");\\r(", ")"))):
            for cnt in (1, 2, 3):
                toks = [l] if l else []
                for k in range(cnt):
                    toks += [m] if k else []
                    for i in range(S):
                        toks += ([" "] if i else []) + [("#",) if i else ("-#.#",)]
                full = toks + ([r] if r else [])
                for nm, tk, ok in (("", full, cnt), (".rest", full + [" "] + [("#",), " "] * (S - 1), cnt)):
                    b, n, nd, vals = tok(tk)
                    g = f"out[0] = {ok}; " + " ".join(f"out[{1+i}] = {vals[i]};" for i in range(ok * S))
                    s.ob(f"read.list{S}.{pi}.{cnt}{nm}", D(nd), ok * S + 1, b + f"std::vector<vm::vec<T,{S}>> l; vm::parse_all<T,{S}>(std::string_view(b, {n}), std::back_inserter(l)); out[0] = T(l.size()); for (std::size_t i = 0; i < {ok}; ++i) put(out + 1 + i*{S}, l[i]);", dig.format(nd) + g, api="vm::parse_all", T=FD, hdr=HDR, text=True)
        s.ob(f"read.list{S}.none", "d", 1, f'std::vector<vm::vec<T,{S}>> l; vm::parse_all<T,{S}>(std::string_view("", 0), std::back_inserter(l)); out[0] = T(l.size());', "out[0] = 0;", api="vm::parse_all", T=FD, hdr=HDR, text=True)
        s.ob(f"read.list{S}.array", D(2 * S), 2 * S, tok([x for i in range(2 * S) for x in (("#",), " ")][:-1])[0] + f"vm::vec<T,{S}> l[2]; vm::parse_all<T,{S}>(std::string_view(b, {4*S-1}), l); put(out, l[0]); put(out + {S}, l[1]);",
             dig.format(2 * S) + f"for (std::size_t i = 0; i < {2*S}; ++i) out[i] = T(d[i] - 48);", api="vm::parse_all", T=FD, hdr=HDR, text=True)
    return s.obs
