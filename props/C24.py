"""Convex hulls of coplanar points."""
import itertools
from engine.obl import Spec
from .common import *

INCLUDES = ["scalar.h", "vec.h", "plane.h", "convex_hull.h"]
HDR = """
// points of a coordinate plane (or one tilted by less than 45 degrees) whose axis is A
template <int A, typename T> vm::vec<T,3> W3(T u, T v, T h) { return A == 0 ? vm::vec<T,3>(h, u, v) : A == 1 ? vm::vec<T,3>(v, h, u) : vm::vec<T,3>(u, v, h); }
template <int A, typename T> void putw(T* out, T u, T v, T h) { out[A == 0 ? 1 : A == 1 ? 2 : 0] = u; out[A == 0 ? 2 : A == 1 ? 0 : 1] = v; out[A] = h; }
template <typename T> T s_left(const T* p, const T* q, const T* r) { return (q[0] - p[0]) * (r[1] - p[1]) - (r[0] - p[0]) * (q[1] - p[1]); }
"""
# a configuration: points as expressions over the inputs, sign facts, hull
#   pts: name -> (u expression, v expression)
#   left: triples that turn left; low: points above the anchor; hull: names in order


def conf(n):
    """general position facts for names in convex position, counter-clockwise from the lowest"""
    return list(itertools.combinations(n, 3))


def obligations(tier):
    s = Spec("C24")

    def add(name, pts, left, hull, extra="", perms=None, axes=(0, 1, 2), T=FD, first=None, **kw):
        names = list(pts)
        ins = "g " + " ".join(sorted({c for e in pts.values() for x in e for c in "abcdefxystoz" if c + "[" in x}))
        n = len(names)
        decl = "".join(f"const T {k}[2] = {{ {u}, {v} }}; " for k, (u, v) in pts.items())
        facts = extra + "".join(f"vp_assume(s_left({p}, {q}, {r}) > 0); " for p, q, r in left)
        for pi, perm in enumerate(perms or itertools.permutations(range(n))):
            o = [names[i] for i in perm]
            # the first point not colinear with the first two distinct ones must be so by more than the tolerance
            A = axes[pi % len(axes)]
            col = ""
            sec = next((q for q in o[1:] if pts[q] != pts[o[0]]), None)
            if sec and hull:
                for q in o[1:]:
                    t = {o[0], sec, q}
                    if any(set(l) == t for l in left):
                        l = next(l for l in left if set(l) == t)
                        col = f"{{ const T z = s_left({l[0]}, {l[1]}, {l[2]}); vp_assume(z * z > vm::constants<T>::colinear_epsilon()); vp_assume(z*z > 0); }} "
                        break
            mk = "std::vector<vm::vec<T,3>> l; " + "".join(f"l.push_back(W3<{A}>({q}[0], {q}[1], g[0])); " for q in o)
            m = max(1, len(hull))
            # the order of the first two points, unless known
            vs = [("", "")]
            if n > 2 and hull and sec == o[1] and "A" not in o[:2] and f"{o[0]}[1]" not in extra.replace("A[1] < " + o[0], "") and f"{o[1]}[1]" not in extra.replace("A[1] < " + o[1], ""):
                vs = [(".below", f"vp_assume({o[0]}[1] < {o[1]}[1]); "), (".above", f"vp_assume({o[1]}[1] < {o[0]}[1]); ")]
            for vn, vf in vs:
              s.ob(f"{name}.{''.join(o) if n < 7 else pi}{vn}", ins, 1 + 3 * m, mk + f"const auto h = vm::convex_hull(l); out[0] = T(h.size()); for (std::size_t i = 0; i < {m}; ++i) {{ if (i < h.size()) put(out + 1 + 3*i, h[i]); else out[1+3*i] = out[2+3*i] = out[3+3*i] = 0; }}",
                 f"for (std::size_t i = 0; i < {1+3*m}; ++i) out[i] = 0; out[0] = {len(hull)}; " + "".join(f"putw<{A}>(out + {1+3*i}, {q}[0], {q}[1], g[0]); " for i, q in enumerate(hull)),
                 pre=decl + facts + col + vf, T=T, hdr=HDR, poly=True, api="vm::convex_hull", **kw)
    al = lambda n, k: {c.upper(): (f"{c}[0]", f"{k}[0]") for c, k in zip(n, k)}  # noqa: E731
    low = lambda a, l: "".join(f"vp_assume({a}[1] < {b}[1]); " for b in l)  # noqa: E731
    # fewer than three points, all points on one line
    add("few", {}, [], [], perms=[()])
    add("few", {"A": ("a[0]", "b[0]")}, [], [])
    add("few", {"A": ("a[0]", "b[0]"), "B": ("c[0]", "d[0]")}, [], [], perms=[(0, 1)])
    ln = lambda k: (f"a[0] + {k}*c[0]", f"b[0] + {k}*d[0]")  # noqa: E731
    add("colinear", {"A": ln("T(0)"), "B": ln("s[0]"), "C": ln("t[0]")}, [], [], axes=(2,))
    add("colinear", {"A": ln("T(0)"), "B": ln("s[0]"), "C": ln("t[0]"), "D": ln("x[0]")}, [], [], axes=(2,), perms=[(0, 1, 2, 3)])
    add("same", {"A": ("a[0]", "b[0]"), "B": ("a[0]", "b[0]"), "C": ("a[0]", "b[0]")}, [], [], perms=[(0, 1, 2)])
    add("same", {"A": ("a[0]", "b[0]"), "B": ("a[0]", "b[0]"), "C": ("c[0]", "d[0]")}, [], [])
    # triangles: A lowest, then counter-clockwise
    P = {"A": ("a[0]", "b[0]"), "B": ("c[0]", "d[0]"), "C": ("e[0]", "f[0]")}
    for ax in (0, 1, 2):
        add(f"triangle.ax{ax}", P, [("A", "B", "C")], "ABC", low("A", "BC"), axes=(ax,))
    # planes tilted by less than 45 degrees towards either other axis
    for ax in (0, 1, 2):
        for sp, sq in itertools.product((">", "<"), repeat=2):
            for rel in (">", "<"):
                m1, m2 = ("-" if sp == "<" else "") + "p[0]*z", ("-" if sq == "<" else "") + "q[0]*z"
                dz = "const T z = s_left(A, B, C); vp_assume(z > 0); " + f"vp_assume({m1} > 0); vp_assume({m2} > 0); vp_assume({m1} < z); vp_assume({m2} < z); vp_assume({m1} {rel} {m2}); vp_assume(p[0] {sp} 0); vp_assume(q[0] {sq} 0); "
                dz += "vp_assume(z*z*(1 + p[0]*p[0] + q[0]*q[0]) > 0); vp_assume(z*z*(1 + p[0]*p[0] + q[0]*q[0]) > vm::constants<T>::colinear_epsilon()); "
                decl = "".join(f"const T {k}[2] = {{ {u}, {v} }}; " for k, (u, v) in P.items()) + low("A", "BC") + dz
                h = "g[0] + p[0]*{0}[0] + q[0]*{0}[1]"
                for o in ("ABC", "ACB", "BAC", "CAB"):
                    mk = "std::vector<vm::vec<T,3>> l; " + "".join(f"l.push_back(W3<{ax}>({k}[0], {k}[1], {h.format(k)})); " for k in o)
                    s.ob(f"tilted.ax{ax}.{sp}{sq}{rel}.{o}", "a b c d e f g p q", 10, mk + "const auto h = vm::convex_hull(l); out[0] = T(h.size()); for (std::size_t i = 0; i < 3; ++i) { if (i < h.size()) put(out + 1 + 3*i, h[i]); else out[1+3*i] = out[2+3*i] = out[3+3*i] = 0; }",
                         "out[0] = 3; " + "".join(f"putw<{ax}>(out + {1+3*i}, {k}[0], {k}[1], {h.format(k)}); " for i, k in enumerate("ABC")), pre=decl, T=FD if tier != "quick" else "double", hdr=HDR, poly=True, api="vm::convex_hull")
    # two lowest points: the right one comes first
    add("triangle.flat", {"A": ("a[0]", "b[0]"), "B": ("c[0]", "d[0]"), "C": ("e[0]", "b[0]")}, [("A", "B", "C")], "ABC", "vp_assume(A[1] < B[1]); vp_assume(C[0] < A[0]); ")
    add("triangle.flat.top", {"A": ("a[0]", "b[0]"), "B": ("c[0]", "d[0]"), "C": ("e[0]", "d[0]")}, [("A", "B", "C")], "ABC", "vp_assume(A[1] < B[1]); vp_assume(A[1] < C[1]); vp_assume(C[0] < B[0]); ")
    # quadrilaterals in convex position
    Q = dict(P, D=("x[0]", "y[0]"))
    add("quad", Q, conf("ABCD"), "ABCD", low("A", "BCD"))
    add("quad.flat", dict(P, D=("x[0]", "b[0]")), conf("ABCD"), "ABCD", low("A", "BC") + "vp_assume(D[0] < A[0]); ")
    # a point inside the triangle
    add("inside", Q, [("A", "B", "C"), ("A", "B", "D"), ("B", "C", "D"), ("A", "D", "C")], "ABC", low("A", "BCD"))
    # five and six points, A given first
    H = dict(Q, E=("s[0]", "t[0]"))
    add("penta", H, conf("ABCDE"), "ABCDE", low("A", "BCDE"), perms=[(0,) + q for q in itertools.permutations((1, 2, 3, 4))])
    add("penta.inside", H, conf("ABCD") + [("A", "B", "E"), ("B", "C", "E"), ("C", "D", "E"), ("A", "E", "D"), ("A", "E", "C"), ("B", "E", "D")], "ABCD", low("A", "BCDE"), perms=[(0,) + q for q in itertools.permutations((1, 2, 3, 4))][::2])
    add("hexa", dict(H, F=("o[0]", "z[0]")), conf("ABCDEF"), "ABCDEF", low("A", "BCDEF"), perms=[(0,) + q for q in itertools.permutations((1, 2, 3, 4, 5))][::5 if tier == "quick" else 1])
    add("hexa.inside2", dict(H, F=("o[0]", "z[0]")), conf("ABCD") + [("A", "B", "E"), ("B", "C", "E"), ("C", "D", "E"), ("A", "E", "D"), ("A", "E", "C"), ("B", "E", "D"), ("A", "B", "F"), ("B", "C", "F"), ("C", "D", "F"), ("A", "F", "D"), ("A", "F", "C"), ("B", "F", "D"),
        ("A", "E", "F"), ("B", "E", "F"), ("C", "F", "E"), ("D", "F", "E")], "ABCD", low("A", "BCDEF"), perms=[(0,) + q for q in itertools.permutations((1, 2, 3, 4, 5))][::7 if tier == "quick" else 1])
    # duplicates, and points on the edges; the sides tell where B and C lie relative to A
    for sb, sc in ((">", ">"), (">", "="), (">", "<"), ("=", "<"), ("<", "<")):
        for yo in ("<", ">", "="):
            if yo == "=" and (sb, sc) == (">", "<"):
                continue
            sd = {"B": sb, "C": sc}
            R = {"A": P["A"]}
            fx = low("A", "BC")
            for k, x in sd.items():
                R[k] = ("a[0]", P[k][1]) if x == "=" else P[k]
                fx += "" if x == "=" else f"vp_assume({k}[0] {x} A[0]); "
            if yo == "=":
                R["C"] = (R["C"][0], "d[0]")
                fx += "vp_assume(C[0] < B[0]); "
            else:
                fx += f"vp_assume(B[1] {yo} C[1]); "
            nm = f".{sb}{sc}.{yo}".replace(">", "r").replace("<", "l").replace("=", "o")
            for k in "ABC":
                lft = [("A", "B", "C")] + [tuple("D" if x == k else x for x in "ABC")]
                # permutations in which the order of B and C matters before A is seen
                pm = [q for q in itertools.permutations(range(4)) if yo == "<" or {1, 2} <= {x if x < 3 else "ABC".index(k) for x in q[:[i for i in range(4) if q[i] == 0 or q[i] == 3 and k == "A"][0]]}]
                add("double" + k + nm, dict(R, D=R[k]), lft, "ABC", fx, perms=pm)
                if yo == "<":
                    add("triple" + k + nm, dict(R, D=R[k], E=R[k]), [("A", "B", "C")] + [tuple(y if x == k else x for x in "ABC") for y in "DE"], "ABC", fx, perms=[(0, 1, 2, 3, 4), (4, 3, 0, 1, 2), (3, 4, 2, 1, 0), (2, 0, 3, 1, 4), (1, 3, 0, 4, 2)])
            for p, q in ("AB", "BC", "CA"):
                D = tuple(R[p][i] if R[p][i] == R[q][i] else f"{R[p][i]} + t[0]*({R[q][i]} - {R[p][i]})" for i in (0, 1))
                tri = {"AB": [("A", "D", "C"), ("D", "B", "C")], "BC": [("A", "B", "D"), ("A", "D", "C")], "CA": [("A", "B", "D"), ("B", "C", "D")]}[p + q]
                ex = fx + low("A", "D") + "vp_assume(t[0] > 0); vp_assume(t[0] < 1); "
                if p + q != "BC":
                    o = q if p == "A" else p
                    z = "C" if o == "B" else "B"
                    ex += f"vp_assume(D[1] < {o}[1]); "
                    if sd[o] != "=":
                        inv = "<" if sd[o] == ">" else ">"
                        ex += f"vp_assume(D[0] {sd[o]} A[0]); vp_assume(D[0] {inv} {o}[0]); "
                    zs = (f"vp_assume(D[1] < {z}[1]); ", f"vp_assume(D[1] > {z}[1]); ") if {("B", "<"): "C", ("C", ">"): "B"}.get((o, yo)) is None and yo != "=" else (f"vp_assume(D[1] < {z}[1]); ",)
                else:
                    zs = (f"vp_assume(D[1] {'>' if yo == '<' else '<'} B[1]); vp_assume(D[1] {yo} C[1]); " if yo != "=" else "vp_assume(D[0] < B[0]); vp_assume(C[0] < D[0]); ",)
                for zi, zf in enumerate(zs):
                    pm = [q_ for q_ in itertools.permutations(range(4)) if yo == "<" and zi == 0 or q_.index(0) > 1]
                    add(f"edge{p}{q}{nm}{zi}", dict(R, D=D), [("A", "B", "C")] + tri, "ABC", ex + zf, perms=pm)
    return s.obs
