"""Exact multivariate polynomials and rational functions over Q.

A polynomial is a dict  monomial -> coefficient,  a monomial a sorted tuple of
(variable id, exponent).  Variables are registered in a Ctx and are either
inputs or algebraic/transcendental atoms (sqrt, sin, cos, ...), for which
rewrite rules (sqrt(p)^2 -> p, sin^2 -> 1 - cos^2) keep a normal form.
"""
from fractions import Fraction
from math import gcd

ONE_M = ()


class Blowup(Exception):
    pass


class GiveUp(Exception):
    pass


MAXTERMS = 60000


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def p_const(c):
    return {ONE_M: c} if c != 0 else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        x = r.get(m)
        if x is None:
            r[m] = c
        else:
            x = x + c
            if x == 0:
                del r[m]
            else:
                r[m] = x
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_sub(a, b):
    return p_add(a, p_neg(b))


def p_scale(a, k):
    if k == 0:
        return {}
    return {m: norm(c * k) for m, c in a.items()}


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def is_const(a):
    return not a or (len(a) == 1 and ONE_M in a)


def const_val(a):
    return a.get(ONE_M, 0)


class Ctx:
    def __init__(self):
        self.names = []
        self.rules = {}  # var id -> polynomial for var^2
        self.info = []
        self.ints = set()
        self.nonneg = set()
        self.partner = {}
        self.cache = {}

    def var(self, name, info=None, integer=False, nonneg=False):
        i = len(self.names)
        self.names.append(name)
        self.info.append(info)
        if integer:
            self.ints.add(i)
        if nonneg:
            self.nonneg.add(i)
        return i

    def mul(self, a, b):
        if not a or not b:
            return {}
        if len(a) * len(b) > 4000000:
            raise Blowup("product of %d and %d terms" % (len(a), len(b)))
        r = {}
        red = False
        rules = self.rules
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                x = r.get(m)
                if x is None:
                    r[m] = c1 * c2
                else:
                    r[m] = x + c1 * c2
        r = {m: norm(c) for m, c in r.items() if c != 0}
        if len(r) > MAXTERMS:
            raise Blowup("%d terms" % len(r))
        if rules:
            r = self.reduce(r)
        return r

    def reduce(self, p):
        rules = self.rules
        while True:
            hit = None
            for m in p:
                for v, e in m:
                    if e >= 2 and v in rules:
                        hit = (m, v, e)
                        break
                if hit:
                    break
            if not hit:
                return p
            # reduce every monomial containing v^2 at once
            out = {}
            v = hit[1]
            rp = rules[v]
            for m, c in p.items():
                e = dict(m).get(v, 0)
                if e >= 2:
                    k = e // 2
                    rest = tuple((x, y) for x, y in m if x != v)
                    if e % 2:
                        rest = mono_mul(rest, ((v, 1),))
                    q = {rest: c}
                    for _ in range(k):
                        q2 = {}
                        for m1, c1 in q.items():
                            for m2, c2 in rp.items():
                                mm = mono_mul(m1, m2)
                                q2[mm] = q2.get(mm, 0) + c1 * c2
                        q = q2
                    for mm, cc in q.items():
                        out[mm] = out.get(mm, 0) + cc
                else:
                    out[m] = out.get(m, 0) + c
            p = {m: norm(c) for m, c in out.items() if c != 0}
            if len(p) > MAXTERMS:
                raise Blowup("%d terms" % len(p))

    def pow(self, a, n):
        r = {ONE_M: 1}
        for _ in range(n):
            r = self.mul(r, a)
        return r

    def show(self, p, limit=12):
        if not p:
            return "0"
        out = []
        for m, c in sorted(p.items(), key=lambda t: (-sum(e for _, e in t[0]), t[0]))[:limit]:
            s = "*".join(self.names[v] + ("^%d" % e if e > 1 else "") for v, e in m)
            if not s:
                out.append(fmtc(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append(fmtc(c) + "*" + s)
        if len(p) > limit:
            out.append("... (%d terms)" % len(p))
        return " + ".join(out).replace("+ -", "- ")


def fmtc(c):
    if isinstance(c, int) or c.denominator < 10000:
        return str(c)
    return "%.6g" % float(c)


def content(p):
    """rational content, and the sign of the leading term"""
    g = 0
    l = 1
    for c in p.values():
        if isinstance(c, int):
            n, d = c, 1
        else:
            n, d = c.numerator, c.denominator
        g = gcd(g, n)
        l = l * d // gcd(l, d)
    return Fraction(g, 1) / l if g else Fraction(0)


def order_key(m):
    return (sum(e for _, e in m), m)


def lead(p):
    return max(p, key=order_key)


def primitive(p):
    """(k, q): p = k*q with q primitive and positive leading coefficient"""
    if not p:
        return 0, {}
    g = 0
    l = 1
    for c in p.values():
        if isinstance(c, int):
            n, d = c, 1
        else:
            n, d = c.numerator, c.denominator
        l = l * d // gcd(l, d)
    for c in p.values():
        g = gcd(g, int(c * l))
    k = Fraction(g, l)
    if p[lead(p)] < 0:
        k = -k
    k = norm(k)
    if k == 1:
        return 1, p
    return k, {m: norm(Fraction(c) / k) for m, c in p.items()}


def freeze(p):
    return frozenset(p.items())


def mono_div(a, b):
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x == 0:
            d.pop(v, None)
        else:
            d[v] = x
    return tuple(sorted(d.items()))


def lex_key(m):
    # lexicographic order with variable 0 largest; a true monomial order
    return tuple((-v, e) for v, e in m) and _Lex(m)


class _Lex:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __lt__(self, o):
        a, b = self.m, o.m
        for x, y in zip(a, b):
            if x == y:
                continue
            if x[0] != y[0]:
                return x[0] > y[0]
            return x[1] < y[1]
        return len(a) < len(b)


def grlex(m):
    return (sum(e for _, e in m), _Lex(m))


class _G:
    __slots__ = ("d", "m")

    def __init__(self, m):
        self.d = sum(e for _, e in m)
        self.m = m

    def __lt__(self, o):
        if self.d != o.d:
            return self.d < o.d
        return _Lex(self.m) < _Lex(o.m)


def exact_div(p, q, limit=3000):
    """p/q if q divides p exactly (plain polynomial division), else None"""
    if not p:
        return {}
    lm = max(q, key=_G)
    lc = q[lm]
    if len(q) == 1:
        out = {}
        for m, c in p.items():
            mm = mono_div(m, lm)
            if mm is None:
                return None
            out[mm] = norm(Fraction(c) / lc)
        return out
    # quick degree test
    dq = {}
    for m in q:
        for v, e in m:
            dq[v] = max(dq.get(v, 0), e)
    dp = {}
    for m in p:
        for v, e in m:
            dp[v] = max(dp.get(v, 0), e)
    for v, e in dq.items():
        if dp.get(v, 0) < e:
            return None
    if len(p) * len(q) > limit * 50:
        return None
    r = dict(p)
    out = {}
    n = 0
    while r:
        m = max(r, key=_G)
        mm = mono_div(m, lm)
        if mm is None:
            return None
        c = norm(Fraction(r[m]) / lc)
        out[mm] = c
        for m2, c2 in q.items():
            k = mono_mul(mm, m2)
            x = norm(r.get(k, 0) - c * c2)
            if x == 0:
                r.pop(k, None)
            else:
                r[k] = x
        n += 1
        if n > limit:
            return None
    return out


def p_vars(p):
    s = set()
    for m in p:
        for v, _ in m:
            s.add(v)
    return s


# ---- linear programming over monomials (exact simplex) ---------------------
def lp_feasible(eqs, stricts, nonstricts):
    """Each constraint: dict key -> coeff with key None for the constant term.
    eqs: = 0, stricts: > 0, nonstricts: >= 0 over free real unknowns.
    Returns None if infeasible, otherwise a solution dict (exact)."""
    # eliminate equalities
    eqs = [dict(e) for e in eqs]
    subs = []
    st = [dict(e) for e in stricts]
    ns = [dict(e) for e in nonstricts]
    while eqs:
        e = eqs.pop()
        keys = [k for k in e if k is not None and e[k] != 0]
        if not keys:
            if e.get(None, 0) != 0:
                return None
            continue
        k = min(keys, key=lambda k: str(k))
        c = e.pop(k)
        ex = {j: Fraction(-v) / c for j, v in e.items() if v != 0}
        subs.append((k, ex))
        for lst in (eqs, st, ns):
            for f in lst:
                if k in f:
                    w = f.pop(k)
                    if w:
                        for j, v in ex.items():
                            x = f.get(j, 0) + w * v
                            if x == 0:
                                f.pop(j, None)
                            else:
                                f[j] = x
    cons = []
    for f in st:
        f = {k: v for k, v in f.items() if v != 0}
        if not [k for k in f if k is not None]:
            if f.get(None, 0) <= 0:
                return None
            continue
        cons.append((f, True))
    for f in ns:
        f = {k: v for k, v in f.items() if v != 0}
        if not [k for k in f if k is not None]:
            if f.get(None, 0) < 0:
                return None
            continue
        cons.append((f, False))
    # unknowns
    keys = []
    seen = set()
    for f, _ in cons:
        for k in f:
            if k is not None and k not in seen:
                seen.add(k)
                keys.append(k)
    # maximize t s.t. f(x) - s*t >= 0 ; t <= 1 ; x free = xp - xn
    # standard form: A y <= b, y >= 0  with y = (xp, xn, t)
    # constraint: -(f.x) + s*t <= const
    sol = _simplex(cons, keys)
    if sol is None:
        return None
    # back-substitute
    for k, ex in reversed(subs):
        v = Fraction(ex.get(None, 0))
        for j, c in ex.items():
            if j is not None:
                v += c * sol.get(j, 0)
        sol[k] = v
    return sol


def _simplex(cons, keys):
    n = len(keys)
    ncol = 2 * n + 1
    m = len(cons) + 1
    idx = {k: i for i, k in enumerate(keys)}
    # rows: sum a_j y_j + slack = b
    rows = []
    b = []
    for f, strict in cons:
        r = {}
        for k, v in f.items():
            if k is None:
                continue
            i = idx[k]
            r[i] = -Fraction(v)
            r[n + i] = Fraction(v)
        if strict:
            r[2 * n] = Fraction(1)
        rows.append(r)
        b.append(Fraction(f.get(None, 0)))
    rows.append({2 * n: Fraction(1)})
    b.append(Fraction(1))
    # phase 0 trick: allow t to be negative by t = t' - T with big T:  choose an
    # auxiliary variable instead (two-phase with artificial x0)
    # dictionary method: basis = slacks (index ncol + i)
    basis = [ncol + i for i in range(m)]
    nonb = list(range(ncol)) + [-1]  # -1 = x0 artificial
    T = []  # T[i] : basic_i = b_i - sum a_ij x_j
    for i in range(m):
        d = dict(rows[i])
        d[-1] = Fraction(-1)
        T.append(d)

    def pivot(i, j):
        # basis[i] leaves, j enters
        r = T[i]
        a = r.pop(j)
        old = basis[i]
        basis[i] = j
        inv = 1 / a
        nr = {k: v * inv for k, v in r.items()}
        nr[old] = inv
        bi = b[i] * inv
        T[i] = nr
        b[i] = bi
        for k in range(m):
            if k == i:
                continue
            w = T[k].pop(j, None)
            if w:
                b[k] -= w * bi
                tk = T[k]
                for c, v in nr.items():
                    x = tk.get(c, 0) - w * v
                    if x == 0:
                        tk.pop(c, None)
                    else:
                        tk[c] = x
        return nr, bi

    def optimise(obj, z):
        # obj: dict col -> coeff (maximise z + sum obj*x_nonbasic)
        it = 0
        while True:
            it += 1
            if it > 400:
                raise GiveUp()
            cand = [c for c, v in obj.items() if v > 0]
            if not cand:
                return z
            j = min(cand)
            best = None
            for i in range(m):
                a = T[i].get(j, 0)
                if a > 0:
                    q = b[i] / a
                    if best is None or q < best[0] or (q == best[0] and basis[i] < basis[best[1]]):
                        best = (q, i)
            if best is None:
                return None  # unbounded
            i = best[1]
            w = obj.pop(j)
            nr, bi = pivot(i, j)
            z += w * bi
            for c, v in nr.items():
                x = obj.get(c, 0) - w * v
                if x == 0:
                    obj.pop(c, None)
                else:
                    obj[c] = x
            obj.pop(j, None)

    if min(b) < 0:
        i = min(range(m), key=lambda k: b[k])
        pivot(i, -1)
        # objective: maximise -x0
        # x0 = basis[i] : x0 = b_i - sum T[i]
        obj = {c: v for c, v in T[i].items()}
        z = -b[i]
        # maximise -x0 = -b_i + sum a x
        z = optimise(obj, z)
        if z is None or z < 0:
            # x0 > 0 at the optimum?
            x0 = 0
            for k in range(m):
                if basis[k] == -1:
                    x0 = b[k]
            if x0 > 0:
                return None
        for k in range(m):
            if basis[k] == -1:
                js = [c for c in T[k] if c != -1]
                if js:
                    pivot(k, js[0])
                break
    for k in range(m):
        T[k].pop(-1, None)
    # phase 2: maximise t
    tcol = 2 * n
    anystrict = any(s for _, s in cons)
    if anystrict:
        obj = {}
        z = Fraction(0)
        if tcol in basis:
            i = basis.index(tcol)
            z = b[i]
            obj = {c: -v for c, v in T[i].items()}
        else:
            obj = {tcol: Fraction(1)}
        z = optimise(obj, z)
        t = Fraction(0)
        if tcol in basis:
            t = b[basis.index(tcol)]
        if t <= 0:
            return None
    val = {}
    for i in range(m):
        val[basis[i]] = b[i]
    return {k: val.get(idx[k], Fraction(0)) - val.get(n + idx[k], Fraction(0)) for k in keys}
