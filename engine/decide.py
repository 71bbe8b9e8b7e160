"""Deciding equality of two value graphs.

The graphs are piecewise rational functions of the inputs.  `compare` refines
the input space into sign cells on demand (only on conditions the graphs test),
discards empty cells with a polyhedral emptiness test over monomials, reduces
both graphs to a normal form in every remaining cell and compares the normal
forms.  Equal everywhere: proved.  Different in a cell for which a member point
can be exhibited: violated.  Otherwise: undecided (never reported as a
violation).
"""
import math
import random
import time
from fractions import Fraction
from . import vg, alg
from .alg import p_add, p_sub, p_neg, p_scale, p_const, is_const, const_val, primitive, freeze, norm, Blowup, ONE_M
from .vg import Node


class Special:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NaN = Special("NaN")
PInf = Special("+inf")
NInf = Special("-inf")
UInf = Special("inf-of-unknown-sign")
Undef = Special("undefined value")


# weak sign facts: >= 0, <= 0, != 0
WEAK = {frozenset((0, 1)): 2, frozenset((0, -1)): -2, frozenset((1, -1)): 3}


def signok(x, s):
    if s in (1, 0, -1):
        return sgn(x) == s
    return x != 0 if s == 3 else (x >= 0 if s == 2 else x <= 0)


class Unk(Exception):
    pass


class Split(Exception):
    def __init__(self, kind, key, alts):
        self.kind, self.key, self.alts = kind, key, alts


class Timeout(Exception):
    pass


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}

    def isconst(self):
        return not self.d and is_const(self.n)

    def const(self):
        return const_val(self.n)


def sgn(x):
    return (x > 0) - (x < 0)


class Cell:
    __slots__ = ("sign", "weak", "cons", "subst", "rules", "nan", "memo", "depth", "facts")

    def __init__(self):
        self.sign = {}
        self.weak = {}
        self.cons = []  # (poly, sign)
        self.subst = {}  # var -> poly
        self.rules = []  # (lead monomial, rest poly): lead -> rest
        self.nan = {}
        self.memo = {}
        self.depth = 0
        self.facts = []

    def copy(self):
        c = Cell()
        c.sign = dict(self.sign)
        c.weak = dict(self.weak)
        c.cons = list(self.cons)
        c.subst = dict(self.subst)
        c.rules = list(self.rules)
        c.nan = dict(self.nan)
        c.memo = dict(self.memo)
        c.depth = self.depth + 1
        return c


class Decider:
    def __init__(self, seed=1, max_cells=20000, time_limit=60.0, products=True):
        self.ctx = alg.Ctx()
        self.vars = {}
        self.atoms = []
        self.rng = random.Random(seed)
        self.max_cells = max_cells
        self.deadline = time.time() + time_limit
        self.cells = 0
        self.lp_calls = 0
        self.products = products
        self.psd_cache = {}

    # -- variables ---------------------------------------------------------
    def var(self, node):
        i = self.vars.get(node)
        if i is None:
            i = self.ctx.var(node.args[0], ("in", node), integer=node.args[1] in ("i", "u", "g"), nonneg=node.args[1] in ("u", "g"))
            self.vars[node] = i
        return i

    def pvar(self, i):
        return {((i, 1),): 1}

    def atom(self, kind, args, name, nonneg=False, rule=None):
        key = (kind, tuple(self.ratkey(a) for a in args))
        for k, a, i in self.atoms:
            if k == kind and len(a) == len(args) and all(self.req(x, y) for x, y in zip(a, args)):
                return i
        i = self.ctx.var(name, (kind, args), nonneg=nonneg)
        if rule is not None:
            self.ctx.rules[i] = rule
        self.atoms.append((kind, args, i))
        return i

    def ratkey(self, r):
        return None

    def req(self, a, b):
        return not self.diff(a, b)

    # -- rational functions --------------------------------------------------
    def R(self, c):
        return Rat(p_const(norm(c)))

    def den_poly(self, d):
        p = {ONE_M: 1}
        for q, e in d.values():
            for _ in range(e):
                p = self.ctx.mul(p, q)
        return p

    def lcm(self, d1, d2):
        d = dict(d1)
        for k, (q, e) in d2.items():
            if k not in d or d[k][1] < e:
                d[k] = (q, e)
        return d

    def scale_to(self, r, d):
        n = r.n
        for k, (q, e) in d.items():
            have = r.d[k][1] if k in r.d else 0
            for _ in range(e - have):
                n = self.ctx.mul(n, q)
        return n

    def add(self, a, b, sub=False):
        if not a.d and not b.d:
            return Rat(p_sub(a.n, b.n) if sub else p_add(a.n, b.n))
        d = self.lcm(a.d, b.d)
        x, y = self.scale_to(a, d), self.scale_to(b, d)
        return self.cancel(Rat(p_sub(x, y) if sub else p_add(x, y), d))

    def mul(self, a, b):
        n = self.ctx.mul(a.n, b.n)
        if not a.d and not b.d:
            return Rat(n)
        d = dict(a.d)
        for k, (q, e) in b.d.items():
            d[k] = (q, e + (d[k][1] if k in d else 0))
        return self.cancel(Rat(n, d))

    def cancel(self, r):
        if not r.n:
            return Rat({})
        n, d = r.n, dict(r.d)
        for k in list(d):
            q, e = d[k]
            while e > 0:
                x = alg.exact_div(n, q)
                if x is None:
                    break
                n = x
                e -= 1
            if e == 0:
                del d[k]
            else:
                d[k] = (q, e)
        return Rat(n, d)

    def inv(self, cell, a):
        """1/a, a.n known nonzero"""
        n = self.den_poly(a.d)
        k, q = primitive(a.n)
        # split off the monomial content
        d = {}
        g = self.mono_content(q)
        if g:
            q = {alg.mono_div(m, g): c for m, c in q.items()}
            for v, e in g:
                pv = self.pvar(v)
                d[freeze(pv)] = (pv, e)
        if not is_const(q):
            d[freeze(q)] = (q, 1)
        else:
            k = k * const_val(q)
        return self.cancel(Rat(p_scale(n, Fraction(1) / k), d))

    def mono_content(self, p):
        it = iter(p)
        g = dict(next(it))
        for m in it:
            if not g:
                return ()
            dm = dict(m)
            g = {v: min(e, dm[v]) for v, e in g.items() if v in dm}
        return tuple(sorted(g.items()))

    def diff(self, a, b):
        d = self.lcm(a.d, b.d)
        return p_sub(self.scale_to(a, d), self.scale_to(b, d))

    # -- cells ---------------------------------------------------------------
    def reduce_eq(self, cell, p):
        if not cell.subst and not cell.rules:
            return p
        for _ in range(60):
            hit = False
            vs = alg.p_vars(p)
            for v, q in cell.subst.items():
                if v in vs:
                    p = self.substitute(p, v, q)
                    hit = True
                    break
            if not hit:
                for lm, rest in cell.rules:
                    out = {}
                    ch = False
                    for m, c in p.items():
                        mm = alg.mono_div(m, lm)
                        if mm is not None:
                            ch = True
                            t = self.ctx.mul({mm: c}, rest)
                            out = p_add(out, t)
                        else:
                            out = p_add(out, {m: c})
                    if ch:
                        p = self.ctx.reduce(out) if self.ctx.rules else out
                        hit = True
                        break
            if not hit:
                return p
        return p

    def subst_all(self, cell, p):
        for _ in range(40):
            hit = [v for v in alg.p_vars(p) if v in cell.subst]
            if not hit:
                break
            p = self.substitute(p, hit[0], cell.subst[hit[0]])
        return p

    def substitute(self, p, v, q):
        out = {}
        pw = [{ONE_M: 1}]
        for m, c in p.items():
            e = 0
            rest = m
            for x, y in m:
                if x == v:
                    e = y
                    rest = tuple((a, b) for a, b in m if a != v)
                    break
            while len(pw) <= e:
                pw.append(self.ctx.mul(pw[-1], q))
            t = {rest: c} if e == 0 else self.ctx.mul({rest: c}, pw[e])
            out = p_add(out, t)
        return out

    def sign(self, cell, p):
        p = self.reduce_eq(cell, p)
        if is_const(p):
            return sgn(const_val(p))
        k, q = primitive(p)
        s = sgn(k)
        g = self.mono_content(q)
        if g:
            r = {alg.mono_div(m, g): c for m, c in q.items()}
            for v, e in g:
                sv = self.sign1(cell, self.pvar(v))
                if sv == 0:
                    return 0
                if e % 2:
                    s *= sv
            return s * self.sign(cell, r)
        return s * self.sign1(cell, q)

    def sign1(self, cell, q):
        """q primitive, positive leading coefficient"""
        key = freeze(q)
        s = cell.sign.get(key)
        if s is not None:
            return s
        alts = self.known(cell, q, key)
        if len(alts) == 1:
            return alts[0]
        raise Split("sign", q, alts)

    def known(self, cell, q, key):
        """the signs q can have in this cell"""
        w = cell.weak.get(key)
        if w is not None and w[1] == len(cell.cons):
            return w[0]
        alts = self.possible(cell, q, (1, -1, 0) if w is None else w[0])
        if not alts:
            raise Empty()
        if len(alts) == 1:
            cell.sign[key] = alts[0]
            if alts[0] == 0:
                cell.cons.append((q, 0))
                self.add_equality(cell, q)
        else:
            cell.weak[key] = (alts, len(cell.cons))
        return alts

    def signin(self, cell, p, want):
        """is sign(p) in the set `want`?  splits the cell only as far as needed"""
        p = self.reduce_eq(cell, p)
        if is_const(p):
            return sgn(const_val(p)) in want
        k, q = primitive(p)
        s = sgn(k)
        g = self.mono_content(q)
        if g:
            r = {alg.mono_div(m, g): c for m, c in q.items()}
            if is_const(r) and len(g) == 1 and g[0][1] == 1:
                pass
            else:
                if want == (0,):
                    for v, e in g:
                        if self.signin(cell, self.pvar(v), (0,)):
                            return True
                    return self.signin(cell, r, want)
                for v, e in g:
                    if e % 2 == 0:
                        if self.signin(cell, self.pvar(v), (0,)):
                            return 0 in want
                    else:
                        sv = self.sign1(cell, self.pvar(v))
                        if sv == 0:
                            return 0 in want
                        s *= sv
                return self.signin(cell, r, tuple(s * w for w in want))
        want = tuple(s * w for w in want)
        key = freeze(q)
        t = cell.sign.get(key)
        if t is not None:
            return t in want
        alts = self.known(cell, q, key)
        yes = [a for a in alts if a in want]
        no = [a for a in alts if a not in want]
        if not no:
            return True
        if not yes:
            return False
        raise Split("sign", q, [yes, no])

    def ratsignin(self, cell, r, want):
        if not r.d:
            return self.signin(cell, r.n, want)
        if want == (0,):
            return self.signin(cell, r.n, want)
        s = 1
        for q, e in r.d.values():
            if e % 2:
                s *= self.sign(cell, q)
        return self.signin(cell, r.n, tuple(s * w for w in want))

    def constant_sign(self, q):
        """sign of an expression made of roots of numbers, from error-bounded evaluation"""
        val = {}
        for m in q:
            for v, _ in m:
                kind, args = self.ctx.info[v]
                if kind != "sqrt" or not all(a.isconst() for a in args):
                    return None
                val[v] = numcall("sqrt", [a.const() for a in args])
        try:
            x = pval(self, q, val)
            return compare_num(x, 0)
        except NumFail:
            return None

    def possible(self, cell, q, among=(1, -1, 0), products=False):
        alts = []
        s = self.constant_sign(q)
        if s is not None:
            return [s] if s in among else []
        for s in among:
            if self.feasible(cell, [(q, s)]):
                alts.append(s)
        if len(alts) > 1 and self.products and not products and 1 < len(cell.cons) <= 14 and max(sum(e for _, e in m) for m in q) >= 2:
            extra = self.product_facts(cell, q)
            if extra:
                alts = [s for s in alts if self.feasible(cell, [(q, s)] + extra)]
        return alts

    def product_facts(self, cell, q):
        """products of pairs of known sign facts that share monomials with q"""
        mons = set(q)
        out = []
        cs = [(p, s) for p, s in cell.cons if s != 0 and s != 3 and len(p) <= 8]
        for i in range(len(cs)):
            for j in range(i, len(cs)):
                p1, s1 = cs[i]
                p2, s2 = cs[j]
                try:
                    r = self.reduce_eq(cell, self.ctx.mul(p1, p2))
                except Blowup:
                    continue
                if is_const(r):
                    continue
                if any(m in mons for m in r if m != ONE_M):
                    t = s1 * s2
                    out.append((r, t if abs(t) == 1 else (2 if t > 0 else -2)))
                if len(out) > 40:
                    return out
        return out

    def psd(self, q):
        """is q (degree <= 2) nonnegative everywhere?  exact LDL^T test"""
        key = freeze(q)
        r = self.psd_cache.get(key)
        if r is not None:
            return r
        r = self._psd(q)
        self.psd_cache[key] = r
        return r

    def _psd(self, q):
        if any(sum(e for _, e in m) > 2 for m in q) or len(q) > 200:
            return False
        vs = sorted(alg.p_vars(q))
        n = len(vs) + 1
        ix = {v: i for i, v in enumerate(vs)}
        A = [[Fraction(0)] * n for _ in range(n)]
        for m, c in q.items():
            if not m:
                A[n - 1][n - 1] += c
            elif len(m) == 1 and m[0][1] == 2:
                A[ix[m[0][0]]][ix[m[0][0]]] += c
            elif len(m) == 1:
                i = ix[m[0][0]]
                A[i][n - 1] += Fraction(c) / 2
                A[n - 1][i] += Fraction(c) / 2
            else:
                i, j = ix[m[0][0]], ix[m[1][0]]
                A[i][j] += Fraction(c) / 2
                A[j][i] += Fraction(c) / 2
        for k in range(n):
            if A[k][k] < 0:
                return False
            if A[k][k] == 0:
                if any(A[k][j] != 0 for j in range(k, n)):
                    return False
                continue
            for i in range(k + 1, n):
                f = A[i][k] / A[k][k]
                if f:
                    for j in range(k, n):
                        A[i][j] -= f * A[k][j]
        return True

    def mono_sign(self, cell, m):
        """(sign or None, strict) known sign of a monomial"""
        s, strict = 1, True
        for v, e in m:
            if e % 2 == 0:
                k = cell.sign.get(freeze(self.pvar(v)))
                if k is None:
                    w = cell.weak.get(freeze(self.pvar(v)))
                    if not w or 0 in w[0]:
                        strict = False
                elif k == 0:
                    return 0, True
            else:
                k = cell.sign.get(freeze(self.pvar(v)))
                if k is None:
                    w = cell.weak.get(freeze(self.pvar(v)))
                    w = frozenset(w[0]) if w else None
                    if v in self.ctx.nonneg or w == frozenset((0, 1)):
                        strict = False
                    elif w == frozenset((0, -1)):
                        strict = False
                        s = -s
                    else:
                        return None, False
                elif k == 0:
                    return 0, True
                else:
                    s *= k
        return s, strict

    def feasible(self, cell, extra):
        mons = set()
        for p, s in extra:
            mons.update(m for m in p if m != ONE_M)
        rel = []
        rest = [(self.reduce_eq(cell, p), s) for p, s in cell.cons if s != 0 and s != 3] + \
               [(self.subst_all(cell, p), 0) for p, s in cell.cons if s == 0]
        rest = [(p, s) for p, s in rest if not is_const(p)]
        changed = True
        while changed and rest:
            changed = False
            nr = []
            for p, s in rest:
                if any(m in mons for m in p):
                    mons.update(m for m in p if m != ONE_M)
                    rel.append((p, s))
                    changed = True
                else:
                    nr.append((p, s))
            rest = nr
        eqs, st, ns = [], [], []

        def lin(p, f=1):
            return {(None if m == ONE_M else m): c * f for m, c in p.items()}
        for p, s in extra + rel:
            if s == 0:
                eqs.append(lin(p))
            elif s in (2, -2):
                ns.append(lin(p, s // 2))
                continue
            else:
                st.append(lin(p, s))
            if s < 0 and self.psd(p):
                return False
            if s > 0 and self.psd(p_neg(p)):
                return False
            if s != 0 and self.ctx.ints and self.intpoly(p):
                # integer valued: > 0 means >= 1
                d = lin(p, s)
                d[None] = d.get(None, 0) - 1
                ns.append(d)
        lem = 0
        for m in mons:
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.ctx.partner:
                # sine and cosine lie in [-1, 1], strictly inside when the other is not zero
                lem += 1
                k = cell.sign.get(freeze(self.pvar(self.ctx.partner[m[0][0]])))
                (st if k in (1, -1) else ns).extend([{m: 1, None: 1}, {m: -1, None: 1}])
            s, strict = self.mono_sign(cell, m)
            if s is None:
                continue
            lem += 1
            if s == 0:
                eqs.append({m: 1})
            elif strict:
                st.append({m: s})
            else:
                ns.append({m: s})
        if not rel and not lem and len(extra) == 1 and not ns:
            return True
        self.lp_calls += 1
        try:
            return alg.lp_feasible(eqs, st, ns) is not None
        except alg.GiveUp:
            return True

    def nonempty(self, cell):
        """emptiness test with every known fact at once"""
        ex = [(self.reduce_eq(cell, p), s) for p, s in cell.cons if s not in (0, 3)]
        for p, s in ex:
            if is_const(p) and not signok(const_val(p), s):
                return False
        for p, s in cell.cons:
            if s == 3 and not self.reduce_eq(cell, p):
                return False
        ex = [(p, s) for p, s in ex if not is_const(p)]
        return not ex or self.feasible(cell, ex)

    def intpoly(self, p):
        for m, c in p.items():
            if not isinstance(c, int):
                return False
            for v, _ in m:
                if v not in self.ctx.ints:
                    return False
        return True

    def assume_sign(self, cell, q, s):
        """child cell with sign(q) = s (or in the list s)"""
        c = cell.copy()
        key = freeze(q)
        if isinstance(s, list) and len(s) == 1:
            s = s[0]
        if isinstance(s, list):
            c.cons.append((q, WEAK[frozenset(s)]))
            c.weak[key] = (s, len(c.cons))
            return c
        c.sign[key] = s
        c.cons.append((q, s))
        if s == 0:
            self.add_equality(c, q)
            self.renorm(c)
        elif len(q) == 1:
            self.renorm(c, set(alg.p_vars(q)))
        return c

    def renorm(self, c, only=None):
        """carry a new equality (or the sign of a variable) into the facts already known"""
        for _ in range(6):
            changed = False
            if only is None:
                for rule in list(c.rules):
                    lm, rest = rule
                    vs = {v for v, _ in lm}
                    if not any(v in c.subst for v in vs | alg.p_vars(rest)) and not any(r is not rule and alg.mono_div(lm, r[0]) is not None for r in c.rules):
                        continue
                    c.rules.remove(rule)
                    q = self.reduce_eq(c, p_sub({lm: 1}, rest))
                    if q:
                        if is_const(q):
                            raise Empty()
                        self.add_equality(c, primitive(q)[1])
                    changed = True
            if c.subst or c.rules or only is not None:
                for p, s in list(c.cons):
                    if s == 3 or s == 0:
                        continue
                    if only is not None and not only & alg.p_vars(p):
                        continue
                    q = self.reduce_eq(c, p)
                    if is_const(q):
                        if not signok(const_val(q), s):
                            raise Empty()
                        continue
                    k, q = primitive(q)
                    t = s * sgn(k)
                    g = self.mono_content(q)
                    drop = []
                    for v, e in g:
                        kv = c.sign.get(freeze(self.pvar(v)))
                        if kv in (1, -1):
                            drop.append((v, e))
                            if e % 2:
                                t *= kv
                        elif e % 2 == 0 and abs(s) == 1:
                            drop.append((v, e))
                    if drop:
                        q = {alg.mono_div(m, tuple(drop)): co for m, co in q.items()}
                        if is_const(q):
                            if not signok(const_val(q), t):
                                raise Empty()
                            continue
                        k, q = primitive(q)
                        t *= sgn(k)
                    elif q == p or p_neg(q) == p:
                        continue
                    if self.learn(c, q, t):
                        changed = True
            if not changed:
                return
            only = None

    def learn(self, c, q, t):
        """record sign(q) in t (1, -1 strict; 2, -2 weak)"""
        key = freeze(q)
        k = c.sign.get(key)
        if k is not None:
            if not signok(k, t):
                raise Empty()
            return False
        w = c.weak.get(key)
        if abs(t) == 1:
            if w is not None and t not in w[0]:
                raise Empty()
            c.sign[key] = t
            c.cons.append((q, t))
            return True
        have = [x for x in (w[0] if w is not None else (1, -1, 0)) if signok(x, t)]
        if not have:
            raise Empty()
        if w is not None and len(have) == len(w[0]):
            return False
        c.cons.append((q, WEAK[frozenset(have)] if len(have) > 1 else have[0]))
        if len(have) == 1:
            c.sign[key] = have[0]
            if have[0] == 0:
                self.add_equality(c, q)
        else:
            c.weak[key] = (have, len(c.cons))
        return True

    def nonzero(self, c, v):
        key = freeze(self.pvar(v))
        if c.sign.get(key) in (1, -1):
            return True
        w = c.weak.get(key)
        return w is not None and 0 not in w[0]

    def add_equality(self, c, q):
        q = self.reduce_eq(c, q)
        if is_const(q):
            if q:
                raise Empty()
            return
        g = self.mono_content(q)
        if g and len(q) > 1 or len(g) > 1:
            drop = tuple((v, e) for v, e in g if self.nonzero(c, v))
            if drop:
                q = {alg.mono_div(m, drop): co for m, co in q.items()}
                if is_const(q):
                    raise Empty()
        r = self.poly_sqrt(q) if all(sum(e for _, e in m) % 2 == 0 for m in q) and len(q) <= 21 else None
        if r is not None:
            self.add_equality(c, r)
            return
        # sum of squares with positive coefficients: every base is zero
        if all(co > 0 for co in q.values()) and all(all(e % 2 == 0 for _, e in m) for m in q) and ONE_M not in q:
            for m in q:
                if len(m) == 1:
                    v = m[0][0]
                    self.add_subst(c, v, {})
                    c.sign[freeze(self.pvar(v))] = 0
            return
        if len(q) == 1:
            # a monomial
            m = next(iter(q))
            if len(m) == 1:
                v = m[0][0]
                self.add_subst(c, v, {})
                c.sign[freeze(self.pvar(v))] = 0
                return
        # a variable that occurs linearly with constant coefficient
        best = None
        deg = {}
        for m in q:
            for v, e in m:
                deg.setdefault(v, []).append(m)
        for v, ms in sorted(deg.items(), reverse=True):
            if len(ms) == 1 and ms[0] == ((v, 1),) and v not in self.ctx.rules:
                isin = self.ctx.info[v][0] == "in"
                if self.used_in_atoms(v):
                    continue
                cand = (isin and v not in self.ctx.ints, v)
                if best is None or cand > best:
                    best = cand
        if best is not None and best[1] in self.ctx.ints:
            k = q[((best[1], 1),)]
            if abs(k) != 1 or not self.intpoly(q):
                best = None
        if best is not None:
            v = best[1]
            k = q[((v, 1),)]
            rest = {m: norm(Fraction(-co) / k) for m, co in q.items() if m != ((v, 1),)}
            self.add_subst(c, v, rest)
            return
        lm = max(q, key=alg._G)
        k = q[lm]
        rest = {m: norm(Fraction(-co) / k) for m, co in q.items() if m != lm}
        c.rules.append((lm, rest))

    def used_in_atoms(self, v):
        # atoms whose argument mentions v must not survive a substitution of v;
        # keep v and use a rewrite rule instead
        for k, args, i in self.atoms:
            for a in args:
                if isinstance(a, Rat) and (v in alg.p_vars(a.n) or any(v in alg.p_vars(q) for q, _ in a.d.values())):
                    return True
        return False

    def add_subst(self, c, v, rest):
        rest = self.reduce_eq(c, rest)
        for w in list(c.subst):
            if v in alg.p_vars(c.subst[w]):
                c.subst[w] = self.substitute(c.subst[w], v, rest)
        c.subst[v] = rest

    # -- evaluation of nodes ---------------------------------------------------
    def ev(self, cell, node):
        r = cell.memo.get(node.id)
        if r is not None:
            return r
        # iterative deepening over the DAG to avoid deep recursion
        stack = [node]
        while stack:
            n = stack[-1]
            if n.id in cell.memo:
                stack.pop()
                continue
            need = self.needs(cell, n)
            if need is not None:
                stack.append(need)
                continue
            cell.memo[n.id] = self.ev1(cell, n)
            stack.pop()
        return cell.memo[node.id]

    def needs(self, cell, n):
        m = cell.memo
        op = n.op
        if op == "ite":
            c = n.args[0]
            if c.id not in m:
                return c
            v = m[c.id]
            if v is Undef:
                return None
            b = n.args[1] if self.truth(v) else n.args[2]
            return b if b.id not in m else None
        if op in ("and", "or"):
            a, b = n.args
            # either order may decide; evaluate left first
            if a.id not in m:
                return a
            t = self.truth(m[a.id])
            if t == (op == "or"):
                return None
            return b if b.id not in m else None
        for a in n.args:
            if isinstance(a, Node) and a.id not in m:
                return a
        return None

    def truth(self, v):
        if isinstance(v, Rat) and v.isconst():
            return v.const() != 0
        if v is Undef:
            raise Unk("undefined condition")
        if isinstance(v, Rat):
            raise Unk("non-constant truth value")
        raise Unk("truth of " + repr(v))

    def ev1(self, cell, n):
        op, A = n.op, n.args
        m = cell.memo
        if op == "c":
            return self.R(A[0])
        if op == "nan":
            return NaN
        if op == "inf":
            return PInf if A[0] > 0 else NInf
        if op == "undef":
            return Undef
        if op == "var":
            kind = A[1]
            i = self.var(n)
            if kind == "b":
                # boolean input
                s = cell.nan.get(i)
                if s is None:
                    raise Split("enum", i, [0, 1])
                return self.R(s)
            if kind in ("n", "x"):
                s = cell.nan.get(i)
                if s is None:
                    raise Split("nan", i, ["real", "nan"] + (["+inf", "-inf"] if kind == "x" else []))
                if s == "nan":
                    return NaN
                if s == "+inf":
                    return PInf
                if s == "-inf":
                    return NInf
            return Rat(self.pvar(i))
        if op == "ite":
            if m[A[0].id] is Undef:
                return Undef
            return m[(A[1] if self.truth(m[A[0].id]) else A[2]).id]
        if op == "not":
            v = m[A[0].id]
            if v is Undef:
                return Undef
            return self.R(0 if self.truth(v) else 1)
        if op in ("and", "or"):
            t = self.truth(m[A[0].id])
            if t == (op == "or"):
                return self.R(int(t))
            return self.R(int(self.truth(m[A[1].id])))
        v = [m[a.id] if isinstance(a, Node) else a for a in A]
        if any(x is Undef for x in v):
            return Undef
        if op in ("lt", "le", "eq", "uno", "ult"):
            return self.R(int(self.compare(cell, op, v[0], v[1])))
        if op in ("add", "sub"):
            a, b = v
            if op == "sub":
                b = self.negv(b)
            return self.addv(cell, a, b)
        if op == "neg":
            return self.negv(v[0])
        if op == "mul":
            return self.mulv(cell, v[0], v[1])
        if op == "div":
            return self.divv(cell, v[0], v[1])
        if op == "itrunc":
            return self.truncv(cell, v[0])
        if op in ("idiv", "irem"):
            a, b = v
            if a.isconst() and b.isconst() and b.const() != 0:
                q = abs(a.const()) // abs(b.const())
                q = q if (a.const() >= 0) == (b.const() >= 0) else -q
                return self.R(q if op == "idiv" else a.const() - q * b.const())
            if b.isconst() and b.const() == 1:
                return a if op == "idiv" else self.R(0)
            if self.ratsignin(cell, b, (0,)):
                return Undef
            a, b = self.canon(cell, a), self.canon(cell, b)
            if not a.n:
                return self.R(0)
            if not a.d and not b.d and self.intpoly(a.n) and self.intpoly(b.n):
                r = self.smallquot(cell, a, b)
                if r is not None:
                    return self.R(r) if op == "idiv" else self.add(a, self.mul(self.R(r), b), sub=True)
            i = self.atom(op, (a, b), f"{op}({self.show(a)}, {self.show(b)})")
            self.ctx.ints.add(i)
            return Rat(self.pvar(i))
        if op == "call":
            return self.callv(cell, v[0], v[1:])
        if op == "opaque":
            i = self.atom("opaque:" + str(A), (), str(A))
            return Rat(self.pvar(i))
        if op == "p":
            return ("p",) + tuple(A)
        raise Unk("operation " + op + " " + (vg.show(n, 3)[:300] if op == "bytes" else ""))

    def smallquot(self, cell, a, b, lim=12):
        """a / b truncated, when the cell confines it to [-lim, lim]"""
        sb = self.sign(cell, b.n)
        pb = p_scale(b.n, sb)
        for s in (1, -1):
            over = p_sub(p_scale(a.n, s), p_scale(pb, lim))
            if is_const(over):
                if const_val(over) > 0:
                    return None
            elif self.feasible(cell, [(over, 1)]):
                return None
        sa = 1 if self.signin(cell, a.n, (0, 1)) else -1
        pa = p_scale(a.n, sa)
        k = 0
        while k <= lim and self.signin(cell, p_sub(pa, p_scale(pb, k + 1)), (0, 1)):
            k += 1
        return k * sa * sb

    def negv(self, a):
        if isinstance(a, Rat):
            return Rat(p_neg(a.n), a.d)
        return {PInf: NInf, NInf: PInf}.get(a, a)

    def addv(self, cell, a, b):
        if isinstance(a, Rat) and isinstance(b, Rat):
            return self.add(a, b)
        if a is NaN or b is NaN:
            return NaN
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unk("pointer arithmetic")
        if UInf in (a, b):
            if isinstance(a, Rat) or isinstance(b, Rat):
                return UInf
            raise Unk("sum of infinities")
        if isinstance(a, Rat):
            return b
        if isinstance(b, Rat):
            return a
        return a if a is b else NaN

    def ratsign(self, cell, r):
        s = self.sign(cell, r.n)
        if s == 0:
            return 0
        for q, e in r.d.values():
            if e % 2:
                t = self.sign(cell, q)
                s *= t
        return s

    def mulv(self, cell, a, b):
        if isinstance(a, Rat) and isinstance(b, Rat):
            return self.mul(a, b)
        if a is NaN or b is NaN:
            return NaN
        if isinstance(b, Rat):
            a, b = b, a
        # b infinite
        if isinstance(a, Rat):
            s = self.ratsign(cell, a)
            if s == 0:
                return NaN
            if b is UInf:
                return UInf
            return b if s > 0 else self.negv(b)
        if UInf in (a, b):
            return UInf
        return PInf if a is b else NInf

    def divv(self, cell, a, b):
        if a is NaN or b is NaN:
            return NaN
        if isinstance(b, Rat):
            if self.ratsignin(cell, b, (0,)):
                if isinstance(a, Rat):
                    return NaN if self.ratsignin(cell, a, (0,)) else UInf
                return UInf
            if isinstance(a, Rat):
                bn = self.reduce_eq(cell, b.n)
                r = self.mul(a, self.inv(cell, Rat(bn, b.d)))
                return r
            if a is UInf:
                return UInf
            return a if self.ratsign(cell, b) > 0 else self.negv(a)
        if isinstance(a, Rat):
            return self.R(0)
        return NaN

    def compare(self, cell, op, a, b):
        if a is NaN or b is NaN:
            return op == "uno"
        if op == "uno":
            return False
        if isinstance(a, tuple) or isinstance(b, tuple):
            if op == "eq":
                return a == b
            raise Unk("pointer comparison")
        if isinstance(a, Rat) and isinstance(b, Rat):
            if op == "ult":
                sa, sb = self.ratsign(cell, a), self.ratsign(cell, b)
                if sa < 0 and sb >= 0:
                    return False
                if sb < 0 and sa >= 0:
                    return True
                op = "lt"
            d = self.add(a, b, sub=True)
            return self.ratsignin(cell, d, {"lt": (-1,), "le": (-1, 0), "eq": (0,)}[op])
        if UInf in (a, b):
            if op == "eq" and (isinstance(a, Rat) or isinstance(b, Rat)):
                return False
            raise Unk("comparison with an infinity of unknown sign")
        ra = 0 if isinstance(a, Rat) else (1 if a is PInf else -1)
        rb = 0 if isinstance(b, Rat) else (1 if b is PInf else -1)
        return {"lt": ra < rb, "le": ra <= rb, "eq": ra == rb}[op]

    def show(self, v):
        if isinstance(v, Rat):
            s = self.ctx.show(v.n)
            if v.d:
                s = "(" + s + ")/" + "/".join("(" + self.ctx.show(q) + ")" + ("^%d" % e if e > 1 else "") for q, e in v.d.values())
            return s
        return repr(v)

    # -- truncation ------------------------------------------------------------
    def floor_split(self, cell, v):
        """v = N + R with N integer valued; returns (N, k, R) with k <= R < k+1"""
        if v.d:
            v = self.cancel(Rat(self.reduce_eq(cell, v.n), v.d))
            if v.d:
                raise Unk("truncation of a quotient " + self.show(v))
        p = self.reduce_eq(cell, v.n)
        N, R = {}, {}
        for m, c in p.items():
            if m and all(x in self.ctx.ints for x, _ in m):
                # integer part of the coefficient
                if isinstance(c, int):
                    N[m] = c
                    continue
                fl = math.floor(c)
                if fl:
                    N[m] = fl
                R[m] = c - fl
            else:
                R[m] = c
        if is_const(R):
            k = math.floor(const_val(R))
            return N, k, R
        # bracket R by sign queries
        k = 0
        for _ in range(64):
            if self.signin(cell, p_sub(R, p_const(k)), (-1,)):
                k -= 1
                continue
            if self.signin(cell, p_sub(R, p_const(k + 1)), (0, 1)):
                k += 1
                continue
            return N, k, R
        raise Unk("truncation of an unbounded value " + self.ctx.show(p))

    def truncv(self, cell, v):
        if not isinstance(v, Rat):
            return Undef
        if v.isconst():
            return self.R(int(v.const()))
        N, k, R = self.floor_split(cell, v)
        if self.signin(cell, p_add(N, R), (0, 1)):
            return Rat(p_add(N, p_const(k)))
        exact = self.signin(cell, p_sub(R, p_const(k)), (0,))
        return Rat(p_add(N, p_const(k if exact else k + 1)))

    # -- mathematical functions --------------------------------------------------
    def callv(self, cell, name, args):
        if any(a is NaN for a in args):
            return NaN
        if any(not isinstance(a, Rat) for a in args):
            if name == "sqrt" and args[0] is PInf:
                return PInf
            raise Unk(f"{name} of {args}")
        args = tuple(self.canon(cell, a) for a in args)
        if name == "sqrt":
            return self.sqrtv(cell, args[0])
        if name in ("sin", "cos", "tan"):
            return self.trig(cell, name, args[0])
        if name in ("floor", "ceil", "ftrunc", "fround"):
            v = args[0]
            if v.isconst():
                c = Fraction(v.const())
                return self.R({"floor": math.floor(c), "ceil": math.ceil(c), "ftrunc": int(c), "fround": math.floor(abs(c) + Fraction(1, 2)) * sgn(c)}[name])
            if name == "fround":
                h = self.R(Fraction(1, 2))
                if self.ratsignin(cell, v, (0, 1)):
                    N, k, R = self.floor_split(cell, self.add(v, h))
                    return Rat(p_add(N, p_const(k)))
                N, k, R = self.floor_split(cell, self.add(self.negv(v), h))
                return Rat(p_neg(p_add(N, p_const(k))))
            if name == "ftrunc":
                return self.truncv(cell, v)
            N, k, R = self.floor_split(cell, v)
            if name == "ceil" and not self.signin(cell, p_sub(R, p_const(k)), (0,)):
                k += 1
            return Rat(p_add(N, p_const(k)))
        if name == "hypot":
            a, b = args
            return self.sqrtv(cell, self.add(self.mul(a, a), self.mul(b, b)))
        if name == "fmod":
            q = self.divv(cell, args[0], args[1])
            if not isinstance(q, Rat):
                return NaN
            t = self.truncv(cell, q)
            return self.add(args[0], self.mul(args[1], t), sub=True)
        if name == "pow" and args[1].isconst():
            e = Fraction(args[1].const())
            if e == Fraction(1, 2):
                return self.sqrtv(cell, args[0])
            if e.denominator == 1 and 0 <= e <= 8:
                r = self.R(1)
                for _ in range(int(e)):
                    r = self.mul(r, args[0])
                return r
        if name in ("asin", "acos", "atan"):
            if args[0].isconst():
                c = args[0].const()
                if c == 0 and name != "acos":
                    return self.R(0)
                if c == 1 and name == "acos":
                    return self.R(0)
            if name != "atan":
                # outside [-1, 1]: NaN
                one = self.R(1)
                if self.ratsignin(cell, self.add(args[0], one), (-1,)) or self.ratsignin(cell, self.add(args[0], one, sub=True), (1,)):
                    return NaN
            if name == "acos":
                x = self.cos_arg(args[0])
                if x is not None:
                    pi = self.R(Fraction(math.pi) + Fraction(1, 10**7))
                    lo, hi = self.known_rat(cell, x), self.known_rat(cell, self.add(pi, x, sub=True))
                    if -1 not in lo and -1 not in hi:
                        return x
        if name == "cbrt":
            r = self.cbrt(args[0])
            if r is not None:
                return r
        if name.startswith("opaque:"):
            i = self.atom(name, args, f"{name}({', '.join(self.show(a) for a in args)})", nonneg=name.endswith(":u"))
            if name.endswith(":u"):
                self.ctx.ints.add(i)
            return Rat(self.pvar(i))
        i = self.atom(name, args, f"{name}({', '.join(self.show(a) for a in args)})")
        return Rat(self.pvar(i))

    def cos_arg(self, a):
        """x when a is cos(x)"""
        if a.d or len(a.n) != 1:
            return None
        (m, c), = a.n.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and self.ctx.info[m[0][0]][0] == "cos":
            return self.ctx.info[m[0][0]][1][0]
        return None

    def known_rat(self, cell, r):
        """signs r can have, without splitting"""
        if r.d or is_const(r.n):
            return (1, -1, 0) if r.d else (sgn(const_val(r.n)),)
        k, q = primitive(self.reduce_eq(cell, r.n))
        if is_const(q):
            return (sgn(k * const_val(q)),)
        key = freeze(q)
        t = cell.sign.get(key)
        alts = [t] if t is not None else self.known(cell, q, key)
        return tuple(sgn(k) * x for x in alts)

    def cbrt(self, a):
        """cube roots of cubes of monomials; odd"""
        if not a.n:
            return self.R(0)
        def root(p):
            if len(p) != 1:
                return None
            (m, c), = p.items()
            if any(e % 3 for _, e in m):
                return None
            c = Fraction(c)
            def icbrt(n):
                r = round(abs(n) ** (1 / 3))
                return (r if n >= 0 else -r) if r ** 3 == abs(n) else None
            x, y = icbrt(c.numerator), icbrt(c.denominator)
            if x is None or y is None:
                return None
            return {tuple((v, e // 3) for v, e in m): Fraction(x, y)}
        if not a.d:
            r = root(a.n)
            if r is not None:
                return Rat(r)
        k, q = primitive(a.n)
        if k < 0:
            n = Rat(p_neg(a.n), a.d)
            i = self.atom("cbrt", (n,), f"cbrt({self.show(n)})")
            return Rat(p_neg(self.pvar(i)))
        return None

    def canon(self, cell, a):
        n = self.reduce_eq(cell, a.n)
        d = {}
        k = Fraction(1)
        for q, e in a.d.values():
            q2 = self.reduce_eq(cell, q)
            if is_const(q2):
                k = k / Fraction(const_val(q2)) ** e
                continue
            kk, q3 = primitive(q2)
            k = k / Fraction(kk) ** e
            f = freeze(q3)
            d[f] = (q3, e + (d[f][1] if f in d else 0))
        if k != 1:
            n = p_scale(n, k)
        return self.cancel(Rat(n, d)) if d else Rat(n)

    def sqrtv(self, cell, a):
        s = self.ratsign(cell, a)
        if s == 0:
            return self.R(0)
        if s < 0:
            return NaN
        a = self.canon(cell, a)
        outn = self.R(1)
        # sqrt(n/d) = sqrt(n*d)/|d| ; pull even powers of denominator factors
        n = a.n
        for q, e in a.d.values():
            h = e // 2
            if e % 2:
                n = self.ctx.mul(n, q)
                h += 1
            r = self.inv(cell, Rat(q))
            if self.sign(cell, q) < 0:
                r = self.negv(r)
            for _ in range(h):
                outn = self.mul(outn, r)
        k, q = primitive(n)
        g = self.mono_content(q)
        if g:
            keep = []
            for v, e in g:
                if e >= 2:
                    pv = Rat(self.pvar(v))
                    if self.sign(cell, self.pvar(v)) < 0:
                        pv = self.negv(pv)
                    for _ in range(e // 2):
                        outn = self.mul(outn, pv)
                    keep.append((v, 2 * (e // 2)))
            if keep:
                q = {alg.mono_div(mm, tuple(keep)): c for mm, c in q.items()}
        k = Fraction(k)
        # pull rational squares out of k
        rn, rd = math.isqrt(abs(k.numerator)), math.isqrt(k.denominator)
        if k > 0 and rn * rn == k.numerator and rd * rd == k.denominator:
            outn = self.mul(outn, self.R(Fraction(rn, rd)))
            k = Fraction(1)
        if k == 1 or True:
            root = self.poly_sqrt(q)
            if root is not None:
                if self.sign(cell, root) < 0:
                    root = p_neg(root)
                outn = self.mul(outn, Rat(root))
                q = {ONE_M: 1}
            elif self.ctx.partner:
                for v in sorted(alg.p_vars(q)):
                    si = self.ctx.partner.get(v)
                    if si is None or si in alg.p_vars(q):
                        continue
                    # 1 - cos^2 is the square of the sine
                    q2 = self.even_subst(q, v, si)
                    if q2 is None:
                        continue
                    k2, q2 = primitive(q2)
                    root = self.poly_sqrt(q2)
                    if root is not None and k * k2 > 0:
                        if self.sign(cell, root) < 0:
                            root = p_neg(root)
                        outn = self.mul(outn, Rat(root))
                        q = {ONE_M: 1}
                        k = k * Fraction(k2)
                        rn, rd = math.isqrt(abs(k.numerator)), math.isqrt(k.denominator)
                        if k > 0 and rn * rn == k.numerator and rd * rd == k.denominator:
                            outn = self.mul(outn, self.R(Fraction(rn, rd)))
                            k = Fraction(1)
                        break
        P = p_scale(q, k)
        if is_const(P) and const_val(P) == 1:
            return outn
        i = self.atom("sqrt", (Rat(P),), f"sqrt({self.ctx.show(P, 6)})", nonneg=True, rule=P)
        cell.sign[freeze(self.pvar(i))] = 1
        return self.mul(outn, Rat(self.pvar(i)))

    def even_subst(self, q, c, s):
        """q with c^2 replaced by 1 - s^2, or None if c occurs in an odd power; no rewriting"""
        out = {}
        for m, co in q.items():
            e = dict(m).get(c, 0)
            if e % 2:
                return None
            rest = [(v, x) for v, x in m if v != c]
            for j in range(e // 2 + 1):
                mm = tuple(sorted(rest + ([(s, 2 * j)] if j else [])))
                out[mm] = out.get(mm, 0) + co * math.comb(e // 2, j) * (-1) ** j
        return {m: co for m, co in out.items() if co}

    def poly_sqrt(self, q):
        if is_const(q):
            return {ONE_M: 1} if const_val(q) == 1 else None
        if len(q) > 60:
            return None
        lm = max(q, key=alg._G)
        if any(e % 2 for _, e in lm):
            return None
        c = Fraction(q[lm])
        if c <= 0:
            return None
        rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if rn * rn != c.numerator or rd * rd != c.denominator:
            return None
        l = tuple((v, e // 2) for v, e in lm)
        lc = Fraction(rn, rd)
        s = {l: norm(lc)}
        saved = self.ctx.rules
        self.ctx.rules = {}
        try:
            for _ in range(20):
                r = p_sub(q, self.ctx.mul(s, s))
                if not r:
                    return s
                m = max(r, key=alg._G)
                t = alg.mono_div(m, l)
                if t is None or t in s:
                    return None
                s = dict(s)
                s[t] = norm(Fraction(r[m]) / (2 * lc))
        finally:
            self.ctx.rules = saved
        return None

    def trig(self, cell, name, a):
        if name == "tan":
            return self.divv(cell, self.trig(cell, "sin", a), self.trig(cell, "cos", a))
        if not a.n:
            return self.R(0 if name == "sin" else 1)
        if a.isconst():
            # the library's pi constants stand for pi: multiples of pi/4 are exact
            c = float(a.const())
            h = c / (math.pi / 2)
            if abs(h) < 64 and abs(h - round(h)) < 1e-6 and round(h) != 0:
                k = round(h) % 4
                return self.R((0, 1, 0, -1)[k] if name == "sin" else (1, 0, -1, 0)[k])
        if not a.d and a.n.get(ONE_M):
            # constant angles are multiples of pi/12
            c = a.n[ONE_M]
            h = float(c) / (math.pi / 12)
            if round(h) and abs(h) < 200 and abs(h - round(h)) < 1e-6:
                a = Rat({**a.n, ONE_M: Fraction(math.pi) / 12 * round(h)})
        k, q = primitive(a.n)
        neg = k < 0
        k = abs(Fraction(k))
        mult = 1
        if k.denominator == 1 and 1 < k <= 6:
            mult = int(k)
            k = Fraction(1)
        base = Rat(p_scale(q, k), a.d)
        c = None
        if not a.d and len(base.n) == 1:
            # inverse functions: base is f(x) or f(x)/2
            (mm, bc), = base.n.items()
            if len(mm) == 1 and mm[0][1] == 1:
                kind, args = self.ctx.info[mm[0][0]][0], self.ctx.info[mm[0][0]][1]
                one = self.R(1)
                if bc == 1 and kind in ("acos", "asin"):
                    x = args[0]
                    y = self.sqrtv(cell, self.add(one, self.mul(x, x), sub=True))
                    c, s = (x, y) if kind == "acos" else (y, x)
                elif bc == 1 and kind == "atan2":
                    y, x = args
                    r = self.sqrtv(cell, self.add(self.mul(x, x), self.mul(y, y)))
                    if not self.ratsignin(cell, r, (0,)):
                        c, s = self.divv(cell, x, r), self.divv(cell, y, r)
                elif bc == Fraction(1, 2) and kind == "acos":
                    h = self.R(Fraction(1, 2))
                    x = self.mul(h, args[0])
                    c, s = self.sqrtv(cell, self.add(h, x)), self.sqrtv(cell, self.add(h, x, sub=True))
        if c is None:
            sh = self.show(base)
            ci = self.atom("cos", (base,), f"cos({sh})")
            si = self.atom("sin", (base,), f"sin({sh})")
            if si not in self.ctx.rules:
                self.ctx.rules[si] = {ONE_M: 1, ((ci, 2),): -1}
                self.ctx.partner[si] = ci
                self.ctx.partner[ci] = si
            c, s = Rat(self.pvar(ci)), Rat(self.pvar(si))
        rc, rs = c, s
        for _ in range(mult - 1):
            rc, rs = self.add(self.mul(rc, c), self.mul(rs, s), sub=True), self.add(self.mul(rs, c), self.mul(rc, s))
        if name == "cos":
            return rc
        return self.negv(rs) if neg else rs

    # -- equality of terminals ----------------------------------------------------
    def same(self, cell, a, b):
        """True / False(+info) in this cell"""
        if isinstance(a, Rat) and isinstance(b, Rat):
            d = self.reduce_eq(cell, self.diff(a, b))
            if not d:
                return True, None
            d2 = self.refresh(cell, d)
            if d2 is not None:
                d2 = self.reduce_eq(cell, d2.n)
                if not d2:
                    return True, None
                d = d2
            d2 = self.sqrt_products(cell, d)
            if d2 is not None and not d2:
                return True, None
            return None, d
        if isinstance(a, Rat) or isinstance(b, Rat):
            return False, None
        if isinstance(a, tuple) or isinstance(b, tuple):
            return a == b, None
        if a is UInf or b is UInf:
            if a is b:
                return True, None
            if PInf in (a, b) or NInf in (a, b):
                raise Unk("infinity of unknown sign")
        return a is b, None

    def sqrt_products(self, cell, d):
        """use sqrt(P) = sqrt(A)*sqrt(B)/sqrt(k) for square roots in d with k*P = A*B in this cell"""
        L = [v for v in sorted(alg.p_vars(d)) if self.ctx.info[v][0] == "sqrt"]
        if not 3 <= len(L) <= 5:
            return None
        done = False
        for D in L:
            others = [v for v in L if v != D]
            PD = self.reduce_eq(cell, self.ctx.info[D][1][0].n)
            if not PD:
                continue
            for i, A in enumerate(others):
                for B in others[i + 1:]:
                    AB = self.reduce_eq(cell, self.ctx.mul(self.ctx.info[A][1][0].n, self.ctx.info[B][1][0].n))
                    m = next(iter(PD))
                    if m not in AB:
                        continue
                    k = Fraction(AB[m]) / Fraction(PD[m])
                    r = exact_root(k) if k > 0 else None
                    if r is None or p_sub(AB, p_scale(PD, k)):
                        continue
                    d = self.reduce_eq(cell, self.substitute(d, D, p_scale(self.ctx.mul(self.pvar(A), self.pvar(B)), 1 / r)))
                    if not d:
                        return d
                    done = True
        return d if done else None

    def refresh(self, cell, p):
        """re-evaluate the function symbols in p with the equalities now known"""
        mp = {}
        for v in alg.p_vars(p):
            kind, args = self.ctx.info[v]
            if kind in ("in", "idiv", "irem") or kind.startswith("opaque") or not args:
                continue
            r = self.callv(cell, kind, args)
            if isinstance(r, Rat) and r.n != self.pvar(v):
                mp[v] = r
        if not mp:
            return None
        out = self.R(0)
        for m, c in p.items():
            t = self.R(c)
            for v, e in m:
                x = mp.get(v) or Rat(self.pvar(v))
                for _ in range(e):
                    t = self.mul(t, x)
            out = self.add(out, t)
        return out

    # -- driver ---------------------------------------------------------------------
    def explore(self, cell, visit, result):
        """depth-first refinement: visit(cell) may raise Split"""
        work = [cell]
        while work:
            if time.time() > self.deadline:
                result.undecided.append("time limit")
                return
            c = work.pop()
            try:
                stop = visit(c)
                self.cells += 1
                if stop:
                    return
                if self.cells > self.max_cells:
                    result.undecided.append("cell limit")
                    return
            except Split as s:
                work.extend(reversed(self.children(c, s)))
            except Empty:
                pass
            except Unk as e:
                self.cells += 1
                if len(result.undecided) < 20:
                    result.undecided.append(str(e))
            except Blowup as e:
                if len(result.undecided) < 20:
                    result.undecided.append("expression growth: " + str(e))

    def children(self, c, s):
        out = []
        if s.kind == "nan":
            for a in s.alts:
                k = c.copy()
                k.nan[s.key] = a
                out.append(k)
        elif s.kind == "enum":
            for a in s.alts:
                k = c.copy()
                k.nan[s.key] = a
                out.append(k)
        else:
            for a in s.alts:
                try:
                    k = self.assume_sign(c, s.key, a)
                except Empty:
                    continue
                out.append(k)
        return out


class Empty(Exception):
    pass


class Result:
    def __init__(self):
        self.violations = []
        self.undecided = []
        self.cells = 0
        self.compared = 0


def describe_cell(D, cell):
    out = []
    for v, s in cell.nan.items():
        if s != "real":
            out.append(f"{D.ctx.names[v]} is {s}")
    for p, s in cell.cons:
        out.append(D.ctx.show(p, 8) + {1: " > 0", 0: " = 0", -1: " < 0", 2: " >= 0", -2: " <= 0", 3: " != 0"}[s])
    return "; ".join(out) or "all inputs"


def compare(pre, impl, spec, labels=None, seed=1, max_cells=20000, time_limit=60.0):
    """decide impl[i] == spec[i] for all i on all inputs satisfying pre"""
    res = Result()
    t0 = time.time()
    domain_witness(pre, impl, spec, labels, seed, res, limit=0.7, rounds=(6,))
    if res.violations:
        return res
    for i, (a, b) in enumerate(zip(impl, spec)):
        if a is b:
            res.compared += 1
            continue
        D = Decider(seed, max_cells, max(1.0, time_limit - (time.time() - t0)))
        cell = Cell()
        pend = []

        def visit(c):
            pv = D.ev(c, pre)
            if pv is Undef or not D.truth(pv):
                return False
            y = D.ev(c, b)
            x = D.ev(c, a)
            if y is Undef:
                return False  # the specification leaves this case open
            ok, d = D.same(c, x, y)
            res.compared += 1
            if ok is True:
                return False
            if ok is None:
                # different normal forms: equal anyway in this cell?
                k, q = primitive(d)
                alts = [s for s in (1, -1) if D.feasible(c, [(q, s)])]
                if not alts:
                    return False
                if x.isconst() and y.isconst():
                    pend.append((c, x, y, None))
                else:
                    pend.append((c, x, y, q))
            else:
                pend.append((c, x, y, None))
            if not D.nonempty(c):
                pend.pop()
                return False
            # look for a member point of the differing cell
            w = witness(D, pend[-1][0], pend[-1][3], pre, a, b)
            if w is not None:
                res.violations.append({
                    "output": labels[i] if labels else i,
                    "cell": describe_cell(D, c),
                    "code": D.show(x)[:400],
                    "required": D.show(y)[:400],
                    "member": w,
                })
                return True
            if len(res.undecided) < 20:
                res.undecided.append(f"output {labels[i] if labels else i}: normal forms differ in cell [{describe_cell(D, c)[:300]}]: {D.show(x)[:200]} vs {D.show(y)[:200]} but no member point found")
            return len(pend) > 60
        D.explore(cell, visit, res)
        res.cells += D.cells
        if res.violations:
            break
    if res.undecided and not res.violations:
        domain_witness(pre, impl, spec, labels, seed, res)
    return res


def domain_witness(pre, impl, spec, labels, seed, res, limit=25.0, rounds=(30, 120, 400)):
    """undecided: look for members of the domain of the requirement at which the graphs differ"""
    pairs = [(i, a, b) for i, (a, b) in enumerate(zip(impl, spec)) if a is not b]
    if not pairs:
        return
    D = Decider(seed + 1, 400, min(10.0, limit))
    cells = []
    dummy = Result()

    def visit(c):
        if D.truth(D.ev(c, pre)):
            cells.append(c)
        return len(cells) >= 16
    D.explore(Cell(), visit, dummy)
    end = time.time() + limit
    D.deadline = end - 10
    for tries in rounds:
        for c in cells:
            for i, a, b in pairs:
                if time.time() > end:
                    return
                w = witness(D, c, None, pre, a, b, tries)
                if w is not None:
                    res.violations.append({"output": labels[i] if labels else i, "cell": describe_cell(D, c), "code": w["code"], "required": w["required"], "member": w})
                    return


def satisfiable(pre, cond, seed=1, time_limit=20.0, max_cells=5000, members=True):
    """is cond reachable under pre?  returns ('no'|'yes'|'unknown', witness, cell text)"""
    res = Result()
    D = Decider(seed, max_cells, time_limit)
    found = []
    maybe = []

    def visit(c):
        if not D.truth(D.ev(c, pre)):
            return False
        v = D.ev(c, cond)
        if v is Undef or not D.truth(v):
            return False
        if not members:
            maybe.append("")
            return True
        w = witness(D, c, None, pre, cond, vg.ZERO)
        if w is not None:
            found.append((w, describe_cell(D, c)))
            return True
        maybe.append(describe_cell(D, c))
        return len(maybe) > 30
    D.explore(Cell(), visit, res)
    if found:
        return "yes", found[0][0], found[0][1]
    if maybe or res.undecided:
        return "unknown", None, (maybe or res.undecided)[0]
    return "no", None, ""


# ---- member points ------------------------------------------------------------
class NumFail(Exception):
    pass


EPS = 9e-16


class Fl:
    """an inexact number: value and bound on its error"""
    __slots__ = ("v", "e")

    def __init__(self, v, e):
        if math.isinf(v) or math.isnan(v) or math.isinf(e) or math.isnan(e):
            raise NumFail("overflow")
        self.v, self.e = v, e

    def __float__(self):
        return self.v

    def __neg__(self):
        return Fl(-self.v, self.e)

    def __abs__(self):
        return Fl(abs(self.v), self.e)

    def __add__(self, o):
        if isinstance(o, float) and not math.isfinite(o):
            return o
        o = fl(o)
        r = self.v + o.v
        return Fl(r, self.e + o.e + EPS * abs(r))

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, float) and not math.isfinite(o):
            if math.isnan(o):
                return o
            raise NumFail("inf")
        if not isinstance(o, (Fl, float)) and o == 0:
            return 0
        o = fl(o)
        r = self.v * o.v
        return Fl(r, abs(self.v) * o.e + abs(o.v) * self.e + self.e * o.e + EPS * abs(r))

    __rmul__ = __mul__

    def inv(self):
        if abs(self.v) <= 2 * self.e:
            raise NumFail("division by about zero")
        r = 1 / self.v
        return Fl(r, self.e / (abs(self.v) - self.e) * abs(r) + EPS * abs(r))

    def __truediv__(self, o):
        return self * fl(o).inv()

    def __rtruediv__(self, o):
        return self.inv() * o

    def __pow__(self, n):
        r = 1
        for _ in range(abs(n)):
            r = self * r
        return r if n >= 0 else fl(r).inv()


def fl(x):
    if isinstance(x, Fl):
        return x
    v = float(x)
    return Fl(v, 0.0 if not isinstance(x, float) and v == x else EPS * abs(v))


def inexact(f, *xs):
    """f at inexact arguments, with the spread over their error intervals"""
    xs = [fl(x) for x in xs]
    m = f(*(x.v for x in xs))
    err = EPS * abs(m)
    for i, x in enumerate(xs):
        for y in (x.v - x.e, x.v + x.e):
            if y != x.v:
                err += 2 * abs(f(*(y if j == i else z.v for j, z in enumerate(xs))) - m)
    return Fl(m, err)


def compare_num(a, b):
    """sign of a - b"""
    for x, y, s in ((a, b, 1), (b, a, -1)):
        if isinstance(x, float) and math.isinf(x):
            if isinstance(y, float) and y == x:
                return 0
            return s if x > 0 else -s
    if isinstance(a, (Fl, float)) or isinstance(b, (Fl, float)):
        d = fl(a) - b
        if abs(d.v) <= 4 * d.e + 1e-300:
            raise NumFail("too close to a boundary")
        return sgn(d.v)
    return sgn(a - b)


def num_eval(node, asg):
    """numeric value of a node at a point; exact where possible"""
    memo = {}
    stack = [node]
    while stack:
        n = stack[-1]
        if n.id in memo:
            stack.pop()
            continue
        op, A = n.op, n.args
        if op == "ite":
            c = A[0]
            if c.id not in memo:
                stack.append(c)
                continue
            cv = memo[c.id]
            if cv == "undef":
                memo[n.id] = "undef"
                stack.pop()
                continue
            b = A[1] if cv else A[2]
            if b.id not in memo:
                stack.append(b)
                continue
            memo[n.id] = memo[b.id]
            stack.pop()
            continue
        if op in ("and", "or"):
            if A[0].id not in memo:
                stack.append(A[0])
                continue
            t = bool(memo[A[0].id])
            if t == (op == "or"):
                memo[n.id] = int(t)
                stack.pop()
                continue
        miss = [a for a in A if isinstance(a, Node) and a.id not in memo]
        if miss:
            stack.append(miss[0])
            continue
        memo[n.id] = num1(n, [memo[a.id] if isinstance(a, Node) else a for a in A], asg)
        stack.pop()
    return memo[node.id]


INFS = float("inf")


def num1(n, v, asg):
    op = n.op
    if op == "c":
        return v[0]
    if op == "nan":
        return float("nan")
    if op == "inf":
        return INFS if v[0] > 0 else -INFS
    if op == "undef":
        return "undef"
    if op == "var":
        return asg[n]
    if "undef" in [x for x in v if isinstance(x, str)]:
        return "undef"
    if op == "not":
        return 0 if v[0] else 1
    if op in ("and", "or"):
        return int(bool(v[1]))
    if op == "p":
        return ("p",) + tuple(v)
    if op in ("lt", "le", "eq", "uno", "ult"):
        a, b = v
        if isnan(a) or isnan(b):
            return int(op == "uno")
        if op == "uno":
            return 0
        if n.args[0] is n.args[1]:
            return int(op in ("le", "eq"))
        if op == "ult":
            if a < 0 or b < 0:
                raise NumFail("unsigned")
            return int(a < b)
        c = compare_num(a, b)
        return int({"lt": c < 0, "le": c <= 0, "eq": c == 0}[op])
    if op == "call":
        return numcall(v[0], v[1:])
    try:
        if op == "add":
            return v[0] + v[1]
        if op == "sub":
            return v[0] - v[1]
        if op == "neg":
            return -v[0]
        if op == "mul":
            return v[0] * v[1]
        if op == "div":
            if v[1] == 0:
                if isinstance(v[0], float) and math.isnan(v[0]) or v[0] == 0:
                    return float("nan")
                raise NumFail("division by zero")
            if any(isinstance(x, float) and not math.isfinite(x) for x in v):
                raise NumFail("inf")
            if isinstance(v[0], (Fl, float)) or isinstance(v[1], (Fl, float)):
                return fl(v[0]) / v[1]
            return Fraction(v[0]) / v[1]
        if op == "itrunc":
            if isinstance(v[0], float) and (isnan(v[0]) or math.isinf(v[0])):
                return "undef"
            return int(settle(v[0]))
        if op in ("idiv", "irem"):
            a, b = v
            if b == 0:
                return "undef"
            q = abs(a) // abs(b)
            q = q if (a >= 0) == (b >= 0) else -q
            return q if op == "idiv" else a - q * b
    except (OverflowError, ValueError, TypeError, ZeroDivisionError) as e:
        raise NumFail(str(e))
    raise NumFail("op " + op)


def isnan(x):
    return isinstance(x, float) and math.isnan(x)


def exact_root(x):
    x = Fraction(x)
    a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if a * a == x.numerator and b * b == x.denominator:
        return Fraction(a, b)
    return None


def settle(x):
    """an inexact number that is clear of half-integers, as a rational"""
    if isinstance(x, (Fl, float)):
        x = fl(x)
        if abs(x.v * 2 - round(x.v * 2)) <= 4 * x.e + 1e-9:
            raise NumFail("boundary")
        return Fraction(x.v)
    return Fraction(x)


def real_roots(cs):
    """distinct real solutions of a polynomial, ascending; refuses close calls"""
    cs = [float(c) for c in cs]
    if abs(cs[0]) < 1e-9:
        raise NumFail("leading coefficient")
    n = len(cs) - 1
    b = [c / cs[0] for c in cs]
    r = 1 + max(abs(c) for c in b[1:])
    if r > 1e6:
        raise NumFail("scale")
    zs = [r * 0.7 * complex(math.cos(0.4 + 2 * math.pi * k / n), math.sin(0.4 + 2 * math.pi * k / n)) for k in range(n)]
    for _ in range(400):
        d = 0
        for i in range(n):
            p = 1
            for c in b[1:]:
                p = p * zs[i] + c
            q = 1
            for j in range(n):
                if j != i:
                    q *= zs[i] - zs[j]
            if q == 0:
                raise NumFail("double root")
            zs[i] -= p / q
            d = max(d, abs(p / q))
        if d < 1e-13 * r:
            break
    else:
        raise NumFail("no convergence")
    out = []
    for z in zs:
        if 1e-9 * r < abs(z.imag) < 1e-3:
            raise NumFail("close call")
        if abs(z.imag) <= 1e-9 * r:
            out.append(z.real)
    out.sort()
    if any(y - x < 1e-3 for x, y in zip(out, out[1:])):
        raise NumFail("close call")
    return [Fl(x, 1e-8 * r) for x in out]


def numcall(name, a):
    if any(isnan(x) for x in a):
        return float("nan")
    if name.startswith("opaque:solve_"):
        rs = real_roots(a[:-1])
        k = name.split(":")[2]
        if k == "n":
            return len(rs)
        if int(k) >= len(rs):
            raise NumFail("no such solution")
        return rs[int(k)]
    try:
        if name == "sqrt":
            if not isinstance(a[0], (Fl, float)):
                if a[0] < 0:
                    return float("nan")
                r = exact_root(a[0])
                if r is not None:
                    return r
            x = fl(a[0])
            if abs(x.v) <= 4 * x.e:
                raise NumFail("root of about zero")
            return inexact(math.sqrt, x) if x.v > 0 else float("nan")
        if name in ("sin", "cos", "tan"):
            if not isinstance(a[0], Fl) and a[0] == 0:
                return 1 if name == "cos" else 0
            # the constants for pi stand for pi
            k = round(float(a[0]) / (math.pi / 2))
            if abs(k) <= 8 and k and abs(float(a[0]) - k * math.pi / 2) < 1e-6 * abs(k):
                c, sn = [(1, 0), (0, 1), (-1, 0), (0, -1)][k % 4]
                if name == "tan":
                    if c == 0:
                        raise NumFail("pole")
                    return 0
                return c if name == "cos" else sn
            return inexact(getattr(math, name), a[0])
        if name in ("acos", "asin"):
            if isinstance(a[0], (Fl, float)) and abs(abs(float(a[0])) - 1) <= 4 * fl(a[0]).e + 1e-12:
                raise NumFail("boundary")
            if abs(float(a[0])) > 1:
                return float("nan")
            if name == "acos" and not isinstance(a[0], Fl) and a[0] == 1:
                return 0
            return inexact(getattr(math, name), a[0])
        if name in ("atan", "exp", "log", "atan2", "cbrt", "log2", "log10"):
            if name == "atan2":
                for x in a:
                    if isinstance(x, Fl) and abs(x.v) <= 4 * x.e:
                        raise NumFail("boundary")
            return inexact(getattr(math, name), *a)
        if name in ("nextup", "nextdown"):
            # stand-in step: only used to show that two graphs step in different directions
            return a[0] + Fraction(1 if name == "nextup" else -1, 1000)
        if name == "pow":
            if isinstance(a[1], int) or isinstance(a[1], Fraction) and a[1].denominator == 1:
                return a[0] ** int(a[1])
            return inexact(lambda x, y: x ** y, a[0], a[1])
        if name in ("floor", "ceil", "ftrunc", "fround"):
            x = settle(a[0])
            return {"floor": math.floor(x), "ceil": math.ceil(x), "ftrunc": int(x), "fround": math.floor(abs(x) + Fraction(1, 2)) * sgn(x)}[name]
        if name == "hypot":
            return numcall("sqrt", [a[0] * a[0] + a[1] * a[1]])
        if name == "fmod":
            if not isinstance(a[1], Fl) and a[1] == 0:
                return float("nan")
            q = a[0] / a[1] if isinstance(a[0], Fl) or isinstance(a[1], Fl) else Fraction(a[0]) / Fraction(a[1])
            return a[0] - a[1] * int(settle(q) if isinstance(q, Fl) else q)
    except (ValueError, OverflowError, ZeroDivisionError, TypeError) as e:
        raise NumFail(str(e))
    raise NumFail("call " + name)


def numdiffer(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return y != "undef" and x != y
    if isinstance(x, tuple) or isinstance(y, tuple):
        return x != y
    if isnan(x) or isnan(y):
        return isnan(x) != isnan(y)
    if isinstance(x, (Fl, float)) or isinstance(y, (Fl, float)):
        for u in (x, y):
            if isinstance(u, float) and math.isinf(u):
                return not (isinstance(x, float) and isinstance(y, float) and x == y)
        d = fl(x) - y
        return abs(d.v) > 10 * d.e + 1e-6 * max(1e-6, abs(float(x)), abs(float(y)))
    return x != y


def pval(D, p, val):
    s = 0
    for m, c in p.items():
        t = c
        for v, e in m:
            x = val[v]
            t = t * (x ** e if e > 1 else x)
        s = s + t
    return s


def atom_val(D, v, val):
    kind, args = D.ctx.info[v]
    xs = []
    for a in args:
        x = pval(D, a.n, val)
        for q, e in a.d.values():
            dv = pval(D, q, val)
            if dv == 0:
                raise NumFail("den")
            x = (Fraction(x) if not isinstance(x, float) else x) / (dv ** e)
        xs.append(x)
    if kind in ("idiv", "irem"):
        a, b = xs
        if b == 0:
            raise NumFail("idiv by zero")
        a, b = int(a), int(b)
        q = abs(a) // abs(b)
        q = q if (a >= 0) == (b >= 0) else -q
        return q if kind == "idiv" else a - q * b
    r = numcall(kind, xs)
    return r.v if isinstance(r, Fl) else r


def collect_vars(*nodes):
    seen, out, st = set(), [], list(nodes)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == "var":
            out.append(n)
        st.extend(a for a in n.args if isinstance(a, Node))
    return sorted(out, key=lambda n: n.args[0])


UNITS = {1: [(1,)], 2: [(3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13), (8, 15, 17), (7, 24, 25), (24, 7, 25)],
         3: [(1, 2, 2, 3), (2, 1, 2, 3), (2, 2, 1, 3), (2, 3, 6, 7), (3, 6, 2, 7), (6, 2, 3, 7), (3, 2, 6, 7), (1, 4, 8, 9), (8, 1, 4, 9), (4, 8, 1, 9), (2, 6, 9, 11), (6, 6, 7, 11), (12, 15, 16, 25), (9, 12, 20, 25)],
         4: [(1, 1, 1, 1, 2), (1, 3, 3, 9, 10), (1, 1, 3, 5, 6), (5, 1, 1, 3, 6), (1, 5, 3, 1, 6), (2, 4, 5, 6, 9), (6, 2, 5, 4, 9), (1, 1, 7, 7, 10), (7, 1, 1, 7, 10), (7, 5, 1, 5, 10)]}


def find_spheres(cons, inputs):
    """equalities x1^2 + ... + xn^2 = r^2, with the signs the cell fixes for single variables"""
    sg, out, used = {}, [], set()
    for p, s in cons:
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1 and s != 3:
                v = m[0][0]
                if s == 0:
                    sg[v] = {0}
                else:
                    w = {1: {1}, -1: {-1}, 2: {0, 1}, -2: {0, -1}}[s if c > 0 else -s]
                    sg[v] = sg.get(v, {-1, 0, 1}) & w
            elif len(m) == 1 and m[0][1] == 1:
                sg[m[0][0]] = sg.get(m[0][0], {-1, 0, 1}) - {0}
    for p, s in cons:
        if s != 0 or len(p) < 2:
            continue
        k = p.get(ONE_M, 0)
        ms = [(m, c) for m, c in p.items() if m != ONE_M]
        if not all(len(m) == 1 and m[0][1] == 2 and m[0][0] in inputs and c == ms[0][1] for m, c in ms) or len(ms) > 4:
            continue
        r2 = -Fraction(k) / ms[0][1]
        r = exact_root(r2) if r2 > 0 else None
        vs = [m[0][0] for m, _ in ms]
        if r is None or used & set(vs):
            continue
        used |= set(vs)
        out.append((vs, r, sg))
    return out


def sphere_point(rng, val, vs, r, sg):
    signs = [rng.choice(sorted(sg.get(v) or {-1, 0, 1})) for v in vs]
    nz = [i for i, x in enumerate(signs) if x]
    if not nz:
        nz = [rng.randrange(len(vs))]
        signs[nz[0]] = 1
    u = rng.choice(UNITS[len(nz)])
    for v in vs:
        val[v] = Fraction(0)
    for i, x in zip(nz, u if len(nz) == 1 else u[:-1]):
        val[vs[i]] = signs[i] * r * (Fraction(x, u[-1]) if len(nz) > 1 else Fraction(1))


def witness(D, cell, ne, pre, a, b, tries=400):
    """a concrete member of the cell at which the two graphs differ"""
    nodes = collect_vars(pre, a, b)
    for n in nodes:
        D.var(n)
    rng = D.rng
    inputs = [i for i in range(len(D.ctx.names)) if D.ctx.info[i][0] == "in"]
    atoms = [i for i in range(len(D.ctx.names)) if D.ctx.info[i][0] != "in"]
    cons = [(p, s) for p, s in cell.cons]
    allp = cons + ([(ne, None)] if ne else [])
    # linear cell: take points from the polyhedron first
    lpsol = []
    if not atoms or all(not (alg.p_vars(p) & set(atoms)) for p, _ in allp):
        if all(sum(e for _, e in m) <= 1 for p, _ in allp for m in p):
            eqs = [{(None if m == ONE_M else m): c for m, c in p.items()} for p, s in cons if s == 0]
            st = [{(None if m == ONE_M else m): c * s for m, c in p.items()} for p, s in cons if s in (1, -1)]
            nst = [{(None if m == ONE_M else m): c * s for m, c in p.items()} for p, s in cons if s in (2, -2)]
            for sg in ((1, -1) if ne else (1,)):
                st2 = st + ([{(None if m == ONE_M else m): c * sg for m, c in ne.items()}] if ne else [])
                try:
                    sol = alg.lp_feasible(eqs, st2, nst)
                except alg.GiveUp:
                    sol = None
                if sol is not None:
                    lpsol.append({k[0][0]: v for k, v in sol.items()})

    def ok(val):
        for p, s in cons:
            x = pval(D, p, val)
            if isinstance(x, float) and abs(x) < 1e-9:
                return False
            if not signok(x, s):
                return False
        return True

    def full(val):
        for v in atoms:
            try:
                val[v] = atom_val(D, v, val)
            except (KeyError, NumFail):
                val[v] = None
        return val

    def test(val):
        asg = {}
        for n in nodes:
            i = D.vars[n]
            s = cell.nan.get(i)
            if s == "nan":
                asg[n] = float("nan")
            elif s == "+inf":
                asg[n] = INFS
            elif s == "-inf":
                asg[n] = -INFS
            elif isinstance(s, int):
                asg[n] = s
            else:
                asg[n] = Fraction(val[i]) if isinstance(val[i], float) and math.isfinite(val[i]) else val[i]
                if n.args[1] == "g" and not 48 <= val[i] <= 57:
                    return None
                if n.args[1] in ("i", "u", "g") and Fraction(val[i]).denominator != 1:
                    return None
                if n.args[1] == "u" and val[i] < 0:
                    return None
        try:
            if not num_eval(pre, asg):
                return None
            x, y = num_eval(a, asg), num_eval(b, asg)
        except (NumFail, OverflowError):
            return None
        if numdiffer(x, y):
            return {"point": {n.args[0]: fmt(asg[n]) for n in nodes}, "code": fmt(x), "required": fmt(y)}
        return None

    subst_vars = list(cell.subst)
    spheres = find_spheres(cons, inputs)
    frozen = set(v for vs, _, _ in spheres for v in vs)
    for t in range(tries):
        if t % 20 == 0 and time.time() > D.deadline + 10:
            break
        val = {}
        scale = rng.choice((1, 1, 2, 4, 10, 100))
        den = rng.choice((1, 1, 1, 2, 4, 8))
        for i in inputs:
            if i in D.ctx.ints:
                x = rng.randint(-4, 4)
                val[i] = abs(x) if i in D.ctx.nonneg else x
            else:
                val[i] = Fraction(rng.randint(-3 * scale, 3 * scale), den)
        for vs, r, sg in spheres:
            sphere_point(rng, val, vs, r, sg)
        if lpsol and t < 4 * len(lpsol):
            val.update(lpsol[t % len(lpsol)])
        try:
            for _ in range(40):
                if time.time() > D.deadline + 10:
                    return None
                if any(isinstance(x, Fraction) and x.denominator.bit_length() > 600 for x in val.values()):
                    break
                full(val)
                # dependent variables from the equalities
                for v in subst_vars:
                    if v in inputs:
                        try:
                            val[v] = pval(D, cell.subst[v], val)
                        except TypeError:
                            pass
                full(val)
                bad = []
                for p, s in cons:
                    try:
                        x = pval(D, p, val)
                    except TypeError:
                        bad = None
                        break
                    if not signok(x, s) or (s and isinstance(x, float) and abs(x) < 1e-9):
                        bad.append((p, s, x))
                if bad is None:
                    break
                if not bad:
                    r = test(val)
                    if r is not None:
                        return r
                    break
                p, s, x = rng.choice(bad)
                # repair: move one variable that occurs linearly
                cand = []
                for m in p:
                    for v, e in m:
                        if v in val and v in inputs and v not in cell.subst and v not in frozen:
                            cand.append(v)
                if not cand:
                    if spheres and rng.random() < 0.7:
                        for vs, r, sg in spheres:
                            if any(v in vs for m in p for v, _ in m):
                                sphere_point(rng, val, vs, r, sg)
                        continue
                    break
                v = rng.choice(cand)
                c0, c1, lin = 0, 0, True
                for m, c in p.items():
                    e = dict(m).get(v, 0)
                    if e == 0:
                        c0 = c0 + pval(D, {m: c}, val)
                    elif e == 1:
                        c1 = c1 + pval(D, {tuple(z for z in m if z[0] != v): c}, val)
                    else:
                        lin = False
                if not lin or c1 == 0:
                    if v in D.ctx.ints:
                        val[v] = rng.randint(-4, 4)
                    else:
                        val[v] = Fraction(rng.randint(-12, 12), rng.choice((1, 2, 4)))
                    continue
                if s == 0:
                    target = 0
                else:
                    mag = abs(x) if not isinstance(x, float) else abs(x)
                    target = (rng.choice((1, -1)) if s == 3 else sgn(s)) * rng.choice((Fraction(1), Fraction(1, 2), Fraction(1, 1000), Fraction(1, 10**7), Fraction(1, 10**9), Fraction(3), Fraction(20)))
                if isinstance(c0, float) or isinstance(c1, float):
                    val[v] = (float(target) - c0) / c1
                else:
                    val[v] = Fraction(target - c0) / c1
                    if s != 0 and val[v].denominator > 1 << 48:
                        val[v] = Fraction(round(val[v] * (1 << 48)), 1 << 48)
                if v in D.ctx.ints:
                    val[v] = round(val[v])
        except (NumFail, OverflowError, ZeroDivisionError, TypeError):
            continue
    return None


def fmt(x):
    if isinstance(x, Fl):
        x = x.v
    if isinstance(x, float):
        return "%.9g" % x
    if isinstance(x, Fraction):
        if x.denominator == 1:
            return str(x.numerator)
        return str(x) if x.denominator < 10**6 else "%.9g" % float(x)
    return str(x)
