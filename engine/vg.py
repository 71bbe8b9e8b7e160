"""Value graph: hash-consed gated expressions (the analyser's abstract values).

Numbers (floating point and integer alike) are elements of an extended field:
exact rationals, plus NaN and the infinities.  Rounding, overflow and the sign
of zero are abstracted away.  Booleans are the numbers 0 and 1.
"""
from fractions import Fraction


class Node:
    __slots__ = ("op", "args", "id", "cl", "_h")

    def __repr__(self):
        return show(self)


_table = {}
_next = [0]


def mk(op, *args):
    key = (op, tuple((a.id, ) if isinstance(a, Node) else a for a in args))
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.id = _next[0]
        _next[0] += 1
        if op in ("c", "p", "fn", "nan", "inf", "undef"):
            n.cl = 1
        elif op == "ite" and args[1].cl and args[2].cl:
            n.cl = args[1].cl + args[2].cl
        else:
            n.cl = 0
        _table[key] = n
    return n


def reset():
    """Forget all nodes except the shared constants."""
    _table.clear()
    for n in (ZERO, ONE, NAN, PINF, NINF, UNDEF, NULL):
        _table[(n.op, tuple((a.id,) if isinstance(a, Node) else a for a in n.args))] = n


def C(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        v = v.numerator
    return mk("c", v)


ZERO = C(0)
ONE = C(1)
NAN = mk("nan")
PINF = mk("inf", 1)
NINF = mk("inf", -1)
UNDEF = mk("undef")
NULL = mk("p", 0, 0)
MAXLEAF = 40


def isc(n):
    return n.op == "c"


def leaves(n, path=()):
    """[(conditions, leaf)] of an if-tree; conditions are (node, truth)."""
    if n.op == "ite":
        return leaves(n.args[1], path + ((n.args[0], True),)) + leaves(n.args[2], path + ((n.args[0], False),))
    return [(path, n)]


def lift(f, a):
    """apply f to every leaf of an if-tree"""
    if a.op == "ite":
        return ite(a.args[0], lift(f, a.args[1]), lift(f, a.args[2]))
    return f(a)


def lift2(f, a, b):
    if a.op == "ite" and a.cl and (b.cl) and a.cl * b.cl <= MAXLEAF:
        return ite(a.args[0], lift2(f, a.args[1], b), lift2(f, a.args[2], b))
    if b.op == "ite" and b.cl and (a.cl) and a.cl * b.cl <= MAXLEAF:
        return ite(b.args[0], lift2(f, a, b.args[1]), lift2(f, a, b.args[2]))
    return f(a, b)


def ite(c, a, b):
    if a is b:
        return a
    if c.op == "c":
        return a if c.args[0] else b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "undef":
        return UNDEF
    if isinstance(a, tuple) or isinstance(b, tuple):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(ite(c, x, y) for x, y in zip(a, b))
        return UNDEF
    if c.op == "ite" and c.args[1].op == "c" and c.args[2].op == "c":
        x = a if c.args[1].args[0] else b
        y = a if c.args[2].args[0] else b
        return ite(c.args[0], x, y)
    # nested same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.op == "bytes" or b.op == "bytes":
        lay = (a if a.op == "bytes" else b).args[1]
        pa, pb = bytesplit(a, lay), bytesplit(b, lay)
        if pa is not None and pb is not None:
            return mk("bytes", (a if a.op == "bytes" else b).args[0], lay, *[ite(c, x, y) for x, y in zip(pa, pb)])
    if a is ONE and b is ZERO and isbool(c):
        return c
    if a is ZERO and b is ONE and isbool(c):
        return not_(c)
    return mk("ite", c, a, b)


def bytesplit(v, lay):
    if v.op == "bytes":
        return v.args[2:] if v.args[1] == lay else None
    if v is UNDEF:
        return [UNDEF] * len(lay)
    if v.op == "c" and isinstance(v.args[0], int):
        out = []
        for po, ps in lay:
            x = (v.args[0] >> (8 * po)) & ((1 << 8 * ps) - 1)
            out.append(C(x - (1 << 8 * ps) if x >> (8 * ps - 1) else x))
        return out
    return None


def isbool(n):
    if n.op in ("lt", "le", "eq", "uno", "not", "and", "or", "ult"):
        return True
    if n.op == "c":
        return n.args[0] in (0, 1)
    if n.op == "ite":
        return isbool(n.args[1]) and isbool(n.args[2])
    return False


def not_(a):
    if a.op == "c":
        return ZERO if a.args[0] else ONE
    if a.op == "not":
        return a.args[0]
    if a.op == "ite" and a.cl:
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    if a is UNDEF:
        return UNDEF
    return mk("not", a)


def and_(a, b):
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if x.op == "c":
            return y if x.args[0] else ZERO
    if a.op == "not" and a.args[0] is b or b.op == "not" and b.args[0] is a:
        return ZERO
    return mk("and", a, b)


def or_(a, b):
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if x.op == "c":
            return ONE if x.args[0] else y
    if a.op == "not" and a.args[0] is b or b.op == "not" and b.args[0] is a:
        return ONE
    return mk("or", a, b)


def xor_(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "c":
            return not_(y) if x.args[0] else y
    return ite(a, not_(b), b)


# ---- arithmetic -----------------------------------------------------------
def _num(n):
    return n.op == "c"


def _special(n):
    return n.op in ("nan", "inf", "undef")


def add(a, b):
    def f(a, b):
        if a.op == "c" and b.op == "c":
            return C(a.args[0] + b.args[0])
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a is NAN or b is NAN:
            return NAN
        if a is ZERO:
            return b
        if b is ZERO:
            return a
        if a.op == "p2i" and b.op == "c":
            p = a.args[0]
            return mk("p2i", mk("p", p.args[0], p.args[1] + b.args[0]))
        if b.op == "p2i" and a.op == "c":
            return f(b, a)
        return mk("add", a, b)
    return lift2(f, a, b)


def sub(a, b):
    def f(a, b):
        if a.op == "c" and b.op == "c":
            return C(a.args[0] - b.args[0])
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a is NAN or b is NAN:
            return NAN
        if b is ZERO:
            return a
        if a.op == "p2i" and b.op == "p2i":
            p, q = a.args[0], b.args[0]
            if p.args[0] == q.args[0]:
                return C(p.args[1] - q.args[1])
        if a.op == "p2i" and b.op == "c":
            p = a.args[0]
            return mk("p2i", mk("p", p.args[0], p.args[1] - b.args[0]))
        return mk("sub", a, b)
    return lift2(f, a, b)


def mul(a, b):
    def f(a, b):
        if a.op == "c" and b.op == "c":
            return C(a.args[0] * b.args[0])
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a is NAN or b is NAN:
            return NAN
        if a is ONE:
            return b
        if b is ONE:
            return a
        return mk("mul", a, b)
    return lift2(f, a, b)


def div(a, b):
    def f(a, b):
        if a.op == "c" and b.op == "c" and b.args[0] != 0:
            return C(Fraction(a.args[0]) / b.args[0])
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a is NAN or b is NAN:
            return NAN
        if b is ONE:
            return a
        return mk("div", a, b)
    return lift2(f, a, b)


def neg(a):
    def f(a):
        if a.op == "c":
            return C(-a.args[0])
        if a.op == "inf":
            return NINF if a.args[0] > 0 else PINF
        if a is NAN or a is UNDEF:
            return a
        if a.op == "neg":
            return a.args[0]
        return mk("neg", a)
    return lift(f, a) if a.cl else f(a)


def idiv(a, b):
    def f(a, b):
        if a.op == "c" and b.op == "c" and b.args[0] != 0:
            q = abs(a.args[0]) // abs(b.args[0])
            return C(q if (a.args[0] >= 0) == (b.args[0] >= 0) else -q)
        if b is ONE:
            return a
        return mk("idiv", a, b)
    return lift2(f, a, b)


def irem(a, b):
    def f(a, b):
        if a.op == "c" and b.op == "c" and b.args[0] != 0:
            q = abs(a.args[0]) // abs(b.args[0])
            q = q if (a.args[0] >= 0) == (b.args[0] >= 0) else -q
            return C(a.args[0] - q * b.args[0])
        return mk("irem", a, b)
    return lift2(f, a, b)


def call(name, *args):
    return mk("call", name, *args)


# ---- comparisons ----------------------------------------------------------
def _cmpc(op, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a is NAN or b is NAN:
        return ONE if op == "uno" else ZERO
    if a.op in ("c", "inf") and b.op in ("c", "inf"):
        def key(n):
            return (n.args[0] * 1, 0) if n.op == "inf" else (0, n.args[0])
        x, y = key(a), key(b)
        return {"lt": x < y, "le": x <= y, "eq": x == y, "uno": False}[op]
    if op != "uno" and a.op == "var" and a.args[1] == "g" and b.op == "c" and not 48 <= b.args[0] <= 57:
        return False if op == "eq" else b.args[0] > 57  # a decimal digit
    if op != "uno" and b.op == "var" and b.args[1] == "g" and a.op == "c" and not 48 <= a.args[0] <= 57:
        return False if op == "eq" else a.args[0] < 48
    if a.op == "p" and b.op == "p":
        if a.args[0] == b.args[0]:
            x, y = a.args[1], b.args[1]
            return {"lt": x < y, "le": x <= y, "eq": x == y, "uno": False}[op]
        if op == "eq":
            return False
        x, y = a.args[0], b.args[0]
        return {"lt": x < y, "le": x <= y}[op]
    if a.op == "p" and b.op == "c" or a.op == "c" and b.op == "p" or a.op == "fn" or b.op == "fn":
        if op == "eq":
            return a is b
    return None


def _isint(n):
    return n.op == "var" and n.args[1] in ("i", "u", "g")


def cmp(op, a, b):
    def f(a, b):
        r = _cmpc(op, a, b)
        if r is True:
            return ONE
        if r is False:
            return ZERO
        if r is not None:
            return r
        if op == "uno" and (a.op == "c" or a is b) and _isint(b):
            return ZERO
        if op == "eq" and a.id > b.id:
            a, b = b, a
        if op == "eq" and b.op == "c" and b.args[0] in (0, 1) and isbool(a):
            return a if b.args[0] else not_(a)
        if op == "eq" and a.op == "c" and a.args[0] in (0, 1) and isbool(b):
            return b if a.args[0] else not_(b)
        return mk(op, a, b)
    return lift2(f, a, b)


def fcmp(pred, a, b):
    if pred == "oeq":
        return cmp("eq", a, b)
    if pred == "une":
        return not_(cmp("eq", a, b))
    if pred == "olt":
        return cmp("lt", a, b)
    if pred == "ogt":
        return cmp("lt", b, a)
    if pred == "ole":
        return cmp("le", a, b)
    if pred == "oge":
        return cmp("le", b, a)
    if pred == "ult":
        return not_(cmp("le", b, a))
    if pred == "ule":
        return not_(cmp("lt", b, a))
    if pred == "ugt":
        return not_(cmp("le", a, b))
    if pred == "uge":
        return not_(cmp("lt", a, b))
    if pred == "uno":
        return cmp("uno", a, b)
    if pred == "ord":
        return not_(cmp("uno", a, b))
    if pred == "one":
        return or_(cmp("lt", a, b), cmp("lt", b, a))
    if pred == "ueq":
        return not_(or_(cmp("lt", a, b), cmp("lt", b, a)))
    if pred == "true":
        return ONE
    if pred == "false":
        return ZERO
    raise ValueError(pred)


def show(n, depth=6):
    if isinstance(n, tuple):
        return "<" + ", ".join(show(x) for x in n) + ">"
    if n.op == "c":
        return str(n.args[0])
    if n.op == "var":
        return n.args[0]
    if n.op in ("nan", "undef"):
        return n.op
    if n.op == "inf":
        return "inf" if n.args[0] > 0 else "-inf"
    if n.op == "p":
        return f"&{n.args[0]}+{n.args[1]}"
    if depth == 0:
        return "..."
    inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "lt": "<", "le": "<=", "eq": "==", "and": "&", "or": "|"}
    if n.op in inf:
        return "(" + show(n.args[0], depth - 1) + inf[n.op] + show(n.args[1], depth - 1) + ")"
    if n.op == "ite":
        return "(" + show(n.args[0], depth - 1) + " ? " + show(n.args[1], depth - 1) + " : " + show(n.args[2], depth - 1) + ")"
    return n.op + "(" + ", ".join(show(a, depth - 1) if isinstance(a, Node) else str(a) for a in n.args) + ")"
