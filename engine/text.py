"""Summaries of the C++ text interfaces: an output stream is the sequence of items written to it.

A stream is an abstract object holding the number of items and, per item, a kind
(0 character, 1 real number, 2 integer, 9 anything else) and its value.  Format
state (precision, width, flags) lives where std::ios_base keeps it, so inline
setters act on it; numbers written with other than default format get kind 7/8.
"""
from engine import vg

CAP = 400
IOS = 16 + 16 * CAP
C = lambda v: vg.mk("c", v)  # noqa: E731

S = "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_"
NUM = {"_ZNSolsEd": 1, "_ZNSolsEf": 1, "_ZNSolsEe": 1, "_ZNSolsEi": 2, "_ZNSolsEj": 2, "_ZNSolsEl": 2, "_ZNSolsEm": 2, "_ZNSolsEs": 2, "_ZNSolsEt": 2, "_ZNSolsEx": 2, "_ZNSolsEy": 2, "_ZNSolsEb": 2,
       "_ZNSo9_M_insertIdEERSoT_": 1, "_ZNSo9_M_insertIeEERSoT_": 1, "_ZNSo9_M_insertIlEERSoT_": 2, "_ZNSo9_M_insertImEERSoT_": 2, "_ZNSo9_M_insertIbEERSoT_": 2}
SIZED = ("_ZNSo5writeEPKcl", "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l")
STR = "_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE"
SV = "_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St17basic_string_viewIS3_S4_E"


def make_stream(I, st):
    vt = I.new_obj(st, 64, "stream vtable", "heap")
    o = I.new_obj(st, IOS + 256, "stream", "heap")
    ob = st.mem[o]
    ob.fill = vg.ZERO
    p = vg.mk("p", o, 0)
    I.store1(st, vg.mk("p", vt, 0), 0, 8, C(IOS), None)
    I.store1(st, p, 0, 8, vg.mk("p", vt, 24), None)
    I.store1(st, p, 8, 8, vg.ZERO, None)
    I.store1(st, p, IOS + 8, 8, C(6), None)
    I.store1(st, p, IOS + 16, 8, vg.ZERO, None)
    I.store1(st, p, IOS + 24, 4, C(4098), None)
    return p


def put(I, st, p, kind, v):
    from engine.interp import Unsupported
    p = st.simp(p)
    if p.op != "p":
        raise Unsupported("unknown stream")
    n = st.simp(I.load1(st, p, 8, 8, "i64"))
    if n.op != "c":
        raise Unsupported("text of unknown length")
    n = n.args[0]
    if n >= CAP:
        raise Unsupported("long text")
    w = st.simp(I.load1(st, p, IOS + 16, 8, "i64"))
    if kind in (1, 2):
        pr, fl = st.simp(I.load1(st, p, IOS + 8, 8, "i64")), st.simp(I.load1(st, p, IOS + 24, 4, "i32"))
        if not (pr.op == "c" and pr.args[0] == 6 and fl.op == "c" and fl.args[0] == 4098):
            kind += 6
    if not (w.op == "c" and w.args[0] == 0):
        kind = 9
    I.store1(st, p, 16 + 16 * n, 8, C(kind), None)
    I.store1(st, p, 24 + 16 * n, 8, v, None)
    I.store1(st, p, 8, 8, C(n + 1), None)
    return p


def chars(I, st, s, n=None):
    out = []
    k = 0
    while n is None or k < n:
        v = st.simp(I.load_scalar(st, s, k, 1, "i8"))
        if n is None:
            z = st.simp(vg.cmp("eq", v, vg.ZERO))
            if z.op != "c":
                from engine.interp import Unsupported
                raise Unsupported("text of unknown length")
            if z.args[0]:
                break
        out.append(v)
        k += 1
        if k > 4000:
            from engine.interp import Unsupported
            raise Unsupported("unterminated text")
    return out


def number(I, st, p):
    """value and length of the longest decimal prefix, as strtod reads it"""
    from engine.interp import Unsupported
    cs = chars(I, st, p)

    def ch(i):
        if i >= len(cs):
            return None
        v = cs[i]
        if v.op == "c":
            return chr(v.args[0] % 256)
        if v.op == "var" and v.args[1] == "g":
            return v
        raise Unsupported("unknown character")

    def digit(c):
        if isinstance(c, str):
            return C(ord(c) - 48) if c.isdigit() else None
        return None if c is None else vg.sub(c, C(48))
    i = 0
    while isinstance(ch(i), str) and ch(i) in " \t\n\r\v\f":
        i += 1
    neg = False
    if isinstance(ch(i), str) and ch(i) in "+-":
        neg = ch(i) == "-"
        i += 1
    x, any_, scale = vg.ZERO, False, 1
    from fractions import Fraction
    while digit(ch(i)) is not None:
        x = vg.add(vg.mul(x, C(10)), digit(ch(i)))
        any_ = True
        i += 1
    if ch(i) == "." and (any_ or digit(ch(i + 1)) is not None):
        i += 1
        while digit(ch(i)) is not None:
            scale = scale * Fraction(1, 10)
            x = vg.add(x, vg.mul(digit(ch(i)), C(scale)))
            any_ = True
            i += 1
    if not any_:
        w = ch(i)
        if isinstance(w, str) and w in "niNI":
            raise Unsupported("nan or infinity text")
        return vg.ZERO, 0
    if isinstance(ch(i), str) and ch(i) in "xX":
        raise Unsupported("hexadecimal text")
    if isinstance(ch(i), str) and ch(i) in "eE":
        j = i + 1
        s = 1
        if isinstance(ch(j), str) and ch(j) in "+-":
            s = -1 if ch(j) == "-" else 1
            j += 1
        if digit(ch(j)) is not None:
            e = 0
            while digit(ch(j)) is not None:
                d = digit(ch(j))
                if d.op != "c":
                    raise Unsupported("unknown exponent")
                e = e * 10 + d.args[0]
                j += 1
            x = vg.mul(x, C(Fraction(10) ** (s * e)))
            i = j
    return (vg.neg(x) if neg else x), i


def summaries():
    r = {}
    r["vp_stream"] = lambda I, st, a, f: make_stream(I, st)

    def item(I, st, a, f):
        p, i, w = st.simp(a[0]), st.simp(a[1]), st.simp(a[2])
        return I.load1(st, p, 16 + 16 * i.args[0] + 8 * w.args[0], 8, "double")
    r["vp_at"] = item
    r["vp_items"] = lambda I, st, a, f: I.load1(st, st.simp(a[0]), 8, 8, "i64")
    for n, k in NUM.items():
        r[n] = lambda I, st, a, f, k=k: put(I, st, a[0], k, a[1])

    def cstr(I, st, a, f):
        for c in chars(I, st, a[1]):
            put(I, st, a[0], 0, c)
        return a[0]
    r[S + "PKc"] = cstr

    def char(I, st, a, f):
        put(I, st, a[0], 0, a[1])
        return a[0]
    r[S + "c"] = char
    r["_ZNSo3putEc"] = char

    def sized(I, st, a, f):
        for c in chars(I, st, a[1], I.constarg(st, a[2])):
            put(I, st, a[0], 0, c)
        return a[0]
    for n in SIZED:
        r[n] = sized

    def string(I, st, a, f):
        q = I.load_scalar(st, a[1], 0, 8, "p")
        n = I.constarg(st, I.load_scalar(st, a[1], 8, 8, "i64"))
        for c in chars(I, st, q, n):
            put(I, st, a[0], 0, c)
        return a[0]
    r[STR] = string

    def view(I, st, a, f):
        for c in chars(I, st, a[2], I.constarg(st, a[1])):
            put(I, st, a[0], 0, c)
        return a[0]
    r[SV] = view

    def other(I, st, a, f):
        put(I, st, a[0], 9, vg.ZERO)
        return a[0]
    for n in ("_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St13_Setprecision", "_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St5_Setw",
              "_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St8_Setfill", "_ZNSolsEPFRSt8ios_baseS0_E"):
        r[n] = other

    def manip(I, st, a, f):
        fp = st.simp(a[1])
        if fp.op == "fn" and "endl" in fp.args[0]:
            put(I, st, a[0], 0, C(10))
            return a[0]
        if fp.op == "fn" and "flush" in fp.args[0]:
            return a[0]
        return NotImplemented
    r["_ZNSolsEPFRSoS_E"] = manip
    r["_ZNSo5flushEv"] = lambda I, st, a, f: a[0]
    r["atof"] = lambda I, st, a, f: number(I, st, a[0])[0]

    def strtod(I, st, a, f):
        v, n = number(I, st, a[0])
        e = st.simp(a[1])
        if not (e.op == "p" and e.args[0] == 0):
            I.store_scalar(st, e, 0, 8, vg.mk("p", st.simp(a[0]).args[0], st.simp(a[0]).args[1] + n))
        return v
    r["strtod"] = r["strtof"] = strtod

    def memchr(I, st, a, f):
        n = I.constarg(st, a[2])
        p = st.simp(a[0])
        res = vg.mk("p", 0, 0)
        if p.op != "p":
            return NotImplemented
        for k in reversed(range(n)):
            b = I.load1(st, p, k, 1, "i8")
            res = vg.ite(st.simp(vg.cmp("eq", a[1], b)), vg.mk("p", p.args[0], p.args[1] + k), res)
        return res
    r["memchr"] = memchr
    return r
