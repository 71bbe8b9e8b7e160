"""Abstract interpreter over the JSON form of LLVM IR written by tools/irdump.

Abstract values are gated value-graph nodes (vg.py).  Control flow is never
enumerated path by path: at a branch whose condition is not a constant both
sides are analysed up to the immediate post-dominator and their abstract states
are joined into if-gates.  Memory is a map of objects to typed cells with
concrete offsets; a pointer may itself be gated.
"""
import json
import sys
import struct
from fractions import Fraction
from . import vg, alg
from .vg import C, ZERO, ONE, NAN, UNDEF, NULL, mk, ite, Node

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class Module:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.funcs = {f["n"]: f for f in d["funcs"]}
        self.globals = {g["n"]: g for g in d["globals"]}


class Obj:
    __slots__ = ("size", "cells", "fill", "name", "ro", "dead", "kind")

    def __init__(self, size, name, kind, fill=None):
        self.size = size
        self.cells = {}
        self.fill = fill  # None: undefined;  node: value of every unset cell
        self.name = name
        self.kind = kind
        self.ro = False
        self.dead = False

    def copy(self):
        o = Obj(self.size, self.name, self.kind, self.fill)
        o.cells = dict(self.cells)
        o.ro = self.ro
        o.dead = self.dead
        return o


class State:
    """memory + the conditions known to hold here"""
    __slots__ = ("mem", "own", "known", "pc")

    def __init__(self):
        self.mem = {}
        self.own = set()
        self.known = {}
        self.pc = ONE

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.known = dict(self.known)
        s.pc = self.pc
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy()
            self.mem[oid] = o
            self.own.add(oid)
        return o

    def learn(self, c, truth):
        self.pc = vg.and_(self.pc, c if truth else vg.not_(c))
        self._learn(c, truth)

    def _learn(self, c, truth):
        if c.id in self.known:
            return
        self.known[c.id] = truth
        if c.op == "not":
            self._learn(c.args[0], not truth)
        elif c.op == "and" and truth:
            self._learn(c.args[0], True)
            self._learn(c.args[1], True)
        elif c.op == "or" and not truth:
            self._learn(c.args[0], False)
            self._learn(c.args[1], False)
        elif c.op == "ite":
            a, b, d = c.args
            if b.op == "c" and bool(b.args[0]) != truth:
                self._learn(a, False)
                self._learn(d, truth)
            elif d.op == "c" and bool(d.args[0]) != truth:
                self._learn(a, True)
                self._learn(b, truth)
            elif a.id in self.known:
                self._learn(b if self.known[a.id] else d, truth)
        elif c.op in ("lt", "le", "eq") and truth and Poly.on:
            Poly.learn(self, c)
        if c.op == "lt" and truth:
            a, b = c.args
            self._learn(vg.cmp("eq", a, b), False)
            self._learn(vg.cmp("lt", b, a), False)
            self._learn(vg.cmp("le", b, a), False)
            self._learn(vg.cmp("le", a, b), True)
        elif c.op == "eq" and truth:
            a, b = c.args
            self._learn(vg.cmp("lt", a, b), False)
            self._learn(vg.cmp("lt", b, a), False)

    def simp(self, n, depth=0):
        """reduce gates whose condition is known here"""
        k = self.known.get(n.id)
        if k is not None:
            return ONE if k else ZERO
        if n.op == "ite":
            c = self.simp(n.args[0])
            if c.op == "c":
                return self.simp(n.args[1] if c.args[0] else n.args[2])
            a, b = self.simp(n.args[1]), self.simp(n.args[2])
            return ite(c, a, b)
        if n.op == "not":
            return vg.not_(self.simp(n.args[0]))
        if n.op == "and":
            return vg.and_(self.simp(n.args[0]), self.simp(n.args[1]))
        if n.op == "or":
            return vg.or_(self.simp(n.args[0]), self.simp(n.args[1]))
        if n.op in ("lt", "le", "eq", "uno"):
            a, b = n.args
            a2, b2 = self.simp(a), self.simp(b)
            if a2 is not a or b2 is not b:
                n = vg.cmp(n.op, a2, b2)
                k = self.known.get(n.id)
                if k is not None:
                    return ONE if k else ZERO
            if Poly.on and n.op in ("lt", "le", "eq"):
                k = Poly.truth(self, n)
                if k is not None:
                    return ONE if k else ZERO
                if n.args[0].op == "ite" or n.args[1].op == "ite":
                    k = Poly.leaves(self, n)
                    if k is not None:
                        return ONE if k else ZERO
        return n


class Poly:
    """for obligations over finite inputs (option poly): comparisons decided by what is known of the sign of the
    same polynomial, however it is written"""
    on = False
    cache = {}
    ids = {}

    @classmethod
    def reset(cls, on):
        cls.on, cls.cache, cls.ids, cls.ctx = on, {}, {}, alg.Ctx()

    @classmethod
    def poly(cls, n):
        r = cls.cache.get(n.id)
        if r is None:
            r = cls.cache[n.id] = cls.poly1(n)
        return r

    @classmethod
    def poly1(cls, n):
        if n.op == "c":
            return alg.p_const(n.args[0])
        if n.op in ("add", "sub", "mul"):
            a, b = cls.poly(n.args[0]), cls.poly(n.args[1])
            if a is False or b is False or len(a) * len(b) > 60000:
                return False
            return alg.p_add(a, b) if n.op == "add" else alg.p_sub(a, b) if n.op == "sub" else cls.ctx.mul(a, b)
        if n.op == "neg":
            a = cls.poly(n.args[0])
            return a and alg.p_neg(a)
        if n.op == "var":
            return {((cls.ids.setdefault(n.id, len(cls.ids)), 1),): 1}
        return False

    @classmethod
    def leaves(cls, st, n):
        """the same answer for all alternatives of the operands?"""
        la, lb = ({v for _, v in vg.leaves(x)} for x in n.args)
        if len(la) * len(lb) > 64:
            return None
        res = None
        for a in la:
            for b in lb:
                r = vg.cmp(n.op, a, b)
                if r.op == "c":
                    k = bool(r.args[0])
                else:
                    k = st.known.get(r.id)
                    if k is None:
                        k = cls.truth(st, r) if r.op in ("lt", "le", "eq") else None
                if k is None or res is not None and k != res:
                    return None
                res = k
        return res

    @classmethod
    def key(cls, n):
        a, b = cls.poly(n.args[0]), cls.poly(n.args[1])
        if a is False or b is False:
            return None
        d = alg.p_sub(a, b)
        if not d:
            return 0, 0
        if alg.is_const(d):
            return 0, 1 if alg.const_val(d) > 0 else -1
        k, q = alg.primitive(d)
        return alg.freeze(q), 1 if k > 0 else -1

    @classmethod
    def learn(cls, st, n):
        k = cls.key(n)
        if k is None or k[0] == 0:
            return
        f, sg = k
        # (sign, strict)
        s = {"lt": -sg, "le": -2 * sg, "eq": 0}[n.op]
        o = st.known.get(("poly", f))
        if o is None or abs(o) == 2:
            if o is not None and o == -s:
                s = 0
            st.known[("poly", f)] = s

    @classmethod
    def truth(cls, st, n):
        k = cls.key(n)
        if k is None:
            return None
        f, sg = k
        if f == 0:
            s = sg
        else:
            s = st.known.get(("poly", f))
            if s is None:
                return None
            s *= sg
        if s in (1, -1, 0):
            return {"lt": s < 0, "le": s <= 0, "eq": s == 0}[n.op]
        if s == 2 and n.op == "lt":
            return False
        if s == -2 and n.op == "le":
            return True
        return None


class Term(Exception):
    pass


DEAD = object()
import os
DBG = os.environ.get("VP_DBG")

MATH1 = {"sqrt": "sqrt", "sqrtf": "sqrt", "sin": "sin", "sinf": "sin", "cos": "cos", "cosf": "cos", "tan": "tan",
         "tanf": "tan", "acos": "acos", "acosf": "acos", "asin": "asin", "asinf": "asin", "atan": "atan", "atanf": "atan",
         "cbrt": "cbrt", "cbrtf": "cbrt", "fabs": "fabs", "fabsf": "fabs", "floor": "floor", "floorf": "floor",
         "ceil": "ceil", "ceilf": "ceil", "trunc": "ftrunc", "truncf": "ftrunc", "round": "fround", "roundf": "fround",
         "exp": "exp", "log": "log", "llvm.sqrt": "sqrt", "llvm.fabs": "fabs", "llvm.floor": "floor", "llvm.ceil": "ceil",
         "llvm.trunc": "ftrunc", "llvm.round": "fround", "llvm.sin": "sin", "llvm.cos": "cos", "expf": "exp", "logf": "log",
         "rint": "rint", "nearbyint": "rint", "log2": "log2", "log10": "log10"}
MATH2 = {"pow": "pow", "powf": "pow", "llvm.pow": "pow", "fmod": "fmod", "fmodf": "fmod", "atan2": "atan2", "atan2f": "atan2",
         "hypot": "hypot", "hypotf": "hypot", "copysign": "copysign", "llvm.copysign": "copysign", "fmin": "fmin", "fmax": "fmax", "fminf": "fmin",
         "fmaxf": "fmax", "llvm.minnum": "fmin", "llvm.maxnum": "fmax"}


def parse_fp(s, t):
    if s == "nan":
        return NAN
    if s == "inf":
        return vg.PINF
    if s == "-inf":
        return vg.NINF
    x = float.fromhex(s)
    # a literal that is the rounding of a simple fraction of thirds stands for that fraction
    c = Fraction(x).limit_denominator(64)
    if c.denominator % 3 == 0 and c.denominator in (3, 6, 9, 12, 18, 24, 27, 36, 48, 54) and c != x:
        if float(c) == x or struct.unpack("f", struct.pack("f", float(c)))[0] == x:
            return C(c)
    return C(Fraction(x))


def wrap(v, bits):
    if bits == 1:
        return v & 1
    m = 1 << bits
    v %= m
    return v - m if v >= m >> 1 else v


class Interp:
    def __init__(self, mod, summaries=None, max_steps=3000000, max_sym_iter=80):
        self.m = mod
        self.summaries = summaries or {}
        self.steps = 0
        self.max_steps = max_steps
        self.max_sym_iter = max_sym_iter
        self.nobj = 1
        self.events = []  # (kind, pc, where, detail)
        self.fseen = {}
        self.stack = []
        self.globobj = {}
        self.pre = ONE
        self.loopcount = {}
        self.line = 0
        self.base = State()
        self.instrs = 0
        self.trace_ext = None

    # -- helpers -----------------------------------------------------------
    def where(self):
        for fn, ln in reversed(self.stack):
            f = self.m.funcs[fn]
            if "/repo/" in f.get("file", "") or "vecmath" in f.get("file", ""):
                return f"{f.get('file')}:{ln or f.get('line')} in {f['d'][:160]}"
        if self.stack:
            fn, ln = self.stack[-1]
            f = self.m.funcs[fn]
            return f"{f.get('file', '?')}:{ln} in {f['d'][:160]}"
        return "?"

    def event(self, st, kind, detail=""):
        self.events.append((kind, st.pc, self.where(), detail))

    def event_out(self, st, kind, detail, v, lo, hi):
        """v does not fit into lo..hi (after truncation)"""
        ok = vg.and_(vg.cmp("lt", C(lo - 1), v), vg.cmp("lt", v, C(hi + 1)))
        s2 = st.fork()
        s2.pc = vg.and_(s2.pc, vg.not_(ok))
        self.event(s2, kind, detail)

    def new_obj(self, st, size, name, kind, fill=None):
        oid = self.nobj
        self.nobj += 1
        o = Obj(size, name, kind, fill)
        st.mem[oid] = o
        st.own.add(oid)
        return oid

    # -- memory ------------------------------------------------------------
    def ptr_leaves(self, st, p):
        p = st.simp(p)
        if p.op == "p":
            return [((), p)]
        if p.op == "ite":
            ls = vg.leaves(p)
            if len(ls) > 24:
                vals = []
                for _, v in ls:
                    if v not in vals:
                        vals.append(v)
                if len(vals) <= 16 and all(v.op == "p" for v in vals):
                    path, ls = (), []
                    for v in vals[:-1]:
                        c = vg.cmp("eq", p, v)
                        ls.append((path + ((c, True),), v))
                        path = path + ((c, False),)
                    ls.append((path, vals[-1]))
            return ls
        if p is UNDEF:
            raise Term("undef pointer")
        raise Unsupported("symbolic pointer " + vg.show(p, 3))

    def load_scalar(self, st, p, off, size, ty):
        ls = self.ptr_leaves(st, p)
        if len(ls) > 64:
            raise Unsupported("pointer with too many targets")
        res = None
        # build from last to first
        vals = []
        for path, leaf in ls:
            sub = st
            if path:
                sub = st.fork()
                for c, t in path:
                    sub.learn(c, t)
            vals.append((path, self.load1(sub, leaf, off, size, ty)))
        return self.join_leaves(vals)

    def join_leaves(self, vals):
        if len(vals) == 1:
            return vals[0][1]
        # rebuild the if-tree from the paths
        c = vals[0][0][0][0]
        yes = [(p[1:], v) for p, v in vals if p[0] == (c, True)]
        no = [(p[1:], v) for p, v in vals if p[0] == (c, False)]
        return ite(c, self.join_leaves(yes), self.join_leaves(no))

    def load1(self, st, p, off, size, ty):
        if p.op != "p":
            if p is UNDEF:
                self.event(st, "undef-pointer", "load through an undefined pointer")
                return UNDEF
            raise Unsupported("load from " + vg.show(p, 2))
        oid, o = p.args[0], p.args[1] + off
        ob = st.mem.get(oid)
        if oid == 0 or ob is None:
            if oid in self.base.mem:
                ob = self.base.mem[oid]
            else:
                self.event(st, "null-deref", "load through a null or dangling pointer")
                return UNDEF
        if o < 0 or o + size > ob.size:
            self.event(st, "oob-read", f"{size} bytes at offset {o} of {ob.name} ({ob.size} bytes)")
            return UNDEF
        if ob.dead:
            self.event(st, "use-after-free", f"load from {ob.name}")
            return UNDEF
        if ob.kind == "mutglobal":
            self.event(st, "global-read", ob.name)
        c = ob.cells.get(o)
        if c is not None and c[0] == size:
            v = c[1]
            return self.retype(v, ty)
        if c is not None and c[0] > size:
            return self.subcell(c[1], c[0], 0, size, ty)
        # covering larger cell
        for co, (cs, cv) in ob.cells.items():
            if co < o < co + cs:
                return self.subcell(cv, cs, o - co, size, ty)
        parts = [(co - o, cs, cv) for co, (cs, cv) in ob.cells.items() if o <= co < o + size]
        if not parts:
            return ob.fill if ob.fill is not None else UNDEF
        parts.sort(key=lambda x: x[0])
        cov = sum(x[1] for x in parts)
        if all(x[2].op == "c" and isinstance(x[2].args[0], int) and -(1 << 8 * x[1] - 1) <= x[2].args[0] < (1 << 8 * x[1]) for x in parts) and cov == size:
            v = 0
            for po, ps, pv in parts:
                v |= (pv.args[0] & ((1 << (8 * ps)) - 1)) << (8 * po)
            return C(wrap(v, 8 * size))
        if any(x[0] + x[1] > size for x in parts):
            return mk("opaque", "partial-load")
        return mk("bytes", size, tuple((a, b) for a, b, _ in parts), *[x[2] for x in parts])

    def retype(self, v, ty):
        return v

    def subcell(self, v, cs, rel, size, ty):
        if v.op == "bytes":
            lay = v.args[1]
            for (po, ps), pv in zip(lay, v.args[2:]):
                if po == rel and ps == size:
                    return pv
            sel = [(po - rel, ps, pv) for (po, ps), pv in zip(lay, v.args[2:]) if rel <= po and po + ps <= rel + size]
            return mk("bytes", size, tuple((a, b) for a, b, _ in sel), *[x[2] for x in sel])
        if v.op == "c" and isinstance(v.args[0], int):
            return C(wrap((v.args[0] >> (8 * rel)) & ((1 << 8 * size) - 1), 8 * size))
        if v is UNDEF:
            return UNDEF
        if v.op == "ite":
            return ite(v.args[0], self.subcell(v.args[1], cs, rel, size, ty), self.subcell(v.args[2], cs, rel, size, ty))
        if v.op == "zextb" and rel == 0:
            return v.args[0]
        return mk("opaque", "subcell")

    def store_scalar(self, st, p, off, size, v):
        ls = self.ptr_leaves(st, p)
        if len(ls) == 1:
            self.store1(st, ls[0][1], off, size, v, None)
            return
        if len(ls) > 64:
            raise Unsupported("pointer with too many targets")
        by = {}
        for path, leaf in ls:
            cond = ONE
            for c, t in path:
                cond = vg.and_(cond, c if t else vg.not_(c))
            by[leaf] = vg.or_(by[leaf], cond) if leaf in by else cond
        for leaf, cond in by.items():
            self.store1(st, leaf, off, size, v, cond)

    def store1(self, st, p, off, size, v, cond):
        if p.op != "p":
            if p is UNDEF:
                self.event(st, "undef-pointer", "store through an undefined pointer")
                return
            raise Unsupported("store to " + vg.show(p, 2))
        oid, o = p.args[0], p.args[1] + off

        def ev(kind, detail):
            s2 = st
            if cond is not None:
                s2 = st.fork()
                s2.pc = vg.and_(s2.pc, cond)
            self.event(s2, kind, detail)
        if oid == 0 or oid not in st.mem:
            if oid in self.base.mem:
                b = self.base.mem[oid]
                ev("const-write" if b.ro else "global-write", b.name)
                return
            ev("null-deref", "store")
            return
        ob = st.wobj(oid)
        if o < 0 or o + size > ob.size:
            ev("oob-write", f"{size} bytes at offset {o} of {ob.name} ({ob.size} bytes)")
            return
        if ob.dead:
            ev("use-after-free", f"store to {ob.name}")
            return
        if ob.ro:
            ev("const-write", ob.name)
        if ob.kind == "mutglobal":
            ev("global-write", ob.name)
        if cond is not None:
            old = self.load1(st, p, off, size, None)
            v = ite(cond, v, old)
        self.setcell(ob, o, size, v)

    def setcell(self, ob, o, size, v):
        cells = ob.cells
        c = cells.get(o)
        if c is None or c[0] != size:
            for co in [k for k, (cs, _) in cells.items() if k < o + size and o < k + cs]:
                cs, cv = cells.pop(co)
                if co < o or co + cs > o + size:
                    # partially overwritten cell: split it
                    if cv.op == "c" and isinstance(cv.args[0], int):
                        b = 0
                        while b < cs:
                            if o <= co + b < o + size:
                                b += 1
                                continue
                            for w in (8, 4, 2, 1):
                                if (co + b) % w == 0 and b + w <= cs and not (co + b < o + size and o < co + b + w):
                                    break
                            cells[co + b] = (w, C(wrap((cv.args[0] >> (8 * b)) & ((1 << 8 * w) - 1), 8 * w)))
                            b += w
                    elif cv.op == "bytes":
                        for (po, ps), pv in zip(cv.args[1], cv.args[2:]):
                            if co + po + ps <= o or co + po >= o + size:
                                cells[co + po] = (ps, pv)
                    elif cv is UNDEF:
                        pass
                    else:
                        raise Unsupported("partial overwrite of a symbolic cell")
        if v.op == "bytes" and v.args[0] == size:
            cells.pop(o, None)
            for (po, ps), pv in zip(v.args[1], v.args[2:]):
                cells[o + po] = (ps, pv)
            return
        cells[o] = (size, v)

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        dl = self.ptr_leaves(st, d)
        sl = self.ptr_leaves(st, s)
        if len(sl) > 1:
            # gated source: gate cell by cell over the union of layouts
            lay = set()
            for path, leaf in sl:
                ob = self.obj(st, leaf)
                if ob is None:
                    raise Unsupported("memcpy source")
                o = leaf.args[1]
                lay |= {(co - o, cs) for co, (cs, _) in ob.cells.items() if o <= co < o + n}
            for rel, cs in sorted(lay):
                v = self.load_scalar(st, s, rel, cs, None)
                self.store_scalar(st, d, rel, cs, v)
            return
        leaf = sl[0][1]
        ob = self.obj(st, leaf)
        if ob is None:
            self.event(st, "null-deref", "memcpy source")
            return
        o = leaf.args[1]
        if o < 0 or o + n > ob.size:
            self.event(st, "oob-read", f"copy of {n} bytes at offset {o} of {ob.name} ({ob.size} bytes)")
            n = max(0, min(n, ob.size - o))
        parts = [(co - o, cs, cv) for co, (cs, cv) in ob.cells.items() if o <= co and co + cs <= o + n]
        if not parts and ob.cells and n <= 8:
            v = self.load1(st, leaf, 0, n, None)
            parts = [(0, n, v)]
        if len(dl) == 1 and dl[0][1].op == "p":
            dleaf = dl[0][1]
            did = dleaf.args[0]
            if did == 0 or did not in st.mem:
                b = self.base.mem.get(did)
                self.event(st, "global-write" if b else "null-deref", b.name if b else "memcpy destination")
                return
            dob = st.wobj(did)
            do = dleaf.args[1]
            if do < 0 or do + n > dob.size:
                self.event(st, "oob-write", f"copy of {n} bytes to offset {do} of {dob.name} ({dob.size} bytes)")
                return
            if dob.ro:
                self.event(st, "const-write", dob.name)
            if dob.kind == "mutglobal":
                self.event(st, "global-write", dob.name)
            # clear destination range
            for co in [k for k, (cs, _) in dob.cells.items() if do <= k and k + cs <= do + n]:
                del dob.cells[co]
            if ob.fill is not None:
                # materialise filled gaps bytewise only when small
                have = set()
                for ro, cs, _ in parts:
                    have.update(range(ro, ro + cs))
                r = 0
                while r < n:
                    if r in have:
                        r += 1
                        continue
                    for w in (8, 4, 2, 1):
                        if r + w <= n and (do + r) % w == 0 and not any(q in have for q in range(r, r + w)):
                            break
                    parts.append((r, w, ob.fill))
                    r += w
            for ro, cs, cv in parts:
                self.setcell(dob, do + ro, cs, cv)
        else:
            for ro, cs, cv in parts:
                self.store_scalar(st, d, ro, cs, cv)

    def obj(self, st, leaf):
        if leaf.op != "p":
            return None
        return st.mem.get(leaf.args[0]) or self.base.mem.get(leaf.args[0])

    def memset(self, st, d, val, n):
        ls = self.ptr_leaves(st, d)
        if len(ls) != 1 or ls[0][1].op != "p":
            raise Unsupported("memset through gated pointer")
        leaf = ls[0][1]
        oid = leaf.args[0]
        if oid not in st.mem:
            raise Unsupported("memset target")
        ob = st.wobj(oid)
        o = leaf.args[1]
        if o < 0 or o + n > ob.size:
            self.event(st, "oob-write", f"memset of {n} bytes at offset {o} of {ob.name}")
            return
        v = st.simp(val)
        r = 0
        while r < n:
            for w in (8, 4, 2, 1):
                if r + w <= n and (o + r) % w == 0:
                    break
            if v.op == "c":
                b = int(v.args[0]) & 255
                x = wrap(int.from_bytes(bytes([b] * w), "little"), 8 * w)
                self.setcell(ob, o + r, w, C(x))
            else:
                raise Unsupported("symbolic memset")
            r += w

    # -- typed load/store ---------------------------------------------------
    def load(self, st, p, ty):
        if isinstance(ty, str):
            return self.load_scalar(st, p, 0, tsize(ty), ty)
        return tuple(self.load_scalar(st, p, o, s, t) for o, s, t in ty["agg"])

    def store(self, st, p, v, ty):
        if isinstance(ty, str):
            self.store_scalar(st, p, 0, tsize(ty), v)
        else:
            for (o, s, t), x in zip(ty["agg"], v):
                self.store_scalar(st, p, o, s, x)

    # -- operands ----------------------------------------------------------
    def opnd(self, st, env, o):
        if isinstance(o, int):
            return env[o]
        k = o["k"]
        if k == "int":
            return C(int(o["v"])) if o["t"] != "i1" else C(int(o["v"]) & 1)
        if k == "fp":
            return parse_fp(o["v"], o["t"])
        if k == "null":
            return NULL
        if k == "undef":
            t = o["t"]
            return UNDEF if isinstance(t, str) else tuple(UNDEF for _ in t["agg"])
        if k == "g":
            return self.glob(o["n"])
        if k == "gep":
            return self.gep(st, env, o)
        if k == "zero":
            t = o["t"]
            return ZERO if isinstance(t, str) else tuple((NULL if x[2] == "p" else ZERO) for x in t["agg"])
        if k == "agg":
            r = []
            for e in o["e"]:
                v = self.opnd(st, env, e)
                if isinstance(v, tuple):
                    r.extend(v)
                else:
                    r.append(v)
            return tuple(r)
        if k == "ce":
            a = [self.opnd(st, env, x) for x in o["a"]]
            if o["op"] == "ptrtoint":
                return mk("p2i", a[0]) if a[0].op == "p" else UNDEF
            if o["op"] in ("bitcast", "inttoptr"):
                return a[0]
            if o["op"] == "sub":
                return vg.sub(a[0], a[1])
        raise Unsupported("operand " + str(o)[:80])

    def gep(self, st, env, g):
        p = self.opnd(st, env, g["p"])
        off = g["o"]
        for v, scale in g["v"]:
            x = self.opnd(st, env, v)
            x = st.simp(x)
            if x.op == "c":
                off += x.args[0] * scale
            else:
                p = self.ptradd(st, p, vg.mul(x, C(scale)))
        return self.ptradd(st, p, C(off)) if off else p

    def ptradd(self, st, p, d):
        def f(p, d):
            if p.op == "p" and d.op == "c":
                return mk("p", p.args[0], p.args[1] + d.args[0])
            if p is UNDEF or d is UNDEF:
                return UNDEF
            raise Unsupported("pointer arithmetic with " + vg.show(d, 3))
        if not d.cl:
            d = st.simp(d)
            if not d.cl:
                d = self.push_consts(d)
                if not d.cl:
                    return self.gated_add(st.simp(p), d, 1, f)
        return vg.lift2(f, st.simp(p), d)

    def gated_add(self, p, d, k, f):
        """p + k*d where d mixes constants, truth values and gates"""
        if d.op == "c":
            return vg.lift2(f, p, C(d.args[0] * k))
        if d.op == "ite":
            return ite(d.args[0], self.gated_add(p, d.args[1], k, f), self.gated_add(p, d.args[2], k, f))
        if vg.isbool(d):
            return ite(d, vg.lift2(f, p, C(k)), p)
        if d.op == "mul":
            a, b = d.args
            if a.op == "c":
                a, b = b, a
            if b.op == "c":
                return self.gated_add(p, a, k * b.args[0], f)
        if d.op in ("add", "sub"):
            return self.gated_add(self.gated_add(p, d.args[0], k, f), d.args[1], k if d.op == "add" else -k, f)
        if d is UNDEF:
            return UNDEF
        raise Unsupported("pointer arithmetic with " + vg.show(d, 3))

    def push_consts(self, d):
        """normalise linear integer arithmetic over if-trees of constants"""
        if d.op in ("add", "sub", "mul"):
            a, b = self.push_consts(d.args[0]), self.push_consts(d.args[1])
            return {"add": vg.add, "sub": vg.sub, "mul": vg.mul}[d.op](a, b)
        return d

    def glob(self, name):
        if name in self.m.funcs:
            return mk("fn", name)
        if name in self.globobj:
            return mk("p", self.globobj[name], 0)
        g = self.m.globals[name]
        oid = self.nobj
        self.nobj += 1
        self.globobj[name] = oid
        o = Obj(g["size"], "global " + g["d"], "global" if g["const"] else "mutglobal")
        o.ro = g["const"]
        self.base.mem[oid] = o
        if "init" in g:
            v = self.opnd(self.base, {}, g["init"])
            t = g["t"]
            if isinstance(t, str):
                o.cells[0] = (tsize(t), v)
            else:
                for (off, s, ty), x in zip(t["agg"], v):
                    o.cells[off] = (s, x)
        elif g["decl"]:
            o.fill = mk("opaque", name)
            o.size = max(o.size, 1 << 20)
        return mk("p", oid, 0)

    # -- function calls ----------------------------------------------------
    def run(self, fname, args, st):
        f = self.m.funcs.get(fname)
        if f is None:
            raise Unsupported("no function " + fname)
        return self.call_fn(fname, args, st)

    def recursive(self, f):
        r = f.get("rec")
        if r is None:
            r = any(I["op"] in ("call", "invoke") and I.get("callee") == f["n"] for b in f["blocks"] for I in b["i"])
            f["rec"] = r
        return r

    def partition(self, fname, f, args, st):
        """a recursive function called with a pointer that is one of several: analyse it once per target"""
        for i, a in enumerate(args):
            if a is None or isinstance(a, tuple):
                continue
            a = st.simp(a)
            if a.op == "ite":
                vals = []
                for _, leaf in vg.leaves(a):
                    if leaf not in vals:
                        vals.append(leaf)
                if not all(v.op == "p" for v in vals) or len(vals) > 12:
                    continue
                out = None
                for k, v in enumerate(vals):
                    c = vg.cmp("eq", a, v)
                    c = st.simp(c)
                    if c is ZERO or (c.op == "c" and not c.args[0]):
                        continue
                    if len(self.stack) > 2 and self.infeasible(st, c, True):
                        continue
                    s2 = st.fork()
                    if c.op != "c":
                        s2.learn(c, True)
                    na = list(args)
                    na[i] = v
                    r = self.call_fn(fname, na, s2)
                    if r is DEAD:
                        continue
                    if out is None:
                        out = (r[0], r[1])
                    else:
                        out = (self.merge_state(st, c, r[0], out[0]), self.merge_val(c, r[1], out[1]))
                return DEAD if out is None else out
        return None

    def call_fn(self, fname, args, st):
        f = self.m.funcs[fname]
        if len(self.stack) > 200:
            raise Unsupported("recursion too deep")
        if self.recursive(f) or "std::_V2::rotate<" in f["d"] or "std::rotate<" in f["d"]:
            r = self.partition(fname, f, args, st)
            if r is not None:
                return r
        self.fseen[fname] = self.fseen.get(fname, 0) + 1
        self.stack.append([fname, 0])
        try:
            env = {}
            for i, (p, a) in enumerate(zip(f["params"], args)):
                env[i] = a
            lo = self.nobj
            r = self.region(f, 0, -1, st, env, None)
            if r is DEAD:
                return DEAD
            st2, rv = r
            for oid in [k for k, o in st2.mem.items() if k >= lo and o.kind == "stack"]:
                del st2.mem[oid]
                st2.own.discard(oid)
            return st2, rv
        finally:
            self.stack.pop()

    # region: analyse from block b (entered from prev) until block `stop`
    # (exclusive) or the function's exit.  Returns DEAD, or (state, env) when
    # stop is a block (with stop's phis already evaluated), or (state, retval).
    def region(self, f, b, prev, st, env, stop, first_phis=True):
        blocks = f["blocks"]
        while True:
            blk = blocks[b]
            ins = blk["i"]
            # phis
            if first_phis:
                self.phis(st, env, ins, prev)
            if b == stop:
                return st, env
            first_phis = True
            self.steps += 1
            for I in ins:
                op = I["op"]
                if op == "phi":
                    continue
                self.steps += 1
                self.instrs += 1
                if self.steps > self.max_steps:
                    raise Unsupported("step budget exhausted")
                if "l" in I:
                    self.stack[-1][1] = I["l"]
                if op == "br":
                    succ = I["succ"]
                    if len(succ) == 1 or succ[0] == succ[1]:
                        prev, b = b, succ[0]
                        break
                    c = st.simp(self.opnd(st, env, I["a"][0]))
                    if c is UNDEF:
                        self.event(st, "undef-branch", "branch on an undefined value")
                        return DEAD
                    if c.op == "c":
                        prev, b = b, succ[0] if c.args[0] else succ[1]
                        break
                    if DBG:
                        print("SPLIT", vg.show(c, 6)[:300], self.where()[-200:])
                    r = self.split(f, b, st, env, [(c, True, succ[0]), (c, False, succ[1])], blk["ipdom"], stop)
                    if r is DEAD:
                        return DEAD
                    st, env2, at = r
                    if at is None:
                        return st, env2  # returned
                    env = env2
                    if at == stop:
                        return st, env
                    prev, b = None, at
                    first_phis = False
                    break
                if op == "switch":
                    c = st.simp(self.opnd(st, env, I["a"][0]))
                    if c is UNDEF:
                        self.event(st, "undef-branch", "switch on an undefined value")
                        return DEAD
                    if c.op == "c":
                        t = I["default"]
                        for v, tb in I["cases"]:
                            if v == c.args[0]:
                                t = tb
                        prev, b = b, t
                        break
                    # chain of equality tests
                    r = self.switch_split(f, b, st, env, c, list(I["cases"]), I["default"], blk["ipdom"], stop)
                    if r is DEAD:
                        return DEAD
                    st, env2, at = r
                    if at is None:
                        return st, env2
                    env = env2
                    if at == stop:
                        return st, env
                    prev, b = None, at
                    first_phis = False
                    break
                if op == "ret":
                    a = I["a"]
                    return st, (self.opnd(st, env, a[0]) if a else None)
                if op == "unreachable":
                    return DEAD
                if op == "invoke":
                    r = self.do_call(st, env, I)
                    if r is DEAD:
                        return DEAD
                    st = r
                    prev, b = b, I["succ"][0]
                    break
                if op == "resume":
                    return DEAD
                r = self.instr(st, env, I, op)
                if r is DEAD:
                    return DEAD
                if r is not None:
                    st = r
            else:
                raise Unsupported("block without terminator")

    def phis(self, st, env, ins, prev):
        new = []
        for I in ins:
            if I["op"] != "phi":
                break
            for pb, v in I["a"]:
                if pb == prev:
                    new.append((I["id"], self.opnd(st, env, v)))
                    break
            else:
                raise Unsupported("phi without edge")
        for i, v in new:
            env[i] = v

    def split(self, f, b, st, env, arms, ipdom, stop):
        """analyse both arms of a branch up to the join and gate the results"""
        key = (f["n"], b, len(self.stack))
        cnt = self.loopcount.get(key, 0) + 1
        if cnt > self.max_sym_iter:
            raise Unsupported(f"loop in {f['d'][:100]} whose exit is not decided within {self.max_sym_iter} iterations")
        self.loopcount[key] = cnt
        depth = len(self.stack)
        try:
            target = ipdom if ipdom >= 0 else None
            if stop is not None and target is None:
                target = None
            res = []
            for c, truth, succ in arms:
                if cnt >= 3 and self.infeasible(st, c, truth):
                    res.append((c, truth, DEAD))
                    continue
                s2 = st.fork()
                s2.learn(c, truth)
                e2 = dict(env)
                r = self.arm(f, succ, b, s2, e2, target, stop)
                res.append((c, truth, r))
            (c, _, r1), (_, _, r2) = res
            if r1 is DEAD and r2 is DEAD:
                return DEAD
            if r1 is DEAD:
                return self.keep(r2, st, c, False)
            if r2 is DEAD:
                return self.keep(r1, st, c, True)
            s1, e1, at1 = r1
            s2, e2, at2 = r2
            if at1 != at2:
                raise Unsupported("arms join at different blocks")
            s = self.merge_state(st, c, s1, s2)
            if at1 is None:
                return s, self.merge_val(c, e1, e2), None
            e = {}
            for k, v in e1.items():
                w = e2.get(k)
                if w is None:
                    continue
                e[k] = v if v is w else self.merge_val(c, v, w)
            return s, e, at1
        finally:
            self.loopcount[key] = cnt - 1

    def infeasible(self, st, c, truth):
        """inside a loop: can this arm be taken at all?  (polyhedral emptiness test)"""
        from . import decide
        cond = vg.and_(st.pc, c if truth else vg.not_(c))
        try:
            return decide.satisfiable(self.pre, cond, time_limit=3.0, max_cells=300, members=False)[0] == "no"
        except (RecursionError, AttributeError, KeyError):
            return False

    def keep(self, r, st, c, truth):
        # the other arm does not return (it throws or is undefined)
        return r

    def arm(self, f, succ, prev, st, env, target, stop):
        # run to target (ipdom) or to function exit
        r = self.region(f, succ, prev, st, env, target)
        if r is DEAD:
            return DEAD
        s, e = r
        if target is None:
            return s, e, None
        # region returns either at `target` (env dict) or by `ret` -- ret inside
        # a region with a real ipdom cannot happen (ipdom post-dominates)
        return s, e, target

    def switch_split(self, f, b, st, env, c, cases, default, ipdom, stop):
        if not cases:
            r = self.arm(f, default, b, st, env, ipdom if ipdom >= 0 else None, stop)
            return r
        v, tb = cases[0]
        cond = st.simp(vg.cmp("eq", c, C(v)))
        if cond.op == "c":
            if cond.args[0]:
                return self.arm(f, tb, b, st, env, ipdom if ipdom >= 0 else None, stop)
            return self.switch_split(f, b, st, env, c, cases[1:], default, ipdom, stop)
        s1 = st.fork()
        s1.learn(cond, True)
        r1 = self.arm(f, tb, b, s1, dict(env), ipdom if ipdom >= 0 else None, stop)
        s2 = st.fork()
        s2.learn(cond, False)
        r2 = self.switch_split(f, b, s2, dict(env), c, cases[1:], default, ipdom, stop)
        if r1 is DEAD:
            return r2
        if r2 is DEAD:
            return r1
        s = self.merge_state(st, cond, r1[0], r2[0])
        if r1[2] is None:
            return s, self.merge_val(cond, r1[1], r2[1]), None
        e = {}
        for k, v in r1[1].items():
            w = r2[1].get(k)
            if w is not None:
                e[k] = v if v is w else self.merge_val(cond, v, w)
        return s, e, r1[2]

    def merge_val(self, c, a, b):
        if a is None or b is None:
            return None
        if isinstance(a, tuple):
            return tuple(x if x is y else ite(c, x, y) for x, y in zip(a, b))
        return ite(c, a, b)

    def merge_state(self, st, c, s1, s2):
        s = State()
        s.known = st.known
        s.pc = st.pc
        for oid, o1 in s1.mem.items():
            o2 = s2.mem.get(oid)
            if o2 is None or o1 is o2:
                s.mem[oid] = o1
                continue
            o = Obj(o1.size, o1.name, o1.kind, o1.fill)
            o.ro = o1.ro
            o.dead = o1.dead or o2.dead
            o.cells = self.merge_cells(c, o1, o2)
            s.mem[oid] = o
        for oid, o2 in s2.mem.items():
            if oid not in s1.mem:
                s.mem[oid] = o2
        return s

    def merge_cells(self, c, o1, o2):
        out = {}
        a, b = o1.cells, o2.cells
        for off in set(a) | set(b):
            x, y = a.get(off), b.get(off)
            if x is not None and y is not None and x[0] == y[0]:
                out[off] = x if x[1] is y[1] else (x[0], ite(c, x[1], y[1]))
            elif x is None:
                if self.overlaps(a, off, y[0]):
                    out.update(self.mixed(c, o1, o2, off, y[0]))
                else:
                    fv = o1.fill if o1.fill is not None else UNDEF
                    out[off] = (y[0], ite(c, fv, y[1]))
            elif y is None:
                if self.overlaps(b, off, x[0]):
                    out.update(self.mixed(c, o1, o2, off, x[0]))
                else:
                    fv = o2.fill if o2.fill is not None else UNDEF
                    out[off] = (x[0], ite(c, x[1], fv))
            else:
                out.update(self.mixed(c, o1, o2, off, max(x[0], y[0])))
        return out

    def overlaps(self, cells, off, size):
        return any(k < off + size and off < k + cs for k, (cs, _) in cells.items())

    def mixed(self, c, o1, o2, off, size):
        # different cell layouts on the two sides; split constants into bytes of
        # the finer layout where possible
        def part(o, off, s):
            t = State()
            t.mem[1] = o
            return self.load1(t, mk("p", 1, 0), off, s, None)
        fine = set()
        for cells in (o1.cells, o2.cells):
            for k, (cs, _) in cells.items():
                if k < off + size and off < k + cs:
                    fine.add((k, cs))
        lo = min(k for k, _ in fine)
        minimal = [x for x in fine if not any(y != x and x[0] <= y[0] and y[0] + y[1] <= x[0] + x[1] for y in fine)]
        out = {}
        for k, cs in minimal:
            v1, v2 = part(o1, k, cs), part(o2, k, cs)
            out[k] = (cs, ite(c, v1, v2))
        return out

    # -- instructions ------------------------------------------------------
    def instr(self, st, env, I, op):
        a = I["a"]
        if op == "alloca":
            n = 1
            cnt = self.opnd(st, env, a[0]) if a else ONE
            if cnt.op != "c":
                raise Unsupported("variable-length alloca")
            env[I["id"]] = mk("p", self.new_obj(st, I["size"] * cnt.args[0], "local " + I.get("name", "temporary") + " of " + self.m.funcs[self.stack[-1][0]]["d"][:80], "stack"), 0)
            return
        if op == "load":
            p = self.opnd(st, env, a[0])
            env[I["id"]] = self.load(st, p, I["t"])
            return
        if op == "store":
            v = self.opnd(st, env, a[0])
            p = self.opnd(st, env, a[1])
            self.store(st, p, v, I["st"])
            return
        if op == "getelementptr":
            env[I["id"]] = self.gep(st, env, I["gep"])
            return
        if op == "call":
            return self.do_call(st, env, I)
        if op in ("bitcast", "freeze", "addrspacecast"):
            v = self.opnd(st, env, a[0])
            if op == "bitcast" and I["ot"] != I["t"]:
                v = self.bitcast(v, I["ot"], I["t"])
            env[I["id"]] = v
            return
        if op == "select":
            c = self.opnd(st, env, a[0])
            x, y = self.opnd(st, env, a[1]), self.opnd(st, env, a[2])
            env[I["id"]] = self.merge_val(c, x, y) if not isinstance(c, tuple) else tuple(ite(k, p, q) for k, p, q in zip(c, x, y))
            return
        if op == "extractvalue":
            v = self.opnd(st, env, a[0])
            s, n = I["leaf"]
            env[I["id"]] = v[s] if isinstance(I["t"], str) else v[s:s + n]
            return
        if op == "insertvalue":
            v = self.opnd(st, env, a[0])
            x = self.opnd(st, env, a[1])
            s, n = I["leaf"]
            xs = x if isinstance(x, tuple) else (x,)
            env[I["id"]] = v[:s] + xs + v[s + n:]
            return
        if op == "extractelement":
            v = self.opnd(st, env, a[0])
            i = self.opnd(st, env, a[1])
            env[I["id"]] = v[i.args[0]]
            return
        if op == "insertelement":
            v = self.opnd(st, env, a[0])
            x = self.opnd(st, env, a[1])
            i = self.opnd(st, env, a[2]).args[0]
            env[I["id"]] = v[:i] + (x,) + v[i + 1:]
            return
        if op == "shufflevector":
            v = self.opnd(st, env, a[0]) + self.opnd(st, env, a[1])
            env[I["id"]] = tuple(v[m] if m >= 0 else UNDEF for m in I["mask"])
            return
        vs = [self.opnd(st, env, x) for x in a]
        if any(isinstance(v, tuple) for v in vs):
            ty = I["t"]["agg"][0][2]
            out = []
            for i in range(len(vs[0])):
                J = dict(I)
                J["t"] = ty if op not in ("icmp", "fcmp") else "i1"
                if "ot" in I and not isinstance(I["ot"], str):
                    J["ot"] = I["ot"]["agg"][0][2]
                out.append(self.scalar(st, J, op, [v[i] for v in vs]))
            env[I["id"]] = tuple(out)
            return
        env[I["id"]] = self.scalar(st, I, op, vs)

    def bitcast(self, v, ot, t):
        if isinstance(ot, str) and isinstance(t, str):
            if v.op == "c" and v.args[0] == 0:
                return v
            if v.op in ("bytes", "undef") or ot[0] == t[0] or {ot[0], t[0]} <= {"f"}:
                return v
            if v.op == "b2" and v.args[0] == t:
                return v.args[2]
            return mk("b2", ot, t, v)
        if isinstance(ot, dict) and isinstance(t, str):
            lay = tuple((o, s) for o, s, _ in ot["agg"])
            return mk("bytes", sum(s for _, s in lay), lay, *v)
        if isinstance(ot, str):
            if v.op == "bytes":
                d = {(o, s): x for (o, s), x in zip(v.args[1], v.args[2:])}
                return tuple(d.get((o, s), UNDEF) for o, s, _ in t["agg"])
            if v.op == "c" and v.args[0] == 0:
                return tuple(ZERO for _ in t["agg"])
            if v is UNDEF:
                return tuple(UNDEF for _ in t["agg"])
        elif len(ot["agg"]) == len(t["agg"]):
            return v
        raise Unsupported("bitcast")

    def scalar(self, st, I, op, v):
        t = I.get("t")
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            return {"fadd": vg.add, "fsub": vg.sub, "fmul": vg.mul, "fdiv": vg.div}[op](v[0], v[1])
        if op == "fneg":
            return vg.neg(v[0])
        if op == "frem":
            return vg.call("fmod", v[0], v[1])
        if op == "fcmp":
            return vg.fcmp(I["pred"], v[0], v[1])
        if op in ("add", "sub", "mul"):
            bits = int(t[1:])
            if v[0].cl and v[1].cl:
                def f(x, y):
                    if x.op == "c" and y.op == "c":
                        p, q = x.args[0], y.args[0]
                        r = p + q if op == "add" else p - q if op == "sub" else p * q
                        return C(wrap(r, bits))
                    return {"add": vg.add, "sub": vg.sub, "mul": vg.mul}[op](x, y)
                return vg.lift2(f, v[0], v[1])
            return {"add": vg.add, "sub": vg.sub, "mul": vg.mul}[op](v[0], v[1])
        if op in ("sdiv", "udiv", "srem", "urem"):
            if v[1].op == "c" and v[1].args[0] == 0:
                self.event(st, "div-by-zero", "integer division")
                return UNDEF
            if v[0].cl and v[1].cl and op[0] == "u":
                bits = int(t[1:])
                m = (1 << bits) - 1

                def f(x, y):
                    if x.op == "c" and y.op == "c" and y.args[0]:
                        p, q = x.args[0] & m, y.args[0] & m
                        return C(wrap(p // q if op == "udiv" else p % q, bits))
                    return mk(op, x, y)
                return vg.lift2(f, v[0], v[1])
            # p2i differences divided exactly
            if v[1].op != "c":
                self.events.append(("maybe-div-by-zero", vg.and_(st.pc, vg.cmp("eq", v[1], ZERO)), self.where(), "integer division"))
            return vg.idiv(v[0], v[1]) if op in ("sdiv", "udiv") else vg.irem(v[0], v[1])
        if op in ("and", "or", "xor"):
            if t == "i1":
                return {"and": vg.and_, "or": vg.or_, "xor": vg.xor_}[op](v[0], v[1])
            bits = int(t[1:])

            def f(x, y):
                if x.op == "c" and y.op == "c":
                    p, q = x.args[0], y.args[0]
                    return C(wrap(p & q if op == "and" else p | q if op == "or" else p ^ q, bits))
                if vg.isbool(x) and vg.isbool(y):
                    return {"and": vg.and_, "or": vg.or_, "xor": vg.xor_}[op](x, y)
                if op == "and" and y is ONE and vg.isbool(x):
                    return x
                if op == "xor" and y.op == "c" and y.args[0] == -1:
                    return vg.sub(C(-1), x)
                return mk("bit" + op, bits, x, y)
            return vg.lift2(f, v[0], v[1])
        if op in ("shl", "lshr", "ashr"):
            bits = int(t[1:])
            m = (1 << bits) - 1

            def f(x, y):
                if y.op == "c" and x.op == "c":
                    p, s = x.args[0], y.args[0]
                    r = p << s if op == "shl" else (p & m) >> s if op == "lshr" else p >> s
                    return C(wrap(r, bits))
                if y.op == "c" and op == "shl":
                    return vg.mul(x, C(1 << y.args[0]))
                return mk("bit" + op, bits, x, y)
            return vg.lift2(f, v[0], v[1])
        if op == "icmp":
            return self.icmp(I["pred"], I["ot"], v[0], v[1])
        if op == "sext":
            if I["ot"] == "i1":
                return vg.neg(v[0]) if not v[0].cl else vg.lift(lambda x: C(-1 if x.args[0] else 0) if x.op == "c" else x, v[0])
            return v[0]
        if op == "zext":
            bits = int(I["ot"][1:])

            def f(x):
                if x.op == "c":
                    return C(x.args[0] & ((1 << bits) - 1))
                return x
            if v[0].cl:
                return vg.lift(f, v[0])
            if v[0].op == "bytes":
                return mk("bytes", tsize(t), v[0].args[1], *v[0].args[2:])
            return v[0]
        if op == "trunc":
            bits = int(t[1:])

            def f(x):
                if x.op == "c":
                    return C(wrap(x.args[0], bits))
                return x
            if v[0].cl:
                return vg.lift(f, v[0])
            if v[0].op == "bytes":
                return self.subcell(v[0], v[0].args[0], 0, bits // 8, t)
            if int(I["ot"][1:]) > bits and bits >= 8 and not vg.isbool(v[0]):
                self.event_out(st, "int-narrow", f"{I['ot']} to {t}", v[0], -(1 << (bits - 1)), (1 << bits) - 1)
            return v[0]
        if op in ("fpext",):
            return v[0]
        if op == "fptrunc":
            if not v[0].cl:
                self.event(st, "fp-narrow", f"{I['ot']} to {t}")
            return v[0]
        if op in ("sitofp", "uitofp"):
            if not v[0].cl and I["ot"] == "i64" and not vg.isbool(v[0]) and not any(x.op == "itrunc" for _, x in vg.leaves(v[0])):
                lim = 1 << (24 if t == "f32" else 53)
                self.event_out(st, "int-to-fp", f"{I['ot']} to {t}", v[0], -lim, lim)
            if op == "sitofp" and I["ot"] == "i1":
                return vg.neg(v[0])
            if op == "uitofp" and v[0].cl:
                bits = int(I["ot"][1:])
                return vg.lift(lambda x: C(x.args[0] & ((1 << bits) - 1)) if x.op == "c" else x, v[0])
            return v[0]
        if op in ("fptosi", "fptoui"):
            if v[0].op == "c":
                q = v[0].args[0]
                return C(int(q))
            w = int(t[1:])
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == "fptosi" else (0, (1 << w) - 1)
            self.event_out(st, "fp-to-int", f"{I['ot']} to {t}", v[0], lo, hi)
            if v[0].op == "ite":
                return mk("itrunc", v[0])
            return mk("itrunc", v[0])
        if op == "ptrtoint":
            return vg.lift(lambda x: mk("p2i", x) if x.op == "p" and x.args[0] else (C(x.args[1]) if x.op == "p" else x), v[0])
        if op == "inttoptr":
            return vg.lift(lambda x: x.args[0] if x.op == "p2i" else (mk("p", 0, x.args[0]) if x.op == "c" else UNDEF), v[0])
        raise Unsupported("instruction " + op)

    def icmp(self, pred, ot, a, b):
        if pred == "eq":
            return vg.cmp("eq", a, b)
        if pred == "ne":
            return vg.not_(vg.cmp("eq", a, b))
        if pred[0] == "s":
            k = pred[1:]
            if k == "lt":
                return vg.cmp("lt", a, b)
            if k == "gt":
                return vg.cmp("lt", b, a)
            if k == "le":
                return vg.not_(vg.cmp("lt", b, a))
            return vg.not_(vg.cmp("lt", a, b))
        k = pred[1:]
        if k in ("gt", "le"):
            a, b = b, a
        # unsigned: now a < b  (for gt/lt), negated for le/ge
        if ot == "p" or (a.op == "p2i" or b.op == "p2i"):
            r = vg.cmp("lt", a, b)
        else:
            bits = int(ot[1:])
            m = (1 << bits) - 1

            def f(x, y):
                if x.op == "c" and y.op == "c":
                    return ONE if (x.args[0] & m) < (y.args[0] & m) else ZERO
                if x is UNDEF or y is UNDEF:
                    return UNDEF
                if y.op == "c" and y.args[0] < 0 and False:
                    return ONE
                return mk("ult", x, y)
            r = vg.lift2(f, a, b)
        return r if k in ("lt", "gt") else vg.not_(r)

    # -- calls -------------------------------------------------------------
    def do_call(self, st, env, I):
        name = I.get("callee")
        args = [None if x is None else self.opnd(st, env, x) for x in I["a"]]
        if name is None:
            fp = st.simp(self.opnd(st, env, I["fp"]))
            if fp.op != "fn":
                raise Unsupported("indirect call")
            name = fp.args[0]
        f = self.m.funcs[name]
        # byval copies
        for i, n in enumerate(I["bv"]):
            if n:
                oid = self.new_obj(st, n, "byval argument", "stack")
                q = mk("p", oid, 0)
                self.memcpy(st, q, args[i], n)
                args[i] = q
        d = f["d"]
        for pat, fn in self.summaries.items():
            if d.startswith(pat) or name == pat:
                r = fn(self, st, args, f)
                if r is DEAD:
                    return DEAD
                if r is not NotImplemented:
                    if "id" in I:
                        env[I["id"]] = r
                    return st
        if f["decl"]:
            r = self.external(st, name, d, args, I)
            if r is DEAD:
                return DEAD
            if "id" in I:
                env[I["id"]] = r
            return st
        r = self.call_fn(name, args, st)
        if r is DEAD:
            return DEAD
        st2, rv = r
        if "id" in I:
            env[I["id"]] = rv
        if st2 is not st:
            # propagate the joined state into the caller's state object
            st.mem, st.own, st.known, st.pc = st2.mem, st2.own, st2.known, st2.pc
        return st

    def constarg(self, st, v):
        v = st.simp(v)
        if v.op != "c":
            raise Unsupported("size argument not constant: " + vg.show(v, 3))
        return v.args[0]

    def external(self, st, name, d, args, I):
        base = name
        if name.startswith("llvm."):
            for p in ("llvm.memcpy", "llvm.memmove"):
                if name.startswith(p):
                    n = st.simp(args[2])
                    for path, leaf in vg.leaves(n):
                        if leaf.op != "c":
                            raise Unsupported("copy of symbolic size")
                    ls = vg.leaves(n)
                    if len(ls) == 1:
                        self.memcpy(st, args[0], args[1], ls[0][1].args[0])
                    else:
                        self.gated_copy(st, n, args[0], args[1])
                    return None
            if name.startswith("llvm.memset"):
                self.memset(st, args[0], args[1], self.constarg(st, args[2]))
                return None
            if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.stacksave", "llvm.stackrestore", "llvm.assume", "llvm.invariant", "llvm.donothing")):
                return UNDEF
            if name.startswith("llvm.trap"):
                self.event(st, "trap", "")
                return DEAD
            if name.startswith(("llvm.fmuladd", "llvm.fma")):
                return vg.add(vg.mul(args[0], args[1]), args[2])
            if name.startswith("llvm.is.fpclass"):
                k = args[1].args[0]
                if k == 3:
                    return vg.cmp("uno", args[0], args[0])
                raise Unsupported("fpclass")
            if name.startswith("llvm.umul.with.overflow") or name.startswith("llvm.uadd.with.overflow"):
                x, y = args
                return ((vg.mul if "umul" in name else vg.add)(x, y), ZERO)
            if name.startswith("llvm.smax") or name.startswith("llvm.umax"):
                return ite(vg.cmp("lt", args[0], args[1]), args[1], args[0])
            if name.startswith("llvm.smin") or name.startswith("llvm.umin"):
                return ite(vg.cmp("lt", args[0], args[1]), args[0], args[1])
            if name.startswith("llvm.abs"):
                return ite(vg.cmp("lt", args[0], ZERO), vg.neg(args[0]), args[0])
            if name.startswith(("llvm.ctlz", "llvm.cttz", "llvm.ctpop")):
                w = int(name.rsplit("i", 1)[1])
                v = self.constarg(st, args[0]) % (1 << w)
                if "ctpop" in name:
                    return C(bin(v).count("1"))
                if v == 0:
                    return C(w)
                return C(w - v.bit_length() if "ctlz" in name else (v & -v).bit_length() - 1)
            if name.startswith("llvm.expect"):
                return args[0]
            if name.startswith("llvm.is.constant"):
                return ZERO
            base = ".".join(name.split(".")[:2])
        if base in MATH1:
            return self.math1(MATH1[base], args[0])
        if base in MATH2:
            k = MATH2[base]
            x, y = args
            if k == "fmin":
                return ite(vg.cmp("uno", x, x), y, ite(vg.cmp("uno", y, y), x, ite(vg.cmp("lt", y, x), y, x)))
            if k == "fmax":
                return ite(vg.cmp("uno", x, x), y, ite(vg.cmp("uno", y, y), x, ite(vg.cmp("lt", x, y), y, x)))
            return vg.call(k, x, y)
        if base in ("nextafter", "nextafterf") and args[1].op == "inf":
            return vg.call("nextup" if args[1].args[0] > 0 else "nextdown", args[0])
        if name == "vp_assume":
            c = args[0]
            c = c if vg.isbool(c) else vg.not_(vg.cmp("eq", c, ZERO))
            g = vg.or_(vg.not_(st.pc), c)
            self.pre = vg.and_(self.pre, g)
            st._learn(c, True)
            return None
        if name in ("_Znwm", "_Znam", "malloc"):
            n = self.constarg(st, args[0])
            return mk("p", self.new_obj(st, n, "heap block", "heap"), 0)
        if name in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "free", "_ZdaPvm"):
            p = st.simp(args[0])
            if p.op == "p" and p.args[0] in st.mem:
                o = st.wobj(p.args[0])
                o.dead = True
            return None
        if name in ("memcpy", "memmove"):
            self.memcpy(st, args[0], args[1], self.constarg(st, args[2]))
            return args[0]
        if name == "strlen":
            p = st.simp(args[0])
            ob = self.obj(st, p)
            off = p.args[1]
            n = 0
            while True:
                v = self.load1(st, p, n, 1, "i8")
                if v.op != "c":
                    raise Unsupported("strlen of symbolic text")
                if v.args[0] == 0:
                    return C(n)
                n += 1
        if name in ("__cxa_guard_acquire",):
            self.event(st, "static-init", "guarded initialisation of a function-local static")
            return ONE
        if name in ("__cxa_guard_release", "__cxa_guard_abort"):
            return None
        if name in ("abort", "__assert_fail", "_ZSt9terminatev", "__cxa_pure_virtual") or "__throw_" in name or name in ("__cxa_throw", "__cxa_rethrow", "__clang_call_terminate"):
            self.event(st, "abort", d)
            return DEAD
        if self.trace_ext is not None:
            r = self.trace_ext(self, st, name, d, args, I)
            if r is not NotImplemented:
                return r
        self.event(st, "extern", d)
        raise Unsupported("external function " + d[:120])

    def gated_copy(self, st, n, d, s):
        for path, leaf in vg.leaves(n):
            cond = ONE
            for c, t in path:
                cond = vg.and_(cond, c if t else vg.not_(c))
            s2 = st.fork()
            s2.learn(cond, True)
            self.memcpy(s2, d, s, leaf.args[0])
            m = self.merge_state(st, cond, s2, st)
            st.mem, st.own = m.mem, set()

    def math1(self, k, x):
        if k == "fabs":
            def f(x):
                return ite(vg.cmp("lt", x, ZERO), vg.neg(x), x)
            return f(x)
        if k == "sqrt" and x.op == "c":
            v = x.args[0]
            if v in (0, 1, 4, 9, 16, 25):
                return C({0: 0, 1: 1, 4: 2, 9: 3, 16: 4, 25: 5}[v])
        if x is NAN or x is UNDEF:
            return x
        return vg.call(k, x)


def tsize(t):
    if t == "p":
        return 8
    if t[0] == "i":
        return max(1, (int(t[1:]) + 7) // 8)
    return {"f32": 4, "f64": 8, "f80": 16}[t]
