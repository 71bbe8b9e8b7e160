"""Obligations: a piece of public-API client code and the formula it must equal.

Each obligation is a pair of C++ function bodies with the same inputs and
outputs.  The `impl` body calls the library; the `spec` body states the required
result in plain scalar arithmetic.  Both are compiled to LLVM IR (never run) and
summarised by the abstract interpreter; decide.compare settles equality for all
inputs.
"""
import itertools


class Ob:
    __slots__ = ("name", "api", "T", "ins", "nout", "impl", "spec", "pre", "hdr", "opts", "idx")

    def __init__(self, name, api, T, ins, nout, impl, spec, hdr="", **opts):
        self.name, self.api, self.T, self.ins, self.nout = name, api, T, ins, nout
        self.impl, self.spec, self.hdr, self.opts = impl, spec, hdr, opts
        self.idx = None


KIND = {"double": "r", "float": "r", "int": "i", "long": "i", "std::size_t": "u", "bool": "b", "unsigned": "u", "char": "g"}
SIZE = {"double": 8, "float": 4, "int": 4, "long": 8, "std::size_t": 8, "bool": 1, "unsigned": 4, "char": 1}
SHORT = {"double": "d", "float": "f", "int": "i", "long": "l", "std::size_t": "s", "bool": "b"}


def parse_ins(ins, env):
    """'a:S b:S eps k:1:i' -> [(name, count, kind, ctype)]"""
    out = []
    for tok in ins.split():
        f = tok.split(":")
        n = 1
        kind = None
        ct = "T"
        if len(f) > 1 and f[1]:
            n = int(eval(f[1], {}, dict(env)))
        if len(f) > 2 and f[2]:
            kind = f[2]
        if len(f) > 3:
            ct = f[3]
        out.append((f[0], n, kind, ct))
    return out


class Spec:
    """collects obligations for one property"""

    def __init__(self, pid):
        self.pid = pid
        self.obs = []

    def ob(self, name, ins, nout, impl, spec, T="double", api="", hdr="", pre="", **kw):
        """expand over the parameter lists in kw whose value is a list; pre is put in front of both sides"""
        impl, spec = pre + impl if pre else impl, pre + spec if pre else spec
        params = {k: v for k, v in kw.items() if isinstance(v, (list, tuple)) and k.isupper()}
        opts = {k: v for k, v in kw.items() if k not in params}
        Ts = T if isinstance(T, (list, tuple)) else [T]
        keys = list(params)
        for t in Ts:
            for vals in itertools.product(*(params[k] for k in keys)):
                env = dict(zip(keys, vals))
                sfx = "".join(f"_{k}{v}" for k, v in env.items())
                consts = "".join(f"constexpr std::size_t {k} = {v}; (void){k}; " for k, v in env.items() if isinstance(v, int))

                def sub(s):
                    if callable(s):
                        s = s(t, env)
                    for k, v in env.items():
                        s = s.replace("@" + k + "@", str(v))
                    return s
                no = nout if isinstance(nout, int) else int(eval(nout, {}, dict(env)))
                o = Ob(f"{name}<{t}>{sfx}", api or "vm::" + name.split(".")[0], t, parse_ins(sub(ins), env), no,
                       f"using T = {t}; {consts}" + sub(impl), f"using T = {t}; {consts}" + sub(spec), sub(hdr), **opts)
                o.idx = len(self.obs)
                self.obs.append(o)


def proto(o, which):
    ps = []
    for n, c, k, ct in o.ins:
        ty = o.T if ct == "T" else ct
        ps.append(f"const {ty}* {n}")
    ps.append(f"{o.T}* out")
    return f'extern "C" void {which}_{o.idx}({", ".join(ps)})'


def emit(obs, includes):
    src = [h for h in includes if h[0] == "#"] + ['#include "probe.h"']
    src += [f"#include <vecmath/{h}>" for h in includes if h[0] != "#"]
    hdrs = []
    for o in obs:
        if o.hdr and o.hdr not in hdrs:
            hdrs.append(o.hdr)
    src += hdrs
    for o in obs:
        src.append(f'#line 1 "obligation {o.name} code"')
        src.append(proto(o, "I") + " { " + o.impl + " }")
        src.append(f'#line 1 "obligation {o.name} requirement"')
        src.append(proto(o, "S") + " { " + o.spec + " }")
    return "\n".join(src) + "\n"
