"""Event analyses: the obligations of all value properties, analysed for unwanted events instead of values.

The abstract interpretation records an event (with its path condition) whenever
the analysed code could touch memory it must not touch, lose precision, fail an
assertion and so on.  An event is a violation when its path condition is
satisfiable within the obligation's domain and a member point is exhibited.
"""
import importlib
import time
from engine import run

SOURCES = ["C%02d" % i for i in range(4, 25)]


def collect(tier, keep=lambda pid, o: True, only=None, sources=None):
    """[(module, obligations)] with the source property in the name"""
    out = []
    for pid in sources or SOURCES:
        mod = importlib.import_module("props." + pid)
        obs = [o for o in mod.obligations(tier) if keep(pid, o)]
        for o in obs:
            o.name = pid + ":" + o.name
        if only:
            obs = [o for o in obs if only in o.name]
        if obs:
            out.append((mod, obs))
    return out


def check(a, mod, kinds, flags=None, keep=lambda pid, o: True, sources=None, extra_cov=None, extra_res=(), inside=False):
    t0 = time.time()
    if flags is not None:
        run.FLAGS = flags
    groups = collect(a.tier, keep, a.only, sources)
    for _, obs in groups:
        for o in obs:
            o.opts["_kinds"] = kinds
            o.opts["_inside"] = inside
    res = run.run_groups([(obs, m.INCLUDES) for m, obs in groups], "events", a.tier, a.jobs)
    return run.report(a.pid, mod, list(extra_res) + res, a, t0, extra_cov)
