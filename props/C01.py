"""No hidden state, no side effects: rules over the syntax tree of every header, and effect events in the value graphs."""
import sys
from engine import effects, events, run

LEVEL = "proof"
RULE = ("every variable with static storage is const and initialised independently of arguments, no mutable members, no cast that drops const, no thread-local state, "
        "no call into stateful library facilities; no write to a const input on any path of the analysed operations")
ASSUMPTIONS = ["functions of the C and C++ standard libraries outside the deny list in engine/effects.py have no effects beyond their arguments",
               "callables and iterators passed in by the user are outside the rule"]
KINDS = ("const-write",)


def ast_results():
    facts, hs, bad = effects.scan()
    res = []
    cnt = {}
    viol = {}
    for f in facts:
        cnt[f["k"]] = cnt.get(f["k"], 0) + 1
        why = effects.judge(f)
        if why:
            viol.setdefault((f["file"], f["func"]), []).append((f, why))
    for f in facts:
        if f["k"] == "fn":
            res.append({"name": f"syntax:{f['file']}:{f['name']}:{sum(r['name'].startswith('syntax:' + f['file'] + ':' + f['name'] + ':') for r in res)}", "api": f["name"], "status": "proved", "reason": "", "cells": 0, "outs": 0})
    for (file, func), fs in sorted(viol.items()):
        f, why = fs[0]
        res.append({"name": f"effect:{file}:{func or f.get('name', '')}", "api": func or f.get("name", ""), "status": "violated", "reason": "", "cells": 0, "outs": 0,
                    "violation": {"where": f"include/vecmath/{file}:{f['line']}", "code": why, "required": "no hidden state and no side effect", "cell": "every call", "member": [w for _, w in fs]}})
    return res, {"headers": hs, "headers_not_parsed": bad, "syntax_facts": cnt}


def check(a):
    res, cov = ast_results()
    if a.only:
        res = [r for r in res if a.only in r["name"]]
    return events.check(a, sys.modules[__name__], KINDS, extra_cov=cov, extra_res=res,
                        keep=lambda pid, o: o.T == "double" and (a.tier != "quick" or pid not in ("C24", "C19", "C11")))
