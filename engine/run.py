"""Check driver:  python3 -m engine.run <property> [--tier quick|thorough]"""
import argparse
import ctypes
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, VERIF)

CXX = "/usr/bin/clang++-18"
FLAGS = ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-fno-exceptions", "-DNDEBUG",
         "-ffp-contract=off", "-fno-math-errno", "-fno-access-control", "-w", "-ferror-limit=5"]
MEM_EVENTS = ("oob-read", "oob-write", "null-deref", "use-after-free", "undef-pointer", "undef-branch", "div-by-zero")
LOSS_EVENTS = ("fp-narrow", "int-narrow", "int-to-fp")
EFFECT_EVENTS = ("global-write", "global-read", "static-init", "const-write")


def flags():
    return [f for f in FLAGS if f != "-fno-access-control"]


def compile_tu(src, workdir, name):
    cpp = os.path.join(workdir, name + ".cpp")
    bc = os.path.join(workdir, name + ".bc")
    js = os.path.join(workdir, name + ".json")
    with open(cpp, "w") as f:
        f.write(src)
    r = subprocess.run([CXX] + flags() + ["-I", REPO + "/include", "-I", VERIF + "/probes", "-emit-llvm", "-c", cpp, "-o", bc],
                       capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr
    with open(js, "w") as f:
        r = subprocess.run([VERIF + "/build/irdump", bc], stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        return None, "irdump: " + r.stderr
    os.unlink(bc)
    return js, ""


def setup_inputs(I, st, ob):
    from engine import vg, obl
    args = []
    for name, n, kind, ct in ob.ins:
        ty = ob.T if ct == "T" else ct
        k = kind or obl.KIND[ty]
        sz = obl.SIZE[ty]
        oid = I.new_obj(st, n * sz, "input " + name, "input")
        o = st.mem[oid]
        o.ro = True
        for i in range(n):
            o.cells[i * sz] = (sz, vg.mk("var", f"{name}{i}" if n > 1 else name, k))
        args.append(vg.mk("p", oid, 0))
    sz = obl.SIZE[ob.T]
    oid = I.new_obj(st, ob.nout * sz, "output", "output")
    args.append(vg.mk("p", oid, 0))
    return args, oid


def run_side(mod, which, ob, summaries):
    from engine import interp, vg, obl
    I = interp.Interp(mod, summaries, max_steps=ob.opts.get("steps", 3000000))
    st = interp.State()
    args, oid = setup_inputs(I, st, ob)
    if "contract" in ob.opts:
        I.contract = (args[[n for n, _, _, _ in ob.ins].index("z")], oid)
    r = I.run(f"{which}_{ob.idx}", args, st)
    if r is interp.DEAD:
        return I, None
    st2 = r[0]
    sz = obl.SIZE[ob.T]
    o = st2.mem[oid]
    outs = []
    for i in range(ob.nout):
        outs.append(I.load1(st2, vg.mk("p", oid, 0), i * sz, sz, ob.T))
    return I, outs


def default_summaries():
    from engine import vg

    def sqrt_c(I, st, args, f):
        # contract of the compile-time square root: see DESIGN.md, idealisations
        return vg.call("sqrt", args[0])
    return {"float vm::sqrt_c<float>": sqrt_c, "double vm::sqrt_c<double>": sqrt_c}


def opaque_tuple(fname, n, ct):
    """the function's result (number, n solutions) as an unspecified function of its arguments"""
    from engine import vg, interp, obl
    sz = obl.SIZE[ct]

    def f(I, st, args, fn):
        if args[0].op != "p":
            return NotImplemented
        xs = args[1:]
        c = vg.call(f"opaque:{fname}:n:u", *xs)
        num = vg.mk("c", n)
        for k in range(n - 1, 0 if n == 3 else -1, -1):
            num = vg.ite(vg.cmp("le", c, vg.mk("c", k)), vg.mk("c", k), num)
        for k in range(n):
            I.store1(st, args[0], (n - 1 - k) * sz, sz, vg.ite(vg.cmp("le", num, vg.mk("c", k)), vg.NAN, vg.call(f"opaque:{fname}:{k}", *xs)), vg.ONE)
        I.store1(st, args[0], (n * sz + 7) // 8 * 8, 8, num, vg.ONE)
        return None
    return {f"std::tuple<unsigned long{(', ' + ct) * n}> vm::{fname}<{ct}>": f}


def cubic_contract(ob):
    """solve_cubic yields one solution, the input z, of the equation whose normalised coefficients are recorded as outputs"""
    from engine import vg, obl
    ct, sz = ob.T, obl.SIZE[ob.T]
    at = ob.opts["contract"]

    def f(I, st, args, fn):
        if args[0].op != "p":
            return NotImplemented
        zp, oid = I.contract
        a = args[1]
        for k in range(3):
            I.store1(st, vg.mk("p", oid, 0), (at + k) * sz, sz, vg.div(args[2 + k], a), vg.ONE)
        I.store1(st, args[0], 2 * sz, sz, I.load1(st, zp, 0, sz, ct), vg.ONE)
        I.store1(st, args[0], sz, sz, vg.NAN, vg.ONE)
        I.store1(st, args[0], 0, sz, vg.NAN, vg.ONE)
        I.store1(st, args[0], (3 * sz + 7) // 8 * 8, 8, vg.ONE, vg.ONE)
        return None
    return {f"std::tuple<unsigned long, {ct}, {ct}, {ct}> vm::solve_cubic<{ct}>": f}


def analyse(mod, ob, mode, tier):
    """returns a result dict for one obligation"""
    from engine import interp, vg, decide
    vg.reset()
    interp.Poly.reset(bool(ob.opts.get("poly")))
    t0 = time.time()
    res = {"name": ob.name, "api": ob.api, "status": "undecided", "reason": "", "cells": 0, "outs": ob.nout}
    summ = default_summaries()
    for fname, n in ob.opts.get("opaque", ()):
        summ.update(opaque_tuple(fname, n, ob.T))
    if ob.opts.get("text"):
        from engine import text
        summ.update(text.summaries())
    if "contract" in ob.opts:
        summ.update(cubic_contract(ob))
    for s in ob.opts.get("nosummary", []):
        summ.pop(s, None)
    try:
        I, outs = run_side(mod, "I", ob, summ)
    except interp.Unsupported as e:
        res["reason"] = "analysis of the code: " + str(e)
        res["wall"] = time.time() - t0
        return res
    except RecursionError:
        res["reason"] = "analysis of the code: recursion"
        return res
    res["funcs"] = len(I.fseen)
    res["fnames"] = [(mod.funcs[f]["d"][:200], mod.funcs[f].get("file", ""), mod.funcs[f].get("line", 0)) for f in I.fseen if "/include/vecmath/" in mod.funcs[f].get("file", "")]
    res["instrs"] = I.instrs
    if mode == "events":
        evs = []
        pre = I.pre
        try:
            J, _ = run_side(mod, "S", ob, summ)
            pre = vg.and_(pre, J.pre)
        except interp.Unsupported:
            pass
        bad = None
        nev = 0
        unk = []
        for kind, pc, where, detail in I.events:
            if kind not in ob.opts.get("_kinds", ()) or (ob.opts.get("_inside") and "obligation " in where):
                continue
            nev += 1
            sat, w, txt = decide.satisfiable(pre, pc, time_limit=10)
            if sat == "yes":
                bad = {"kind": kind, "where": where, "detail": detail, "cell": txt, "member": w}
                break
            if sat == "unknown":
                unk.append(f"{kind} at {where}: {detail}: {txt[:200]}")
        res["events"] = nev
        res["status"] = "violated" if bad else ("undecided" if unk else "proved")
        if unk:
            res["reason"] = "; ".join(unk[:3])
        if bad:
            res["violation"] = bad
        res["wall"] = time.time() - t0
        return res
    try:
        J, want = run_side(mod, "S", ob, summ)
    except interp.Unsupported as e:
        res["reason"] = "analysis of the requirement: " + str(e)
        return res
    pre = vg.and_(I.pre, J.pre)
    if outs is None:
        res["status"] = "undecided"
        res["reason"] = "the code never returns normally"
        if want is not None:
            sat = decide.satisfiable(pre, vg.ONE)
            if sat[0] == "yes":
                res["status"] = "violated"
                res["violation"] = {"output": "all", "cell": "all inputs", "code": "does not return", "required": "a result", "member": sat[1]}
        return res
    # aborting executions (throw/abort) count as "no result" where the spec has one
    tl = ob.opts.get("time", 60.0 if tier == "quick" else 300.0)
    r = decide.compare(pre, outs, want, seed=int(os.environ.get("VERIF_SEED", "1")), time_limit=tl,
                       max_cells=ob.opts.get("cells", 20000 if tier == "quick" else 200000))
    res["cells"] = r.cells
    res["compared"] = r.compared
    if not r.violations:
        loss = ob.T in ("double", "long", "std::size_t") and "convert" not in ob.name
        for kind, pc, where, detail in I.events:
            if "/include/vecmath/" in where and "convert" not in ob.name and (kind == "fp-to-int" or (loss and kind in LOSS_EVENTS)):
                sat, w, txt = decide.satisfiable(pre, pc, time_limit=10)
                if sat == "yes":
                    r.violations.append({"where": where, "output": "all", "cell": txt, "code": "a value that went through a conversion it does not survive: " + detail, "required": "the exact value", "member": w})
                    break
            if kind == "abort":
                sat, w, txt = decide.satisfiable(pre, pc, time_limit=10)
                if sat == "yes":
                    r.violations.append({"output": "all", "cell": txt, "code": "terminates: " + detail + " at " + where, "required": "a result", "member": w})
    if r.violations:
        res["status"] = "violated"
        res["violation"] = r.violations[0]
    elif r.undecided:
        res["status"] = "undecided"
        res["reason"] = "; ".join(r.undecided[:3])
    elif r.compared == 0:
        res["status"] = "undecided"
        res["reason"] = "no cell satisfies the precondition"
    else:
        res["status"] = "proved"
    res["wall"] = time.time() - t0
    return res


class HardTimeout(BaseException):
    """raised in the analysing thread when an obligation overruns its limit"""


class Watch:
    deadline = None
    lock = threading.Lock()


def work(job):
    """compile a chunk and analyse its obligations (runs in a worker process)"""
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def body():
        out.append(work1(job))
    t = threading.Thread(target=body, daemon=True)
    t.start()
    while t.is_alive():
        t.join(0.25)
        with Watch.lock:
            if Watch.deadline is not None and time.time() > Watch.deadline:
                Watch.deadline = time.time() + 5
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(HardTimeout))
    return out[0] if out else [{"name": o.name, "api": o.api, "status": "undecided", "reason": "worker failed", "cells": 0, "outs": 0} for o in job[0]]


def work1(job):
    from engine import interp, obl
    obs, includes, mode, tier, workdir, cid, end = job
    res = []

    def late(o):
        return {"name": o.name, "api": o.api, "status": "undecided", "reason": "time budget of the check used up", "cells": 0, "outs": o.nout}
    if time.time() > end:
        return [late(o) for o in obs]
    js, err = compile_tu(obl.emit(obs, includes), workdir, f"u{cid}")
    mods = []
    if js is None:
        if len(obs) == 1:
            # is it the library call that is rejected, or the requirement?
            o = obs[0]
            only = obl.Ob(o.name, o.api, o.T, o.ins, o.nout, "", o.spec, o.hdr)
            only.idx = o.idx
            js2, err2 = compile_tu(obl.emit([only], includes), workdir, f"u{cid}s")
            if js2 is not None:
                os.unlink(js2)
                why = [l for l in err.splitlines() if "error:" in l]
                return [{"name": o.name, "api": o.api, "status": "violated", "reason": "", "cells": 0, "outs": o.nout,
                         "violation": {"where": (why or ["?"])[0][:300], "code": "the compiler rejects this use of the interface", "required": "a result", "cell": "every input", "member": "\n".join(why)[:1000]}}]
            return [{"name": obs[0].name, "api": obs[0].api, "status": "nocompile", "reason": err.strip()[:1500], "cells": 0, "outs": obs[0].nout}]
        h = len(obs) // 2
        return work1((obs[:h], includes, mode, tier, workdir, f"{cid}a", end)) + work1((obs[h:], includes, mode, tier, workdir, f"{cid}b", end))
    mod = interp.Module(js)
    os.unlink(js)
    for ob in obs:
        if time.time() > end:
            res.append(late(ob))
            continue
        r = None
        try:
            with Watch.lock:
                Watch.deadline = min(end, time.time() + ob.opts.get("time", 60.0 if tier == "quick" else 300.0) * 1.5)
            try:
                r = analyse(mod, ob, mode, tier)
            except Exception as e:  # analyser failure: never a verdict
                import traceback
                r = {"name": ob.name, "api": ob.api, "status": "undecided", "reason": "analyser: " + repr(e) + traceback.format_exc()[-600:], "cells": 0, "outs": ob.nout}
            with Watch.lock:
                Watch.deadline = None
        except HardTimeout:
            Watch.deadline = None
            if r is None:
                r = {"name": ob.name, "api": ob.api, "status": "undecided", "reason": "hard time limit", "cells": 0, "outs": ob.nout}
        res.append(r)
    return res


def ensure_tools():
    if not os.path.exists(VERIF + "/build/irdump"):
        subprocess.run(["bash", VERIF + "/setup.sh"], check=True, stdout=subprocess.DEVNULL)


def run_obligations(obs, includes, mode, tier, jobs=8, chunk=None):
    return run_groups([(obs, includes)], mode, tier, jobs, chunk)


def run_groups(groups, mode, tier, jobs=8, chunk=None):
    """groups: [(obligations, includes)]"""
    ensure_tools()
    os.makedirs(VERIF + "/build", exist_ok=True)
    workdir = tempfile.mkdtemp(prefix="run.", dir=VERIF + "/build")
    try:
        end = time.time() + float(os.environ.get("VP_BUDGET", "660" if tier == "quick" else "3000"))
        work_items = []
        for g, (obs, includes) in enumerate(groups):
            for i, o in enumerate(obs):
                o.idx = i
            n = chunk or max(4, min(24, (len(obs) + 2 * jobs - 1) // (2 * jobs)))
            # interleave so that expensive neighbours spread over chunks
            k = (len(obs) + n - 1) // n
            work_items += [(obs[i::k], includes, mode, tier, workdir, f"{g}_{i}", end) for i in range(k)]
        with mp.get_context("fork").Pool(jobs, maxtasksperchild=1) as pool:
            res = []
            for r in pool.imap_unordered(work, work_items):
                res.extend(r)
        res.sort(key=lambda r: r["name"])
        return res
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def load_known():
    known = {}
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            for e in json.load(f).get("findings", []):
                known.setdefault(e["property"], []).append(e)
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    mod = importlib.import_module("props." + a.pid)
    if hasattr(mod, "check"):
        sys.exit(mod.check(a))
    sys.exit(run_property(a.pid, mod, a))


def run_property(pid, mod, a):
    t0 = time.time()
    obs = mod.obligations(a.tier)
    if a.only:
        obs = [o for o in obs if a.only in o.name]
    res = run_obligations(obs, mod.INCLUDES, "value", a.tier, a.jobs)
    return report(pid, mod, res, a, t0)


def report(pid, mod, res, a, t0, extra_cov=None):
    if a.v:
        for r in res:
            print(f"{r['status']:10} {r['name']:45} cells={r.get('cells')} {r.get('wall', 0):.2f}s {r.get('reason', '')[:600]}")
            if r.get("violation"):
                print("     ", json.dumps(r["violation"])[:1200])
    cnt = {}
    for r in res:
        cnt[r["status"]] = cnt.get(r["status"], 0) + 1
    known = load_known().get(pid, [])
    viol = [r for r in res if r["status"] == "violated"]
    unlisted = []
    for r in viol:
        k = [e for e in known if r["name"] in e.get("obligations", [])]
        if k:
            print(f"KNOWN-FINDING: property={pid} {k[0]['what']} [{r['name']}]")
        else:
            unlisted.append(r)
    decided = cnt.get("proved", 0) + len(viol)
    undecided = [r for r in res if r["status"] in ("undecided", "nocompile")]
    fn = set()
    for r in res:
        for d, f, l in r.get("fnames", []):
            fn.add((d, f, l))
    level = getattr(mod, "LEVEL", "proof")
    cov = {
        "obligations": len(res),
        "discharged": cnt.get("proved", 0),
        "undecided": len(undecided),
        "checker_cmd": f"python3 -m engine.run {pid} --tier {a.tier}",
        "trusted_base": ["clang 18 front end (C++ to LLVM IR)", "tools/irdump.cpp", "engine/ (abstract interpreter, normal forms, cell refinement)",
                         "the requirement bodies in props/" + pid + ".py"],
        "sign_cells_compared": sum(r.get("compared", 0) for r in res),
        "library_functions_analysed": len(fn),
        "ir_instructions_interpreted": sum(r.get("instrs", 0) for r in res),
        "rule": getattr(mod, "RULE", "normal-form equality of value graphs in every non-empty sign cell"),
        "samples": [{"obligation": r["name"], "api": r["api"], "status": r["status"], "cells": r.get("compared", r.get("cells", 0))} for r in res[:: max(1, len(res) // 6)][:6]],
    }
    if undecided:
        cov["undecided_detail"] = [{"obligation": r["name"], "reason": r.get("reason", "")[:300]} for r in undecided[:30]]
    if extra_cov:
        cov.update(extra_cov)
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", ["exact real arithmetic: rounding, overflow and the sign of zero are abstracted away"]),
        "wall_s": round(time.time() - t0, 2), "violations": len(unlisted),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    if not a.only:
        with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid}: {len(res)} obligations, {cnt.get('proved', 0)} proved, {len(viol)} violated, {len(undecided)} undecided, "
          f"{cov['sign_cells_compared']} cells, {len(fn)} library functions, {time.time() - t0:.1f}s")
    for r in undecided[:20]:
        print(f"  undecided: {r['name']}: {r.get('reason', '')[:300]}")
    if unlisted:
        path = f"{VERIF}/evidence/{pid}.violation.json"
        with open(path, "w") as f:
            json.dump([{k: v for k, v in r.items() if k not in ("instrs",)} for r in unlisted[:50]], f, indent=1)
        for r in unlisted[:10]:
            v = r["violation"]
            loc = [x for x in r.get("fnames", []) if x[0].split("(")[0].split("<")[0].endswith(r["api"].replace("vm::", "::", 1)[2:])][:1] or r.get("fnames", [])[:1]
            where = f"{loc[0][1]}:{loc[0][2]} {loc[0][0]}" if loc else r["api"]
            print(f"  {r['name']}: {v.get('where', where)}: code yields {v.get('code', v.get('detail'))}; required {v.get('required', v.get('kind'))}; in cell [{str(v.get('cell'))[:300]}]; e.g. {json.dumps(v.get('member'))[:300]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if res and decided < 0.1 * len(res):
        print(f"{pid}: analysis broken: only {decided} of {len(res)} obligations could be decided", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    main()
