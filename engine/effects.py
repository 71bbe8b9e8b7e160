"""Effect analysis over the type-checked syntax tree of all headers (facts from tools/astscan.cpp)."""
import json
import os
import re
import subprocess
import tempfile
from engine import run

# what reads or changes state outside the arguments
DENY = re.compile(r"^(std::(\w+::)*)?(rand|srand|rand_r|random|srandom|drand48|lrand48|time|clock|gettimeofday|clock_gettime|localtime|gmtime|setlocale|getenv|setenv|putenv|unsetenv|system|exit|_Exit|quick_exit|"
                  r"signal|raise|fesetround|fesetenv|feupdateenv|feholdexcept|feclearexcept|feraiseexcept|feenableexcept|fedisableexcept|__errno_location|"
                  r"printf|fprintf|vprintf|vfprintf|puts|putchar|fputs|fputc|fwrite|perror|fopen|freopen|fclose|fread|open|write|read|remove|rename|"
                  r"scanf|fscanf|getchar|gets|fgets|malloc_trim|mallopt|strtok|tmpnam|atexit|at_quick_exit|set_terminate|set_new_handler|longjmp|setjmp)$")
DENYSTD = re.compile(r"^std::(.*::)?(cout|cerr|clog|cin|wcout|wcerr|wclog|wcin|random_device|this_thread|mutex|recursive_mutex|shared_mutex|condition_variable|thread|async|atomic.*|call_once|"
                     r"sync_with_stdio|basic_[io]?fstream)(<.*>)?(::.*)?$")
DENYCALL = re.compile(r"^std::(chrono::.*::now|locale::global)$")


def headers():
    inc = run.REPO + "/include/vecmath"
    return sorted(f for f in os.listdir(inc) if f.endswith(".h"))


def resource_dir():
    return subprocess.run([run.CXX, "-print-resource-dir"], capture_output=True, text=True).stdout.strip()


def scan():
    """facts about every header that compiles on its own; (facts, headers scanned, headers rejected)"""
    run.ensure_tools()
    os.makedirs(run.VERIF + "/build", exist_ok=True)
    hs, bad = [], []
    facts = []
    with tempfile.TemporaryDirectory(dir=run.VERIF + "/build") as d:
        cand = headers()

        def attempt(names):
            p = os.path.join(d, "all.cpp")
            with open(p, "w") as f:
                f.write("#include <vector>\n#include <string>\n" + "".join(f"#include <vecmath/{h}>\n" for h in names))
            return subprocess.run([run.VERIF + "/build/astscan", run.REPO + "/include/vecmath/", p, "-std=c++17", "-w", "-I" + run.REPO + "/include",
                                   "-resource-dir", resource_dir()], capture_output=True, text=True)
        r = attempt(cand)
        if r.returncode == 0:
            hs = cand
            facts = [json.loads(x) for x in r.stdout.splitlines()]
        else:
            seen = set()
            for h in cand:
                r = attempt([h])
                if r.returncode:
                    bad.append(h)
                    continue
                hs.append(h)
                for x in r.stdout.splitlines():
                    if x not in seen:
                        seen.add(x)
                        facts.append(json.loads(x))
    return facts, hs, bad


def judge(f):
    """None, or what is wrong with the construct"""
    k = f["k"]
    if k == "var":
        if f["tls"]:
            return f"thread-local variable {f['name']} keeps state between calls"
        if not f["const"]:
            return f"variable {f['name']} of type {f['type']} is mutable state shared by all calls"
        if f["deps"]:
            return f"static {f['name']} keeps the value computed from the arguments of the first call ({', '.join(sorted(set(f['deps'])))})"
    elif k == "field" and f["mutable"]:
        return f"member {f['name']} can change in an object that is const"
    elif k == "cast" and f["drops_const"]:
        return f"{f['kind']} from {f['from']} to {f['to']} gives write access to something const"
    elif k == "asm":
        return "assembly"
    elif k == "ref":
        n = f["name"]
        if DENY.match(n) or DENYSTD.match(n) or DENYCALL.match(n):
            return f"use of {n}, which reads or changes state outside the arguments"
        if f["var"] and not n.startswith("std::"):
            return f"use of the mutable global {n}"
    return None
