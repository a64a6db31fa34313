"""Sequential replay of unary operators and pipelines (spec/SeqUnary.tla -> harness/rp_unary.cpp)."""
import re, subprocess, os, concurrent.futures as cf
from vlib import *

def st(op, *p, thr=-1):
    return {"op": op, "p": list(p), "thr": thr}
def cfg(*stages, re=None):
    r = {"k": "none", "n": 0}
    if re:
        r = {"k": re[0], "n": re[1]}
    return {"st": list(stages), "re": r}

def target(asan=False):
    fl = list(RP) + (["-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if asan else [])
    return ([Unit("rp_unary.cpp", (d,), fl) for d in ("PART1", "PART2", "PART3", "MAIN")], ["-fsanitize=address,undefined"] if asan else [])

def cfg_text(i, c):
    s = ">".join("%s:%s:%d" % (x["op"], ",".join(map(str, x["p"])), x["thr"]) for x in c["st"])
    r = {"none": "-", "dispose": "d%d" % c["re"]["n"], "throw": "t%d" % c["re"]["n"]}[c["re"]["k"]]
    return "C %d %s %s" % (i, s, r)

def same(e, g):
    """equal up to the order among finally actions run in a row"""
    if e == g:
        return True
    f = lambda t: re.sub(r"fin\d+(?: fin\d+)+", lambda m: " ".join(sorted(m.group(0).split(" "))), t)
    return "fin" in e and f(e) == f(g)
def show(v):
    if isinstance(v, list):
        return "[" + ";".join(show(x) for x in v) + "]"
    return str(v)
def tok(o):
    if o["k"] == "c":
        return "c"
    return o["k"] + show(o["v"]) if o["k"] != "tc" else "tc"
def step_text(x):
    return {"sub": "sub", "d": "d", "c": "c"}.get(x["a"]) or "%s:%s" % (x["a"], x["v"])

def expected_steps(h):
    out = []
    subd = not h[0]["d"]
    for x in h:
        d = x["d"]
        fl = ("D0:1" if d else "L0:0") if subd else ""
        out.append((" ".join(tok(o) for o in x["o"]), "/" + fl + "/" + ("D" if d else "L")))
    return out
def expected(h):
    return "|".join(a + b for a, b in expected_steps(h))
