"""Sequential replay of operators with several sources / time (spec/SeqMulti.tla -> harness/rp_multi.cpp)."""
from vlib import *
from unary import show, tok

def ev(s):
    """'n1,c' -> [{k,v}...]"""
    out = []
    for x in s.split(","):
        if x == "-" or not x:
            continue
        out.append({"k": x[0], "v": int(x[1:]) if x[0] == "n" else ("E" if x[0] == "e" else 0)})
    return out

def cfg(op, *p, thr=-1, sc=None, re=None, vals=(), impl=None, maxlen=None, dead=None, after=None, maxsubs=None):
    """sc: {src: [attempt, ...]} with attempts like 'n1,c'"""
    r = {"k": "none", "n": 0}
    if re:
        r = {"k": re[0], "n": re[1]}
    sc = sc or {}
    top = max(sc) + 1 if sc else 0
    return {"op": op, "p": list(p), "thr": thr, "re": r,
            "sc": [[ev(a) for a in sc.get(i, [])] for i in range(top)],
            "vals": [set(x) for x in vals], "_impl": impl or op}

def spec_cfg(c):
    return {k: v for k, v in c.items() if not k.startswith("_")}

PARTS = ("P_MERGE", "P_CONCAT", "P_SWITCH", "P_ZIP", "P_TU", "P_RETRY", "P_DELAY", "P_RATE", "P_TMO", "P_TICK", "P_FIN")

def target(asan=False, parts=PARTS):
    fl = list(RP) + (["-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if asan else [])
    return ([Unit("multi_ops.cpp", (d,), fl) for d in parts] + [Unit("rp_multi.cpp", (), fl)], ["-fsanitize=address,undefined"] if asan else [])

def cfg_text(i, c):
    def att(a):
        return ",".join(e["k"] + (str(e["v"]) if e["k"] == "n" else "") for e in a) or "-"
    sc = ";".join("%d=%s" % (j, "/".join(att(a) for a in s)) for j, s in enumerate(c["sc"]) if s) or "-"
    r = {"none": "-", "dispose": "d%d" % c["re"]["n"], "throw": "t%d" % c["re"]["n"], "slow": "s%d" % c["re"]["n"]}[c["re"]["k"]]
    tr = ";".join("%d=%s" % (j, ",".join(map(str, l))) for j, l in enumerate(c.get("tr", [])) if not (j < len(c["sc"]) and c["sc"][j])) or "-"
    return "C %d %s %s %d %s %s %s" % (i, c["_impl"], ",".join(map(str, c["p"])) or "-", c["thr"], sc, r, tr)

def step_text(x):
    a = x["a"]
    if a in ("sub", "d", "t"):
        return a
    return "%s:%d" % (a, x["i"] - 1) + (":%s" % x["v"] if a == "n" else "")

def expected_steps(h):
    out = []
    for x in h:
        fl = "".join(("D%d:1", "L%d:0", "?%d:?")[l] % s for s, l in x["s"])
        out.append((" ".join(tok(o) for o in x["o"]), "/" + fl + "/" + ("D" if x["d"] else "L")))
    return out
def expected(h):
    return "|".join(a + b for a, b in expected_steps(h))

def same(e, g):
    """does the observation g match the expectation e (? = one arbitrary character)"""
    if e == g:
        return True
    return "?" in e and len(e) == len(g) and all(a == b or a == "?" for a, b in zip(e, g))

def vs_ops_target(parts=PARTS):
    return ([Unit("vsched.cpp", (), ("-O2",))] + [Unit("multi_ops.cpp", (d, "VSCHED"), VS) for d in parts] + [Unit("vs_ops.cpp", ("VSCHED",), VS)], ("-rdynamic",))

def vs_target(src, defs=()):
    return ([Unit("vsched.cpp", (), ("-O2",)), Unit(src, ("VSCHED",) + tuple(defs), VS)], ("-rdynamic",))

PART_OF = {}
for _p, _ops in (("P_MERGE", "merge flat_map merge_with"), ("P_CONCAT", "concat concat_src concat_cont start_with_obs"), ("P_SWITCH", "switch"),
                 ("P_ZIP", "zip combine_latest with_latest_from"), ("P_TU", "take_until"), ("P_RETRY", "retry retry_inf repeat repeat_inf retry_when oern"),
                 ("P_DELAY", "delay observe_on delay_imm delay_ct observe_on_imm observe_on_ct"), ("P_RATE", "debounce throttle debounce_imm debounce_ct"), ("P_TMO", "timeout timeout_fb"), ("P_FIN", "finally finally_tu"), ("P_TICK", "interval interval_tp timer timer_tp subscribe_on")):
    for _o in _ops.split():
        PART_OF[_o] = _p
def parts_for(cfgs):
    return tuple(sorted({PART_OF[c["_impl"]] for c in cfgs}))
