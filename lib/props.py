"""Which components decide which property."""
from gen import *

def by_tier(q, t):
    return lambda ctx: (q if ctx.quick else t)(ctx)

def unary_all(re=(None,), thr=False):
    return [ucfg(o, re=r) for o in elem_ops(thr) + aggr_ops(thr) for r in re]

def chains(n_q, n_t, ml_q=5, ml_t=6, **kw):
    def f(ctx):
        n = n_q if ctx.quick else n_t
        seq_unary("chains", chain_cfgs(ctx.rnd, n, **kw), maxlen=ml_q if ctx.quick else ml_t, args=(0, 3))(ctx)
    return f

def U_(part, cf_, q=5, t=7, **kw):
    return lambda ctx: seq_unary(part, cf_, maxlen=q if ctx.quick else t, **kw)(ctx)
def M_(part, cf_, q=5, t=7, **kw):
    def f(ctx):
        seq_multi(part, cf_, maxlen=q if ctx.quick else t, **kw)(ctx)
        if not ctx.quick:
            seq_multi(part + "-asan", cf_, maxlen=max(q, t - 2), asan=True, args=(0,), **kw)(ctx)
    return f

def G_(part, module, cfgs, driver, invariants, **kw):
    return gen(part, module, lambda ctx: cfgs(ctx.quick), driver, invariants=invariants, **kw)

# ---- concurrent items: (operator, scripts of the sources, disposal)
def CI(op, *p, s="-", d="-", **kw):
    return (mcfg(op, *p, **kw), s, d)
DI = ("-", "d", "r2")
CC = {
    "merge": lambda ds: [CI("merge", s="0=n1,n2,c;1=n11,n12,c;2=n21,c", d=d) for d in ds] + [CI("merge", s="0=n1,n2,c;1=n11,e;2=n21,c", d=d) for d in ds]
        + [CI("merge_with", 2, s="0=n1,n2,c;1=n11,n12,c", d=d) for d in ds] + [CI("flat_map", s="0=n1,n2,c;1=~n11,c;2=n21,c", d=d) for d in ds]
        + [CI("merge_with", 3, s="0=n1,e;1=n11,c;2=n21,e", d=d) for d in ds],
    "concat": lambda ds: [CI("concat", s="0=n1,n2,c;1=n11,c;2=n21,c", d=d) for d in ds] + [CI("concat", s="0=n1,n2,n1,c;1=c;2=c", d=d) for d in ds]
        + [CI("concat", s="0=n1,n2,e;1=n11,c;2=c", d=d) for d in ds] + [CI("concat_src", 0, 1, s="0=n1,c;1=n11,c", d=d) for d in ds]
        + [CI("concat", s="0=n1,n2,n1,n2,c;1=~c;2=n21,c", d=d) for d in ds],
    "switch": lambda ds: [CI("switch", s="0=n1,n2,c;1=n11,n12,c;2=n21,c", d=d) for d in ds] + [CI("switch", s="0=n1,n2,c;1=n11,e;2=n21,c", d=d) for d in ds]
        + [CI("switch", s="0=n1,n2,n1,e;1=n11;2=n21,n22", d=d) for d in ds],
    "zip": lambda ds: [CI(o, 2, s="0=n1,n2,c;1=n11,n12,c", d=d) for o in COMB for d in ds] + [CI(o, 3, s="0=n1,n2;1=n11,c;2=n21,e", d=d) for o in COMB for d in ds[:1]],
    "tu": lambda ds: [CI("take_until", s="0=n1,n2,c;1=%s" % x, d=d) for x in ("n11", "c", "e") for d in ds],
    "retry": lambda ds: [CI("retry", 1, s="0=n1,e/n2,e", d=d) for d in ds] + [CI("repeat", 2, s="0=n1,c/n2,c", d=d) for d in ds]
        + [CI("retry_when", s="0=n1,e/n2,c;1=n11", d=d) for d in ds] + [CI("oern", s="0=n1,e;1=n11,c", d=d) for d in ds],
    "delay": lambda ds: [CI(o, p, s="0=n1,w1,n2,%s" % t, d=d) for o in ("delay", "observe_on") for p in (0, 1, 2) for t in "ce" for d in ds],
    "rate": lambda ds: [CI("debounce", p, s="0=n1,w1,n2,w1,n3,w2,n4,%s" % t, d=d) for p in (0, 1, 2) for t in "ce" for d in ds],
    "rates": lambda ds: [CI("debounce", p, s="0=%s,%s" % (x, t), d=d, re=r) for p in (1, 2) for x in ("n1,w1", "n1,n2,w2", "n1,w2,n2,w1", "n1,w1,n2,n3,w2,n4") for r in (None, ("slow", 1), ("slow", 3)) for t in "ce" for d in ds],
    "inline": lambda ds: [CI(o, p, s="0=%s,%s" % (x, t), d=d, re=r, impl=o + "_" + im) for o in ("debounce", "delay", "observe_on") for im in ("imm", "ct") for p in (0, 2) for x in ("n1,w1,n2", "n1,n2,w2,n3") for r, t in ((None, "c"), (("slow", 1), "e")) for d in ds],
    "delays": lambda ds: [CI(o, p, s="0=%s,%s" % (x, t), d=d, re=("slow", n)) for o in ("delay", "observe_on") for p in (0, 1, 2) for n in (1, 3) for x, t in (("n1,w1,n2", "e"), ("n1,n2,w2,n3", "c")) for d in ds],
    "tmo": lambda ds: [CI(o, p, s="0=n1,w1,n2,w2,n3,%s;1=n11,c" % t, d=d) for o in ("timeout", "timeout_fb") for p in (1, 2, 3) for t in "ce" for d in ds],
    "tick": lambda ds: [CI("interval", 1, 2, s="-", d="d5")] + [CI("interval", a, b, re=("slow", n), d="d%d" % (a + 4 * b)) for a, b in ((0, 3), (2, 2), (1, 3)) for n in (1, 2, 4)] + [CI("timer", 1, re=("slow", 2), d="-")] + [CI("timer", 2, s="-", d=d) for d in ds],
    "fin": lambda ds: [CI("finally", k, s="0=n1,n2,%s" % t, d=d) for k in (0, 1, 2) for t in ("c", "e", "n3") for d in ds] + [CI("finally", 0, s="0=~n1,c", d=d) for d in ds]
        + [CI("take_until", s="0=%s;1=%s" % (a, b), d=d, impl="finally_tu") for a in ("n1,c", "~n1,c", "~n1,e", "n1,n2") for b in ("~n11", "~n11,c", "~c", "~e", "n11", "c", "e") for d in ds],
    "subon": lambda ds: [CI("subscribe_on", s="0=n1,c", d=d) for d in ds] + [CI("subscribe_on", s="0=~n1,c", d=d) for d in ds] + [CI("subscribe_on", s="0=n1,e", d=d) for d in ds],
}
def K_(part, groups, ds, secs=10, **kw):
    its = [i for g in groups for i in CC[g](ds if g not in ("delay", "delays", "rate", "rates", "inline", "tmo", "tick") else [{"d": "d1"}.get(d, d) for d in ds])]
    return conc_ops(part, its, secs=secs, **kw)
ALLG = ("merge", "concat", "switch", "zip", "tu", "retry", "delay", "rate", "tmo", "subon")

TIMED = ("delay", "observe_on", "debounce", "throttle", "timeout", "timeout_fb")
MULTI_BASE = merge_cfgs(False) + concat_cfgs(False) + switch_cfgs(False) + tu_cfgs(False) + retry_cfgs(False)

PROPS = {
    "C01": [U_("unary operators with misbehaving sources", unary_all((None, ("throw", 2)), True), after=3, q=5, t=6, args=(0, 3)),
            M_("multi-source operators with misbehaving sources", MULTI_BASE + zip_cfgs(False)[::2], q=4, t=6, after=2, dead=3, args=(0,)),
            M_("timed operators with misbehaving sources", timed_cfgs(TIMED, (1,)), q=5, t=7, after=2, dead=3, args=(0,))],
    "C02": [U_("unary operators: disposal", unary_all((None, ("dispose", 1), ("dispose", 2))), args=(0, 3)),
            M_("multi-source operators: disposal", merge_cfgs() + concat_cfgs() + switch_cfgs() + tu_cfgs() + retry_cfgs() + zip_cfgs()[::3], q=4, t=6, args=(0,), after=2),
            M_("timed operators: disposal", timed_cfgs(TIMED, (1, 2)) + tick_cfgs() + [mcfg("subscribe_on")], q=5, t=7, args=(0,))],
    "C03": [K_("sources on their own threads", ALLG, ("-",), secs=24, cap=900), K_("sources on their own threads, observer disposes", ("merge", "concat", "switch", "zip"), ("r2",), secs=6)],
    "C04": [U_("throwing callbacks", [ucfg(o, re=r) for o in throwing_ops() for r in (None, ("throw", 2))] + [ucfg(o, re=("throw", n)) for o in elem_ops() + aggr_ops() for n in (1, 2)], q=5, t=6),
            M_("throwing callbacks of multi-source operators", [c for c in merge_cfgs() + concat_cfgs() + switch_cfgs() + zip_cfgs() + tu_cfgs() + retry_cfgs() if c["thr"] != -1 or c["re"]["k"] == "throw"]
               + timed_cfgs(TIMED, (1,), (("throw", 1),)), q=5, t=6)],
    "C05": [U_("element-wise operators", [ucfg(o, re=r) for o in elem_ops(True) for r in (None, ("dispose", 1), ("throw", 2))])],
    "C06": [U_("aggregating operators", [ucfg(o, re=r) for o in aggr_ops(True) for r in (None, ("dispose", 1), ("throw", 1))] + [ucfg(st("buffer", n)) for n in (4, 5)] + [ucfg(st("take_last", 4))], q=6, t=8)],
    "C07": [M_("merge family", merge_cfgs(), q=5, t=7),
            K_("merge: sources on their own threads", ("merge",), ("-", "d"))],
    "C08": [M_("concat family", concat_cfgs(), q=6, t=7),
            K_("concat: sources on their own threads", ("concat",), ("-", "d"))],
    "C09": [M_("switch_on_next", switch_cfgs(), q=6, t=7),
            K_("switch: sources on their own threads", ("switch",), ("-", "d"))],
    "C10": [M_("combining by position", zip_cfgs(), q=5, t=6),
            K_("zip: sources on their own threads", ("zip",), ("-", "d"))],
    "C11": [M_("take_until", tu_cfgs(), q=6, t=8, dead=2),
            K_("tu: sources on their own threads", ("tu",), ("-", "d"))],
    "C12": [M_("resubscribing operators", retry_cfgs(), q=6, t=8, maxsubs=5),
            K_("retry: sources on their own threads", ("retry",), ("-", "d"))],
    "C13": [G_("publish subject", "SeqSubject", publish_cfgs, "rp_subject", SUBJ_INV),
            gen("publish subject: many observers", "SeqSubject", crowd_cfgs(), "rp_subject", args=(0, 1), invariants=SUBJ_INV, asan=True)],
    "C14": [G_("behavior subject", "SeqSubject", beh_cfgs, "rp_subject", SUBJ_INV), G_("replay subject", "SeqSubject", rep_cfgs, "rp_subject", SUBJ_INV)],
    "C15": [conc_subj("publish subjects", ("pub",), secs=14), conc_subj("behavior subjects", ("beh",), secs=10, cap=250), conc_subj("replay subjects", ("rep",), secs=12, cap=160)],
    "C16": [G_("connectable histories", "SeqConn", conn_cfgs, "rp_conn", CONN_INV), conc_conn("connectables shared by threads", secs=12)],
    "C17": [G_("composite histories", "SeqDisp", comp_cfgs, "rp_disp", DISP_INV), conc_disp("composites shared by threads", "comp", secs=12)],
    "C18": [G_("reference-counting histories", "SeqDisp", refc_cfgs, "rp_disp", DISP_INV), conc_disp("references shared by threads", "ref", secs=12)],
    "C19": [G_("group_by histories", "SeqGroup", group_cfgs, "rp_group", GROUP_INV), conc_group("groups shared by threads", "group", secs=12)],
    "C20": [G_("window histories", "SeqGroup", window_cfgs, "rp_group", GROUP_INV), G_("window_toggle histories", "SeqGroup", toggle_cfgs, "rp_group", GROUP_INV),
            conc_group("windows shared by threads", "window", secs=8), conc_group("toggled windows shared by threads", "toggle", secs=10)],
    "C21": [sched_part(n + " scheduler histories", k) for n, k in (("immediate", "imm"), ("current_thread", "cur"), ("test", "test"), ("run_loop", "loop"))]
        + [conc_sched("threaded workers", "thread", secs=8, cap=40)],
    "C22": [conc_sched("one worker", "thread", secs=14), conc_sched("several workers", "pool", secs=14)],
    "C23": [sched_part("current_thread histories", "cur"), trampolined("operators over default-scheduled sources", 300, 6000), conc_sched("current_thread on several threads", "cur", secs=8)],
    "C24": [sched_part("run_loop histories", "loop"), conc_sched("run_loop shared by threads", "loop", secs=14)],
    "C25": [M_("delay and observe_on", timed_cfgs(("delay", "observe_on"), (0, 1, 2), (None, ("dispose", 1), ("throw", 1)), (None, {0: ["n1,n2,c"]}, {0: ["n1,e"]})), q=6, t=8),
            M_("delay and observe_on with observers that take time", timed_cfgs(("delay", "observe_on"), (0, 1, 2), (("slow", 1), ("slow", 2)), (None, {0: ["n1,n2"]})), q=5, t=7),
            K_("delay: sources on their own threads", ("delay", "delays"), ("-", "d"), secs=12),
            K_("delay: emissions inside the emitting call", ("inline",), ("-", "d", "r2"), secs=6)],
    "C26": [M_("debounce and throttle", timed_cfgs(("debounce", "throttle"), (0, 1, 2, 3), (None, ("dispose", 1), ("throw", 1)), (None, {0: ["n1,n2,c"]}, {0: ["n1"]})), q=6, t=8),
            M_("debounce and throttle with observers that take time", [mcfg(o, n, re=r, sc=x, vals=[{1, 2}]) for o in ("debounce", "throttle") for n in (0, 1, 2) for r in (None, ("slow", 1), ("slow", 2)) for x in (None, {0: ["n1,n2"]})], q=5, t=7),
            K_("rate: sources on their own threads", ("rate", "rates"), ("-", "d"), secs=12),
            K_("rate: emissions inside the emitting call", ("inline",), ("-", "d", "r2"), secs=6)],
    "C27": [M_("timeout", timed_cfgs(("timeout", "timeout_fb"), (1, 2, 3), (None, ("dispose", 1), ("throw", 1)), (None, {0: ["n1"]}, {1: ["n11,c"]})), q=6, t=8),
            K_("tmo: sources on their own threads", ("tmo",), ("-", "d"))],
    "C28": [M_("interval and timer", tick_cfgs(), q=9, t=14),
            K_("tick: sources on their own threads", ("tick",), ("-", "d"))],
    "C29": [M_("subscribe_on (virtual time)", [mcfg("subscribe_on"), mcfg("subscribe_on", sc={0: ["n1,n2,c"]}), mcfg("subscribe_on", sc={0: ["n1,e"]}), mcfg("subscribe_on", re=("dispose", 1))], q=6, t=8),
            K_("subscribe_on: sources on their own threads", ("subon",), ("-", "d"))],
    "C30": [conc_block("blocking subscriptions", secs=16)],
    "C31": [G_("creating sources", "SeqSource", source_cfgs, "rp_source", SRC_INV), trampolined("operators over default-scheduled sources", 300, 6000)],
    "C32": [seq_unary_of("finally and tap", lambda ctx: finally_cfgs(ctx.rnd, 80 if ctx.quick else 400), 5, 6),
            K_("finally with threads", ("fin",), ("-", "d", "r1", "r2"), secs=10)],
    "C33": [indep("two subscriptions of one operator", [ucfg(o, re=r) for o in elem_ops(True) + aggr_ops(True) for r in (None, ("dispose", 1))], False, (6, 7), late=3),
            indep("two subscriptions of one chain", lambda c: chain_cfgs(c.rnd, 60 if c.quick else 300), False, (6, 7)),
            indep("two subscriptions of one pipeline with several sources", MULTI_BASE + zip_cfgs(False) + [c for c in merge_cfgs() + concat_cfgs() + retry_cfgs() if c["sc"]], True, (5, 6)),
            indep("two subscriptions of one timed pipeline", timed_cfgs(("delay", "observe_on", "debounce", "throttle", "timeout"), (1, 2), (None, ("dispose", 1))) + tick_cfgs()[:6], True, (6, 7)),
            indep("finally and tap of two subscriptions", lambda ctx: finally_cfgs(ctx.rnd, 10 if ctx.quick else 80), False, (5, 6)),
            conc_indep("threads sharing one operator object", [ucfg(o, re=r) for o in elem_ops(True) + aggr_ops(True) for r in (None, ("dispose", 1))], False, (200, 2000)),
            conc_indep("threads sharing one chain", lambda c: chain_cfgs(c.rnd, 60 if c.quick else 300), False, (80, 1000)),
            conc_indep("threads sharing one pipeline with several sources", MULTI_BASE + zip_cfgs(False), True, (300, 3000))],
    "C34": [gen("Qt scheduler histories", "SeqQt", lambda ctx: qt_cfgs(ctx.quick), "rp_qt", args=(0, 1, 2), invariants=QT_INV, tkw=QT_TKW),
            gen("Qt signal histories", "SeqSubject", lambda ctx: sig_cfgs(ctx.quick), "rp_signal", args=(0, 1, 2), invariants=SUBJ_INV, tkw=QT_TKW)],
    "C35": [conc_strand("strands on one or two threads", secs=16)],
    "C36": [gen("gRPC adapter histories", "SeqGrpc", lambda ctx: grpc_cfgs(ctx.quick), "rp_grpc", args=(0, 1), invariants=GRPC_INV, tkw=GRPC_TKW),
            conc_grpc("gRPC reactions and emissions on several threads", secs=12)],
    "C37": [chains(150, 1200, 5, 6), ],
    "C38": [K_("disposal from another thread", ALLG + ("tick",), ("d",), secs=20, cap=900), K_("disposal from inside a callback", ("merge", "concat", "switch", "zip", "tu", "retry", "delay"), ("r1", "r2"), secs=10, cap=600)],
}

_SEQ = ("TLA+ specification enumerated by TLC; every enumerated behaviour replayed into the real library", None)
_CON = ("TLA+ specification; executions of the real library under a controlled scheduler recorded and validated against it with TLC",
        "The specification is checked by TLC together with the recorded executions; the code is bound by validating every execution explored (random, PCT and bounded depth-first schedules at the granularity of memory accesses and synchronization operations, sequentially consistent memory). Trusts TLC, the scheduler (harness/vsched.cpp) and the scenario driver.")
_BOTH = ("TLA+ specifications: behaviours enumerated by TLC replayed into the real library, and executions under a controlled scheduler validated against the specification",
         "Sequential part exhaustive within the stated bounds; concurrent part validates every execution explored by the controlled scheduler (random, PCT, bounded depth-first; sequentially consistent values, data races judged by happens-before). Trusts TLC, the scheduler and the drivers.")
NOTES = {p: _BOTH for p in ("C07", "C08", "C09", "C10", "C11", "C12", "C16", "C17", "C18", "C19", "C20", "C21", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C32", "C33", "C36")}
NOTES.update({p: _CON for p in ("C03", "C15", "C22", "C35", "C30", "C38")})
