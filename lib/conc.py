"""Concurrent components: schedules of the real code are explored under the controlled scheduler, and every
distinct recorded execution is validated by TLC against the specification."""
from seq import *
import vsrun

def validate(module, configs, traces, mem="6g", timeout=600, invariants=(), extra_consts=None):
    """traces: [{'c': 1-based configuration index, 'ev': [...]}] -> (set of rejected indices, Tlc)"""
    if not traces:
        return set(), None
    text = "\n".join(json.dumps({"c": t["c"], "ev": t["ev"]}) for t in traces) + "\n"
    consts = dict(Configs=configs, File="traces.ndjson")
    consts.update(extra_consts or {})
    r = tlc(module, consts, invariants=["Accepted"] + list(invariants), aux={"traces.ndjson": text}, mem=mem, timeout=timeout)
    if not r.ok:
        raise CheckError("%s: invariant %s violated during trace validation\n%s" % (module, r.violated, r.out[-1500:]))
    acc = {p["acc"] for p in r.prints if isinstance(p, dict) and "acc" in p}
    return {i for i in range(len(traces)) if i + 1 not in acc}, r

def corrupt(ev, rnd):
    """a recorded execution with one observation duplicated: must be rejected"""
    ev = [dict(e) for e in ev]
    once = [i for i, e in enumerate(ev) if e["k"] in ("on", "off")]
    if once:  # these happen exactly once each
        i = rnd.choice(once)
        return ev[:i] + ev[i + 1:] if rnd.random() < 0.5 else ev[:i + 1] + [ev[i]] + ev[i + 1:]
    idx = [i for i, e in enumerate(ev) if e["k"] == "cb"]
    if not idx:
        idx = [i for i, e in enumerate(ev) if e["k"] in ("r", "w", "n") and "t" in e]
        if not idx:
            return None
        i = rnd.choice(idx)
        return ev[:i + 1] + [ev[i]] + ev[i + 1:]
    i = rnd.choice(idx)
    j = next(k for k in range(i, len(ev)) if ev[k]["k"] == "cbe" and ev[k]["t"] == ev[i]["t"])
    return ev[:j + 1] + [ev[i], ev[j]] + ev[j + 1:]

def conc(part, module, target, scenario, cases, secs=8, cap=400, modes=("mix",), invariants=(), canary=True, norm=None, explore_extra=(), spec_cfg=None, mem="6g",
         consts=None, relaxed=None):
    """cases: list of (configuration record for TLC, scenario argument).  secs: exploration wall time in total.
    relaxed: (constants of the specification with the recorded deviation, its key): an execution that only this one explains is the known finding."""
    def f(ctx):
        name, mk = target
        exe = built(name, mk)
        s = secs if ctx.quick else secs * 12
        c_ = cap if ctx.quick else cap * 10
        per = s / len(cases)
        all_, bad, nruns = [], [], 0
        configs = [c for c, _ in cases]
        for i, (c, a) in enumerate(cases):
            tr, n, comp = vsrun.explore(exe, scenario, a, per, seed=ctx.seed, modes=modes, maxdistinct=max(20, (c_ + NCPU - 1) // NCPU), extra=explore_extra)
            nruns += n
            for x in tr:
                x["c"] = i + 1
                if x["end"] != "ok":
                    bad.append((x, "run ended with " + x["end"]))
                else:
                    if norm:
                        x["ev"] = norm(x["ev"])
                    all_.append(x)
        canaries = []
        if canary:
            for x in all_[:: max(1, len(all_) // 12)]:
                ev = corrupt(x["ev"], ctx.rnd)
                if ev is not None and not any(e.get("a") == "d" or e["k"] == "nocanary" for e in ev):
                    canaries.append({"c": x["c"], "ev": ev})
        rej, r = validate(module, [spec_cfg(c) if spec_cfg else c for c in configs], all_ + canaries, invariants=invariants, mem=mem, extra_consts=consts)
        missed = [i for i in range(len(all_), len(all_) + len(canaries)) if i not in rej]
        if missed:
            raise CheckError("%s: corrupted executions were accepted: the binding is broken (%s)" % (part, all_ and canaries[missed[0] - len(all_)]))
        dev = [i for i in sorted(rej) if i < len(all_)]
        rej2 = dev
        if relaxed and dev:
            rj, _ = validate(module, [spec_cfg(c) if spec_cfg else c for c in configs], [all_[i] for i in dev], invariants=invariants, mem=mem, extra_consts=relaxed[0])
            rej2 = [dev[j] for j in sorted(rj)]
            if len(rej2) < len(dev):
                x = all_[[i for i in dev if i not in rej2][0]]
                ctx.violation("%s: %d of %d executions show the deviation %s" % (part, len(dev) - len(rej2), len(all_), relaxed[1]),
                              "scenario: %s %s\nevents:\n%s\nschedule: %s" % (scenario, x["args"], "\n".join(json.dumps(e) for e in x["ev"]), " ".join(vsrun.rerun_cmd(exe, x))), key=relaxed[1])
        for i in rej2:
            if i < len(all_):
                bad.append((all_[i], "no behaviour of the specification explains this execution"))
        ctx.add(part, r.distinct if r else 0, r.generated if r else 0, len(all_), nruns,
                [{"scenario": scenario, "args": x["args"], "events": x["ev"][:40]} for x in all_[len(all_) // 2:][:1]],
                scenarios=len(cases), deviating=len(dev) - len(rej2), corrupted_rejected=len(canaries), tlc_wall=round(r.wall, 1) if r else 0)
        for x, why in bad[:4]:
            again = vsrun.rerun(exe, x, explore_extra)
            if again is None:
                raise CheckError("%s: schedule could not be run again: %s" % (part, " ".join(vsrun.rerun_cmd(exe, x))))
            ok = again["end"] == "ok"
            if ok:
                ev = norm(again["ev"]) if norm else again["ev"]
                rj, _ = validate(module, [spec_cfg(c) if spec_cfg else c for c in configs], [{"c": x["c"], "ev": ev}], invariants=invariants, extra_consts=relaxed[0] if relaxed else consts)
                ok = not rj
            if ok:
                raise CheckError("%s: rejected execution did not repeat: %s" % (part, " ".join(vsrun.rerun_cmd(exe, x))))
            ctx.violation("%s: %s (%d of %d executions)" % (part, why, len(bad), len(all_)),
                          "scenario: %s %s\nevents:\n%s\nend: %s\nschedule: %s" % (scenario, x["args"], "\n".join(json.dumps(e) for e in x["ev"]), x["end"], " ".join(vsrun.rerun_cmd(exe, x))),
                          key=part + "|" + x["args"])
            if ctx.viol:
                return
    return f

# ------------------------------------------------------------------ operators
def ops_cases(items):
    """items: (mcfg, scripts, dispose)"""
    out = []
    for c, scr, dis in items:
        sc = M.spec_cfg(c)
        if c["_impl"] == "finally_tu":
            sc["fin"] = 1
        slow = sc["re"]["n"] if sc["re"]["k"] == "slow" else 0 # (in recorded executions the time taken is recorded)
        sc = dict(sc, lazy=1, re={"k": "none", "n": 0} if slow else sc["re"])
        a = "%s%s %s %d %s %s" % (c["_impl"], "!" if len(out) % 3 == 2 else "", ",".join(map(str, c["p"])) or "-", c["thr"], scr or "-", dis or "-") + (" %d" % slow if slow else "")
        out.append((sc, a))
    return out
def conc_ops(part, items, **kw):
    parts = M.parts_for([c for c, _, _ in items])
    return conc(part, "TraceOps", ("vs_ops_" + "_".join(parts), lambda: M.vs_ops_target(parts)), "op", ops_cases(items), invariants=["Released"], **kw)

# ------------------------------------------------------------------ subjects
def sj(kind, lim=0, ser=1, pre=1, threads="", re="-"):
    return (dict(kind=kind, lim=lim, ser=ser, pre=pre), "%s %d %d %d %s %s" % (kind, lim, ser, pre, threads, re))
SUBJ_T = ["n1,n2;n3,c", "n1,e;n2,c", "n1,n2;s3;s4,u3", "n1,c;s3;u1", "n1,n2,c;x;s3", "n1;n2;n3", "e;c;n1", "n1,n2;u1,s3;u2"]
def subj_cases(kinds=("pub",)):
    out = []
    for k in kinds:
        for lim in ((0, 2) if k == "rep" else (0,)):
            out += [sj(k, lim, 1, 2, t) for t in SUBJ_T]
            out += [sj(k, lim, 0, 2, t) for t in ("n1,n2,c;s3;u1", "n1,n2,e;s3,u3;x", "n1,n2;s3;s4;u2")]
            out += [sj(k, lim, 1, 2, "n1,n2;n3,c;s3", r) for r in ("1.1.u2", "1.1.s4", "2.1.u2", "2.2.x", "1.1.u1;2.1.s4")]
    return out
def conc_subj(part, kinds, **kw):
    return conc(part, "TraceSubject", ("vs_subject", lambda: M.vs_target("vs_subject.cpp")), "subject", subj_cases(kinds), invariants=["Present", "OneTurn"], consts=dict(Relaxed=False),
                relaxed=None if tuple(kinds) == ("pub",) else (dict(Relaxed=True), "retained-values-vs-delivery"), **kw)

# ------------------------------------------------------------------ disposables
def dj(kinds, pre, threads, re="-"):
    return (dict(kinds=kinds.split(",")), "%s %s %s %s" % (kinds, pre or "-", threads, re))
def disp_cases(which):
    out = []
    if which == "comp":
        k = "comp,leaf,leaf,leaf,comp"
        for t in ["a1.2,a1.3;d1", "a1.2;d1;a1.3", "a1.2,a1.3;c1;d1", "a1.2,r1.2;d1", "d1;d1;a1.2", "a1.2,c1;a1.3,d1", "r1.2;d1;r1.3", "c1;c1;a1.4", "a1.5,a5.2;d1;d5", "a5.4;a1.5;d1", "d2;d1;r1.2", "d2;a1.4;c1"]:
            for pre in ("", "a1.2,a1.3"):
                out.append(dj(k, pre, t))
        for r in ("2=a1.4", "2=c1", "2=r1.3", "2=d1", "3=a1.2;2=c1"):
            for t in ("d1;a1.4", "c1;d1", "c1;a1.4", "d2;c1"):
                out.append(dj(k, "a1.2,a1.3", t, r))
    else:
        k = "ref,leaf,leaf,in,in,in,in"
        for t in ["d4;d5", "d4,f1.6;d5", "d4;f1.6", "d4;f1.6,d6;d5", "d4;d4;d5", "f1.6,d6;f1.7,d7", "d1;d4;d5", "d1;f1.6", "d4;d5;a1.3", "a4.3;d4;d5", "a4.3;d1", "c1;d4;d5"]:
            for pre in ("a1.2,f1.4,f1.5", "f1.4,g1.5,a1.2"):
                out.append(dj(k, pre, t.replace("f1.7", "g1.7")))
        out += [dj(k, "a1.2,f1.4", "d4;f1.5", r) for r in ("2=d5", "2=d1", "2=f1.6", "2=c1")]
    return out
def conc_disp(part, which, **kw):
    return conc(part, "TraceDisp", ("vs_disp", lambda: M.vs_target("vs_disp.cpp")), "disp", disp_cases(which), invariants=["Empty", "Covers", "AtRest"], **kw)

# ------------------------------------------------------------------ connectables
def kj(mode, var, n, pre, threads):
    return (dict(mode=mode), "%s %d %d %s %s" % (mode, var, n, pre or "-", threads))
def conn_cases():
    out = []
    for var in (0, 1):
        for pre, ts in (("", ["s1;s2", "s1,u1;s2", "s1,u1;s2,u2", "s1;u1", "s1;u1;s2", "s1,u1,s3;s2,u2", "s1;s2;s3,u3"]), ("s1", ["u1;s2", "u1;s2,u2", "u1;s2;s3", "u1,s2;s3,u3", "u1;u1;s2"]), ("s1,s2", ["u1;u2;s3", "u1,s3;u2", "u1;u2", "u1;u2;s3,u3"])):
            out += [kj("ref", var, 3, pre, t) for t in ts]
        out += [kj("conn", var, 2, "s1", t) for t in ("k;k", "k,x;k", "k,x;k,x", "k;k;s2", "k,x,k;k,x")]
    return out
def conc_conn(part, **kw):
    return conc(part, "TraceConn", ("vs_conn", lambda: M.vs_target("vs_conn.cpp")), "conn", conn_cases(), invariants=["OneOpen", "Follows"], **kw)

# ------------------------------------------------------------------ group_by, window, window_toggle
def gj(mode, p, src, op="-", cl="-", threads="-", re="-"):
    return (dict(mode=mode, p=p), "%s %d %s %s %s %s %s" % (mode, p, src, op, cl, threads, re))
def group_cases(which):
    out = []
    if which == "group":
        for s in ("n1,n2,n3,n4,c", "n1,n3,n2,e", "n1,n2,n3"):
            out += [gj("group", 2, s, threads=t) for t in ("u0", "u1", "u0;u1", "u0,u1", "u1;u2", "u0;u1;u2", "u2;u0")]
            out += [gj("group", 2, s, threads=t, re=r) for t, r in (("u1", "2.1.u0"), ("u0", "1.1.u1"), ("u1", "0.2.u0"))]
    elif which == "window":
        for p in (1, 2, 3):
            for s in ("n1,n2,n3,n4,c", "n1,n2,n3,e"):
                out += [gj("window", p, s, threads=t) for t in ("u0", "u1", "u0;u1", "u0;u1;u2", "u2;u0")]
    else:
        for s, o in (("n11,n12,c", "n1,n2"), ("n11,n12,e", "n1,n2,c"), ("n11,n12", "n1,n2,e"), ("n11,n12,n13", "n1,n2")):
            for c in ("n1/c", "-/n1", "e/-", "~c/n1", "n1,n2/c"):
                out += [gj("toggle", 1, s, o, c, t) for t in ("-", "u0")]
            out += [gj("toggle", 1, s, o, "n1/c", t) for t in ("u1", "u0;u1", "u1;u2")]
            out += [gj("toggle", 1, s, o, "n1/-", t, r) for t, r in (("-", "1.1.u1"), ("u0", "1.1.u1"), ("u1", "2.1.u0"))]
    return out
def conc_group(part, which, **kw):
    return conc(part, "TraceGroup", ("vs_group", lambda: M.vs_target("vs_group.cpp")), "group", group_cases(which), invariants=["OneTurn", "Held"], **kw)

# ------------------------------------------------------------------ schedulers
def shj(kind, n, workers, kinds, beh, threads, var=0):
    return (dict(kind=kind, n={"new": workers, "pool": n, "comp": 8, "loop": 1, "cur": 1}[kind], kinds=kinds.split(",")),
            "%s %d %d %s %d %s %s" % (kind, n, workers, kinds, var, beh or "-", threads))
def sched_cases(which):
    out = []
    KS = ("now", "this", "to", "now,this,to")
    W0 = ["s1.0.0,s2.0.0,s3.0.0", "s1.0.2,s2.0.1,s3.0.0", "s1.0.1;s2.0.1;s3.0.0", "s1.0.5,w1,s2.0.1", "s1.0.5;w1,s2.0.1,s3.0.4", "s1.0.1,d1,s2.0.1", "s1.0.2,s2.0.2;d1;d2", "s1.0.0,s2.0.3;w1,d2", "s1.0.0,k0;s2.0.1"]
    W2 = ["s1.0.0,s2.1.0;s3.0.0,s4.1.0", "s1.0.1,s2.1.1;s3.0.0,s4.1.0", "s1.0.0,s2.1.0,s3.0.1;d1;d2", "s1.0.2,k0;s2.1.0,k1"]
    B = ["-", "1=a0/a0/-;2=-", "1=a1/a1/-;2=w2;3=a0/-", "1=x;2=w1+x;3=a1/x", "1=w2+a1/w3+a1/-;2=a1/-", "1=s4.0.0+a0/-;2=d1;3=d2", "1=c4.0+a0/-;4=c5.1+a0/-", "1=c4.1+c5.0;5=a1/-;2=c6.0+w1"]
    if which == "thread":
        for i, b in enumerate(B):
            out += [shj("new", 0, 1, k, b, t, i % 2) for k in KS[i % 4:][:1] + KS[3:] for t in W0]
    elif which == "pool":
        for i, b in enumerate(B):
            for kind, n in (("new", 0), ("pool", 1), ("pool", 2), ("comp", 0)):
                out += [shj(kind, n, 2, KS[i % 4], b, t, i % 2) for t in W2[(i + n) % 2::2]]
        for kind, n in (("new", 0), ("pool", 1), ("pool", 2), ("comp", 0)): # workers created by the threads that use them
            out += [shj(kind, n, 2, "now", b, t, 0) for b in ("-", "1=a0/-") for t in ("m0,s1.0.0;m1,s2.1.0", "m0,s1.0.1;m1,s2.1.0,k1", "m0,s1.0.0,m1,s2.1.0;w1,s3.0.0,s4.1.0")]
    elif which == "loop":
        T = ["s1.0.0,s2.0.0;g,g", "s1.0.1,s2.0.0;g,g", "s1.0.0;s2.0.1;g,g,g", "s1.0.5,w1,s2.0.1;g,g", "s1.0.1,s2.0.1;g;g", "s1.0.2,s2.0.2;g,g;y,w2,y", "s1.0.5;w1,s2.0.1;g;g", "s1.0.1,d1,s2.0.1;g,g", "s1.0.2;w1,d1;g", "y,s1.0.0,y,y;s2.0.0", "s1.0.1;g,y;g"]
        for i, b in enumerate(B[:6]):
            out += [shj("loop", 0, 1, KS[i % 4], b, t, i % 2) for t in T]
    elif which == "cur":
        T = ["c1.0,c2.0;c3.0", "c1.1,c2.0;c3.1;d2", "c1.2;d1", "c1.1;w1,d1;c2.0", "c1.0;d4"]
        BC = ["-", "1=c4.0+a0/-;4=c5.1+a0/-", "1=c4.1+c5.0;5=a1/-;2=c6.0+w1", "1=a1/a1/-;2=w2;3=a0/-", "1=c4.1+a1/a1/a1/-;2=x", "1=c4.2+c5.2"]
        for i, b in enumerate(BC):
            out += [shj("cur", 0, 0, k, b, t, i % 2) for k in (KS[i % 3], KS[3]) for t in T]
    return out
def conc_sched(part, which, **kw):
    return conc(part, "TraceSched", ("vs_sched", lambda: M.vs_target("vs_sched.cpp")), "sched", sched_cases(which), invariants=["OneAtATime", "Sorted"], **kw)

# ------------------------------------------------------------------ blocking subscriptions
def bj(var, scripts, dis="-"):
    ev = lambda s: [dict(x=e[0], v=int(e[1:] or 0)) for e in s.lstrip("~").split(",") if s.lstrip("~") != "-"]
    return (dict(scripts=[ev(s) for s in scripts.split(";")], skip=var == 2), "%d %s %s" % (var, scripts, dis))
def block_cases():
    out = []
    for var in range(7):
        out += [bj(var, s, d) for s in ("n1,n2,c", "n1,e", "c", "~n1,c", "~n1") for d in ("-", "d0")] + [bj(var, "n1,n2", "d0"), bj(var, "n1,n2,c", "r0.1"), bj(var, "n1,c", "r0.2"), bj(var, "-", "-")]
        out += [bj(var, "n1,c;n2,e"), bj(var, "n1,c;n2", "d1"), bj(var, "n1,c;~c;e", "d2")]
    return out
def conc_block(part, **kw):
    return conc(part, "TraceBlock", ("vs_block", lambda: M.vs_target("vs_block.cpp")), "block", block_cases(), invariants=["NotEarly"], **kw)

# ------------------------------------------------------------------ gRPC adapters
def grpc_items():
    out = []
    for k in ("cbidi", "sbidi", "cwrite", "swrite"):
        rs = ["21,22,-", "21,-"] if "bidi" in k else ["-"]
        for r in rs:
            us = ["p1,p2,p3,c", "p1,p2;p11,p12,c", "p1,e;p11,p12", "p1,c;p11,c"] + (["p1,p2,p3;x", "p1,c;x", "p1,p2;p11;x", "p1,e;x"] if k[0] == "s" else [])
            for u in us:
                for w in ("ok", "ok,no"):
                    out.append((dict(kind=k), "%s %s %s %s 0" % (k, u, r, w)))
        if k[0] == "c":
            out.append((dict(kind=k), "%s p1,p2,c %s ok 5" % (k, rs[0])))
    out += [(dict(kind="sread"), "sread x 21,22,- ok 0"), (dict(kind="sread"), "sread x 21,- ok 0")]
    return out
def conc_grpc(part, **kw):
    def norm(ev):
        return ev
    return conc(part, "TraceGrpc", ("vs_grpc", lambda: vs_target(["vs_grpc.cpp"], link=("-lgrpc++", "-lgrpc", "-lgpr", "-labsl_synchronization"))), "grpc", grpc_items(), invariants=("Complete",), **kw)

# ------------------------------------------------------------------ asio strand
def stj(threads, workers, kinds, beh, users, var=0):
    return (dict(threads=threads, kinds=kinds.split(",")), "%d %d %s %d %s %s" % (threads, workers, kinds, var, beh or "-", users))
def strand_cases():
    out = []
    KS = ("now", "this", "to", "now,this,to")
    W1 = ["s1.0.0,s2.0.0,s3.0.0", "s1.0.2,s2.0.1,s3.0.0", "s1.0.0,s2.0.0;s3.0.0", "s1.0.3,w1,s2.0.1", "s1.0.1,d1,s2.0.1", "s1.0.2,s2.0.2;d1;d2", "s1.0.0,s2.0.3;w1,d2", "s1.0.0,k0;s2.0.1"]
    W2 = ["s1.0.0,s2.1.0;s3.0.0,s4.1.0", "s1.0.1,s2.1.1;s3.0.0,s4.1.0", "s1.0.0,s2.1.0,s3.0.1;d1;d2", "s1.0.2,k0;s2.1.0,k1"]
    B = ["-", "1=a0/a0/-;2=-", "1=a1/a1/-;2=w2;3=a0/-", "1=w2+a1/w3+a1/-;2=a1/-", "1=s5.0.0+a0/-;2=d1;3=d2", "1=c5.0+a0/-;5=c6.1+a0/-", "1=c5.1+c6.0;6=a1/-;2=c7.0+w1"]
    for i, b in enumerate(B):
        for j, t in enumerate(W1):
            out.append(stj(1 + (i + j) % 2, 1, KS[(i + j) % 4], b, t, j % 2))
            out.append(stj(2 - (i + j) % 2, 1, KS[(i + j + 1) % 4], b, t, 0))
        for j, t in enumerate(W2):
            out.append(stj(2, 2, KS[(i + j) % 4], b, t, i % 2))
    return out
def conc_strand(part, **kw):
    return conc(part, "TraceExec", ("vs_strand", lambda: vs_target(["vs_strand.cpp"], extra=("-DASIO_DISABLE_TIMERFD", "-DASIO_DISABLE_EPOLL"))), "strand", strand_cases(), invariants=("OneAtATime",), **kw)

# ------------------------------------------------------------------ one pipeline object used by several threads
def conc_indep(part, cfgs, multi, pairs, runs=(12, 60), maxlen=4):
    """every thread replays a behaviour of its own of the specification, all on one pipeline object, under explored schedules"""
    import seq as S
    L = M if multi else U
    def f(ctx):
        cs = cfgs(ctx) if callable(cfgs) else cfgs
        n = pairs[0] if ctx.quick else pairs[1]
        inv = ["Grammar", "Silence"]
        if multi:
            k = dict(Configs=[M.spec_cfg(c) for c in cs], MaxLen=maxlen, After=0, MaxSubs=4, Dead=0)
        else:
            k = dict(Configs=cs, MaxLen=maxlen, After=0, Vals=frozenset((1, 2)))
        parts = M.parts_for([c for c in cs]) if multi else ()
        def tgt():
            return ([Unit("vsched.cpp", (), ("-O2",))] + [Unit("rp_unary.cpp", (d, "VSCHED"), VS) for d in ("PART1", "PART2", "PART3")]
                    + [Unit("multi_ops.cpp", (d, "VSCHED"), VS) for d in M.PARTS if d not in ("P_DELAY", "P_RATE", "P_TMO", "P_TICK", "P_FIN")] + [Unit("vs_indep.cpp", ("VSCHED",), VS)], ("-rdynamic",))
        r, exe = par(lambda: need(tlc("SeqMulti" if multi else "SeqUnary", k, invariants=inv + ["Emit_" if multi else "Emit"], mem="6g"), part), lambda: built("vs_indep", tgt))
        by = {}
        for b in r.prints:
            by.setdefault(b["c"], []).append(b["h"])
        jobs = []
        for i in range(n):
            c = list(by)[i % len(by)]
            # long histories say more
            hs = [max(ctx.rnd.sample(by[c], min(3, len(by[c]))), key=len) for _ in range(2 if i % 4 else 3)]
            text = L.cfg_text(c, cs[c - 1]).split(" ", 2)[2]
            args = " ; ".join(["m" if multi else "u", text] + [" ".join(L.step_text(x) for x in h) for h in hs])
            jobs.append((args, [L.expected(h) for h in hs]))
        def one(j):
            args, want = j
            tr, nr, _ = vsrun.explore(exe, "indep", args, 30, seed=ctx.seed, jobs=1, runs=runs[0] if ctx.quick else runs[1])
            bad = []
            for x in tr:
                got = [e["s"] for e in x["ev"] if e["k"] == "obs"]
                if x["end"] != "ok" or len(got) != len(want) or not all(L.same(a, b) for a, b in zip(want, got)):
                    bad.append((x, got))
            return nr, bad
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, jobs))
        total = sum(x for x, _ in res)
        for (args, want), (_, bad) in zip(jobs, res):
            if bad:
                x, got = bad[0]
                again = vsrun.rerun(exe, x)
                g2 = [e["s"] for e in again["ev"] if e["k"] == "obs"] if again else None
                if again is None or again["end"] != x["end"] or g2 != got:
                    raise CheckError("%s: schedule did not repeat: %s" % (part, " ".join(vsrun.rerun_cmd(exe, x))))
                ctx.violation("%s: a subscription does not behave as one of its own (%d executions)" % (part, len(bad)),
                              "scenario: indep %s\nspecification: %s\nobserved:      %s\nend: %s\nschedule: %s" % (args, want, got, x["end"], " ".join(vsrun.rerun_cmd(exe, x))),
                              key=part + "|" + args)
                break
        ctx.add(part, r.distinct, r.generated, total, total, [{"history": a, "observed": w} for a, w in jobs[len(jobs) // 2:][:1]],
                configurations=len(cs), groups_of_histories=len(jobs), tlc_wall=round(r.wall, 1))
    return f
