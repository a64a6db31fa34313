"""Sequential components of the generic form: module prints [c, h], h = sequence of [a |-> [k,i,v], o |-> outputs [k,i,v], f |-> flags]."""
from conc import *

def _v(x):
    if isinstance(x, (list, tuple)):
        return (";" if any(isinstance(y, (list, tuple, dict)) for y in x) else ",").join(_v(y) for y in x) if not any(isinstance(y, (list, tuple, dict)) for y in x) else ";".join(_v(y) for y in x)
    if isinstance(x, set):
        return ",".join(sorted(map(str, x)))
    if isinstance(x, dict):
        return ",".join(_v(y) for y in x.values())
    return str(x)
def gen_cfg(i, c):
    return "C %d %s" % (i, " ".join("%s=%s" % (k.lstrip("_"), _v(v)) for k, v in c.items()))
def gen_step(x):
    a = x["a"]
    return "%s:%s:%s" % (a["k"], a["i"], a["v"])
def gen_expected(h):
    return "|".join(" ".join("%s.%s.%s" % (o["k"], o["i"], o["v"]) for o in x["o"]) + "/" + ",".join(map(str, x["f"])) for x in h)
def gen_same(e, g):
    if e == g:
        return True
    if "*" not in e:
        return False
    a, b = e.split("|"), g.split("|")
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x != y:
            xo, _, xf = x.partition("/")
            yo, _, yf = y.partition("/")
            xf, yf = xf.split(","), yf.split(",")
            if xo != yo or len(xf) != len(yf) or any(p != q and p != "*" for p, q in zip(xf, yf)):
                return False
    return True

def gen_target(src, asan=False, flags=(), link=()):
    fl = list(RP) + list(flags) + (["-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if asan else [])
    return ([Unit(src, (), fl)], (["-fsanitize=address,undefined"] if asan else []) + list(link))

def gen(part, module, configs, driver, args=(0, 1, 2, 3), invariants=(), asan=False, mem="8g", consts=None, tkw=None, name=None):
    """configs: records; keys starting with '_' go to the driver only.  The configurations' maxima ('len') are their own."""
    tkw = tkw or {}
    def f(ctx):
        cs = configs(ctx) if callable(configs) else configs
        def t():
            cc = dict(Configs=[{k: v for k, v in c.items() if not k.startswith("_")} for c in cs])
            cc.update(consts or {})
            return need(tlc(module, cc, invariants=list(invariants) + ["Emit"], mem=mem, timeout=1500), part)
        r, exe = par(t, lambda: built((name or driver) + ("_asan" if asan else ""), lambda: gen_target(driver + ".cpp", asan, **tkw)))
        items = [("H %d " % b["c"] + " ".join(gen_step(x) for x in b["h"]), gen_expected(b["h"])) for b in r.prints]
        n = replay(ctx, part, exe, [gen_cfg(i + 1, c) for i, c in enumerate(cs)], items, gen_same, args)
        ctx.add(part, r.distinct, r.generated, len(items), n, [{"history": h, "observed": e} for h, e in items[len(items) // 2:][:2]],
                configurations=len(cs), max_events=max(c.get("len", 0) for c in cs), invariants=list(invariants), tlc_wall=round(r.wall, 1))
    return f

# ------------------------------------------------------------------ subjects
def re_(*rs):
    return [dict(o=o, n=n, k=k, i=i) for o, n, k, i in rs]
def scfg(kind, lim=0, dur=0, pre=0, max=3, len=5, re=()):
    return dict(kind=kind, lim=lim, dur=dur, pre=pre, max=max, len=len, nt=1 if kind == "beh" and any(x[2] == "sub" for x in re) else 0, re=re_(*re))
def subj_res():
    out = []
    for o in (1, 2, 3):
        for n in (1, 2):
            out += [((o, n, "unsub", i),) for i in (1, 2, 3)] + [((o, n, "sub", 0),), ((o, n, "dis", 0),)]
    out += [((1, 1, "unsub", 2), (3, 1, "unsub", 1)), ((1, 1, "sub", 0), (2, 1, "unsub", 3)), ((2, 1, "unsub", 2), (2, 1, "sub", 0)), ((1, 1, "sub", 0), (4, 1, "sub", 0)),
            ((1, 1, "dis", 0), (2, 1, "unsub", 1)), ((2, 1, "dis", 0), (2, 1, "sub", 0)), ((3, 1, "unsub", 3), (1, 2, "unsub", 1), (2, 2, "unsub", 2))]
    return out
SUBJ_INV = ("Grammar", "Once", "Present", "InOrder", "Bounded")
def publish_cfgs(q):
    return [scfg("pub", max=4, len=6 if q else 7)] + [scfg("pub", pre=3, max=5, len=3 if q else 4, re=r) for r in subj_res()]
def crowd_cfgs():
    """many observers: the observer list grows while it is being walked"""
    out = []
    for n in (31, 32, 33, 63, 64, 127, 128, 129, 160):
        out += [scfg("pub", pre=n, max=n + 40, len=2, re=[(1, 1, "sub", 0)] * 40), scfg("pub", pre=n, max=n + 2, len=2, re=[(1, 1, "unsub", 2), (n // 2, 1, "unsub", n)])]
    return out
def beh_cfgs(q):
    return [scfg("beh", max=3, len=5 if q else 6)] + [scfg("beh", pre=2, max=4, len=3 if q else 4, re=r) for r in subj_res() if all(x[0] < 3 and x[3] < 3 for x in r)]
def rep_cfgs(q):
    return ([scfg("rep", lim=l, max=2, len=5 if q else 6) for l in (0, 1, 2, 3)] + [scfg("rep", lim=l, dur=d, max=2, len=5 if q else 6) for l in (0, 2) for d in (1, 2)]
            + [scfg("rep", lim=2, pre=2, max=4, len=4, re=r) for r in subj_res()[::5] if all(x[0] < 3 and x[3] < 3 for x in r)])

# ------------------------------------------------------------------ disposables
def dcfg(kinds, acts, len=4, max=None, nest=0, re=()):
    return dict(kinds=kinds.split(), acts=set(acts.split()), max=max or 0, len=len, nest=nest, re=[dict(o=o, k=k, i=i, v=v) for o, k, i, v in re])
ALLC = "add addw rem clr dis drop"
def comp_cfgs(q):
    out = [dcfg("comp leaf leaf", ALLC, 4 if q else 5), dcfg("comp comp leaf", ALLC, 4 if q else 5, nest=1), dcfg("comp leaf", "add addw rem clr dis drop", 6 if q else 7), dcfg("comp leaf leaf leaf", "add dis clr", 5 if q else 6)]
    for o in (2, 3):
        for r in [("add", 1, 4), ("add", 1, 2), ("rem", 1, 3), ("rem", 1, 2), ("clr", 1, 0), ("dis", 1, 0), ("dis", 3, 0), ("dis", 4, 0), ("drop", 1, 0), ("drop", 3, 0), ("addw", 1, 4)]:
            out.append(dcfg("comp leaf leaf leaf", "add rem clr dis drop", 3 if q else 4, re=[(o,) + r]))
    out += [dcfg("comp leaf leaf leaf", "add clr dis", 4 if q else 5, re=[(2, "add", 1, 4), (3, "clr", 1, 0)]), dcfg("comp leaf leaf leaf", "add clr dis", 4 if q else 5, re=[(2, "clr", 1, 0), (3, "dis", 1, 0)]),
            dcfg("comp leaf comp leaf", "add clr dis", 3 if q else 4, nest=1, re=[(2, "add", 3, 4), (4, "dis", 1, 0)])]
    return out
def refc_cfgs(q):
    out = [dcfg("ref leaf", "ref refw dis drop add", 5 if q else 6, max=4), dcfg("ref", "ref refw dis drop", 6 if q else 7, max=4), dcfg("ref leaf leaf", "ref add rem clr dis drop", 4 if q else 5, max=5)]
    for r in [("dis", 1, 0), ("ref", 1, 0), ("refw", 1, 0), ("dis", 3, 0), ("dis", 4, 0), ("drop", 3, 0), ("drop", 1, 0), ("clr", 1, 0)]:
        out.append(dcfg("ref leaf", "ref refw dis drop add", 4 if q else 5, max=5, re=[(2,) + r]))
    return out
DISP_INV = ("Once", "Dead", "Empty", "Counted", "NoTmp")

# ------------------------------------------------------------------ connectables
def ccfg(mode, sc=(), len=6, max=3, maxa=3, re=()):
    ev = lambda a: [{"k": x[0], "v": int(x[1:]) if x[0] == "n" else 0} for x in a.split(",") if x != "-"]
    return dict(mode=mode, sc=[ev(a) for a in sc], len=len, max=max, maxa=maxa, re=re_(*re), _script=[a.split(",") for a in sc] if sc else "")
def conn_cfgs(q):
    out = []
    for m in ("conn", "ref"):
        out += [ccfg(m, len=6 if q else 7), ccfg(m, sc=["n7"], len=5 if q else 6), ccfg(m, sc=["n7", "n8,c"], len=5 if q else 6), ccfg(m, sc=["n7,e"], len=5), ccfg(m, sc=["c"], len=5)]
        for sc in ((), ["n7"], ["n7,n8,c"]):
            rs = [((o, n, "unsub", i),) for o in (1, 2) for n in (1, 2) for i in (1, 2)] + [((1, n, "sub", 0),) for n in (1, 2)] + [((1, 1, "unsub", 1), (1, 1, "sub", 0)), ((2, 1, "unsub", 1), (2, 1, "unsub", 2), (2, 1, "sub", 0))]
            if m == "conn":
                rs += [((1, 1, "disc", 0),), ((2, 1, "disc", 0),), ((1, 1, "disc", 0), (1, 1, "conn", 0)), ((2, 1, "conn", 0),)]
            out += [ccfg(m, sc=sc, len=4 if q else 5, max=4, re=r) for r in rs]
    return out
CONN_INV = ("OneLive", "Follows", "Present")

# ------------------------------------------------------------------ group_by, window, window_toggle
def gcfg(mode, p=2, len=5, auto=1, late=0, vals=(1, 2), max=4, maxw=3, at="", thr=-1, desc=0, sc=(), re=()):
    return dict(mode=mode, p=p, len=len, auto=auto, late=late, vals=set(vals), max=max, maxw=maxw, at=at, thr=thr, desc=desc, sc=[[k for k in s.split(",") if k != "-"] for s in sc], re=re_(*re),
                _script=[s.split(",") for s in sc] if sc else "")
def group_res(two):
    out = [[(0, n, "unsub", 0)] for n in (1, 2)] + [[(0, n, "throw", 0)] for n in (1, 2)] + [[(0, 1, "sub", 0)], [(0, 1, "sub", 0), (0, 1, "unsub", 0)], [(0, 2, "unsub", 1)], [(0, 2, "unsub", 1), (0, 2, "unsub", 0)]]
    for o in (1, 2):
        for n in (1, 2):
            out += [[(o, n, "unsub", i)] for i in (0, 1, 2)] + [[(o, n, "throw", 0)], [(o, n, "sub", 0)], [(o, n, "sub", 0), (o, n, "unsub", o)], [(o, n, "unsub", 0), (o, n, "unsub", o)]]
    return out
def group_cfgs(q):
    L = 5 if q else 6
    return ([gcfg("group", len=L, late=l, auto=a, desc=d, vals=(1, 2, 3), max=2 if l else 3) for l, a in ((0, 1), (1, 0), (1, 1)) for d in (0, 1)] + [gcfg("group", p=3, len=L, vals=(1, 2, 3))]
            + [gcfg("group", len=L, at=at, thr=t, vals=(1, 2, 3), auto=a) for at in ("key", "val") for t in (1, 3) for a in (1, 2)]
            + [gcfg("group", len=4 if q else 5, auto=a, late=l, re=r, vals=(1, 2, 3)) for r in group_res(True) for a, l in ((1, 1), (2, 0))])
def window_cfgs(q):
    L = 5 if q else 6
    return ([gcfg("window", p=p, len=L + (1 if a else 0), late=l, auto=a, vals=(1,), max=3) for p in (1, 2, 3) for l, a in ((0, 1), (0, 2), (1, 0), (1, 1))] + [gcfg("window", p=2, len=5, vals=(1, 2))]
            + [gcfg("window", p=p, len=4 if q else 6, auto=a, late=l, re=r, vals=(1,)) for p in (1, 2, 3) for r in group_res(False) for a, l in ((1, 1), (2, 0))])
def toggle_cfgs(q):
    L = 5 if q else 6
    return ([gcfg("toggle", len=L, late=l, auto=a, vals=(1,), max=3) for l, a in ((0, 1), (1, 0), (0, 2))] + [gcfg("toggle", len=L, vals=(1,), thr=t) for t in (1, 2)]
            + [gcfg("toggle", len=L, vals=(1,), sc=s) for s in (["n"], ["c"], ["e"], ["-", "n,n"], ["-", "e"], ["n,c", "-", "c"])]
            + [gcfg("toggle", len=4 if q else 5, auto=a, late=0, re=r, vals=(1,)) for r in group_res(False) for a in (1, 2)])
GROUP_INV = ("Held", "Keys", "OneWin")

# ------------------------------------------------------------------ schedulers
def hcfg(kind, menu, kinds="now this to", delays=(0, 1), max=3, ex=2, len=2):
    it = [m.split() for m in menu.split(";")]
    items = [(m[0], m[1] if m[0] != "-" else 0, m[2] if m[0] != "-" else m[1], m[-1] if "again" in m else 0) for m in it]
    ks = (kinds.split() * max)[:max]
    return dict(kind=kind, menu=[dict(op=o, x=int(x), res=r, d=int(d)) for o, x, r, d in items], kinds=ks, delays=set(delays), max=max, ex=ex, len=len, _items=[list(map(str, i)) for i in items])
def sched_cfgs(kind, q):
    out = []
    L = dict(imm=2, cur=2, test=4, loop=5)[kind] + (0 if q else 1)
    for ks in ("now", "this", "to", "now this to", "this to now", "to now this"):
        out += [hcfg(kind, "- none;- again 0;- again 1;- again 2", ks, len=L, ex=3 if kind in ("imm", "cur") else 2, max=2),
                hcfg(kind, "- none;sched 0 none;sched 1 again 1;sched 2 none;- again 1", ks, len=L - 1 if kind == "loop" else L, max=3),
                hcfg(kind, "- none;disp 1 again 1;disp 2 none;disp 3 again 0;- throw;sched 0 none", ks, len=L - (kind in ("loop", "test")), max=3)]
        if kind != "test":
            out.append(hcfg(kind, "work 1 none;work 2 again 1;work 3 again 2;sched 1 none;- again 1", ks, len=L - (kind == "loop"), max=3 if kind != "loop" else 2))
    if kind in ("imm", "cur"):
        out += [hcfg(kind, "- none;sched 0 again 1;sched 2 again 1;sched 1 none", ks, len=1, max=4, ex=2) for ks in ("this", "now", "to this")]
        out += [hcfg(kind, "- again 1;- again 2;- none", "this", len=2, ex=4, max=2), hcfg(kind, "sched 1 none;- again 1;work 2 again 1;- none", "this", len=1, ex=3, max=2)]
    return out
SCHED_INV = ("Sorted", "Drained", "NotNested", "DueRan")
def sched_part(part, kind):
    return gen(part, "SeqSched", lambda ctx: sched_cfgs(kind, ctx.quick), "rp_sched", args=(0, 1, 2), invariants=SCHED_INV)

# ------------------------------------------------------------------ Qt
def qcfg(menu, kinds="now this to", delays=(0, 1, 2), advs=(1, 2), max=3, ex=2, len=5, app=1):
    c = hcfg("qt", menu, kinds, delays, max, ex, len)
    c.update(advs=set(advs), app=app)
    return c
def qt_cfgs(q):
    out, L = [], 0 if q else 1
    for ks in ("now this to", "this to now", "to now this"):
        out += [qcfg("- none;- again 0;- again 1;- again 2;- again 3", ks, delays=(0, 3), max=2, len=5 + L, ex=2),
                qcfg("- none;work 1 none;work 3 again 1", ks, delays=(0, 1, 4), advs=(1, 3), max=2, len=5 + L),
                qcfg("- none;sched 0 none;sched 1 again 2;disp 2 none;disp 3 again 0", ks, delays=(0, 2), max=3, len=4 + L)]
    out += [qcfg("- none", "now", delays=(0, 1, 2, 3), max=3, len=6 + L, ex=1), qcfg("- none", "this", delays=(0, 8000, 8001), advs=(7700, 400, 1), max=2, len=6, ex=1),
            qcfg("- again 6000;- none", "this now to", delays=(0, 5000), advs=(4900, 5800, 200), max=2, len=5, ex=2), qcfg("- none", "now", delays=(0, 1), max=2, len=3, app=0)]
    return out
def sig_cfgs(q):
    return [scfg("sig", max=4, len=6 if q else 7)] + [scfg("sig", pre=3, max=5, len=3 if q else 5, re=r) for r in subj_res() if all(x[2] != "dis" for x in r)]
QT_INV = ("NotEarly", "Sorted", "DueRan")
QT_TKW = dict(flags=("-fPIC", "-I/usr/include/x86_64-linux-gnu/qt6", "-I/usr/include/x86_64-linux-gnu/qt6/QtCore"), link=("-lQt6Core",))

# ------------------------------------------------------------------ creating sources
def srccfg(kind, vs=(), ls=(), ev=(), md="cur", len=4, max=3, re=()):
    return dict(kind=kind, vs=list(vs), ls=[list(l) for l in ls], ev=[{"k": x[0], "v": int(x[1:] or 0)} for x in ev], md=md, len=len, max=max, re=re_(*re),
                _ls=";".join(",".join(map(str, l)) or "-" for l in ls))
def source_cfgs(q):
    out, L = [], (4 if q else 5)
    RE = [(), ((1, 1, "dis", 1),), ((1, 2, "dis", 1),), ((1, 2, "throw", 0),), ((1, 1, "sub", 0),), ((1, 1, "sub", 0), (2, 1, "dis", 1)), ((1, 1, "sub", 0), (1, 2, "dis", 2)), ((2, 1, "dis", 1),), ((1, 2, "sub", 0), (2, 2, "sub", 0))]
    for md in ("imm", "cur", "loop"):
        for re in RE:
            l = L + (1 if md == "loop" and not re else 0)
            out += [srccfg("just", range(1, n + 1), md=md, len=l, re=re) for n in (1, 2, 3, 4)]
            out += [srccfg("iter", range(1, n + 1), md=md, len=l, re=re) for n in (0, 2, 3)]
            out += [srccfg("defer", range(1, n + 1), md=md, len=l, re=re) for n in (0, 2)]
            out += [srccfg("concat", ls=x, md=md, len=l, re=re) for x in ([], [[1]], [[1, 2], [3]], [[], [1], []], [[1], [2], [3, 4]])]
    for re in RE[:5]:
        out += [srccfg(k, [5], len=3, re=re) for k in ("call", "callv", "callx")]
        out += [srccfg("create", ev=e, len=3, re=re) for e in (["n1", "n2", "c"], ["n1", "e7"], ["n1", "n2"], [], ["c"], ["n1", "c", "n2", "e5"], ["e4", "c"], ["n1", "n2", "n3", "c"])]
    out += [srccfg(k, len=3) for k in ("empty", "never", "error")]
    return out
SRC_INV = ("Grammar", "Documented", "Calls", "Finished")

# ------------------------------------------------------------------ gRPC adapters
def gr(kind, len=6, sub=1, max=2, maxp=3, re=()):
    return dict(kind=kind, len=len, sub=sub, max=max, maxp=maxp, re=re_(*re))
def grpc_cfgs(q):
    out = []
    L = 5 if q else 6
    for k in ("cbidi", "cwrite", "cread", "sbidi", "swrite", "sread"):
        out += [gr(k, len=L + (k not in ("cbidi", "sbidi"))), gr(k, len=L - 1, sub=2, max=3)]
        if k in ("cbidi", "sbidi"):
            for r in [((1, 1, "push", 1),), ((1, 1, "comp", 0),), ((1, 1, "err", 0),), ((1, 1, "unsub", 1),), ((1, 1, "unsub", 2),), ((2, 1, "unsub", 1),), ((1, 1, "push", 1), (1, 1, "comp", 0)), ((1, 1, "push", 1), (1, 2, "push", 2), (1, 2, "err", 0))]:
                out.append(gr(k, len=L, sub=2, max=2, maxp=1, re=r))
    return out
GRPC_INV = ("InOrder", "FinishOnce", "Complete", "Grammar")
GRPC_TKW = dict(link=("-lgrpc++", "-lgrpc", "-lgpr", "-labsl_synchronization"))
