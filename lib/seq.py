"""Sequential components: TLC enumerates behaviours of the specification, drivers replay them."""
from runner import *
import json, re
import unary as U, multi as M
from unary import st, cfg as ucfg
from multi import cfg as mcfg

_built = {}
def built(name, mk):
    if name not in _built:
        _built[name] = build({name: mk()})[name]
    return _built[name]

def par(*fs):
    with cf.ThreadPoolExecutor(len(fs)) as ex:
        return [f.result() for f in [ex.submit(f) for f in fs]]

def need(r, part):
    if not r.ok:
        raise CheckError("%s: the specification itself violates %s\n%s" % (part, r.violated, r.out[-1500:]))
    return r

def strip_c(b):
    return b

def seq_unary(part, cfgs, maxlen=5, after=1, vals=(1, 2, 3), args=(0, 1, 2, 3), asan=False):
    def f(ctx):
        inv = ["Grammar", "Silence", "Propagates", "Finals", "Emit"]
        def t():
            return need(tlc("SeqUnary", dict(Configs=cfgs, MaxLen=maxlen, After=after, Vals=frozenset(vals)), invariants=inv, mem="6g"), part)
        r, exe = par(t, lambda: built("rp_unary" + ("_asan" if asan else ""), lambda: U.target(asan)))
        items = [("H %d " % b["c"] + " ".join(U.step_text(x) for x in b["h"]), U.expected(b["h"])) for b in r.prints]
        n = replay(ctx, part, exe, [U.cfg_text(i + 1, c) for i, c in enumerate(cfgs)], items, U.same, args)
        ctx.add(part, r.distinct, r.generated, len(items), n, [{"history": h, "observed": e} for h, e in items[len(items) // 2:][:2]],
                configurations=len(cfgs), max_events=maxlen, invariants=inv, tlc_wall=round(r.wall, 1))
    return f

def seq_multi(part, cfgs, maxlen=5, after=1, maxsubs=4, dead=1, args=(0, 3), asan=False):
    def f(ctx):
        inv = ["Grammar", "Silence", "Released", "Emit_"]
        def t():
            return need(tlc("SeqMulti", dict(Configs=[M.spec_cfg(c) for c in cfgs], MaxLen=maxlen, After=after, MaxSubs=maxsubs, Dead=dead),
                            invariants=inv, props=["NoRevival"], mem="8g"), part)
        r, exe = par(t, lambda: built("rp_multi" + ("_asan" if asan else ""), lambda: M.target(asan)))
        items = [("H %d " % b["c"] + " ".join(M.step_text(x) for x in b["h"]), M.expected(b["h"])) for b in r.prints]
        n = replay(ctx, part, exe, [M.cfg_text(i + 1, c) for i, c in enumerate(cfgs)], items, M.same, args)
        ctx.add(part, r.distinct, r.generated, len(items), n, [{"history": h, "observed": e} for h, e in items[len(items) // 2:][:2]],
                configurations=len(cfgs), max_events=maxlen, invariants=inv + ["NoRevival"], tlc_wall=round(r.wall, 1))
    return f

def tramp_cfgs(rnd, n):
    """operators over default-scheduled sources; seeded choice of their values"""
    out = []
    L = lambda b: [b + i + 1 for i in range(rnd.choice((0, 1, 1, 2, 2, 3, 4)))]
    ops = [("merge",), ("flat_map",), ("merge_with", 2), ("merge_with", 3), ("concat",), ("concat_src", 0, 1), ("concat_src", 0, 1, 2), ("start_with_obs", 1, 0), ("switch",), ("zip", 2), ("zip", 3),
           ("combine_latest", 2), ("combine_latest", 3), ("with_latest_from", 2), ("with_latest_from", 3), ("take_until",), ("retry", 2), ("repeat", 2), ("repeat", 3), ("retry_when",), ("oern",)]
    seen = set()
    while len(out) < n:
        o = ops[len(out) % len(ops)]
        re = rnd.choice([None, None, None, ("dispose", 1), ("dispose", 2), ("throw", 2), ("dispose", 3)])
        outer = o[0] in ("merge", "flat_map", "concat", "switch")
        tr = [[rnd.choice((1, 2)) for _ in range(rnd.choice((0, 1, 2, 2, 3)))] if outer else L(0), L(10), L(20)]
        sc = {}
        if o[0] in ("retry", "retry_when", "oern"):
            sc = {0: [rnd.choice(("n1,e", "n1,n2,e", "e", "n5,c")) for _ in range(rnd.choice((1, 2)))] + [rnd.choice(("n5,c", "c", "n6"))]}
        elif rnd.random() < 0.3:
            sc = {rnd.choice((1, 2)): [rnd.choice(("n31,c", "n31,n32,c", "c", "e", "n31,e", "n31"))]}
        c = mcfg(*o, sc=sc, re=re)
        c["tr"] = tr
        k = json.dumps(c)
        if k not in seen or len(seen) > 20 * n:
            seen.add(k)
            out.append(c)
    return out
def trampolined(part, n_q, n_t, args=(0, 1, 2, 3)):
    def f(ctx):
        cs = tramp_cfgs(ctx.rnd, n_q if ctx.quick else n_t)
        inv = ["Grammar", "Queued", "Ends", "Emit_"]
        r, exe = par(lambda: need(tlc("SeqTramp", dict(Configs=[M.spec_cfg(c) for c in cs]), invariants=inv, mem="6g"), part), lambda: built("rp_multi", lambda: M.target()))
        items = [("H %d sub" % b["c"], " ".join(U.tok(o) for o in b["o"]) + "//" + ("D" if b["d"] else "L")) for b in r.prints]
        if len(items) != len(cs):
            raise CheckError("%s: %d behaviours of %d configurations" % (part, len(items), len(cs)))
        n = replay(ctx, part, exe, [M.cfg_text(i + 1, c) for i, c in enumerate(cs)], items, lambda e, g: e == re.sub("/[^/]*/", "//", g), args)
        ctx.add(part, r.distinct, r.generated, len(items), n, [{"history": M.cfg_text(i, cs[i - 1]), "observed": items[i - 1][1]} for i in (1, 2)], configurations=len(cs), invariants=inv, tlc_wall=round(r.wall, 1))
    return f
def finally_cfgs(rnd, n):
    F = lambda k: st("finally", k)
    taps = [st("tapm", m) for m in (1, 2, 3, 4, 5, 7)]
    out = [ucfg(*x, re=r) for x in [(F(0),), (F(0), F(1)), (F(0), F(1), F(2)), (F(0), st("map"), F(1))] + [(t,) for t in taps] + [(t, F(0)) for t in taps] + [(F(0), t) for t in taps]
           for r in (None, ("dispose", 1), ("dispose", 2), ("throw", 1), ("throw", 2))]
    pool = [x for x in elem_ops(True) + aggr_ops(True) if x["op"] not in ("buffer", "id", "start_with", "scan")] + [st("bufsum", 2)]
    early = [st("scan", 5), st("start_with", 7, 8)]
    for _ in range(n):
        k = rnd.choice((1, 2, 2, 3))
        ch = [rnd.choice(pool + taps) for _ in range(k)]
        nf = rnd.choice((1, 1, 2, 3))
        for i in range(nf):
            ch.insert(rnd.randrange(len(ch) + 1), F(i))
        if rnd.random() < 0.3:  # (what emits while being subscribed may end the subscription before a finally above it is reached)
            ch.insert(0, rnd.choice(early))
        out.append(ucfg(*ch, re=rnd.choice([None, None, ("dispose", 1), ("dispose", 2), ("throw", 1)])))
    return out
def seq_unary_of(part, mk, q, t):
    return lambda ctx: seq_unary(part, mk(ctx), maxlen=q if ctx.quick else t)(ctx)
def indep(part, cfgs, multi, total, late=2, vals=(1, 2), args=(0, 3), maxsubs=4):
    """two interleaved subscriptions of one pipeline: the product of two specifications of one"""
    L = M if multi else U
    def f(ctx):
        cs = cfgs(ctx) if callable(cfgs) else cfgs
        tot = total[0] if ctx.quick else total[1]
        inv = ["Grammar", "Silence"] + (["Released"] if multi else []) + ["Emit"]
        if multi:
            k = dict(Configs=[M.spec_cfg(c) for c in cs], MaxLen=9, After=0, MaxSubs=maxsubs, Dead=0, Total=tot, Late=late)
        else:
            k = dict(Configs=cs, MaxLen=9, After=0, Vals=frozenset(vals), Total=tot, Late=late)
        r, exe = par(lambda: need(tlc("IndepMulti" if multi else "IndepUnary", k, invariants=inv, props=["Alone"], mem="8g", timeout=1500), part),
                     lambda: built("rp_multi", lambda: M.target()) if multi else built("rp_unary", lambda: U.target()))
        items = []
        for b in r.prints:
            q, e = (b["h"], b["g"]), (L.expected_steps(b["h"]), L.expected_steps(b["g"]))
            at, line, want = [0, 0], [], []
            for w in b["o"]:
                ks = (0, 1) if w == 3 else (w - 1,)
                x = q[ks[0]][at[ks[0]]]
                line.append(L.step_text(x) + "@%d" % ks[0])
                for j in ks:
                    at[j] += 1
                want.append("#".join((e[j][at[j] - 1][0] if j in ks else "") + (e[j][at[j] - 1][1] if at[j] else "//L") for j in (0, 1)))
            if 2 in b["o"]:
                items.append(("H %d " % b["c"] + " ".join(line), "|".join(want)))
        n = replay(ctx, part, exe, [L.cfg_text(i + 1, c) for i, c in enumerate(cs)], items, lambda e, g: L.same(e, g), args)
        ctx.add(part, r.distinct, r.generated, len(items), n, [{"history": h, "observed": e} for h, e in items[len(items) // 2:][:2]],
                configurations=len(cs), steps=tot, invariants=inv + ["Alone"], tlc_wall=round(r.wall, 1))
    return f

# ------------------------------------------------------------------ configurations
def elem_ops(thr=False):
    T = lambda op, *p, t: [st(op, *p, thr=t)] if thr else []
    return ([st("id"), st("map"), st("filter"), st("take", 0), st("take", 1), st("take", 2), st("take", 3), st("skip", 0), st("skip", 1), st("skip", 2),
             st("take_while"), st("first"), st("element_at", 0), st("element_at", 1), st("element_at", 2), st("distinct"), st("duc"), st("duc_par"),
             st("tap"), st("scan", 5), st("scan_ns"), st("start_with", 7, 8), st("start_with"), st("start_with", 7)]
            + T("map", t=2) + T("filter", t=3) + T("take_while", t=2) + T("duc_par", t=2) + T("tap", t=2) + T("scan", 5, t=2) + T("scan_ns", t=2))
def aggr_ops(thr=False):
    T = lambda op, *p, t: [st(op, *p, thr=t)] if thr else []
    return ([st("last"), st("reduce", 5), st("reduce_ns"), st("buffer", 0), st("buffer", 1), st("buffer", 2), st("buffer", 3),
             st("take_last", 0), st("take_last", 1), st("take_last", 2), st("take_last", 3)]
            + T("reduce", 5, t=2) + T("reduce_ns", t=2) + T("reduce_ns", t=1))
def throwing_ops():
    return [st(op, *p, thr=t) for op, p in (("map", ()), ("filter", ()), ("take_while", ()), ("duc_par", ()), ("tap", ()), ("scan", (5,)), ("scan_ns", ()),
                                            ("reduce", (5,)), ("reduce_ns", ())) for t in (1, 2, 3)]
def chain_cfgs(rnd, n, lens=(2, 3), re=True, thr=True):
    """random chains over the stage library (seeded)"""
    pool = [x for x in elem_ops(thr) + aggr_ops(thr) if x["op"] not in ("buffer", "id")] + [st("bufsum", 2), st("bufsum", 3)]
    out = []
    for _ in range(n):
        k = rnd.choice(lens)
        r = rnd.choice([None, None, None, ("dispose", 1), ("dispose", 2), ("throw", 1)]) if re else None
        out.append(ucfg(*[rnd.choice(pool) for _ in range(k)], re=r))
    return out

A = [{1, 2}, {11}, {21}]
A1 = [{1}, {11}, {21}]
COMB = ("zip", "combine_latest", "with_latest_from")
def merge_cfgs(wide=True):
    c = [mcfg("merge", vals=A), mcfg("merge", sc={1: ["n11,c"], 2: ["n21"]}, vals=A), mcfg("merge", sc={0: ["n1,n2,c"]}, vals=A),
         mcfg("flat_map", vals=A), mcfg("flat_map", sc={1: ["n11,n12,c"], 2: ["n21,e"]}, vals=A),
         mcfg("merge_with", 2, vals=A1), mcfg("merge_with", 3, vals=A1)]
    if wide:
        c += [mcfg("merge", thr=2, vals=A), mcfg("merge", re=("dispose", 1), vals=A), mcfg("merge", re=("throw", 2), vals=A),
              mcfg("flat_map", thr=2, vals=A), mcfg("flat_map", re=("dispose", 2), sc={1: ["n11,n12,c"]}, vals=A),
              mcfg("merge_with", 2, sc={0: ["n1,c"]}, vals=A1), mcfg("merge_with", 2, sc={0: ["n1,c"], 1: ["n11,c"]}, vals=A1),
              mcfg("merge_with", 2, sc={0: ["e"]}, vals=A1), mcfg("merge_with", 2, re=("dispose", 2), vals=A1)]
    return c
def concat_cfgs(wide=True):
    c = [mcfg("concat", vals=A), mcfg("concat", sc={1: ["n11,c"], 2: ["c"]}, vals=A), mcfg("concat", sc={0: ["n1,n2,c"]}, vals=A),
         mcfg("concat_src", 0, 1, vals=A1), mcfg("concat_src", 0, 1, 0, vals=A1), mcfg("start_with_obs", 1, 0, vals=A1)]
    if wide:
        c += [mcfg("concat", re=("dispose", 1), vals=A), mcfg("concat", re=("throw", 1), vals=A), mcfg("concat_src", 0), mcfg("concat_src", 0, 1, 2, 1, sc={1: ["n11,c"]}, vals=A1),
              mcfg("concat_src", 0, 1, 2, 1, impl="concat_cont", sc={1: ["n11,c"]}, vals=A1), mcfg("concat_src", 0, 1, impl="concat_cont", sc={0: ["c"]}, vals=A1),
              mcfg("start_with_obs", 1, 2, 0, vals=A1), mcfg("concat", sc={0: ["n1,n2,n1,c"], 1: ["n11,c"], 2: ["n21,c"]}, vals=A)]
    return c
def switch_cfgs(wide=True):
    c = [mcfg("switch", vals=A), mcfg("switch", sc={1: ["n11,c"], 2: ["n21"]}, vals=A), mcfg("switch", sc={0: ["n1,n2,c"]}, vals=A)]
    if wide:
        c += [mcfg("switch", re=("dispose", 1), vals=A), mcfg("switch", re=("throw", 1), vals=A), mcfg("switch", sc={0: ["n1,n2"], 1: ["n11,e"]}, vals=A),
              mcfg("switch", sc={0: ["n1,n2,c"], 1: ["n11"], 2: ["n21,c"]}, vals=A)]
    return c
def zip_cfgs(wide=True):
    c = [mcfg(o, k, thr=-1, vals=A) for o in COMB for k in (2, 3)]
    if wide:
        c += [mcfg(o, k, thr=2, vals=A) for o in COMB for k in (2, 3)]
        c += [mcfg(o, 2, sc=s, vals=A) for o in COMB for s in ({0: ["n1,n2"]}, {1: ["n11,c"]}, {1: ["e"]})]
        c += [mcfg(o, 2, sc={0: ["n1,c"], 1: ["n11,c"]}, re=("dispose", 1), vals=A) for o in COMB]
        c += [mcfg(o, 2, re=("dispose", 1), vals=A1) for o in COMB] + [mcfg(o, 2, re=("throw", 1), vals=A1) for o in COMB]
    return c
def tu_cfgs(wide=True):
    c = [mcfg("take_until", vals=A)]
    if wide:
        c += [mcfg("take_until", sc={1: [x]}, vals=A) for x in ("n11", "c", "e")] + [mcfg("take_until", sc={0: ["n1,n2"]}, re=("dispose", 1), vals=A),
              mcfg("take_until", re=("throw", 2), vals=A), mcfg("take_until", sc={0: ["n1,c"]}, vals=A)]
    return c
def retry_cfgs(wide=True):
    c = [mcfg("retry", n, vals=A1) for n in (0, 1, 2)] + [mcfg("retry_inf", vals=A1)] + [mcfg("repeat", n) for n in (0, 1, 2, 3)] + [mcfg("repeat_inf"), mcfg("retry_when"), mcfg("oern")]
    if wide:
        c += [mcfg("retry_when", thr=0), mcfg("retry_when", sc={1: ["n11", "n11", "e"]}), mcfg("retry_when", sc={1: ["n11,c"], 0: ["n1,e", "n1,e", "n1"]}),
              mcfg("oern", thr=0), mcfg("oern", sc={1: ["n11,c"]}), mcfg("retry", 3, sc={0: ["n1,e", "e", "n2,e", "n3,c"]}),
              mcfg("retry_inf", sc={0: ["n1,e", "e", "n2,c"]}), mcfg("retry", 4, sc={0: ["n1,e", "e", "e", "-"]}), mcfg("repeat", 4, sc={0: ["c", "n1,c", "-"]}),
              mcfg("retry_inf", sc={0: ["e", "-"]}), mcfg("repeat_inf", sc={0: ["n1,c", "c", "-"]}), mcfg("retry_when", sc={0: ["n1,e", "e", "-"], 1: ["n11"]}), mcfg("oern", sc={0: ["n1,e"], 1: ["n11"]}), mcfg("repeat", 3, sc={0: ["n1,c", "c", "n2,c"]}),
              mcfg("repeat_inf", sc={0: ["n1,c"]}, re=("dispose", 3)), mcfg("retry_inf", sc={0: ["n1,e"]}, re=("dispose", 3)),
              mcfg("retry", 2, re=("dispose", 1)), mcfg("retry", 2, re=("throw", 1)), mcfg("repeat", 2, re=("throw", 1)), mcfg("repeat", 3, re=("dispose", 2))]
    return c
def timed_cfgs(ops, ns=(0, 1, 2), res=(None, ("dispose", 1)), scs=(None,)):
    return [mcfg(o, n, re=r, sc=s, vals=[{1, 2}]) for o in ops for n in ns for r in res for s in scs if not (n == 0 and o in ("debounce", "timeout", "timeout_fb"))]
def tick_cfgs():
    return ([mcfg("interval", a, b, impl=i) for a in (0, 1, 2, 3) for b in (1, 2, 3) for i in ("interval", "interval_tp")]
            + [mcfg("timer", a, impl=i) for a in (0, 1, 2, 3) for i in ("timer", "timer_tp")]
            + [mcfg("interval", a, b, re=("slow", n)) for a in (0, 1) for b, n in ((2, 1), (3, 1), (3, 2))]
            + [mcfg("interval", 1, 1, re=("dispose", 2)), mcfg("interval", 0, 2, re=("dispose", 1)), mcfg("interval", 0, 1, re=("throw", 3)),
               mcfg("timer", 1, re=("dispose", 1)), mcfg("timer", 1, re=("throw", 1))])
