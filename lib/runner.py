"""Runs one property's check: collects coverage, reports violations, writes evidence."""
import argparse, json, os, random, subprocess, sys, time, traceback, concurrent.futures as cf
from vlib import *

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.runs = 0
        self.samples, self.parts, self.viol, self.assume = [], [], [], []
        self.known_hits = []
        self.known = load_known(pid)
        self.rnd = random.Random(seed)
    def left(self, budget):
        return budget - (time.time() - self.t0)
    def add(self, part, states=0, transitions=0, traces=0, runs=0, samples=(), **kw):
        self.states += states
        self.transitions += transitions
        self.traces += traces
        self.runs += runs
        for s in samples:
            if len(self.samples) < 12:
                self.samples.append(s)
        self.parts.append(dict(part=part, states=states, transitions=transitions, traces=traces, runs=runs, **kw))
    def violation(self, what, detail, key=None):
        """key identifies the failing input/schedule for the known-findings file"""
        for k in self.known:
            if key is not None and k["key"] == key:
                if k not in self.known_hits:
                    self.known_hits.append(k)
                return
        self.viol.append((what, detail))

def load_known(pid):
    """known-findings.txt: 'known: property=<id> key=<key> <what fails>' | 'fixed: property=<id> <commit> <what failed>'"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append(dict(key=m.group(2), what=m.group(3)))
    return out

def evidence(ctx, level, wall):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "samples": ctx.samples or ["none"], "implementation_runs": ctx.runs, "parts": ctx.parts}
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": ctx.assume, "wall_s": round(wall, 2), "violations": len(ctx.viol)}
    with open(os.path.join(d, ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

def run_check(pid, tier, seed, fns, level="model_checking"):
    ctx = Ctx(pid, tier, seed)
    rc = 0
    try:
        for f in fns:
            f(ctx)
            if ctx.viol:
                break
    except CheckError as e:
        if not ctx.viol:
            print("CHECK-ERROR property=%s %s" % (pid, e))
            rc = 2
    except Exception:
        traceback.print_exc()
        if not ctx.viol:
            rc = 2
    wall = time.time() - ctx.t0
    evidence(ctx, level, wall)
    for k in ctx.known_hits:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if ctx.viol:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for i, (what, detail) in enumerate(ctx.viol[:3]):
            p = os.path.join(d, "%s_%d.txt" % (pid, i))
            with open(p, "w") as f:
                f.write(what + "\n\n" + detail + "\n")
            print(what)
            print(detail[:2000])
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(p, VERIF)))
        rc = 1
    elif rc == 0:
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d runs=%d wall=%.1fs" %
              (pid, tier, ctx.states, ctx.transitions, ctx.traces, ctx.runs, wall))
    sys.stdout.flush()
    return rc

# ------------------------------------------------------------------ sequential replay
def feed(exe, args, lines, timeout=600):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
    try:
        p = subprocess.run([exe] + [str(a) for a in args], input="\n".join(lines) + "\n", stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        raise CheckError("replay driver timed out")
    return p.returncode, p.stdout.split("\n")[:-1], p.stderr

def replay(ctx, part, exe, cfg_lines, items, same, args=(0,)):
    """items: list of (history line, expected observation).  Runs every item for every args variant in
    parallel, compares, confirms mismatches by running again."""
    total = 0
    def shard(job):
        a, its = job
        rc, got, err = feed(exe, a if isinstance(a, (tuple, list)) else [a], cfg_lines + [h for h, _ in its])
        bad = []
        for (h, e), g in zip(its, got):
            if not same(e, g):
                bad.append((h, e, g))
        if len(got) < len(its):
            h, e = its[len(got)]
            bad.insert(0, (h, e, "<driver died: rc=%d %s>" % (rc, err.strip()[-800:])))
        elif rc != 0:
            bad.append((its[-1][0], its[-1][1], "<driver rc=%d %s>" % (rc, err.strip()[-800:])))
        return a, its, bad, len(got)
    jobs = []
    per = max(200, (len(items) + NCPU - 1) // NCPU)
    for a in args:
        for i in range(0, len(items), per):
            jobs.append((a, items[i:i + per]))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(shard, jobs))
    for a, its, bad, n in res:
        total += n
    for a, its, bad, n in res:
        if not bad:
            continue
        h, e, g = bad[0]
        cid = h.split(" ")[1]
        cl = [c for c in cfg_lines if c.split(" ")[1] == cid]
        # confirm: alone in a fresh process, else the whole shard again
        _, _, b2, _ = shard((a, [(h, e)]))
        if not b2:
            _, _, b2, _ = shard((a, its))
            if not b2:
                raise CheckError("%s: mismatch did not repeat: %s" % (part, h))
        ctx.violation("%s: the implementation departs from the specification (%d of %d behaviours)" % (part, len(bad), len(its)),
                      "configuration: %s\nhistory:       %s\nspecification: %s\nobserved:      %s\ncommand: printf '%%s\\n' '%s' '%s' | %s %s"
                      % (cl, h, e, b2[0][2], cl[0] if cl else "", h, exe, a), key=part + "|" + (cl[0] if cl else "") + "|" + h)
        break
    return total
