"""Exploring schedules of a scenario under the controlled scheduler."""
from vlib import *
import threading

def explore(exe, scenario, args, secs, seed=1, modes=("mix",), jobs=None, maxdistinct=None, extra=(), runs=10**9):
    """-> (list of distinct trace records, number of runs, complete)"""
    jobs = jobs or NCPU
    d = tempfile.mkdtemp(prefix="vs_", dir=scratch())
    procs = []
    for m in modes:
        nj = jobs
        for j in range(nj):
            out = os.path.join(d, "%s_%d" % (m, j))
            cmd = [exe, scenario, args, "--mode", m, "--runs", str(runs), "--seed", str(seed), "--out", out, "--jobs", str(nj), "--job", str(j), "--secs", str(secs / len(modes))]
            if maxdistinct:
                cmd += ["--maxdistinct", str(maxdistinct)]
            procs.append((m, cmd + list(extra), out))
    def one(p):
        m, cmd, out = p
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs * 10 + 200)
        except subprocess.TimeoutExpired:
            raise CheckError("schedule exploration timed out: " + " ".join(cmd))
        if r.returncode != 0:
            raise CheckError("schedule exploration failed: %s\n%s" % (" ".join(cmd), r.stderr[-1000:]))
        s = json.loads(r.stdout.strip().splitlines()[-1])
        recs = []
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    try:
                        x = json.loads(line)
                    except ValueError:
                        raise CheckError("unreadable trace line: " + line[:300])
                    x["_scenario"] = scenario
                    recs.append(x)
        return s, recs
    with cf.ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(one, procs))
    seen, traces, nruns, complete = set(), [], 0, False
    for s, recs in res:
        nruns += s.get("runs", 0)
        complete = complete or bool(s.get("complete"))
        for x in recs:
            k = json.dumps(x["ev"]) + x["end"]
            if k not in seen:
                seen.add(k)
                traces.append(x)
    shutil.rmtree(d, ignore_errors=True)
    return traces, nruns, complete

def rerun_cmd(exe, x):
    c = [exe, x["_scenario"], x["args"], "--out", "/dev/stdout"]
    if x["mode"] == "dfs":
        return c + ["--mode", "replay", "--sched", x["sched"]]
    return c + ["--mode", x["mode"], "--one", str(x["seed"]), "--approx", str(x["approx"])]

def rerun(exe, x, extra=()):
    """runs the schedule of a recorded trace again -> the record, or None"""
    r = subprocess.run(rerun_cmd(exe, x) + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    for line in r.stdout.splitlines():
        if line.startswith('{"ev"'):
            return json.loads(line)
    return None
