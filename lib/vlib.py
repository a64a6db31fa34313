"""Common machinery of the checks: building harnesses from /repo, running TLC, exploring
schedules, replaying behaviours, writing evidence."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = os.cpu_count() or 8
INC = ["-I" + os.path.join(REPO, "src/rpp"), "-I" + os.path.join(REPO, "src/extensions/rppqt"),
       "-I" + os.path.join(REPO, "src/extensions/rppasio"), "-I" + os.path.join(REPO, "src/extensions/rppgrpc"),
       "-I" + HARN]

class CheckError(Exception):
    """the check itself cannot answer"""

class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail

# ------------------------------------------------------------------ building
_tree = None
def tree_hash():
    """hash of every source a harness may include"""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for root in (os.path.join(REPO, "src/rpp"), os.path.join(REPO, "src/extensions"), HARN):
            for d, ds, fs in os.walk(root):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".hpp", ".h", ".cpp", ".proto")):
                        p = os.path.join(d, f)
                        h.update(p.encode())
                        with open(p, "rb") as fh:
                            h.update(fh.read())
        _tree = h.hexdigest()
    return _tree

CXX = "clang++"
BASE = ["-std=c++20", "-g0", "-w"]
VS = ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
RP = ["-O0"]

def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

class Unit:
    def __init__(self, src, defs=(), flags=()):
        self.src, self.defs, self.flags = src, tuple(defs), tuple(flags)
    def key(self):
        return hashlib.sha256(("%s|%s|%s|%s" % (tree_hash(), self.src, self.defs, self.flags)).encode()).hexdigest()[:24]

def build(targets):
    """targets: {name: (units, link flags)} -> {name: path}.  A compile error of the code under
    test is an error of the check (the baseline build fails, too)."""
    os.makedirs(BUILD, exist_ok=True)
    objs, jobs = {}, []
    for name, (units, link) in targets.items():
        for u in units:
            o = os.path.join(BUILD, "o_" + u.key() + ".o")
            objs[(name, u)] = o
            if not os.path.exists(o) and o not in [j[1] for j in jobs]:
                jobs.append((u, o))
    def comp(j):
        u, o = j
        tmp = o + ".%d.tmp" % os.getpid()
        cmd = [CXX] + BASE + list(u.flags) + INC + ["-D" + d for d in u.defs] + ["-c", os.path.join(HARN, u.src), "-o", tmp]
        r = _run(cmd)
        if r.returncode:
            raise CheckError("compiling %s %s failed:\n%s" % (u.src, u.defs, r.stderr[-3000:]))
        os.rename(tmp, o)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(comp, jobs))
    out = {}
    for name, (units, link) in targets.items():
        os_ = [objs[(name, u)] for u in units]
        k = hashlib.sha256(("|".join(os_) + "|".join(link)).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, "x_" + name + "_" + k)
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            r = _run([CXX] + os_ + ["-o", tmp] + list(link) + ["-lpthread"])
            if r.returncode:
                raise CheckError("linking %s failed:\n%s" % (name, r.stderr[-3000:]))
            os.rename(tmp, exe)
        out[name] = exe
    return out

def vs_target(srcs, extra=(), link=()):
    """a target run under the controlled scheduler"""
    return ([Unit("vsched.cpp", (), ("-O2",))] +
            [Unit(s[0] if isinstance(s, tuple) else s, s[1] if isinstance(s, tuple) else (), tuple(VS) + tuple(extra)) for s in srcs],
            ("-rdynamic",) + tuple(link))

# ------------------------------------------------------------------ TLA+ values
class Raw(str):
    pass
def tla(v):
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)

class Tlc:
    """result of one TLC run"""
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = rc == 0 and "No error has been found" in out
        self.violated = re.findall(r"(?:Invariant|Action property|Temporal properties?) ?(\S*) (?:is|were) violated", out)
        self.prints = []
        for line in out.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                try:
                    self.prints.append(json.loads(json.loads(line)))
                except ValueError:
                    pass

def tlc(module, consts, invariants=(), props=(), constraints=(), post=None, init="Init", next_="Next", spec=None,
        workers=None, timeout=600, extra=(), name=None, deadlock=False, view=None, coverage=False, mem="4g", aux=None):
    """instantiates spec/<module>.tla with consts (python values) and runs TLC on it"""
    d = tempfile.mkdtemp(prefix="tlc_", dir=_scratch())
    mc = name or "MC"
    body, cfg = [], []
    if spec:
        cfg.append("SPECIFICATION " + spec)
    else:
        cfg += ["INIT " + init, "NEXT " + next_]
    for k, v in consts.items():
        if isinstance(v, int) and not isinstance(v, bool):
            cfg.append("CONSTANT %s = %d" % (k, v))
        else:
            body.append("MC_%s == %s" % (k, tla(v)))
            cfg.append("CONSTANT %s <- MC_%s" % (k, k))
    for i in invariants:
        cfg.append("INVARIANT " + i)
    for i in props:
        cfg.append("PROPERTY " + i)
    for i in constraints:
        cfg.append("CONSTRAINT " + i)
    if view:
        cfg.append("VIEW " + view)
    if post:
        cfg.append("POSTCONDITION " + post)
    cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    with open(os.path.join(d, mc + ".tla"), "w") as f:
        f.write("---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (mc, module, "\n".join(body)))
    with open(os.path.join(d, mc + ".cfg"), "w") as f:
        f.write("\n".join(cfg) + "\n")
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    for k, v in (aux or {}).items():
        with open(os.path.join(d, k), "w") as f:
            f.write(v)
    t0 = time.time()
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-cp", CLASSPATH, "tlc2.TLC", "-config", mc + ".cfg", "-workers", str(workers or min(8, NCPU)),
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-nowarning"] + list(extra)
    if coverage:
        cmd += ["-coverage", "1"]
    cmd.append(mc + ".tla")
    try:
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        shutil.rmtree(d, ignore_errors=True)
        raise CheckError("TLC timed out on %s" % module)
    res = Tlc(r.stdout, r.returncode, time.time() - t0)
    if not res.ok and not res.violated:
        tail = "\n".join(l for l in r.stdout.splitlines() if not l.startswith('"'))
        tail = tail[tail.find("Error:"):][:3000] if "Error:" in tail else tail[-3000:]
        shutil.rmtree(d, ignore_errors=True)
        raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, r.returncode, tail))
    shutil.rmtree(d, ignore_errors=True)
    return res

CLASSPATH = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
_sc = None
def _scratch():
    global _sc
    if _sc is None:
        os.makedirs(BUILD, exist_ok=True)
        _sc = tempfile.mkdtemp(prefix="s_", dir=BUILD)
        import atexit
        atexit.register(shutil.rmtree, _sc, True)
    return _sc
scratch = _scratch
