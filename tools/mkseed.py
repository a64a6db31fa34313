"""mkseed.mk(id, property, {file: [(old, new)...]}, demo_cpp, needs, breaks): writes /verif/seeded/<id>/ (patch made in a scratch worktree)."""
import json, os, subprocess, shutil, tempfile
DEMO = '''#!/bin/bash
# exit 0: the library behaves; anything else: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 %s "$d/demo.cpp" -o "$t/demo" %s-pthread || exit 2
timeout 120 "$t/demo"
'''
def mk(id, prop, edits, demo, needs, breaks, inc="-I/repo/src/rpp", link="", sh=None):
    d = "/verif/seeded/" + id
    w = tempfile.mkdtemp(prefix="mkseed")
    subprocess.run("git -C /repo archive HEAD src | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (w, w), shell=True, check=True)
    for f, ps in edits.items():
        p = os.path.join(w, "src", f)
        s = open(p).read()
        for a, b in ps:
            if s.count(a) != 1:
                print("NO MATCH", id, f, s.count(a), repr(a)[:200])
                shutil.rmtree(w)
                return
            s = s.replace(a, b)
        open(p, "w").write(s)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(sh or DEMO % (inc, link))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
