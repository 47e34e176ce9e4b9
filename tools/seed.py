#!/usr/bin/env python3
"""Author and confirm planted bugs (development tool; no check uses it).

seed.py new BATCH.py        BATCH.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo, kind)]
seed.py try ID... [--check C05,C06] [--nocheck]   confirm: applies, builds, stable tests pass, demo 0/nonzero, check exits 1
Scratch copy: /tmp/seedrepo (created on demand from /repo)."""
import json, os, re, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get("SEED_BASE", "/repo"); R = "/tmp/seedrepo"; SC = "/tmp/seedscripts"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def prepare():
    if not os.path.isdir(R):
        subprocess.check_call(["cp", "-a", B, R])
        shutil.rmtree(R + "/_build", ignore_errors=True)
        os.makedirs(SC, exist_ok=True)
        for f in ("common.sh", "build.sh", "test.sh", "results.py"):
            s = open("/opt/vp/" + f).read()
            s = s.replace("R=/repo", "R=" + R).replace("B=/repo/_build", "B=%s/_build" % R)
            if f != "common.sh":
                s = s.replace(". /opt/vp/common.sh", ". %s/common.sh" % SC)
            open(SC + "/" + f, "w").write(s)
        r = sh("bash %s/build.sh" % SC)
        if r.returncode: print(r.stdout[-3000:]); sys.exit("clean build failed")
    sh("git -C %s checkout -q -- . && git -C %s pull -q %s HEAD || git -C %s fetch -q %s && git -C %s reset -q --hard FETCH_HEAD" % (R, R, B, R, B, R))

CORE = '''#!/bin/bash
# builds the demonstration against the library the repository's build made, and runs it
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -DBUILD_FOR_LINUX -include list -w -I"$PWD/include" -I"$PWD" -I/usr/include/eigen3 "$d/demo.cpp" _build/core/libnavigation-core.a -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
'''
def new(batch):
    ns = {}
    exec(open(batch).read(), ns)
    for s in ns["SEEDS"]:
        d = "%s/seeded/%s" % (V, s["id"])
        prepare()
        for f, old, nw in s["edits"]:
            p = R + "/" + f; t = open(p).read()
            if t.count(old) != 1: print(s["id"], f, "old text occurs", t.count(old), "times"); break
            open(p, "w").write(t.replace(old, nw))
        else:
            os.makedirs(d, exist_ok=True)
            diff = subprocess.check_output(["git", "-C", R, "diff"], text=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.sh", "w").write(s.get("demosh", CORE)); os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.cpp", "w").write(s["demo"])
            for n, c in s.get("files", {}).items(): open(d + "/" + n, "w").write(c)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            print("wrote", s["id"])
        sh("git -C %s checkout -q -- ." % R)

def build():
    r = sh("bash %s/build.sh" % SC)
    return r
def demo(i):
    r = sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=R)
    return r
def trial(ids, checks, nocheck):
    prepare()
    r = build()
    if r.returncode: print("clean build failed", r.stdout[-2000:]); return
    clean = {}
    for i in ids:
        clean[i] = demo(i)
    for i in ids:
        m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
        msg = []
        c = clean[i]
        if c.returncode: msg.append("DEMO FAILS ON CLEAN rc=%d %s" % (c.returncode, c.stdout[-600:]))
        r = sh("git -C %s apply %s/seeded/%s/patch.diff" % (R, V, i))
        if r.returncode: print(i, "patch does not apply", r.stdout); continue
        r = build()
        if r.returncode: msg.append("DOES NOT BUILD " + r.stdout[-1500:])
        r = sh("bash %s/test.sh /tmp/seed_out.json" % SC)
        try:
            o = json.dumps(json.load(open("/tmp/seed_out.json")))
        except Exception as e: o = str(e)
        for t in ("test_trilateration", "staticTilt"):
            if t not in o: msg.append("no result for " + t)
        if r.returncode: pass
        d = sh("python3 - <<'X'\nimport json\na=json.load(open('/tmp/seed_out.json'))\nprint(a)\nX")
        res = d.stdout.strip()
        d2 = demo(i)
        if d2.returncode == 0: msg.append("DEMO PASSES WITH PATCH")
        out = []
        if not nocheck:
            for ck in (checks or [m["property"]]):
                e = dict(os.environ, VERIF_REPO=R)
                q = sh("python3 %s/check.py %s" % (V, ck), env=e)
                k = [l for l in q.stdout.splitlines() if "VIOLATION" in l or "key" in l][:1]
                out.append("%s rc=%d %s" % (ck, q.returncode, k))
        sh("git -C %s checkout -q -- ." % R)
        print(i, m["property"], "OK" if not msg else msg, "demo rc", d2.returncode, d2.stdout.strip()[-150:].replace("\n", " | "), "||", "; ".join(out), "|| tests", res[:160], flush=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "new": new(a[1])
    else:
        nocheck = "--nocheck" in a
        checks = None
        ids = []
        it = iter(a[1:])
        for x in it:
            if x == "--check": checks = next(it).split(",")
            elif x != "--nocheck": ids.append(x)
        if ids == ["all"]: ids = sorted(os.listdir(V + "/seeded"))
        trial(ids, checks, nocheck)
