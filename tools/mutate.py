#!/usr/bin/env python3
"""Mutation testing of the checks (development tool; no check uses it).
mutate.py list FILE...            print the mutants
mutate.py run OUT.jsonl [--jobs 4] [--sample N] [--seed S] [--scale x] [--checks C01,..] FILE...   run the mapped checks on each
Every mutant changes one token (or drops one statement) of one source file in a scratch copy of the repository."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUT_BASE", "/repo")
MAP = [("complementary_filter/src/vector3d", "C29 C11"), ("complementary_filter/src/quat", "C29 C11"), ("complementary_filter/include", "C29 C11"), ("standalone_algorithms/pedometer/src/vector3d", "C29 C10"), ("standalone_algorithms/pedometer/include", "C10 C29"),
       ("navigation-core/vector3d.h", "C29 C11 C10"), ("declare_identifier", "C29 C20 C18"), ("motion_info", "C30 C16 C31 C28"), ("navigation_settings.h", "C31 C16 C18"), ("navigation-core/graph", "C29 C18"), ("navigation-core/boost_geom", "C03 C29"),
       ("navigation-core/", "C29 C02 C16 C31 C06"), ("src/position.h", "C16 C31 C12"), ("measurement_types", "C29 C07"), ("src/device_prop", "C31 C18"), ("position_estimator/position_estimator.h", "C06 C20"),
       ("helpers.cpp", "C21"), ("helpers.h", "C21"), ("standalone_algorithms/trilat", "C22"), ("standalone_algorithms/position_est", "C23"), ("standalone_algorithms/pedometer", "C10"), ("standalone_algorithms/compl", "C11"),
       ("src/likelihood", "C26"), ("src/point.cpp", "C01 C02"), ("src/geometry.cpp", "C04 C16 C12"), ("src/triangulation", "C05 C06"), ("src/knn/", "C06 C05 C08"), ("measurements/measurement_pre", "C07 C25 C19 C18"),
       ("position_estimator_knn", "C06 C16"), ("position_estimator_zone", "C20"), ("position_estimator_outdoor", "C15"), ("navigation_time_smoother", "C12"),
       ("polynomial_fit", "C13 C12"), ("position_postprocessor/position_postprocessor", "C12 C14 C16 C25 C19"), ("position_smoother_", "C12"),
       ("src/sensor_fusion/complementary", "C11"), ("src/sensor_fusion/quaternion", "C11"), ("src/sensor_fusion/pedometer", "C10"), ("sensor_fusion.cpp", "C11 C10 C16 C17"),
       ("barometer", "C09 C08"), ("level_estimator/", "C08 C09"), ("navigation_client_impl", "C31 C16 C17 C19 C25 C14 C15 C20 C24 C18"), ("barriers_geometry", "C02 C03"),
       ("src/level.cpp", "C02"), ("level_collector", "C02"), ("level_geometry", "C03 C12"), ("radiomap.cpp", "C02 C06"), ("src/vector3d", "C11 C10"), ("src/trilateration", "C24")]

def checks_for(f):
    for k, v in MAP:
        if k in f: return v.split()
    return ["C18"]

def mutants(f):
    out = []
    txt = open(os.path.join(BASE, f)).read().split("\n")
    block = False
    dead = 0   # inside a block compiled for debugging only
    for n, ln in enumerate(txt):
        code = ln
        if dead or re.match(r"\s*#\s*if.*(DEBUG|VISUALIZATION|_VERBOSE)", ln):
            if re.match(r"\s*#\s*if", ln): dead += 1
            elif re.match(r"\s*#\s*(else|endif)", ln) and dead == 1: dead = 0
            elif re.match(r"\s*#\s*endif", ln): dead -= 1
            continue
        if block:
            if "*/" in code: block = False
            continue
        if code.strip().startswith("/*"):
            if "*/" not in code: block = True
            continue
        code = re.sub(r"//.*", "", code)
        s = code.strip()
        if not s or s.startswith("#") or s.startswith("using ") or s.startswith("namespace") or "assert" in s or "cerr" in s or "cout" in s or "printf" in s or "template" in s: continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\0" * len(m.group(0)), code)
        def add(a, b, new, what): out.append((n, ln[:a] + new + ln[b:], what))
        for m in re.finditer(r"<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|(?<![<\w>:-])\s[<>]\s|\s[+\-*/]\s|\btrue\b|\bfalse\b|\bmin\b|\bmax\b|\bsin\b|\bcos\b|\bcontinue\b|\bbreak\b|(?<![=!<>])!(?!=)|\blower_bound\b|\bupper_bound\b|\bempty\(\)", code):
            t = m.group(0); k = t.strip()
            R = {"<=": ["<", ">"], ">=": [">", "<"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "+=": ["-="], "-=": ["+="], "*=": ["/="], "/=": ["*="], "<": ["<=", ">"], ">": [">=", "<"],
                 "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "true": ["false"], "false": ["true"], "min": ["max"], "max": ["min"], "sin": ["cos"], "cos": ["sin"], "continue": ["break"], "break": ["continue"], "!": [""],
                 "lower_bound": ["upper_bound"], "upper_bound": ["lower_bound"], "empty()": ["size() > 1", ]}
            for r in R.get(k, []):
                if k == "min" or k == "max":
                    if not re.match(r"\s*[(<]", code[m.end():]): continue
                add(m.start(), m.end(), t.replace(k, r), k + "->" + r)
        for m in re.finditer(r"(?<![\w.])(\d+\.\d*|\d+)(?![\w.])", code):
            t = m.group(0)
            if "." in t:
                v = float(t); new = repr(v * 1.1 if v else 0.1)
            else: new = str(int(t) + 1)
            add(m.start(), m.end(), new, t + "->" + new)
        if s.endswith(";") and not re.match(r"(return|break|continue|const |double |int |bool |auto |static |size_t |std::|Position |Vector3d |Quaternion |long |typedef|for|XY|Geo|class|struct|enum|\}|unsigned )", s) and s.count("(") == s.count(")"):
            if re.match(r"(if|else|while)", s):
                pass
            else:
                i = len(ln) - len(ln.lstrip()); out.append((n, ln[:i] + ";", "drop statement"))
        if s.startswith("return ") and s.endswith(";") and re.search(r"return (mIs|is|has|m[A-Z]\w*);", s): pass
        m = re.match(r"(\s*(?:else )?if \()(.*)(\)\s*\{?\s*)$", code)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            add(m.start(2), m.end(2), "false", "if(false)")
            add(m.start(2), m.end(2), "true", "if(true)")
    return [dict(file=f, line=n + 1, old=txt[n].strip(), new=new.strip(), text=new, what=w) for n, new, w in out if new != txt[n]]

def worker(k, q, out, lock, opts):
    d = "/tmp/mut/w%d" % k
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.check_call(["git", "clone", "-q", BASE, d + "/repo"])
    env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_CACHE=d + "/cache", VERIF_JOBS=str(opts["cores"]), VERIF_EVIDENCE=d + "/ev")
    subprocess.check_call(["cp", "-a", V, d + "/verif"])
    shutil.rmtree(d + "/verif/replays", ignore_errors=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = d + "/repo/" + m["file"]
        orig = open(p).read(); ls = orig.split("\n"); ls[m["line"] - 1] = m["text"]
        before = set(os.listdir(d + "/cache")) if os.path.isdir(d + "/cache") else set()
        open(p, "w").write("\n".join(ls))
        res = []; killed = None
        for c in opts["checks"] or checks_for(m["file"]):
            r = subprocess.run(["python3", d + "/verif/check.py", c, "--scale", opts["scale"]], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            key = re.findall(r"key=(\S+)", r.stdout)
            res.append("%s:%d%s" % (c, r.returncode, (":" + key[0]) if key else ""))
            if r.returncode == 1: killed = c; break
            if "compile failed" in r.stdout or "link failed" in r.stdout: killed = "compile"; break
            if r.returncode not in (0, 1): res[-1] += " " + r.stdout[-300:]
        open(p, "w").write(orig)
        m.update(killed=killed, res=res)
        with lock:
            out.write(json.dumps({k: v for k, v in m.items() if k != "text"}) + "\n"); out.flush()
        if before:
            for fn in set(os.listdir(d + "/cache")) - before:
                if fn.endswith(".o"): os.unlink(d + "/cache/" + fn)
        shutil.rmtree(d + "/verif/replays", ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]; opts = dict(jobs=4, sample=0, seed=1, scale="0.4", checks=None)
    cmd = a.pop(0); outp = a.pop(0) if cmd == "run" else None
    files = []; again = None
    while a:
        x = a.pop(0)
        if x == "--jobs": opts["jobs"] = int(a.pop(0))
        elif x == "--sample": opts["sample"] = int(a.pop(0))
        elif x == "--seed": opts["seed"] = int(a.pop(0))
        elif x == "--scale": opts["scale"] = a.pop(0)
        elif x == "--again": again = a.pop(0)      # only the mutants that survived in that earlier run
        elif x == "--checks": opts["checks"] = a.pop(0).split(",")
        else: files.append(x)
    opts["cores"] = max(1, 8 // opts["jobs"])
    if again:
        old = {(j["file"], j["line"], j["new"], j["what"]) for j in map(json.loads, open(again)) if not j["killed"]}
        ms = [m for f in sorted({o[0] for o in old}) for m in mutants(f) if (m["file"], m["line"], m["new"], m["what"]) in old]
    else: ms = [m for f in files for m in mutants(f)]
    if opts["sample"] and len(ms) > opts["sample"]: ms = random.Random(opts["seed"]).sample(ms, opts["sample"])
    if cmd == "list":
        for m in ms: print("%s:%d %s | %s" % (m["file"], m["line"], m["what"], m["new"]))
        print(len(ms)); sys.exit()
    done = set()
    if os.path.exists(outp):
        for l in open(outp): j = json.loads(l); done.add((j["file"], j["line"], j["new"], j["what"]))
    q = queue.Queue()
    for m in ms:
        if (m["file"], m["line"], m["new"], m["what"]) not in done: q.put(m)
    print(q.qsize(), "mutants")
    lock = threading.Lock(); out = open(outp, "a")
    ts = [threading.Thread(target=worker, args=(k, q, out, lock, opts)) for k in range(opts["jobs"])]
    [t.start() for t in ts]; [t.join() for t in ts]
