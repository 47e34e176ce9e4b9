#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]  -- decide one property on /repo's current tree by generated-input search.

Builds the property's harness together with the repository's own sources (fresh, in a scratch directory), runs it in parallel
workers, confirms any failure by replaying its minimised reproduction three times, writes evidence/<ID>.json.
Exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check itself could not run.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, shutil, struct, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import CHECKS, SETS, COMMON_DEFS

REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 8))))
CXX = os.environ.get("VERIF_CXX", "clang++")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]
# Sanitizer settings: anything they report is a distinct exit code, so it cannot be mistaken for a property verdict.
TSAN = ["-fsanitize=thread"]   # checks with san="thread": races are counted by the harness (__tsan_on_report)
SENV = {"TSAN_OPTIONS": "exitcode=0:halt_on_error=0:suppress_equal_stacks=0:suppress_equal_addresses=0:history_size=4:report_thread_leaks=0:report_signal_unsafe=0",
        "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
        "UBSAN_OPTIONS": "exitcode=77:print_stacktrace=1:halt_on_error=1"}


def log(*a):
    print(*a, flush=True)


class Builder:
    def __init__(self, bdir):
        self.bdir = bdir
        self.cache = os.environ.get("VERIF_CACHE")   # development only: object cache keyed by content of all dependencies

    def compile(self, src, flags):
        name = hashlib.sha1((src + " ".join(flags)).encode()).hexdigest()[:12] + "_" + os.path.basename(src) + ".o"
        obj = os.path.join(self.bdir, name)
        cmd = [CXX, "-c", src, "-o", obj] + flags
        key = None
        if self.cache:
            idx = os.path.join(self.cache, hashlib.sha1(("\0".join(cmd[:3] + flags)).encode()).hexdigest())
            if os.path.exists(idx + ".deps"):
                deps = open(idx + ".deps").read().split("\n")
                key = self.depkey(idx, deps)
                if key and os.path.exists(key + ".o"):
                    return (key + ".o", None)
            cmd += ["-MD", "-MF", obj + ".d"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            return (None, r.stdout)
        if self.cache:
            os.makedirs(self.cache, exist_ok=True)
            txt = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
            deps = [d for d in txt if not d.startswith("/usr/")]
            open(idx + ".deps", "w").write("\n".join(deps))
            key = self.depkey(idx, deps)
            shutil.copy(obj, key + ".o")
        return (obj, None)

    def depkey(self, idx, deps):
        h = hashlib.sha1(idx.encode())
        for d in deps:
            try:
                h.update(open(d, "rb").read())
            except OSError:
                return None
        return os.path.join(self.cache, h.hexdigest())

    def build(self, spec, fuzzer=False, variant_flags=()):
        """returns path of the linked harness, or raises RuntimeError"""
        units = []
        base = COMMON_DEFS + ["-O0" if spec.get("san") == "thread" else "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-I" + os.path.join(HERE, "engine"),
                              "-I" + os.path.join(HERE, "harness"), "-DREPO_DIR=\"%s\"" % REPO] + list(variant_flags)
        main = TSAN if spec.get("san") == "thread" else SAN
        san = main + (["-fsanitize=fuzzer-no-link", "-DPBT_LIBFUZZER"] if fuzzer else [])

        def expand(sets):
            out, seen = [], set()
            for s in sets:
                st = SETS[s]
                for g in st["src"]:
                    for p in sorted(glob.glob(os.path.join(REPO, g), recursive=True)):
                        k = (p, st.get("ns"))
                        if k in seen:
                            continue
                        seen.add(k)
                        fl = [f.replace("{REPO}", REPO) for f in st.get("flags", [])]
                        o = st.get("slow", {}).get(os.path.basename(p), [])
                        out.append((p, base + san + o + fl))
            return out

        hflags = [f.replace("{REPO}", REPO) for f in spec.get("hflags", [])]
        harness = [(os.path.join(HERE, "harness", h), base + san + hflags) for h in spec["harness"]]
        for attempt, sets in enumerate((spec["sets"], spec["sets"] + spec.get("fallback_sets", []))):
            units = expand(sets) + harness
            units.sort(key=lambda u: -os.path.getsize(u[0]) - (10**6 if "level_geometry" in u[0] or "helpers" in u[0] or "trilateration" in u[0] or "harness" in u[0] else 0))
            with cf.ThreadPoolExecutor(JOBS) as ex:
                res = list(ex.map(lambda u: self.compile(*u), units))
            errs = [(u[0], e) for u, (o, e) in zip(units, res) if e]
            if errs:
                raise RuntimeError("compile failed: %s\n%s" % (errs[0][0], errs[0][1][-4000:]))
            exe = os.path.join(self.bdir, "harness_fuzz" if fuzzer else "harness")
            r = subprocess.run([CXX] + [o for o, _ in res] + ["-o", exe] + main + (["-fsanitize=fuzzer"] if fuzzer else []) + ["-lpthread"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode == 0:
                return exe
            if attempt == 0 and spec.get("fallback_sets"):
                log("link of the source subset failed, retrying with all core sources\n" + r.stdout[:600])
                continue
            raise RuntimeError("link failed\n" + r.stdout[-4000:])


def known_findings(pid):
    keys, lines = [], []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("KNOWN-FINDING:") and ("property=%s " % pid) in ln:
                k = [t[4:] for t in ln.split() if t.startswith("key=")]
                if k:
                    keys.append(k[0])
                    lines.append(ln)
    return keys, lines


def run_env():
    e = dict(os.environ)
    e.update(SENV)
    return e


def replay(exe, path, out=None, known=()):
    cmd = [exe, "--replay", path, "--known", ",".join(known)]
    if out:
        cmd += ["--replay-out", out]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=run_env(), timeout=120)
    except subprocess.TimeoutExpired:
        return 78, "replay timed out"
    if r.returncode == 0 and "NOT REPRODUCED" not in r.stdout:   # ThreadSanitizer ends a crashed process with the exit code it is told (0)
        return 77, r.stdout
    return r.returncode, r.stdout


def parse_replay(path):
    sub, ch = None, []
    for ln in open(path, errors="replace"):
        if ln.startswith("sub="):
            sub = ln[4:].strip()
        if ln.startswith("choices="):
            ch = [int(x) for x in ln[8:].split()]
            break
    return sub, ch


def write_choices(path, sub, ch, tail=""):
    with open(path, "w") as f:
        f.write("sub=%s\nchoices=%s\n%s\n" % (sub, " ".join(map(str, ch)), tail))


def shrink_crash(exe, path, bdir, known, budget=60):
    """sanitizer reports, fatal signals and hangs kill the harness: shrink them by re-running it in replay mode"""
    sub, best = parse_replay(path)
    rc0, out0 = replay(exe, path, known=known)
    if rc0 in (0, 2):
        return None, out0
    t0 = time.time()
    tmp = os.path.join(bdir, "shrink.txt")

    def still(c):
        write_choices(tmp, sub, c)
        return replay(exe, tmp, known=known)[0] == rc0
    if rc0 != 78:
        k = max(1, len(best) // 2)
        while k >= 1 and time.time() - t0 < budget:
            i = len(best) - k
            while i >= 0 and time.time() - t0 < budget:
                c = best[:i] + best[i + k:]
                if still(c):
                    best = c
                i -= k
            k //= 2
        for i in range(len(best)):
            if time.time() - t0 > budget:
                break
            if best[i]:
                c = list(best)
                c[i] = 0
                if still(c):
                    best = c
    write_choices(tmp, sub, best)
    rc, out = replay(exe, tmp, known=known)
    write_choices(path, sub, best, "--- failure ---\n" + out[-6000:])
    return rc, out


def shrink_history(exe, path, bdir, known, budget=90):
    """a failure that needs what earlier cases of the same process left behind: keep only the cases that matter"""
    lines = open(path, errors="replace").read().split("\n")
    before = [ln for ln in lines if ln.startswith("before=")]
    rest = [ln for ln in lines if not ln.startswith("before=")]
    tmp = os.path.join(bdir, "history.txt")
    t0 = time.time()

    def fails(b):
        open(tmp, "w").write("\n".join(b + rest))
        return replay(exe, tmp, known=known)[0] not in (0, 2)
    if not fails(before):
        return False
    k = len(before) // 2
    while k >= 1 and time.time() - t0 < budget:
        i = 0
        while i < len(before) and time.time() - t0 < budget:
            c = before[:i] + before[i + k:]
            if fails(c):
                before = c
            else:
                i += k
        k //= 2
    open(path, "w").write("\n".join(before + rest))
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--seed", type=int, default=None)
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = a.id
    spec = CHECKS[pid]
    t0 = time.time()
    base = os.environ.get("VERIF_BUILD") or tempfile.gettempdir()
    bdir = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=base)
    try:
        return run(pid, spec, tier, seed, bdir, t0, a)
    except RuntimeError as e:
        log("ERROR: the check could not run:", e)
        return 2
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def run(pid, spec, tier, seed, bdir, t0, a):
    b = Builder(bdir)
    exe = b.build(spec)
    tb = time.time() - t0
    log("%s: built in %.1f s" % (pid, tb))
    keys, klines = known_findings(pid)
    if a.replay:
        rc, out = replay(exe, a.replay, known=keys)
        log(out)
        return 1 if rc else 0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    cap = spec.get("cap", 45) if tier == "quick" else spec.get("cap_thorough", 600)
    procs = []
    W = spec.get("workers", JOBS)
    for w in range(W):
        cmd = [exe, "--seed", str(seed), "--worker", "%d/%d" % (w, W), "--tier", tier, "--out", os.path.join(bdir, "out%d.json" % w),
               "--replay-out", os.path.join(bdir, "replay%d.txt" % w), "--cap", str(cap), "--known", ",".join(keys), "--scale", a.scale]
        if a.only:
            cmd += ["--only", a.only]
        lf = open(os.path.join(bdir, "log%d.txt" % w), "w")
        procs.append((w, subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=run_env(), cwd=bdir)))
    fails, errors = [], []
    deadline = time.time() + cap + 120
    for w, p in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        logtxt = open(os.path.join(bdir, "log%d.txt" % w), errors="replace").read()
        rp = os.path.join(bdir, "replay%d.txt" % w)
        if rc == 0 and os.path.exists(os.path.join(bdir, "out%d.json" % w)):
            continue
        if os.path.exists(rp):
            fails.append((w, rp, "fail", logtxt))
        if rc != 1 and os.path.exists(rp + ".crash"):
            fails.append((w, rp + ".crash", "crash", logtxt))
        if not fails or fails[-1][0] != w:
            errors.append((w, rc, logtxt[-2000:]))
    # libFuzzer stage (thorough tier)
    fuzz_info = None
    if tier == "thorough" and spec.get("fuzz") and not fails:
        fuzz_info, ff = fuzz(b, spec, bdir, seed, keys, spec["fuzz"])
        fails += ff
    violation = None
    seen_sub = set()
    threads = spec.get("san") == "thread"
    for w, rp, kind, logtxt in sorted(fails, key=lambda f: os.path.getsize(f[1])):
        sub, _ = parse_replay(rp)
        if violation and sub in seen_sub:
            continue
        out = ""
        if kind == "crash":
            rc, out = shrink_crash(exe, rp, bdir, keys)
            if rc is None:
                log("worker %d stopped with a fatal error that its case alone does not reproduce:\n%s" % (w, logtxt[-3000:]))
        def confirm(path):
            n, o = 0, ""
            for _ in range(12 if threads else 3):
                rc, o = replay(exe, path, known=keys)
                n += rc not in (0, 2)
                if threads and n:      # whether a race shows depends on the schedule, and none is ever reported that is not there
                    return 3, o
            return n, o
        oks, out = confirm(rp)
        if oks < 3 and os.path.exists(rp + ".hist") and shrink_history(exe, rp + ".hist", bdir, keys):
            rp, kind = rp + ".hist", "history"
            oks, out = confirm(rp)
        if oks < 3:
            log("worker %d reported a failure that replays %d/3 times: not reported as a violation\n%s" % (w, oks, logtxt[-1500:]))
            continue
        dst = os.path.join(HERE, "replays", "%s_%s_%s.txt" % (pid, sub, hashlib.sha1(open(rp, "rb").read()).hexdigest()[:10]))
        if kind == "fail":
            replay(exe, rp, out=dst, known=keys)
        if kind != "fail" or not os.path.exists(dst):
            shutil.copy(rp, dst)
        seen_sub.add(sub)
        log("---- %s / %s\n%s" % (pid, sub, out[-5000:]))
        if not violation:
            violation = dst
    ev = evidence(pid, spec, tier, seed, bdir, W, t0, tb, keys, violation, fuzz_info)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for ln in klines:
        log(ln)
    c = ev["coverage"]
    log("%s %s: %d cases, %d distinct non-trivial, %.0f s" % (pid, tier, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"]))
    if violation:
        log("VIOLATION property=%s replay=%s" % (pid, violation))
        return 1
    if errors and not fails:
        for e in errors:
            log("worker %s ended with %s\n%s" % e)
        return 2
    if fails:
        log("failures were seen but none could be confirmed by replay")
    return 0


def fuzz(b, spec, bdir, seed, keys, fz):
    fexe = b.build(spec, fuzzer=True)
    secs = fz.get("seconds", 240)
    procs = []
    for w in range(JOBS):
        d = os.path.join(bdir, "fz%d" % w)
        os.makedirs(os.path.join(d, "corpus"))
        env = run_env()
        env["PBT_KNOWN"] = ",".join(keys)
        env["PBT_CRASH"] = os.path.join(d, "crash.txt")
        cmd = [fexe, os.path.join(d, "corpus"), "-max_total_time=%d" % secs, "-seed=%d" % (seed * 100 + w), "-max_len=%d" % fz.get("max_len", 4096),
               "-timeout=25", "-rss_limit_mb=3000", "-print_final_stats=1", "-artifact_prefix=" + d + "/"]
        lf = open(os.path.join(d, "log"), "w")
        procs.append((w, d, subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=d)))
    fails, execs, cov = [], 0, 0
    for w, d, p in procs:
        try:
            p.wait(timeout=secs + 200)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        txt = open(os.path.join(d, "log"), errors="replace").read()
        for ln in txt.splitlines():
            if "stat::number_of_executed_units" in ln:
                execs += int(ln.split()[-1])
            if " cov: " in ln:
                try:
                    cov = max(cov, int(ln.split(" cov: ")[1].split()[0]))
                except ValueError:
                    pass
        cr = os.path.join(d, "crash.txt")
        if os.path.exists(cr):
            fails.append((w, cr, "crash" if "PBT FAIL" not in txt else "fail", txt))
    return {"executions": execs, "edges_covered": cov, "seconds": secs, "workers": JOBS}, fails


def evidence(pid, spec, tier, seed, bdir, W, t0, tb, keys, violation, fuzz_info):
    cases = nontriv = disc = 0
    labels, known, samples, subs, hashes, capped = {}, {}, [], {}, set(), False
    for w in range(W):
        p = os.path.join(bdir, "out%d.json" % w)
        if not os.path.exists(p):
            continue
        d = json.load(open(p))
        capped = capped or d["capped"]
        for name, s in d["subs"].items():
            cases += s["cases"]
            nontriv += s["nontrivial"]
            disc += s["discarded"]
            u = subs.setdefault(name, {"cases": 0, "nontrivial": 0, "discarded": 0, "labels": {}})
            for k in ("cases", "nontrivial", "discarded"):
                u[k] += s[k]
            for k, v in s["labels"].items():
                u["labels"][k] = u["labels"].get(k, 0) + v
            for k, v in s["known"].items():
                known[k] = known.get(k, 0) + v
            for t in s["samples"]:
                if sum(1 for x in samples if x.startswith("[" + name)) < 1:
                    samples.append("[%s] %s" % (name, t))
        hp = p + ".hashes"
        if os.path.exists(hp):
            data = open(hp, "rb").read()
            hashes.update(x[0] for x in struct.iter_unpack("<Q", data))
    cov = {"evaluations": cases, "distinct_nontrivial": len(hashes), "rule": spec["rule"], "samples": samples[:12] or ["(none)"],
           "nontrivial": nontriv, "discarded": disc, "per_sub_property": subs, "time_capped": capped, "build_s": round(tb, 1)}
    if fuzz_info:
        cov["coverage_guided"] = fuzz_info
    if known:
        cov["known_finding_hits"] = known
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1)}
    if violation:
        ev["violations"] = 1
    return ev


if __name__ == "__main__":
    sys.exit(main())
