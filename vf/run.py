"""python3 vf/run.py PROP : run every sub-check of a property, write evidence, report.

exit 0 held on everything explored; exit 1 + VIOLATION line: broken; exit 2: error of the check.
"""
import json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import env as vfenv


def list_subs(prop, env, scratch):
    code = ("import sys,json;sys.path.insert(0,%r);from vf import env;env.setup_path();"
            "import warnings;warnings.simplefilter('ignore');"
            "from vf import core;"
            "print('SUBS='+json.dumps([(s.name,s.quick,s.thorough,s.shards,s.rule,s.floor) for s in core.load_checks(%r)]))" % (ROOT, prop))
    p = subprocess.run([vfenv.PYTHON, "-c", code], env=env, cwd=scratch, capture_output=True, text=True)
    for line in p.stdout.splitlines():
        if line.startswith("SUBS="):
            return json.loads(line[5:])
    sys.stderr.write(p.stdout[-2000:] + p.stderr[-6000:])
    return None


def selftest():
    """setup_cmd: nothing is built; check that the interpreter and libraries are there."""
    scratch = tempfile.mkdtemp(prefix="vf-self-")
    try:
        env = vfenv.child_env(scratch)
        code = ("import sys;sys.path.insert(0,%r);from vf import env;env.setup_path();"
                "import numpy,scipy,astropy,hypothesis;print('numpy',numpy.__version__,'scipy',scipy.__version__,"
                "'astropy',astropy.__version__,'hypothesis',hypothesis.__version__)" % ROOT)
        return subprocess.run([vfenv.PYTHON, "-c", code], env=env, cwd=scratch).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    if sys.argv[1:] == ["--selftest"]:
        sys.exit(selftest())
    prop = sys.argv[1]
    only = sys.argv[2:] or None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["VERIF_TIER"] = tier
    t0 = time.time()
    total_budget = float(os.environ.get("VF_TOTAL", "660" if tier == "quick" else "3000"))
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop.lower())
    rc = 2
    try:
        rc = run(prop, only, tier, seed, t0, total_budget, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(prop, only, tier, seed, t0, total_budget, scratch):
    env = vfenv.child_env(scratch)
    subs = list_subs(prop, env, scratch)
    if subs is None:
        # Importing the code under test failed.  That is an error of the run, not a verdict.
        print("ERROR: cannot load checks for %s" % prop)
        return 2
    if only:
        subs = [s for s in subs if s[0] in only]
    tasks = []
    for name, quick, thorough, shards, rule, floor in subs:
        for k in range(shards):
            tasks.append((name, k, shards))
    # interleave so that long sharded sub-checks start first
    tasks.sort(key=lambda t: (-t[2], t[1]))
    jobs = int(os.environ.get("VF_JOBS", "8"))
    running, results, i = [], [], 0
    while i < len(tasks) or running:
        while i < len(tasks) and len(running) < jobs:
            name, k, nsh = tasks[i]
            i += 1
            d = os.path.join(scratch, "%s-%d" % (name, k))
            os.makedirs(d)
            out = os.path.join(d, "result.json")
            e = vfenv.child_env(d)
            e["VF_BUDGET"] = str(max(5., total_budget - (time.time() - t0)))
            log = open(os.path.join(d, "log.txt"), "w")
            p = subprocess.Popen([vfenv.PYTHON, "-m", "vf.worker", prop, name, str(k), str(nsh), out],
                                 cwd=d, env=dict(e, PYTHONPATH=ROOT), stdout=log, stderr=subprocess.STDOUT)
            running.append((p, name, k, out, log, time.time(), d))
        time.sleep(0.05)
        still = []
        for p, name, k, out, log, ts, d in running:
            if p.poll() is None:
                if time.time() - t0 > total_budget + 160:
                    p.kill(); p.wait()
                    results.append(dict(prop=prop, sub=name, shard=k, status="timeout", evaluations=0, skipped=0,
                                        nontrivial=[], labels={}, samples=[], message="killed: over budget", case=None, wall_s=time.time()-ts))
                else:
                    still.append((p, name, k, out, log, ts, d))
                continue
            log.close()
            try:
                with open(out) as f:
                    r = json.load(f)
            except Exception:
                with open(os.path.join(d, "log.txt")) as f:
                    tail = f.read()[-3000:]
                r = dict(prop=prop, sub=name, shard=k, status="error", evaluations=0, skipped=0, nontrivial=[],
                         labels={}, samples=[], message="worker died rc=%s\n%s" % (p.returncode, tail), case=None, wall_s=time.time()-ts)
            results.append(r)
            shutil.rmtree(d, ignore_errors=True)
        running = still
        if os.environ.get("VF_FAST") and any(r["status"] == "violation" for r in results):    # developer's option: stop at the first violation
            for p in [t[0] for t in running]:
                p.kill(); p.wait()
            break

    results.sort(key=lambda r: (r["sub"], r["shard"]))
    per = {}
    for r in results:
        a = per.setdefault(r["sub"], dict(evaluations=0, nontrivial=set(), labels={}, samples=[], skipped=0, wall=0.))
        a["evaluations"] += r["evaluations"]; a["skipped"] += r["skipped"]; a["wall"] += r["wall_s"]
        a["nontrivial"].update(r["nontrivial"])
        for l, c in r["labels"].items():
            a["labels"][l] = a["labels"].get(l, 0) + c
        if len(a["samples"]) < 2:
            a["samples"] += r["samples"][:2]
    errors = [r for r in results if r["status"] in ("error", "timeout")]
    viol = [r for r in results if r["status"] == "violation"]

    # replays of committed known findings (none of them may hide anything else)
    kf = [k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"] if k["property"] == prop] \
        if os.path.exists(os.path.join(ROOT, "known_findings.json")) else []

    rules = {s[0]: s[4] for s in subs}
    floors = {s[0]: s[5] for s in subs}
    weak = []
    for n, a in per.items():
        if a["evaluations"] and len(a["nontrivial"]) < floors.get(n, 0.2) * a["evaluations"] and not viol:
            weak.append("%s: only %d of %d cases non-trivial" % (n, len(a["nontrivial"]), a["evaluations"]))
    samples = []
    for n in sorted(per):
        for c in per[n]["samples"][:2]:
            samples.append({"sub": n, "case": c})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(a["evaluations"] for a in per.values()),
            "distinct_nontrivial": sum(len(a["nontrivial"]) for a in per.values()),
            "rule": "; ".join("%s: %s" % (n, rules[n]) for n in sorted(per)),
            "samples": samples[:40],
            "per_sub": {n: {"evaluations": a["evaluations"], "distinct_nontrivial": len(a["nontrivial"]),
                            "not_run_time_budget": a["skipped"], "labels": dict(sorted(a["labels"].items())),
                            "cpu_s": round(a["wall"], 1)} for n, a in sorted(per.items())},
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
        "assumptions": ["oracles and tolerances are those documented in DESIGN.md",
                        "numpy, scipy, astropy, fitsio as installed in /opt/venv behave as documented"],
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", "%s.json" % prop))

    for n, a in sorted(per.items()):
        print("%s/%s: %d cases, %d distinct non-trivial, %.0f s cpu%s %s" % (
            prop, n, a["evaluations"], len(a["nontrivial"]), a["wall"],
            (", %d not run (budget)" % a["skipped"]) if a["skipped"] else "", dict(sorted(a["labels"].items()))))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viol:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        done = set()
        for r in viol:
            if r["sub"] in done:
                continue
            done.add(r["sub"])
            path = os.path.join(ROOT, "replays", "%s-%s.json" % (prop, r["sub"]))
            with open(path, "w") as f:
                json.dump({"property": prop, "sub": r["sub"], "message": r["message"], "case": r["case"],
                           "seed": seed, "run": "python3 vf/replay.py " + path}, f, indent=1)
            print("%s/%s: %s" % (prop, r["sub"], r["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        for r in errors:
            print("ERROR in %s/%s: %s" % (prop, r["sub"], r["message"]))
        return 1
    if errors:
        for r in errors:
            print("ERROR in %s/%s[%d]: %s" % (prop, r["sub"], r["shard"], r["message"]))
        return 2
    if weak:
        print("ERROR: vacuous check: " + "; ".join(weak))
        return 2
    print("OK property=%s %d cases in %.0f s" % (prop, ev["coverage"]["evaluations"], time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
