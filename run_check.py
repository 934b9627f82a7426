#!/usr/bin/env python3
"""Decide one property:  run_check.py C07 [--tier quick|thorough] [--seed N] [--only SCENARIO]

Starts worker processes that run the property's scenarios against /repo's working tree,
merges what the monitors observed, rewrites evidence/<id>.json and reports."""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def known_findings(prop):
    """open: property=Cxx signature=<sig> <what>   |   fixed: property=Cxx <commit> <what>"""
    out = {}
    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith("open: property=%s signature=" % prop):
            rest = line.split("signature=", 1)[1].strip()
            sig, what = rest.split(" ", 1)
            out[sig] = what
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", default="")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 8))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--show", action="store_true", help="print time per scenario")
    ap.add_argument("--lines", default="", help="write the executed repository lines to this file")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    prop = a.prop.upper()
    t0 = time.time()
    limit = 420 if a.tier == "quick" else 660
    deadline = t0 + limit
    hard = t0 + (780 if a.tier == "quick" else 860)
    out = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    env = dict(os.environ)
    env.update(JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONNOUSERSITE="1", PYTHONPYCACHEPREFIX=out + "/pyc", PYTHONPATH=os.pathsep.join([os.environ.get("VERIF_REPO_SRC", "/repo/src"), HERE]),
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TQDM_DISABLE="1",
               XLA_FLAGS="--xla_cpu_multi_thread_eigen=false", TMPDIR=out,
               VERIF_SCRATCH=out)
    env.pop("JAX_ENABLE_X64", None)
    for k in ("JAX_DEBUG_NANS", "JAX_DISABLE_JIT", "JAX_THREEFRY_PARTITIONABLE"):
        env.pop(k, None)
    try:
        return run(a, prop, t0, deadline, hard, out, env)
    finally:
        if not a.keep:
            shutil.rmtree(out, ignore_errors=True)


def run(a, prop, t0, deadline, hard, out, env):
    # which modes are needed (cheap listing run in the first worker's language: ask python)
    lst = subprocess.run(
        [PY, "-c", "import sys,json,importlib; m=importlib.import_module('mon.props.'+sys.argv[1].lower());"
         "s=m.scenarios(sys.argv[2],int(sys.argv[3]));"
         "print('\\n@@'+json.dumps(dict(scn=[[x.name,x.x64] for x in s],rule=m.RULE,required=m.REQUIRED,"
         "assumptions=getattr(m,'ASSUMPTIONS',[]))))", prop, a.tier, str(a.seed)],
        env=env, capture_output=True, text=True, cwd=HERE)
    if lst.returncode:
        print(lst.stdout[-2000:], lst.stderr[-4000:])
        print("ERROR: cannot list scenarios (does the package import?)")
        # a package that does not import breaks every property, but that is a build failure
        return 2
    info = json.loads(lst.stdout.split("\n@@")[-1])
    names = info["scn"]
    if a.only:
        names = [n for n in names if n[0] == a.only]
    n64 = sum(1 for n in names if n[1])
    n32 = len(names) - n64

    def start(mode, wid):
        log = open("%s/log.%s.%d" % (out, mode, wid), "ab")
        return subprocess.Popen([PY, "-m", "mon.worker", prop, a.tier, str(a.seed), out, mode, str(wid),
                                 str(deadline), a.only], env=env, cwd=HERE, stdout=log, stderr=log,
                                stdin=subprocess.DEVNULL)

    jobs = max(1, a.jobs)
    j64 = min(n64, max(1, round(jobs * n64 / max(1, n64 + n32)))) if n64 else 0
    j32 = min(n32, max(1, jobs - j64)) if n32 else 0
    if n64 and n32 == 0:
        j64 = min(jobs, n64)
    procs = [("x64", i, start("x64", i)) for i in range(j64)] + [("f32", i, start("f32", i)) for i in range(j32)]
    # when one mode finishes, its processes are replaced by helpers of the other mode
    crashes = []
    wid = 100
    while procs:
        time.sleep(0.1)
        for p in list(procs):
            rc = p[2].poll()
            if rc is None:
                continue
            procs.remove(p)
            if rc != 0:
                crashes.append((p[0], p[1], rc))
            elif procs and time.time() < deadline:
                other = "f32" if p[0] == "x64" else "x64"
                claimed = len(glob.glob(out + "/claim.*"))
                if claimed < len(names) and any(q[0] == other for q in procs):
                    procs.append((other, wid, start(other, wid)))
                    wid += 1
        if os.environ.get("VERIF_STOP_FIRST"):  # mutation sweeps only need one report
            for f in glob.glob(out + "/res.*"):
                try:
                    if any(v["signature"] not in known_findings(prop) for v in json.load(open(f))["violations"]):
                        hard = 0
                except ValueError:
                    pass
        if time.time() > hard:
            for p in procs:
                p[2].kill()
            crashes.append(("all", 0, "timeout"))
            break
    results, missing = [], []
    for i, (n, _) in enumerate(names):
        f = "%s/res.%d" % (out, i)
        if os.path.exists(f):
            results.append(json.load(open(f)))
        elif os.path.exists("%s/claim.%d" % (out, i)):
            missing.append(n)
    errors = [(r["name"], r["error"]) for r in results if r["error"]]
    events, notes, distinct, cases, samples, viol = {}, {}, set(), 0, [], []
    for r in results:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["notes"].items():
            notes[k] = max(notes.get(k, v), v)
        distinct.update(r["distinct"])
        cases += r["cases"]
        samples += r["samples"][:2]
        viol += r["violations"]
    kf = known_findings(prop)
    known = {v["signature"]: v for v in viol if v["signature"] in kf}
    new = [v for v in viol if v["signature"] not in kf]
    lines = {tuple(x) for f in glob.glob(out + "/lines.*") for x in json.load(open(f))}
    if a.lines:
        json.dump(sorted(lines), open(a.lines, "w"))
    files = {}
    for f, _ in lines:
        files[f] = files.get(f, 0) + 1
    unmet = [e for e in info["required"] if not events.get(e)] if not a.only else []
    wall = time.time() - t0
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level="exploration", wall_s=round(wall, 2),
              violations=len(new),
              assumptions=info["assumptions"],
              coverage=dict(evaluations=cases, distinct_nontrivial=len(distinct), rule=info["rule"],
                            samples=samples[:6], events={k: v for k, v in sorted(events.items())},
                            extremes=notes, scenarios=[r["name"] for r in results],
                            scenarios_planned=len(names), scenarios_run=len(results),
                            repo_lines_executed=dict(sorted(files.items())), known_findings_observed=sorted(known)))
    if not a.only:
        os.makedirs(HERE + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (HERE, prop), "w") as f:
            json.dump(ev, f, indent=1)
    if a.show:
        for r in sorted(results, key=lambda r: -r["wall"]):
            print("  %6.1fs %s cases=%d viol=%d %s" % (r["wall"], r["name"], r["cases"], r["n_violations"], "ERR" if r["error"] else ""))
    print("%s %s seed=%d: %d/%d scenarios, %d evaluations, %d distinct, %d checks, %.1fs; extremes %s" % (
        prop, a.tier, a.seed, len(results), len(names), cases, len(distinct),
        sum(v for k, v in events.items() if k.startswith("check:")), wall,
        {k: float("%.3g" % v) for k, v in notes.items()}))
    for s in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[s]))
    if new:
        os.makedirs(HERE + "/replays", exist_ok=True)
        seen = set()
        for v in new:
            if v["signature"] in seen or len(seen) > 5:
                continue
            seen.add(v["signature"])
            path = "%s/replays/%s-%s-%d.json" % (HERE, prop, v["signature"].replace("/", "_").replace(" ", "_")[:60], a.seed)
            with open(path, "w") as f:
                json.dump(dict(v, rerun="python3 %s/run_check.py %s --tier %s --seed %d --only '%s'" % (
                    HERE, prop, v["tier"], v["seed"], v["scenario"])), f, indent=1)
            print("  %s: %s [%s] %s" % (v["signature"], v["message"], v["scenario"], json.dumps(v["detail"])[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if crashes or missing or errors or unmet:
        for c in crashes:
            print("ERROR worker ended:", c)
            f = "%s/log.%s.%s" % (out, c[0], c[1])
            if os.path.exists(f):
                print(open(f, errors="replace").read()[-3000:])
        for n, e in errors[:3]:
            print("ERROR in scenario", n, "\n", e)
        if missing:
            print("ERROR scenarios without result:", missing)
        if unmet:
            print("INCONCLUSIVE: required events never observed:", unmet)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
