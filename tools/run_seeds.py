#!/usr/bin/env python3
"""tools/run_seeds.py [ID...]: per planted bug, the existing tests and its property's check on a scratch copy (NOTEST=1 skips the tests)."""
import json, os, shutil, subprocess, sys, tempfile, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base_added = None
for sid in sorted(os.listdir(here + "/seeded")):
    if sys.argv[1:] and not any(sid.startswith(a) for a in sys.argv[1:]):
        continue
    p = f"{here}/seeded/{sid}"
    prop = json.load(open(p + "/meta.json"))["property"]
    d = tempfile.mkdtemp(prefix="seedrun.")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        shutil.copytree("/repo", d + "/r", symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        a = subprocess.run(["git", "apply", p + "/patch.diff"], cwd=d + "/r", capture_output=True, text=True)
        if a.returncode:
            print(sid, "DOES NOT APPLY", a.stderr); continue
        env = dict(os.environ, PYTHONPATH=d + "/r/src", JAX_PLATFORMS="cpu", TQDM_DISABLE="1")
        t = "-"
        if not os.environ.get("NOTEST"):
            sc = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {d}/r").replace(". /opt/vp/support/env.sh", f". /opt/vp/support/env.sh; export PYTHONPATH={d}/r/src")
            subprocess.run(["bash", "-c", sc, "test.sh", d + "/out.json"], env=env, capture_output=True, text=True)
            o = json.load(open(d + "/out.json"))
            bad = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(o.get("passed", []))
            t = f"{len(o.get('passed', []))} passed" + (f" BROKEN {sorted(bad)[:3]}" if bad else "")
        s = time.time()
        r = subprocess.run([sys.executable, here + "/run_check.py", prop], cwd=here, env=dict(os.environ, VERIF_REPO_SRC=d + "/r/src"), capture_output=True, text=True)
        lines = [x for x in r.stdout.splitlines() if not x.startswith(("KNOWN", prop))]
        print(f"{sid:24s} {prop} exit={r.returncode} {'' if r.returncode == 1 else '<<<<< '}{time.time() - s:.0f}s tests: {t} | {lines[0][:140] if lines else ''}", flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
