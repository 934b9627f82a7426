"""C30 runs and objects do not influence each other: actors in company against the same actors alone in a fresh process."""
import json
import os
import subprocess
import sys
import tempfile
import numpy as np
from mon.core import Scn
from mon import actors as A

RULE = ("an actor is a small use of flowMC (a bundle run, a strategy, a flow in training, ...) with its own key, data and settings but the shapes, names and code of the others; "
        "every step's results in company (built in random order, run in a random interleaving) are compared with those of the same actor alone in a fresh process; "
        "a case is one step, distinct by its content")
REQUIRED = ["solo-steps", "company-steps", "switches", "intact"] + ["actor:" + k for k in A.KINDS]
ASSUMPTIONS = ["the same program on the same machine gives the same numbers in two processes (compared to 1e-9)"]


def start(spec, d):
    out = os.path.join(d, spec.replace(":", "_") + ".npz")
    p = subprocess.Popen([sys.executable, "-m", "mon.actors", spec, out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    return p, out


def company(rec, kinds, rounds=1):
    rng = rec.rng
    specs = []
    for k in kinds:
        specs += [(k, int(rng.integers(1 << 30)))]
    with tempfile.TemporaryDirectory() as d:
        running = []
        solo = {}

        def collect():
            s, (p, out) = running.pop(0)
            _, err = p.communicate()
            if p.returncode:
                who, where, e = json.load(open(out + ".err")) if os.path.exists(out + ".err") else ("harness", None, err[-2000:])
                if who != "repo":
                    raise RuntimeError(f"solo run of {s}: {e} {err[-2000:]}")
                rec.violation("raises", f"raised on a valid input at {where}", error=e)
                return
            z = np.load(out)
            solo[s] = {k: z[k] for k in z.files}
        for s in specs:
            running.append((s, start(f"{s[0]}:{s[1]}", d)))
            if len(running) >= 2:
                collect()
        while running:
            collect()
    for rnd in range(rounds):
        # others of the same kinds come and go before
        for k in kinds[:: 2 if rnd == 0 else 1]:
            g = A.make(k, int(rng.integers(1 << 30)))
            for _ in range(min(2, g.steps)):
                A.step(g)
        cast = {}
        for i in rng.permutation(len(specs)):
            cast[specs[i]] = A.make(*specs[i])
        at = {s: 0 for s in specs}
        bad = set()
        last = None
        while True:
            todo = [s for s in specs if at[s] < cast[s].steps]
            if not todo:
                break
            s = todo[rng.integers(len(todo))]
            rec.ev("switches", s != last)
            last = s
            got = A.step(cast[s])
            want = solo.get(s)
            i = at[s]
            at[s] += 1
            if want is None or s in bad:
                continue
            n = sum(k.startswith(f"{i}.") for k in want)
            ok = len(got) == n
            for j, v in enumerate(got):
                if not ok:
                    break
                w = want[f"{i}.{j}"]
                ok = v.shape == w.shape and v.dtype == w.dtype and (np.allclose(v, w, rtol=1e-9, atol=1e-9, equal_nan=True) if v.dtype.kind in "fc" else np.array_equal(v, w))
            if not rec.check(ok, "influenced", "results differ when other runs happen in the same process", actor=s[0], step=i, item=j if got else None,
                             alone=want.get(f"{i}.{j}") if got else None, in_company=v if got else None, company=[k for k, _ in specs]):
                bad.add(s)
            rec.check(cast[s].intact(), "settings-modified", "an object given as a setting or as data was modified", actor=s[0], step=i)
            rec.ev("intact")
            rec.ev("company-steps")
            rec.ev("solo-steps")
            rec.ev("actor:" + s[0])
            rec.case(s, i, [v.tobytes() for v in got[:40]])
    rec.sample(actors=[f"{k}:{s}" for k, s in specs], steps={f"{k}:{s}": at[(k, s)] for k, s in specs})


GROUPS = [("kernel",) * 4, ("steps", "steps", "steps", "adam"), ("group", "group", "tempering", "tempering"), ("train", "train", "flow", "flow"), ("bundle", "bundle", "store"),
          ("bundlept", "bundlept", "custom"), ("defaults", "defaults", "store"), ("store", "matching", "matching"), ("adam", "adam", "custom", "custom", "steps")]


def scenarios(tier, seed):
    out = []
    for r in range(1 if tier == "quick" else 6):
        for i, g in enumerate(GROUPS):
            out.append(Scn(f"company-{i}-r{r}", company, kinds=g, rounds=1 if tier == "quick" else 2))
        if tier != "quick":
            out.append(Scn(f"all-r{r}", company, kinds=tuple(A.KINDS)))
    return out
