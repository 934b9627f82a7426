"""Worker process: claims scenarios of one property and runs them."""
import importlib
import json
import os
import sys
import time
import traceback


class Lines:
    """Which lines of the repository this process executed (each line reports once, so the cost is nil)."""

    def __init__(self, root):
        self.root, self.hit = root, set()
        m = sys.monitoring
        m.use_tool_id(m.COVERAGE_ID, "verif")
        m.register_callback(m.COVERAGE_ID, m.events.LINE, self.line)
        m.set_events(m.COVERAGE_ID, m.events.LINE)

    def line(self, code, n):
        f = code.co_filename
        if code.co_flags & 1 and f.startswith(self.root):  # function bodies only
            self.hit.add((f[len(self.root):], n))
        return sys.monitoring.DISABLE

    def save(self, path):
        with open(path, "w") as f:
            json.dump(sorted(self.hit), f)


def main():
    prop, tier, seed, outdir, mode, wid, deadline, only = sys.argv[1:9]
    seed, deadline = int(seed), float(deadline)
    import jax
    jax.config.update("jax_enable_x64", mode == "x64")
    from mon.core import REPO_SRC, Rec, classify_exception
    lines = Lines(REPO_SRC + "/flowMC/") if hasattr(sys, "monitoring") else None
    import flowMC  # noqa: F401
    import flowMC.Sampler
    assert flowMC.Sampler.__file__.startswith(REPO_SRC + "/"), flowMC.Sampler.__file__
    mod = importlib.import_module("mon.props." + prop.lower())
    scns = mod.scenarios(tier, seed)
    assert len({s.name for s in scns}) == len(scns), "duplicate scenario names"
    if only:
        scns = [s for s in scns if s.name == only]
    for i, s in enumerate(scns):
        if s.x64 != (mode == "x64"):
            continue
        if time.time() > deadline:
            break
        try:
            os.close(os.open(f"{outdir}/claim.{i}", os.O_CREAT | os.O_EXCL | os.O_WRONLY))
        except FileExistsError:
            continue
        t0 = time.time()
        r = Rec(prop, s.name, s.params, seed, tier)
        err = None
        try:
            s.fn(r, **s.params)
        except Exception as e:  # noqa: BLE001
            who, where = classify_exception(e)
            tb = traceback.format_exc()
            if who == "repo":
                r.violation("raises", f"raised {type(e).__name__} on a valid input at {where}",
                            error=str(e)[:600], traceback=tb[-3000:])
            else:
                err = tb[-6000:]
        res = r.result()
        res.update(error=err, wall=time.time() - t0)
        tmp = f"{outdir}/tmp.{i}"
        with open(tmp, "w") as f:
            json.dump(res, f)
        os.rename(tmp, f"{outdir}/res.{i}")
        jax.clear_caches()
        if lines:
            lines.save(f"{outdir}/lines.{mode}.{wid}")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
