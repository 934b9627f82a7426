"""Recorder shared by all monitors, scenario declaration, and small helpers."""
import collections
import hashlib
import json
import os
import traceback
import zlib

import numpy as np

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Z_LIMIT = 6.5  # two-sided p ~ 8e-11 per statistical test


def jsonable(x, depth=0):
    if depth > 6:
        return str(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:40]]
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else str(x)
    try:
        a = np.asarray(x)
        if a.dtype == object:
            return str(x)[:300]
        if a.size > 40:
            return {"shape": list(a.shape), "head": jsonable(a.reshape(-1)[:20].tolist(), depth + 1)}
        return jsonable(a.tolist(), depth + 1)
    except Exception:
        return str(x)[:300]


class Rec:
    """What the monitors of one scenario observed."""

    MAX_VIOL = 20

    def __init__(self, prop, name, params, seed, tier):
        self.prop, self.name, self.params, self.seed, self.tier = prop, name, params, seed, tier
        self.events = collections.Counter()
        self.cases = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.n_violations = 0
        self.notes = {}
        self.rng = np.random.default_rng([seed, zlib.crc32((prop + name).encode())])

    def key(self, salt=0):
        import jax
        return jax.random.PRNGKey(int(self.rng.integers(0, 2**31 - 1)) ^ salt)

    def ev(self, kind, n=1):
        self.events[kind] += int(n)

    def case(self, *key, nontrivial=True, n=1):
        """One evaluation; counts as distinct if its key was not seen."""
        self.cases += n
        if nontrivial:
            h = hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest()
            self.distinct.add(h)

    def distinct_rows(self, arr, tag="", stride=1):
        """Count distinct observed states (rows), all being evaluations."""
        a = np.ascontiguousarray(np.asarray(arr))
        a = a.reshape(a.shape[0], -1)
        self.cases += a.shape[0]
        for r in a[::stride]:
            self.distinct.add(hashlib.blake2b(tag.encode() + r.tobytes(), digest_size=8).hexdigest())

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(jsonable(dict(scenario=self.name, **kw)))

    def violation(self, sig, msg, **detail):
        self.n_violations += 1
        if len(self.violations) < self.MAX_VIOL or sig not in {v["signature"] for v in self.violations}:
            self.violations.append(dict(signature=sig, message=msg, scenario=self.name,
                                        params=jsonable(self.params), seed=self.seed,
                                        tier=self.tier, detail=jsonable(detail)))

    def check(self, cond, sig, msg="", **detail):
        self.ev("check:" + sig)
        if not bool(cond):
            self.violation(sig, msg or sig, **detail)
            return False
        return True

    def note_max(self, k, v):
        v = float(v)
        if not np.isnan(v):
            self.notes[k] = max(self.notes.get(k, -np.inf), v)

    def ztest(self, z, sig, msg="", **detail):
        z = np.asarray(z, float)
        self.note_max("max_abs_z", np.nanmax(np.abs(z)) if z.size else 0.0)
        self.ev("ztests", z.size)
        bad = ~(np.abs(z) <= Z_LIMIT)
        return self.check(not bad.any(), sig, msg, z=z[bad][:10] if z.ndim else z, **detail)

    def close(self, a, b, sig, msg="", rtol=1e-9, atol=1e-9, **detail):
        a, b = np.asarray(a), np.asarray(b)
        if not self.check(a.shape == b.shape, sig + "-shape", msg, got=a.shape, want=b.shape, **detail):
            return False
        ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            i = np.argwhere(~ok)[0]
            return self.check(False, sig, msg, index=i, got=a[tuple(i)], want=b[tuple(i)],
                              n_bad=int((~ok).sum()), n=int(ok.size), **detail)
        return self.check(True, sig)

    def same(self, a, b, sig, msg="", **detail):
        """Bitwise equality (NaN equals NaN)."""
        a, b = np.asarray(a), np.asarray(b)
        ok = a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
        if not ok and a.shape == b.shape:
            try:
                ok = np.array_equal(a, b, equal_nan=True)
            except TypeError:
                ok = np.array_equal(a, b)
        if not ok:
            detail.update(got=a, want=b)
        return self.check(ok, sig, msg, **detail)

    def result(self):
        return dict(name=self.name, cases=self.cases, distinct=sorted(self.distinct),
                    events=dict(self.events), samples=self.samples, notes=self.notes,
                    violations=self.violations, n_violations=self.n_violations)


def classify_exception(e):
    """'repo' if the innermost frame among harness and repository code is the repository's."""
    last = None
    tb = e.__traceback__
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(REPO_SRC + "/"):
            last = ("repo", f)
        elif f.filename.startswith(HERE + "/"):
            last = ("harness", f)
    if last is None:
        return "harness", None
    if last[0] == "harness":
        # a class of the repository that cannot be built: raised while constructing it, in the library that builds classes
        while tb is not None:
            cls = tb.tb_frame.f_locals.get("cls")
            if isinstance(cls, type) and cls.__module__.split(".")[0] == "flowMC" and tb.tb_frame.f_code.co_name == "__call__" \
                    and not tb.tb_frame.f_code.co_filename.startswith(HERE + "/"):
                return "repo", f"the construction of {cls.__name__}"
            tb = tb.tb_next
    return last[0], f"{last[1].filename}:{last[1].lineno} {last[1].name}"


class Scn:
    def __init__(self, name_, fn_, /, x64=True, **params):
        self.name, self.fn, self.x64, self.params = name_, fn_, x64, params
