"""C23 temperature ladder: swap decisions are read off labelled walkers, the ladder is judged after every call."""
import numpy as np
import jax
import jax.numpy as jnp
from mon.core import Scn
from mon.pt import PT, Hold

RULE = ("a case is one tempering call: the swap decisions of every chain are reconstructed from the labelled walkers before and after, and the "
        "ladder after the call is compared with the one before; non-trivial if in training with at least one interior rung; distinct by "
        "ladder and swap rates")
REQUIRED = ["training-calls", "production-calls", "gap:grows", "gap:shrinks", "gap:equal", "gap:overtake-risk", "chains:1", "chains:few", "chains:many",
            "rungs:2", "rungs:3", "rungs:many", "forced", "bundle-training", "bundle-production", "flag-switches"]
ASSUMPTIONS = ["a kernel that never moves stands for any local kernel", "'increasing' and the comparison of gaps are judged up to rounding (one gap may "
               "shrink below the resolution of its temperature)",
               "a ladder whose two hottest temperatures are equal leaves no room to grow and is not judged for growth"]


def lik(x, d):
    return d["L"][jnp.round(x[0]).astype(int)]


def pri(x, d):
    return 0.0 * x[0]


def decisions(before, after):
    """Swap decisions (n, nt-1) of a sweep from the cold end that turns `before` into `after` (labels); None if there is none."""
    cur = before.copy()
    n, nt = cur.shape
    acc = np.zeros((n, nt - 1), bool)
    rows = np.arange(n)
    for k in range(nt - 1):
        do = cur[rows, k] != after[rows, k]  # position k is final after pair k is visited
        acc[:, k] = do
        a, b = cur[:, k].copy(), cur[:, k + 1].copy()
        cur[:, k] = np.where(do, b, a)
        cur[:, k + 1] = np.where(do, a, b)
    return acc if (cur == after).all() else None


def decisions_rev(before, after):
    a = decisions(before[:, ::-1], after[:, ::-1])
    return None if a is None else a[:, ::-1]


def judge(rec, t0, t1, rate, training, eps, **kw):
    """One call: ladder before and after, swap rate per neighbouring pair."""
    nt = len(t0)
    if not training:
        rec.ev("production-calls")
        rec.check(t0.tobytes() == t1.tobytes(), "production-fixed", "temperatures changed out of training", before=t0, after=t1, **kw)
        return
    rec.ev("training-calls")
    rec.check(t0[0] == t1[0] and t0[-1] == t1[-1], "end-points", "the coldest or hottest temperature changed", before=t0, after=t1, **kw)
    ok = rec.check(np.isfinite(t1).all() and (t1 > 0).all(), "positive", "a temperature is not finite and positive", before=t0, after=t1, rate=rate, **kw)
    if not ok:
        return
    tol = 8 * eps * t1.max()
    rec.check((np.diff(t1) >= -tol).all(), "increasing", "the ladder is no longer increasing", before=t0, after=t1, rate=rate, **kw)
    g0, g1 = np.diff(t0), np.diff(t1)
    room = g0[-1]
    for i in range(nt - 2):
        dr = rate[i] - rate[i + 1]
        if abs(dr) < 1e-12:
            rec.ev("gap:equal")
            # unless the step of the whole ladder is cut, an equal rate leaves the gap alone (and with the cut as well)
            # (a mean is a single-precision number: two equal means may differ by its rounding when the compiler fuses the difference)
            slack = tol + g0[i] * kw["k"] * 4 * 1.2e-7
            rec.check(abs(g1[i] - g0[i]) <= slack, "equal", "an interior gap changed although its pairs swap equally often", i=i, before=t0, after=t1, rate=rate, **kw)
        elif dr > 0:
            rec.ev("gap:grows")
            strict = g0[i] > 1e3 * tol and room > 1e3 * tol and abs(rate[:-1] - rate[1:]).max() * kw["k"] < 8
            rec.check(g1[i] >= g0[i] - tol and (not strict or g1[i] > g0[i]), "grows", "an interior gap did not grow although its lower pair swaps more often",
                      i=i, before=t0, after=t1, rate=rate, **kw)
        else:
            rec.ev("gap:shrinks")
            strict = g0[i] > 1e3 * tol and room > 1e3 * tol and abs(rate[:-1] - rate[1:]).max() * kw["k"] < 8
            rec.check(g1[i] <= g0[i] + tol and (not strict or g1[i] < g0[i]), "shrinks", "an interior gap did not shrink although its lower pair swaps less often",
                      i=i, before=t0, after=t1, rate=rate, **kw)
    if nt > 2 and (rate[:-1] - rate[1:]).sum() * kw["k"] > 1:
        rec.ev("gap:overtake-risk")


def history(rec, n, nt, calls, x64, mode="random"):
    rng = rec.rng
    dt = np.float64 if x64 else np.float32
    eps = np.finfo(dt).eps
    pt = None
    for rep in range(3):
        temps = 1.0 + np.concatenate([[0], np.cumsum(np.exp(rng.uniform(-2, 2, nt - 1)))])
        if rep == 2:
            temps = temps * float(np.exp(rng.uniform(-1, 3)))  # need not start at one
        if pt is None:
            pt = PT(Hold(), lik, pri, 1, temps, n_steps=1, training=True)
        W = np.arange(n * nt).reshape(n, nt, 1).astype(dt)
        pt.reset(W[:, 1:], temps)
        cur, cold = W[..., 0], W[:, 0]
        key = rec.key()
        for c in range(calls):
            training = bool(rng.random() < 0.75) if c else bool(rep % 2)
            rec.ev("flag-switches", c > 0 and training != pt.state.data["training"])
            pt.state.data["training"] = training
            t0 = np.asarray(pt.res["temps"].data).copy()
            if mode == "forced":
                # make the lower pairs of some rungs swap (or not) for certain: likelihood ordered along the ladder by pattern
                pat = np.asarray(c % 4)
                Lr = {0: np.concatenate([[0.0], np.arange(nt - 1)[::-1] + 1.0]), 1: np.arange(nt) * 1.0, 2: -np.arange(nt) * 1.0,
                      3: np.where(np.arange(nt) % 2, 1.0, 0.0)}[int(pat)]
                L = np.tile(Lr, (n, 1)) * 1e9
                rec.ev("forced")
            else:
                L = rng.normal(size=(n, nt)) * np.exp(rng.uniform(-2, 4)) + np.arange(nt) * rng.normal() * 2
            tab = np.zeros(n * nt)
            tab[np.round(cur).astype(int).reshape(-1)] = L.reshape(-1)
            key, c2, hot, t1 = pt(key, cold, {"L": jnp.asarray(tab.astype(dt))})
            key = jnp.asarray(key)
            new = np.concatenate([c2[:, None], hot], 1)[..., 0]
            acc = decisions(cur, new)
            rev = None
            if acc is None:
                acc = decisions_rev(cur, new)
                rev = True
            if not rec.check(acc is not None, "decisions", "the walkers after a call are no result of neighbour swaps"):
                return
            rate = acc.mean(0)
            rec.case("call", t0.tobytes(), rate.tobytes(), training, nontrivial=training and nt > 2)
            judge(rec, t0.astype(float), np.asarray(t1).astype(float), rate, training, eps, n_chains=n, call=c, reverse=rev, k=100.0 / n)
            cold, cur = c2, new
    rec.ev("chains:1" if n == 1 else "chains:few" if n < 20 else "chains:many")
    rec.ev("rungs:%s" % (nt if nt < 4 else "many"))
    rec.sample(n_chains=n, rungs=nt, mode=mode, before=t0, after=t1, rate=rate, training=training)


def bundle(rec, n_chains, nt, tmax):
    from mon import bundles as B
    from mon.targets import gauss
    rng = rec.rng
    t = gauss(rng, 2)
    cfg = dict(n_chains=n_chains, n_dims=2, n_local_steps=3, n_global_steps=3, n_training_loops=3, n_production_loops=3, n_epochs=1,
               rq_spline_hidden_units=[6], rq_spline_n_bins=3, rq_spline_n_layers=2, batch_size=16, n_max_examples=32, mala_step_size=0.3,
               n_temperatures=nt, max_temperature=tmax, n_tempered_steps=2)
    first = []

    def on(e, res):
        a, b = e.before["temperatures"][2], e.after["temperatures"][2]
        tr = e.before["sampler_state"][2]["training"]
        if not first:
            first.append(a)
            rec.check(len(a) == nt and abs(a[0] - 1) < 1e-12 and abs(a[-1] - tmax) < 1e-9 * tmax and (np.diff(a) > 0).all(), "bundle-ladder",
                      "a bundle's ladder does not run from one to the maximum temperature", got=a, tmax=tmax)
        rec.case("bundle", e.name, a.tobytes(), b.tobytes())
        if e.name != "parallel_tempering" or not tr:
            rec.check(a.tobytes() == b.tobytes(), "production-fixed", "temperatures changed out of training or by another strategy", strategy=e.name, before=a, after=b)
        rec.ev("bundle-training" if tr else "bundle-production")
        rec.check(b[0] == first[0][0] and b[-1] == first[0][-1], "end-points", "the coldest or hottest temperature changed in a bundle", after=b)
        rec.check((b > 0).all() and np.isfinite(b).all() and (np.diff(b) >= -1e-12 * tmax).all(), "increasing", "a bundle's ladder is not increasing", before=a, after=b)
    run = B.run_bundle(rec, "pt", cfg, t.logp, t.data, jnp.asarray(t.sampler(rng, n_chains) * 3), watch=("temperatures", "sampler_state"), on_event=on)
    names = [e.name for e in run.events]
    rec.check(names.count("parallel_tempering") == 6, "bundle-calls", "tempering is not called once per loop", got=names.count("parallel_tempering"))
    trained = [e.before["sampler_state"][2]["training"] for e in run.events if e.name == "parallel_tempering"]
    rec.check(trained == [True] * 3 + [False] * 3, "bundle-flag", "the training flag of a bundle's tempering calls", got=trained)


def scenarios(tier, seed):
    q = tier == "quick"
    out = []
    for r in range(1 if q else 10):
        for n, nt in ((1, 3), (1, 6), (3, 4), (8, 5), (60, 3), (200, 4), (500, 6), (50, 2), (2, 8), (4, 24)):
            for mode in (("random", "forced") if (n, nt) in ((1, 3), (8, 5), (200, 4), (60, 3)) or not q else ("random",)):
                x64 = bool((n + nt + r + len(mode)) % 2)
                s = Scn(f"history-{n}-{nt}-{mode}-r{r}", history, x64=x64, n=n, nt=nt, calls=40 if q else 150, mode=mode)
                s.params["x64"] = x64
                out.append(s)
        out.append(Scn(f"bundle-a-r{r}", bundle, n_chains=4, nt=4, tmax=6.0))
        if not q or True:
            out.append(Scn(f"bundle-b-r{r}", bundle, n_chains=20, nt=3, tmax=2.5))
    return out
