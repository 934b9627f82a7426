"""C21 parallel tempering: exact targets per rung, exact exchange decisions, invariance statistics."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from mon.core import Scn
from mon import targets as T
from mon import oracles as O
from mon.pt import PT, Hold, Probe
from mon.steps import make_kernel

RULE = ("a case is one walker's local move (probe kernel), one chain's sweep of exchange decisions predicted from recovered uniforms, or "
        "one chain of an exact-start ensemble after tempering calls; non-trivial decisions are those not within rounding of the threshold; "
        "distinct by resulting walkers")
REQUIRED = ["probe-walkers", "exchange-sweeps", "exchange-accepted", "exchange-rejected", "ladder:2", "ladder:many", "ladder:equal-rungs", "ladder:wide",
            "likelihood:-inf", "training:True", "training:False", "stat-walkers", "ztests", "uniforms", "prior:nonzero"]
ASSUMPTIONS = ["the uniforms of a tempering call depend on its key and the numbers of chains and rungs only, so they can be recovered from decisions on other "
               "likelihood values with the same key", "pairs are visited from the cold or from the hot end",
               "a likelihood of minus infinity on both sides, or on one side between equal temperatures, has probability zero and is not judged"]


def ladder(rng, n, kind=None):
    t = 1.0 + np.concatenate([[0.0], np.cumsum(np.exp(rng.uniform(-2, 1.5, n - 1)))])
    if kind == "wide":  # from well below one to very hot
        t = np.exp(rng.uniform(-1.5, 1.0) + np.concatenate([[0.0], np.cumsum(rng.uniform(0.1, 5.0, n - 1))]))
    if kind == "equal" and n > 2:
        i = int(rng.integers(0, n - 1))
        t[i + 1] = t[i]
        t = np.sort(t)
    return t


def probe(rec, n, nt, ns, training, x64=True, kind=None):
    """Each rung's kernel gets likelihood/T + prior, with the user's data, at that rung's own walker."""
    rng = rec.rng
    data = {"a": jnp.asarray(rng.normal(size=2)), "s": (jnp.asarray(1.7), 3)}

    # the probe's walkers become densities: with large 1/T they must grow slowly
    sq = (lambda r: 2 * jnp.log1p(0.1 * r)) if kind == "wide" else (lambda r: r)
    nsq = (lambda r: 2 * np.log1p(0.1 * r)) if kind == "wide" else (lambda r: r)
    sl = 0.01 if kind == "wide" else 0.1

    def lik(x, d):
        return -0.3 * sq(jnp.sum((x - d["a"]) ** 2)) + 0.2 * jnp.sin(x[0] * d["s"][0])

    def pri(x, d):
        return -0.05 * d["s"][1] * sq(jnp.sum(x**2)) + sl * x[1]

    def nlik(x):
        a = np.asarray(data["a"], float)
        return -0.3 * nsq(((x - a) ** 2).sum(-1)) + 0.2 * np.sin(x[..., 0] * float(data["s"][0]))

    def npri(x):
        return -0.15 * nsq((x**2).sum(-1)) + sl * x[..., 1]
    temps = ladder(rng, nt, kind)
    rec.ev("ladder:wide", kind == "wide")
    pt = PT(Probe(), lik, pri, 2, temps, n_steps=ns, training=training)
    hot = rng.normal(size=(n, nt - 1, 2)) * 2
    pt.reset(hot)
    cold = rng.normal(size=(n, 2)) * 2
    key = rec.key()
    tb = temps
    for c in range(4):
        W = np.concatenate([cold[:, None], hot], 1).astype(float)
        if c == 3:
            W[:, 1:] = np.asarray(pt.res["walkers"].data)
        X = W
        for _ in range(ns):
            tl = nlik(X) / tb[None] + npri(X)
            tl1 = nlik(X + 1.0) / tb[None] + npri(X + 1.0)
            X = np.stack([tl, tl1], -1)
        key, cold, hot, tb2 = pt(key, cold, data)
        got = np.concatenate([cold[:, None], hot], 1)
        tol = (1e-9 if x64 else 2e-5) * (1 + np.abs(X).max())
        # up to the exchanges, the walkers of a chain are exactly the predicted ones
        bad = 0
        for i in range(n):
            dist = np.abs(got[i][:, None] - X[i][None]).max(-1)
            ok = all(dist[:, j].min() <= tol for j in range(nt)) and all(dist[j].min() <= tol for j in range(nt))
            bad += not ok
            if not ok and bad == 1:
                rec.check(False, "rung-target", "a rung's kernel was not given likelihood/T + prior at its own walker", temps=tb, got=got[i],
                          want=X[i], call=c, n_steps=ns, training=training)
        rec.check(bad == 0, "rung-target-count", "walkers not moved on their own tempered target", n_bad=bad)
        rec.ev("probe-walkers", n * nt)
        rec.distinct_rows(got.reshape(-1, 2), "probe")
        tb = np.asarray(tb2, float)
        key = jnp.asarray(key)
        # back to sensible positions, keeping the walkers the strategy stored for one call
        if c != 2:
            cold = rng.normal(size=(n, 2)) * 2
            hot = rng.normal(size=(n, nt - 1, 2)) * 2
            pt.reset(hot, tb)
        else:
            cold = np.tanh(cold)
    rec.ev("prior:nonzero")
    rec.ev("training:%s" % training)


def sweep(L, beta, lu, order, tol):
    """Predicted arrangement (n, nt) of walker indices and whether every decision is sure."""
    n, nt = L.shape
    idx = np.tile(np.arange(nt), (n, 1))
    sure = np.ones(n, bool)
    acc = np.zeros((n, nt - 1), bool)
    rows = np.arange(n)
    for k in order:
        lc, lh = L[rows, idx[:, k]], L[rows, idx[:, k + 1]]
        with np.errstate(all="ignore"):
            ratio = (beta[k + 1] - beta[k]) * (lc - lh)
        sure &= ~np.isnan(ratio) & ((np.abs(lu[:, k] - ratio) > tol * (1 + np.where(np.isfinite(lc), np.abs(lc), 0) + np.where(np.isfinite(lh), np.abs(lh), 0)))
                                    | ~np.isfinite(ratio))
        do = lu[:, k] < ratio
        acc[:, k] = do
        a, b = idx[:, k].copy(), idx[:, k + 1].copy()
        idx[:, k] = np.where(do, b, a)
        idx[:, k + 1] = np.where(do, a, b)
    return idx, sure, acc


def exchange(rec, n, nt, training, rounds, kind=None):
    rng = rec.rng

    def lik(x, d):
        return d["L"][jnp.round(x[0]).astype(int)]

    def pri(x, d):
        return jnp.sin(x[0] * 12.9898) * 5.0 + d["p"]
    base = np.arange(1.0, nt + 1.0)
    pt = PT(Hold(), lik, pri, 1, base, n_steps=int(rng.integers(1, 3)), training=training)
    ids = np.arange(n * nt).reshape(n, nt, 1).astype(float)

    def call(key, L, temps):
        pt.reset(ids[:, 1:], temps)
        k2, cold, hot, t2 = pt(key, ids[:, 0], {"L": jnp.asarray(L.reshape(-1)), "p": jnp.asarray(0.3)})
        return np.concatenate([cold[:, None], hot], 1)[..., 0].astype(int) - (np.arange(n) * nt)[:, None]
    cold_first, hot_first = tuple(range(nt - 1)), tuple(reversed(range(nt - 1)))
    orders = [cold_first] if nt == 2 else [cold_first, hot_first]
    mism = {o: [] for o in orders}
    nsure = 0
    U = []
    for r in range(rounds):
        key = rec.key()
        # recover log u of each pair: all other pairs always reject, this one accepts iff log u < -c
        LU = np.zeros((n, nt - 1))
        rt = base
        beta0 = 1 / rt
        for par in (0, 1):
            ks = np.arange(par, nt - 1, 2)
            if len(ks) == 0:
                continue
            lo, hi = np.zeros((n, len(ks))), np.full((n, len(ks)), 40.0)
            for _ in range(46):
                mid = (lo + hi) / 2
                L = -np.tile(np.arange(nt) * 1e7, (n, 1))
                for j, k in enumerate(ks):
                    # ratio = (b[k+1]-b[k]) * (Lc - Lh) = -mid  =>  Lc - Lh = mid / (b[k]-b[k+1])
                    L[:, k] = L[:, k + 1] + mid[:, j] / (beta0[k] - beta0[k + 1])
                A = call(key, L, rt)
                got = np.stack([A[:, k] == k + 1 for k in ks], 1)
                lo, hi = np.where(got, mid, lo), np.where(got, hi, mid)
            LU[:, ks] = -(lo + hi) / 2
        U.append(LU)
        for rep in range(4):
            temps = ladder(rng, nt, kind)
            scale = np.exp(rng.uniform(-2, 3))
            L = rng.normal(size=(n, nt)) * scale
            if rep == 1:
                L -= 1e4 * rng.random()
            if rep == 2:
                L[rng.random((n, nt)) < 0.15] = -np.inf
                rec.ev("likelihood:-inf", np.isneginf(L).sum())
            if rep == 3:
                L[:, 1:] = L[:, :1] + rng.normal(size=(n, nt - 1)) * 1e-3  # ties nearly
            if kind == "wide":
                L = L * temps[rng.integers(nt)]
                rec.ev("ladder:wide")
            A = call(key, L, temps)
            for o in orders:
                idx, sure, acc = sweep(L, 1 / temps, LU, o, 1e-9)
                bad = sure & (A != idx).any(1)
                mism[o] += [dict(temps=temps, L=L[i], log_u=LU[i], got=A[i], want=idx[i], round=r, rep=rep) for i in np.argwhere(bad)[:2, 0]]
                if o == orders[0]:
                    nsure += int(sure.sum())
                    rec.ev("exchange-sweeps", sure.sum())
                    rec.ev("exchange-accepted", (acc & sure[:, None]).sum())
                    rec.ev("exchange-rejected", (~acc & sure[:, None]).sum())
            rec.ev("ladder:equal-rungs", (np.diff(temps) == 0).any())
            for i in range(0, n, 7):
                rec.case("ex", temps.tobytes(), L[i].tobytes(), A[i].tobytes())
    best = min(orders, key=lambda o: len(mism[o]))
    rec.check(not mism[best], "exchange-decision", "an exchange decision differs from min(1, exp((1/T_hot - 1/T_cold)(logL_cold - logL_hot)))",
              cases=mism[best][:3], n_rungs=nt)
    rec.ev("ladder:2" if nt == 2 else "ladder:many")
    rec.ev("training:%s" % training)
    u = np.exp(np.concatenate(U))
    rec.ev("uniforms", u.size)
    s = np.sqrt(len(u))
    zs = [(u[:, k] - 0.5).mean() * s * np.sqrt(12) for k in range(nt - 1)]
    zs += [((u[:, k] - 0.5) ** 2 - 1 / 12).mean() * s / np.sqrt(1 / 80 - 1 / 144) for k in range(nt - 1)]
    zs += [((u[:, a] - 0.5) * (u[:, b] - 0.5)).mean() * s * 12 for a, b in itertools.combinations(range(nt - 1), 2)]
    zs += [((u[:-1, k] - 0.5) * (u[1:, k] - 0.5)).mean() * np.sqrt(len(u) - 1) * 12 for k in range(nt - 1)]
    rec.ztest(np.array(zs), "exchange-uniform", "exchange uniforms are not iid uniform over pairs, chains and calls")
    rec.check(len(np.unique(np.round(u, 10))) == u.size, "exchange-uniform-repeat", "two exchange decisions share a uniform", n=u.size)
    rec.sample(rungs=nt, sweeps=nsure, log_u=U[0][0], example=A[0])


def sampler_1d(logp, lo=-12, hi=12, m=40001):
    g = np.linspace(lo, hi, m)
    l = logp(g)
    p = np.exp(l - l.max())
    c = np.concatenate([[0], np.cumsum(0.5 * (p[1:] + p[:-1]))])
    return lambda r, size: np.interp(r.random(size), c / c[-1], g)


def stat(rec, kname, nt, n, calls, ns, training, kind=None):
    """Exact joint tempered ensembles stay exact: paired z tests of functions of every rung and pair of rungs."""
    rng = rec.rng
    d = 2
    w, m1, m2 = float(rng.uniform(0.3, 0.7)), float(rng.uniform(1.0, 1.6)), float(rng.uniform(-1.6, -1.0))
    data = {"m": jnp.asarray([m1, m2]), "w": jnp.asarray(w), "c": jnp.asarray(float(rng.uniform(0.1, 0.3)))}

    def lik(x, q):
        a = -0.5 * ((x - q["m"][0]) / 0.6) ** 2 + jnp.log(q["w"])
        b = -0.5 * ((x - q["m"][1]) / 0.5) ** 2 + jnp.log1p(-q["w"])
        return jnp.sum(jnp.logaddexp(a, b))

    def pri(x, q):
        return -0.5 * q["c"] * jnp.sum(x**2) - 0.3 * jnp.sum(x)
    q = {k: np.asarray(v, float) for k, v in data.items()}

    def l1(x):
        return np.logaddexp(-0.5 * ((x - m1) / 0.6) ** 2 + np.log(w), -0.5 * ((x - m2) / 0.5) ** 2 + np.log1p(-w))

    def p1(x):
        return -0.5 * q["c"] * x**2 - 0.3 * x
    temps = 1.0 + np.concatenate([[0], np.cumsum(rng.uniform(0.8, 3, nt - 1))])
    if kind == "equal":
        temps = np.full(nt, 1.0)
        temps[-1] = 2.5 if nt > 2 else 1.0
        rec.ev("ladder:equal-rungs")
    kern = Hold() if kname == "Hold" else make_kernel(kname, rng, d, step=float(rng.uniform(0.4, 0.8)))
    X0 = np.stack([sampler_1d(lambda x, t=t: l1(x) / t + p1(x))(rng, (n, d)) for t in temps], 1)
    dt = np.float64 if jax.config.jax_enable_x64 else np.float32
    X0 = X0.astype(dt)
    # in training only ladders without interior rungs keep their temperatures
    pt = PT(kern, lik, pri, d, temps, n_steps=ns, training=training)
    pt.reset(X0[:, 1:])
    key, cold = rec.key(), X0[:, 0]
    for c in range(calls):
        key, cold, hot, tt = pt(key, cold, data)
        key = jnp.asarray(key)
        rec.check(np.allclose(tt, temps), "fixed-temperatures", "temperatures changed", got=tt, want=temps)
        if kname == "Hold" or c == calls - 1:
            X1 = np.concatenate([cold[:, None], hot], 1)
            zs = []
            for k in range(nt):
                g = T.test_functions(np.random.default_rng([rec.seed, k]), d)
                a, b = g(X0[:, k]), g(X1[:, k])
                D = b - a
                sd = D.std(0)
                zs += [D.mean(0) / np.where(sd > 1e-12, sd, 1) * np.sqrt(n)]
                f = lambda X: T.test_functions(np.random.default_rng([rec.seed, 99 + k]), 2 * d)(X[:, [k, (k + 1) % nt]].reshape(n, -1))  # noqa: E731
                D = f(X1) - f(X0)
                sd = D.std(0)
                zs += [D.mean(0) / np.where(sd > 1e-12, sd, 1) * np.sqrt(n)]
            rec.ztest(np.concatenate(zs), "tempered-invariance", "a tempering call changes expectations under the joint tempered target",
                      kernel=kname, temps=temps, calls=c + 1, training=training)
    moved = float((cold != X0[:, 0]).any(1).mean())
    rec.check(moved > 0.05, "moves", "the cold walkers hardly ever change", moved=moved)
    rec.ev("stat-walkers", n * nt * calls)
    rec.ev("training:%s" % training)
    rec.ev("prior:nonzero")
    rec.distinct_rows(X1[:1500].reshape(-1, nt * d), kname)
    rec.sample(kernel=kname, temps=temps, calls=calls, moved=moved)


def scenarios(tier, seed):
    q = tier == "quick"
    out = []
    for r in range(1 if q else 6):
        i = 0
        for nt in (2, 3, 5):
            for ns in (1, 2):
                i += 1
                out.append(Scn(f"probe-{nt}-{ns}-r{r}", probe, n=60, nt=nt, ns=ns, training=bool((i + r) % 2)))
        for nt, ns, tr in ((3, 2, False), (12, 1, False), (4, 11, True), (2, 1, True), (1, 3, False)):
            out.append(Scn(f"probe-wide-{nt}-{ns}-r{r}", probe, n=30, nt=nt, ns=ns, training=bool(tr ^ (r % 2)), kind="wide"))
        for nt, kind in ((2, None), (3, None), (3, "equal"), (4, None), (7, None), (3, "wide"), (14, "wide")):
            for tr in ((True, False) if not q else (bool(nt % 2),)):
                out.append(Scn(f"exchange-{nt}-{kind}-{tr}-r{r}", exchange, n=400 if q else 1500, nt=nt, training=tr, rounds=2 if q else 6, kind=kind))
        for kname, nt, tr, ns, kind, calls in (("Hold", 4, False, 1, None, 3), ("MALA", 3, False, 2, None, 3), ("GRW", 2, True, 1, None, 4),
                                               ("HMC", 4, False, 1, None, 2), ("MALA", 3, False, 1, "equal", 3), ("GRW", 5, False, 3, None, 2)):
            out.append(Scn(f"stat-{kname}-{nt}-{tr}-{kind}-r{r}", stat, x64=False, kname=kname, nt=nt, n=80000 if q else 200000, calls=calls, ns=ns,
                           training=tr, kind=kind))
    return out
