"""C02 random walk: exact Metropolis decisions + statistics."""
import numpy as np
import jax
import jax.numpy as jnp
from mon.core import Scn
from mon import oracles as O, targets as T

RULE = ("random-walk steps on randomly drawn smooth, kinked and hard-walled targets; a case is one (target, start, key) "
        "step, distinct by resulting position, non-trivial if the decision is not within rounding of the threshold")
REQUIRED = ["grw:accepted", "grw:rejected", "ztests", "bulk-noise"]
ASSUMPTIONS = ["the noise of a step depends on the key only", "the target formulas of the harness are right"]


def exact(rec, dim, n, kind, scale=1.0):
    from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
    rng = rec.rng
    zoo = T.SMOOTH + T.ROUGH
    for tf in [zoo[i] for i in rng.permutation(len(zoo))[:5]]:
        t = T.maybe_shifted(T.scaled(tf(rng, dim), scale), rng)
        d = t.dim
        eps = scale * float(np.exp(rng.uniform(np.log(0.05), np.log(3.0))))
        if kind == "vector":
            S = eps * np.exp(rng.uniform(-1, 1, d))
            kern = GaussianRandomWalk(step_size=jnp.asarray(S))
        else:
            S = eps * np.ones(d)
            kern = GaussianRandomWalk(step_size=eps)
        keys = jax.random.split(rec.key(), n)
        xs, far = T.mixed_starts(t, rng, n) if t.smooth else (t.starts(rng, n), np.zeros(n, bool))
        xj = jnp.asarray(xs)
        pf, lf, af = O.run_kernel(kern, keys, xj, O.flat, None)
        rec.check((af.reshape(-1).astype(bool)).all() and not (pf == xs).all(1).any(), "grw-flat-rejects",
                  "a proposal on a flat target was rejected")
        z = (pf - xs) / S
        logu = O.recover_log_u(kern, keys, xj)
        O.noise_checks(rec, z, logu, "grw")
        got = O.run_kernel(kern, keys, xj, t.logp, t.data)
        f = jax.jit(jax.vmap(t.logp, in_axes=(0, None)))
        y = xs + S * z
        fx, fy = np.asarray(f(xj, t.data)), np.asarray(f(jnp.asarray(y), t.data))
        with np.errstate(all="ignore"):
            ratio = fy - fx
        tol = 1e-9 * (1 + np.abs(fx) + np.where(np.isfinite(fy), np.abs(fy), 0))
        k = O.tame(rec, "grw", far, ratio, fx, fy)
        O.check_mh(rec, "grw", xs[k], tuple(q[k] for q in got), y[k], ratio[k], fx[k], fy[k], logu[k], tol[k])
        rec.distinct_rows(got[0], t.name)
        rec.sample(target=t.name, dim=d, step=S, x=xs[0], y=y[0], log_ratio=ratio[0], log_u=logu[0], got=got[0][0])


def bulk(rec, dim, vector=False):
    from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
    S = np.exp(rec.rng.uniform(-2, 1, dim)) if vector else float(np.exp(rec.rng.uniform(-3, 1))) * np.ones(dim)
    kern = GaussianRandomWalk(step_size=jnp.asarray(S) if vector else float(S[0]))
    O.bulk_noise(rec, kern, dim, "grw", lambda d: d / S)


def stat(rec, dim, n, steps, name):
    from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
    rng = rec.rng
    t = getattr(T, name)(rng, dim)
    d = t.dim
    kern = GaussianRandomWalk(step_size=jnp.asarray(rng.uniform(0.5, 1.5, d), jnp.float32))
    data = jax.tree.map(lambda a: jnp.asarray(a, jnp.float32), t.data)
    x = t.sampler(rng, n).astype(np.float32)
    # float32 rounding may put a draw on the wall
    ok = np.isfinite(np.asarray(jax.vmap(t.logp, in_axes=(0, None))(jnp.asarray(x), data)))
    x = x[ok]

    def one(k, x):
        def body(c, k):
            x, lp = c
            x, lp, a = kern.kernel(k, x, lp, t.logp, data)
            return (x, lp), a
        (x2, _), a = jax.lax.scan(body, (x, t.logp(x, data)), jax.random.split(k, steps))
        return x2, a
    y, a = jax.jit(jax.vmap(one))(jax.random.split(rec.key(), len(x)), jnp.asarray(x))
    y = np.asarray(y)
    g = T.test_functions(rng, d)
    O.reversible_stats(rec, "grw", x, y, g)
    O.antisym_stats(rec, "grw", x, y, g)
    rec.ev("stat-steps", len(x) * steps)
    rec.distinct_rows(y[:2000], t.name)
    rec.sample(target=t.name, dim=d, acceptance=float(np.mean(np.asarray(a))), n=len(x))


def scenarios(tier, seed):
    out = []
    reps = 1 if tier == "quick" else 12
    for r in range(reps):
        for d in (1, 2, 3, 5):
            out.append(Scn(f"exact-d{d}-r{r}", exact, dim=d, n=1200, kind="scalar"))
        for sc in (1e-4, 1e4):
            out.append(Scn(f"exact-scaled-{sc}-r{r}", exact, dim=2, n=1000, kind="scalar", scale=sc))
        for d in (1, 12):
            out.append(Scn(f"bulk-d{d}-r{r}", bulk, dim=d))
            out.append(Scn(f"exact-d{9 + 2 * d}-r{r}", exact, dim=9 + 2 * d, n=600, kind="scalar"))
        out.append(Scn(f"bulk-r{r}", bulk, dim=2))
        out.append(Scn(f"bulk-vector-r{r}", bulk, dim=3, vector=True))
        out.append(Scn(f"exact-vector-r{r}", exact, dim=4, n=1200, kind="vector"))
        for nm in ("mixture", "gamma_wall", "box", "laplace"):
            out.append(Scn(f"stat-{nm}-r{r}", stat, x64=False, dim=2, n=100000, steps=3, name=nm))
    return out
