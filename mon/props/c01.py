"""C01 MALA: exact Metropolis-Hastings decisions + invariance/reversibility statistics."""
import numpy as np
import jax
import jax.numpy as jnp
from mon.core import Scn
from mon import oracles as O, targets as T

RULE = ("kernel steps on randomly drawn targets, starts and step sizes; a case is one (target, start, key) step, "
        "non-trivial if its accept decision is decided by the oracle (not within rounding of the threshold); "
        "distinct by resulting position")
REQUIRED = ["mala:accepted", "mala:rejected", "mala:far-decisions", "ztests", "bulk-noise"]
ASSUMPTIONS = ["the noise of a step depends on the key only, so it can be recovered from a flat target with the same key",
               "jax.grad and the target formulas of the harness are right"]


def val_grad(t, xs):
    f = jax.jit(jax.vmap(jax.value_and_grad(t.logp), in_axes=(0, None)))
    v, g = f(jnp.asarray(xs), t.data)
    return np.asarray(v), np.asarray(g)


def exact(rec, dim, n, matrix=False, targets=None, scale=1.0):
    from flowMC.resource.kernel.MALA import MALA
    rng = rec.rng
    for tf in (targets or [T.SMOOTH[i] for i in rng.permutation(len(T.SMOOTH))[:3]]):
        t = T.maybe_shifted(T.scaled(tf(rng, dim), scale), rng)
        d = t.dim
        eps = scale * float(np.exp(rng.uniform(np.log(0.05), np.log(1.5))))
        if matrix:
            step = np.diag(eps * np.exp(rng.uniform(-0.7, 0.7, d)))
            kern = MALA(step_size=jnp.asarray(step))
            S = step
        else:
            kern = MALA(step_size=[eps, jnp.asarray(eps)][rng.integers(2)])
            S = eps * np.eye(d)
        keys = jax.random.split(rec.key(), n)
        xs, far = T.mixed_starts(t, rng, n)
        xj = jnp.asarray(xs)
        pf, lf, af = O.run_kernel(kern, keys, xj, O.flat, None)
        rec.check((af.reshape(-1).astype(bool)).all() and not (pf == xs).all(1).any(), "mala-flat-rejects",
                  "a proposal on a flat target was rejected")
        z = np.linalg.solve(S, (pf - xs).T).T
        logu = O.recover_log_u(kern, keys, xj)
        if not matrix:
            O.noise_checks(rec, z, logu, "mala")
        else:
            O.noise_checks(rec, z, logu, "mala-matrix")
        got = O.run_kernel(kern, keys, xj, t.logp, t.data)
        fx, gx = val_grad(t, xs)
        S2 = S @ S.T
        mx = xs + 0.5 * gx @ S2.T
        y = mx + z @ S.T
        fy, gy = val_grad(t, y)
        my = y + 0.5 * gy @ S2.T
        with np.errstate(all="ignore"):
            qf = -0.5 * (np.linalg.solve(S, (y - mx).T) ** 2).sum(0)
            qb = -0.5 * (np.linalg.solve(S, (xs - my).T) ** 2).sum(0)
            ratio = fy - fx + qb - qf
        tol = 1e-8 * (1 + np.abs(fx) + np.abs(fy) + np.abs(qf) + np.abs(qb))
        k = O.tame(rec, "mala", far, ratio, fx, fy, qf, qb)
        O.check_mh(rec, "mala", xs[k], tuple(q[k] for q in got), y[k], ratio[k], fx[k], fy[k], logu[k], tol[k])
        rec.distinct_rows(got[0], t.name)
        rec.sample(target=t.name, dim=d, step=S.diagonal(), x=xs[0], y=y[0], log_ratio=ratio[0], log_u=logu[0], got=got[0][0])


def bulk(rec, dim, matrix=False):
    from flowMC.resource.kernel.MALA import MALA
    rng = rec.rng
    S = np.diag(np.exp(rng.uniform(-2, 1, dim))) if matrix else float(np.exp(rng.uniform(-3, 1))) * np.eye(dim)
    kern = MALA(step_size=jnp.asarray(S) if matrix else float(S[0, 0]))
    O.bulk_noise(rec, kern, dim, "mala", lambda d: np.linalg.solve(S, d.T).T)


def stat(rec, dim, n, steps, which):
    from flowMC.resource.kernel.MALA import MALA
    rng = rec.rng
    t = T.SMOOTH[which](rng, dim)
    d = t.dim
    kern = MALA(step_size=float(rng.uniform(0.4, 1.1)))
    data = jax.tree.map(lambda a: jnp.asarray(a, jnp.float32), t.data)
    x = t.sampler(rng, n).astype(np.float32)

    def one(k, x):
        def body(c, k):
            x, lp = c
            x, lp, a = kern.kernel(k, x, lp, t.logp, data)
            return (x, lp), a
        (x2, _), a = jax.lax.scan(body, (x, t.logp(x, data)), jax.random.split(k, steps))
        return x2, a
    y, a = jax.jit(jax.vmap(one))(jax.random.split(rec.key(), n), jnp.asarray(x))
    y = np.asarray(y)
    acc = float(np.mean(np.asarray(a)))
    g = T.test_functions(rng, d)
    O.reversible_stats(rec, "mala", x, y, g)
    O.antisym_stats(rec, "mala", x, y, g)
    rec.ev("stat-steps", n * steps)
    rec.distinct_rows(y[:2000], t.name)
    rec.sample(target=t.name, dim=d, acceptance=acc, n=n)


def scenarios(tier, seed):
    out = []
    reps = 1 if tier == "quick" else 12
    for r in range(reps):
        for d in (1, 2, 3, 6):
            out.append(Scn(f"exact-d{d}-r{r}", exact, dim=d, n=1500))
        for sc in (1e-4, 1e4):
            out.append(Scn(f"exact-scaled-{sc}-r{r}", exact, dim=2, n=1000, scale=sc))
        for d in (1, 12):
            out.append(Scn(f"bulk-d{d}-r{r}", bulk, dim=d))
            out.append(Scn(f"exact-d{9 + 2 * d}-r{r}", exact, dim=9 + 2 * d, n=600))
        out.append(Scn(f"bulk-r{r}", bulk, dim=2 + r % 2))
        for w in range(len(T.SMOOTH)):
            if tier != "quick" or w in (1, 2, 6):
                out.append(Scn(f"stat-{w}-r{r}", stat, x64=False, dim=2 if w != 6 else 1, n=100000, steps=3, which=w))
    return out
