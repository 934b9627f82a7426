"""C03 HMC: exact decisions against an independent leapfrog + statistics."""
import numpy as np
import jax
import jax.numpy as jnp
from mon.core import Scn
from mon import oracles as O, targets as T
from mon.props.c01 import val_grad

RULE = ("HMC steps on randomly drawn targets, condition matrices (default, scalar, vector, diagonal, full), step sizes and "
        "path lengths; a case is one (target, start, key) step, distinct by resulting position, non-trivial if the "
        "accept decision is not within rounding of the threshold")
REQUIRED = ["hmc:accepted", "hmc:rejected", "hmc:far-decisions", "ztests", "bulk-noise", "cond:default", "cond:scalar", "cond:vector", "cond:full"]
ASSUMPTIONS = ["the momentum of a step depends on the key only", "jax.grad and the target formulas of the harness are right"]


def make(rng, d, cond, eps, nl):
    from flowMC.resource.kernel.HMC import HMC
    if cond == "default":
        return HMC(step_size=eps, n_leapfrog=nl), np.eye(d)
    if cond == "scalar":
        c = float(rng.uniform(0.3, 3.0))
        return HMC(condition_matrix=c, step_size=eps, n_leapfrog=nl), c * np.eye(d)
    if cond == "vector":
        c = np.exp(rng.uniform(-1, 1, d))
        return HMC(condition_matrix=jnp.asarray(c), step_size=eps, n_leapfrog=nl), np.diag(c)
    if cond == "diag":
        c = np.diag(np.exp(rng.uniform(-1, 1, d)))
    else:
        c = T._cov(rng, d, 8.0)
    return HMC(condition_matrix=jnp.asarray(c), step_size=eps, n_leapfrog=nl), c


def exact(rec, dim, n, cond, nls=(0, 1, 3, 10)):
    rng = rec.rng
    extra = set()
    for nl in nls:
        t = T.maybe_shifted(T.SMOOTH[rng.integers(len(T.SMOOTH))](rng, dim), rng)
        d = t.dim
        eps = float(np.exp(rng.uniform(np.log(0.3), np.log(1.6)))) / (1 + nl) ** 0.5
        kern, M = make(rng, d, cond, eps, nl)
        rec.ev("cond:" + cond)
        keys = jax.random.split(rec.key(), n)
        xs, far = T.mixed_starts(t, rng, n, spread=2.0)
        xj = jnp.asarray(xs)
        pf, lf, af = O.run_kernel(kern, keys, xj, O.flat, None)
        rec.check((af.reshape(-1).astype(bool)).all() and not (pf == xs).all(1).any(), "hmc-flat-rejects",
                  "a move on a flat target was rejected")
        disp = pf - xs
        kf = np.sqrt((disp**2).mean(0).sum() / np.trace(M)) / eps
        tolk = 6.5 / np.sqrt(2 * n * max(1.0, np.trace(M) ** 2 / np.trace(M @ M)))
        K = next((k for k in (nl + 1, nl) if k >= 1 and abs(kf / k - 1) < tolk), None)
        if not rec.check(K is not None, "hmc-path-length",
                         "free motion does not match the configured number of leapfrog steps and mass matrix",
                         n_leapfrog=nl, inferred=kf, condition=M):
            continue
        extra.add(K - nl)
        rec.check(len(extra) == 1, "hmc-path-length", "the path length does not grow by one per configured leapfrog step", n_leapfrog=nl, moves=K)
        p0 = np.linalg.solve(M, (disp / (eps * K)).T).T
        L = np.linalg.cholesky(M)
        logu = O.recover_log_u(kern, keys, xj)
        O.noise_checks(rec, p0 @ L, logu, "hmc")
        got = O.run_kernel(kern, keys, xj, t.logp, t.data)
        fx, g = val_grad(t, xs)
        x, p = xs.copy(), p0 + 0.5 * eps * g
        for s in range(K):
            x = x + eps * p @ M.T
            fy, g = val_grad(t, x)
            p = p + (1.0 if s < K - 1 else 0.5) * eps * g
        with np.errstate(all="ignore"):
            k0 = 0.5 * np.einsum("ni,ij,nj->n", p0, M, p0)
            k1 = 0.5 * np.einsum("ni,ij,nj->n", p, M, p)
            ratio = (-fx + k0) - (-fy + k1)
        tol = 1e-7 * (1 + np.abs(fx) + np.abs(np.nan_to_num(fy, nan=0, posinf=0, neginf=0)) + k0 + np.nan_to_num(k1, posinf=0))
        # chaotic trajectories amplify rounding: drop those the oracle itself cannot resolve
        x2, p2 = xs * (1 + 1e-13), p0 * (1 + 1e-13)
        f2, g2 = val_grad(t, x2)
        p2 = p2 + 0.5 * eps * g2
        for s in range(K):
            x2 = x2 + eps * p2 @ M.T
            f2, g2 = val_grad(t, x2)
            p2 = p2 + (1.0 if s < K - 1 else 0.5) * eps * g2
        sens = np.abs(x2 - x).max(1) / (1 + np.abs(x).max(1))
        keep = ~(sens > 1e-11) & np.isfinite(x).all(1) & O.tame(rec, "hmc", far, ratio, fx, fy, k0, k1)
        rec.ev("hmc:chaotic-skipped", int((~keep).sum()))
        O.check_mh(rec, "hmc", xs[keep], tuple(q[keep] for q in got), x[keep], ratio[keep], fx[keep], fy[keep],
                   logu[keep], tol[keep], ytol=1e-7)
        rec.distinct_rows(got[0], t.name)
        rec.sample(target=t.name, dim=d, step=eps, n_leapfrog=nl, condition=M, x=xs[0], y=x[0], log_ratio=ratio[0],
                   log_u=logu[0], got=got[0][0])


def bulk(rec, dim, cond, nl):
    kern, M = make(rec.rng, dim, cond, 0.37, nl)
    L = np.linalg.cholesky(M)

    def to_z(disp):
        # free motion: displacement = eps * path length * M p, with p of covariance M^-1
        y = np.linalg.solve(L, (disp / 0.37).T).T
        k = round(float(np.sqrt((y**2).mean())))
        return y / max(k, 1)
    O.bulk_noise(rec, kern, dim, "hmc", to_z)


def stat(rec, dim, n, steps, cond, name, nl):
    rng = rec.rng
    t = getattr(T, name)(rng, dim)
    d = t.dim
    kern, M = make(rng, d, cond, float(rng.uniform(0.5, 0.9)), nl)
    data = jax.tree.map(lambda a: jnp.asarray(a, jnp.float32), t.data)
    x = t.sampler(rng, n).astype(np.float32)

    def one(k, x):
        def body(c, k):
            x, lp = c
            x, lp, a = kern.kernel(k, x, lp, t.logp, data)
            return (x, lp), a
        (x2, _), a = jax.lax.scan(body, (x, t.logp(x, data)), jax.random.split(k, steps))
        return x2, a
    y, a = jax.jit(jax.vmap(one))(jax.random.split(rec.key(), n), jnp.asarray(x))
    y = np.asarray(y)
    g = T.test_functions(rng, d)
    O.reversible_stats(rec, "hmc", x, y, g)
    O.antisym_stats(rec, "hmc", x, y, g)
    rec.ev("stat-steps", n * steps)
    rec.distinct_rows(y[:2000], t.name)
    rec.sample(target=t.name, dim=d, condition=cond, acceptance=float(np.mean(np.asarray(a))), n=n)


def scenarios(tier, seed):
    out = []
    reps = 1 if tier == "quick" else 10
    for r in range(reps):
        for d, c in ((2, "default"), (1, "scalar"), (3, "vector"), (2, "diag"), (3, "full"), (6, "full")):
            if r % 2 == 0:
                out.append(Scn(f"exact-{c}-d{d}-r{r}", exact, dim=d, n=800, cond=c))
            else:
                out.append(Scn(f"exact-{c}-d{d}-r{r}", exact, dim=d, n=800, cond=c, nls=(2, 5, 20)))
        out.append(Scn(f"exact-full-d11-r{r}", exact, dim=11, n=500, cond="full", nls=(1, 4)))
        out.append(Scn(f"exact-default-d20-r{r}", exact, dim=20, n=500, cond="default", nls=(2,)))
        for d, c in ((1, "default"), (12, "vector")):
            out.append(Scn(f"bulk-d{d}-r{r}", bulk, dim=d, cond=c, nl=1))
        out.append(Scn(f"bulk-r{r}", bulk, dim=2, cond="scalar", nl=1))
        out.append(Scn(f"bulk-full-r{r}", bulk, dim=3, cond="full", nl=2 + r % 3))
        for nm, c, nl in (("mixture", "full", 2), ("banana", "full", 4), ("gauss", "scalar", 1)):
            out.append(Scn(f"stat-{nm}-r{r}", stat, x64=False, dim=2, n=60000, steps=2, name=nm, cond=c, nl=nl))
    return out
