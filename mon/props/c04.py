"""C04 flow proposals: the recorded chain against an independent replay of every decision."""
import numpy as np
import jax
import jax.numpy as jnp
from mon.core import Scn
from mon import oracles as O, targets as T
from mon.flows import make_flow, mean_std
from mon.steps import Steps

RULE = ("global steps on random flows, targets, step counts and batch sizes (dividing, not dividing, larger, one); a case is "
        "one (chain, step) decision replayed from recovered proposals and uniforms, non-trivial if not within rounding of "
        "the threshold; distinct by recorded position")
REQUIRED = ["nf:accepted", "nf:rejected", "nf:remainder-batches", "nf:extreme-ratios", "nf:many-batches", "accept-law-decisions", "ztests"]
ASSUMPTIONS = ["the flow's own log_prob and forward map are right (C13, C14)", "proposals and uniforms depend on the key only"]


def exact(rec, kind, d, n, configs, law_only=False):
    rng = rec.rng
    for (nst, bs) in configs:
        model = make_flow(rng, kind, d, base=bool(rng.integers(2)))
        d = model.n_features
        from flowMC.resource.kernel.NF_proposal import NFProposal
        kern = NFProposal(model, n_NFproposal_batch_size=bs)
        if nst > bs and nst % bs:
            rec.ev("nf:remainder-batches")
        lpv = jax.jit(jax.vmap(model.log_prob))
        mean, std = mean_std(model)
        key = rec.key()
        xs = mean + std * rng.normal(size=(n, d)) * 1.3

        def f_always(x, data):
            return model.log_prob(x)
        s = Steps(kern, f_always, d, nst, group=True)
        Y, L, A, last, _ = s(key, xs, {})
        rec.check(A.all(), "nf-flat-rejects", "a proposal was rejected although target and flow density agree", acc=A.mean())
        lpY = np.asarray(lpv(jnp.asarray(Y.reshape(-1, d)))).reshape(n, nst)
        # law of the proposals: base-space coordinates iid standard normal under the base distribution
        base = model.base_dist
        z = np.asarray(jax.jit(jax.vmap(lambda x: model.forward(x)[0]))(jnp.asarray((Y.reshape(-1, d) - mean) / std)))
        z = np.linalg.solve(np.linalg.cholesky(np.asarray(base.cov)), (z - np.asarray(base.mean)).T).T.reshape(n, nst, d)
        rec.check(len({r.tobytes() for r in np.round(Y.reshape(-1, d), 9)}) == n * nst, "nf-proposal-reuse",
                  "the same flow sample was proposed twice", n_steps=nst, batch=bs)
        zs = [z.reshape(-1, d).mean(0) * np.sqrt(n * nst), (z.reshape(-1, d) ** 2 - 1).mean(0) * np.sqrt(n * nst / 2)]
        for a in range(min(nst, 8)):
            for b in range(a + 1, min(nst, 8)):
                zs.append((z[:, a] * z[:, b]).mean(0) * np.sqrt(n))
        for a in range(1, min(n, 5)):
            zs.append((z * np.roll(z, a, axis=0)).reshape(-1, d).mean(0) * np.sqrt(n * nst))
        rec.ztest(np.concatenate(zs), "nf-proposal-law", "proposals are not independent draws of the flow", n_steps=nst, batch=bs)

        rec.check(np.abs(L - lpY).max() <= 1e-8 * (1 + np.abs(lpY).max()), "nf-recorded-logp", "the recorded log-density is not that of the proposal")
        if law_only:
            rec.ev("nf:many-batches", -(-nst // bs))
            rec.distinct_rows(Y.reshape(-1, d), kind)
            continue

        # uniforms, step by step
        def f_two(x, data):
            d2 = jnp.max(jnp.abs(data["Y"] - x), axis=1)
            i = jnp.argmin(d2)
            near = d2[i] < 1e-9
            start = jnp.any(jnp.all(data["x0"] == x, axis=1))
            return model.log_prob(x) + jnp.where(start, 0.0, jnp.where(near, -data["c"][i], -jnp.inf))
        s2 = Steps(kern, f_two, d, nst, group=True)
        logu = np.zeros((n, nst))
        for t in range(nst):
            lo, hi = np.zeros(n), np.full(n, 50.0)
            for _ in range(45):
                mid = 0.5 * (lo + hi)
                P, _, _, _, _ = s2(key, xs, {"Y": jnp.asarray(Y[:, t]), "x0": jnp.asarray(xs), "c": jnp.asarray(mid)})
                acc = (P[:, t] != xs).any(1)
                lo, hi = np.where(acc, mid, lo), np.where(acc, hi, mid)
            logu[:, t] = -0.5 * (lo + hi)
        u = np.exp(logu)
        m = u.size
        zs = [[(u - 0.5).mean() * np.sqrt(12 * m)], [((u - 0.5) ** 2 - 1 / 12).mean() * np.sqrt(m / (1 / 80 - 1 / 144))],
              ((u - 0.5)[:, :, None] * z).reshape(-1, d).mean(0) * np.sqrt(12 * m)]
        for a in range(1, nst):
            zs.append([((u[:, a] - 0.5) * (u[:, a - 1] - 0.5)).mean() * 12 * np.sqrt(n)])
        zs.append([((u - 0.5) * (np.roll(u, 1, axis=0) - 0.5)).mean() * 12 * np.sqrt(u.size)])
        rec.ztest(np.concatenate([np.atleast_1d(q) for q in zs]), "nf-uniform-law", "accept uniforms are not iid uniform")

        for q in range(3):
            t = T.SMOOTH[rng.integers(len(T.SMOOTH))](rng, d)
            if t.dim != d:
                t = T.mixture(rng, d)
            far = q == 2  # a target much narrower than the flow, and starts far outside both
            if far:
                t = T.scaled(T.gauss(rng, d), 0.1)
            t = T.maybe_shifted(t, rng)
            wall = bool(rng.integers(2)) and not far
            mj, sj = jnp.asarray(mean), jnp.asarray(std)

            def f(x, data):
                v = t.logp((x - mj) / sj * 1.2, data["t"])
                return jnp.where(wall & (x[0] > mj[0] + 1.0 * sj[0]), -jnp.inf, v)
            x0 = np.where(((xs[:, 0] > mean[0] + std[0]) & wall)[:, None], 2 * mean - xs, xs)
            if far:
                x0 = mean + std * rng.normal(size=(n, d)) * np.exp(rng.uniform(0, 2.5, n))[:, None]
            st = Steps(kern, f, d, nst, group=True)
            P, L, A, last, _ = st(key, x0, {"t": t.data})
            fv = jax.jit(jax.vmap(f, in_axes=(0, None)))
            fY = np.asarray(fv(jnp.asarray(Y.reshape(-1, d)), {"t": t.data})).reshape(n, nst)
            cur, fc, qc = x0.copy(), np.asarray(fv(jnp.asarray(x0), {"t": t.data})), np.asarray(lpv(jnp.asarray(x0)))
            for k in range(nst):
                with np.errstate(all="ignore"):
                    ratio = (fY[:, k] - fc) - (lpY[:, k] - qc)
                rec.ev("nf:extreme-ratios", int((np.isfinite(ratio) & (np.abs(ratio) > 40)).sum()))
                tol = 1e-8 * (1 + np.abs(np.nan_to_num(fY[:, k], neginf=0)) + np.abs(fc) + np.abs(lpY[:, k]) + np.abs(qc))
                O.check_mh(rec, "nf", cur, (P[:, k], L[:, k], A[:, k]), Y[:, k], ratio, fc, fY[:, k], logu[:, k], tol, ytol=1e-8)
                moved = (P[:, k] != cur).any(1)
                fc = np.where(moved, fY[:, k], fc)
                qc = np.where(moved, lpY[:, k], qc)
                cur = P[:, k]
            rec.same(last, P[:, -1], "nf-returned-position", "returned position is not the last state")
            rec.distinct_rows(P.reshape(-1, d), t.name)
            rec.sample(flow=kind, target=t.name, n_steps=nst, batch=bs, wall=wall, acc=float(A.mean()), x0=x0[0], path=P[0], logu=logu[0])


def bulk(rec, kind, n=200000):
    """Law of the first proposal and accept decision over many keys, tails included."""
    from scipy import stats
    from flowMC.resource.kernel.NF_proposal import NFProposal
    model = make_flow(rec.rng, kind, 2, scale=0.3)
    kern = NFProposal(model, n_NFproposal_batch_size=10)
    x0 = np.zeros((n, 2))
    s = Steps(kern, lambda x, d: model.log_prob(x) - jnp.where(jnp.all(x == 0.0), 0.0, d["c"]), 2, 1, group=True)
    key = rec.key()
    Y = s(key, x0, {"c": jnp.zeros(())})[0][:, 0]
    mean, std = mean_std(model)
    base = model.base_dist
    z = np.asarray(jax.jit(jax.vmap(lambda x: model.forward(x)[0]))(jnp.asarray((Y - mean) / std)))
    z = np.linalg.solve(np.linalg.cholesky(np.asarray(base.cov)), (z - np.asarray(base.mean)).T).T
    O.normal_law(rec, z, "nf-proposal")
    O.accept_law(rec, lambda c: (s(key, x0, {"c": jnp.asarray(c)})[0][:, 0] != x0).any(1), n, "nf")
    rec.distinct_rows(Y[:3000], "bulk")


def stat(rec, kind, n, nst, bs):
    rng = rec.rng
    t = T.mixture(rng, 2, sep=1.2)
    from flowMC.resource.kernel.NF_proposal import NFProposal
    model = make_flow(rng, kind, 2, scale=0.3, whiten=True)
    kern = NFProposal(model, n_NFproposal_batch_size=bs)
    data = jax.tree.map(lambda a: jnp.asarray(a, jnp.float32), t.data)
    x = t.sampler(rng, n).astype(np.float32)
    s = Steps(kern, lambda x, data: t.logp(x, data["t"]), 2, nst, group=True)
    P, L, A, last, _ = s(rec.key(), x, {"t": data})
    g = T.test_functions(rng, 2)
    O.reversible_stats(rec, "nf", x, last, g)
    O.reversible_stats(rec, "nf-mid", x, P[:, nst // 2], g)
    O.antisym_stats(rec, "nf", x, P[:, 0], g)
    rec.ev("stat-steps", n * nst)
    rec.distinct_rows(last[:2000], "stat")
    rec.sample(flow=kind, acceptance=float(A.mean()), n=n, n_steps=nst, batch=bs)


def scenarios(tier, seed):
    out = []
    reps = 1 if tier == "quick" else 8
    for r in range(reps):
        cf = [[(7, 3), (1, 5)], [(6, 2), (5, 5)], [(10, 4), (4, 100)], [(5, 1), (9, 8)]]
        if r:
            g = np.random.default_rng([seed, r])
            cf = [[(int(g.integers(1, 14)), int(g.integers(1, 9))), (int(g.integers(3, 12)), int(g.integers(1, 5)))] for _ in range(4)]
        for i, kind in enumerate(("rqspline", "rqspline", "realnvp", "realnvp")):
            for j, c in enumerate(cf[i]):
                out.append(Scn(f"exact-{kind}-{c[0]}by{c[1]}-{i}{j}-r{r}", exact, kind=kind, d=1 + (i + c[0] + r) % 4, n=150, configs=[c]))
        for kind in ("realnvp", "rqspline"):
            out.append(Scn(f"many-{kind}-r{r}", exact, kind=kind, d=2, n=60, configs=[(64, 3), (40, 1), (130, 100), (900, 64), (1500, 1000)], law_only=True))
            out.append(Scn(f"bulk-{kind}-r{r}", bulk, kind=kind))
            out.append(Scn(f"stat-{kind}-r{r}", stat, x64=False, kind=kind, n=30000, nst=5, bs=[2, 3, 10][r % 3]))
    return out
