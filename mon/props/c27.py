"""C27 bundle production: ensembles that enter production exactly distributed stay so in every recorded sample."""
import contextlib
import io
import numpy as np
import jax
import jax.numpy as jnp
from mon.core import Scn
from mon import bundles as B
from mon import targets as T
from mon.pt import Probe

RULE = ("one evaluation is one chain of a bundle run whose positions (and tempered walkers) are replaced by exact draws when production begins; non-trivial if the chain "
        "moved in production; distinct by final position. For the prior, one evaluation is one observed target value")
REQUIRED = ["ensembles", "ztests", "kind:plain", "kind:pt", "trained-flow", "local-accepts", "global-accepts", "thinned", "batched", "prior-observations", "recorded-log-prob",
            "swaps", "target:gauss", "target:mixture"]
ASSUMPTIONS = ["positions can be exchanged for exact draws when the bundle's state turns to production",
               "statistical tests on %s, per-test two-sided level 8e-11" % "paired differences"]


def grid_sampler(l1, lo=-14, hi=14, m=60001):
    g = np.linspace(lo, hi, m)
    l = l1(g)
    p = np.exp(l - l.max())
    c = np.concatenate([[0], np.cumsum(0.5 * (p[1:] + p[:-1]))])
    return lambda r, size: np.interp(r.random(size), c / c[-1], g)


def target(rng, name):
    """-> dim, logp(x, data), data, draw(rng, n, temperature)"""
    if name == "gauss":
        d = 2
        m, c = rng.normal(size=d), T._cov(rng, d, 4.0)
        L = np.linalg.cholesky(c)
        data = {"m": m, "P": np.linalg.inv(c)}
        return d, (lambda x, q: -0.5 * (x - q["m"]) @ q["P"] @ (x - q["m"])), data, (lambda r, n, t: m + np.sqrt(t) * (r.normal(size=(n, d)) @ L.T))
    w, a, b, s = float(rng.uniform(0.3, 0.7)), float(rng.uniform(0.8, 1.5)), float(rng.uniform(-1.5, -0.8)), float(rng.uniform(0.5, 0.7))
    d = 1 if name == "mixture1" else 2
    data = {"c": np.array([a, b]), "k": {"w": np.float64(w), "s": np.float64(s)}}

    def f(x, q):
        c, k = q["c"], q["k"]
        return jnp.sum(jnp.logaddexp(jnp.log(k["w"]) - 0.5 * ((x - c[0]) / k["s"]) ** 2, jnp.log1p(-k["w"]) - 0.5 * ((x - c[1]) / k["s"]) ** 2))

    def l1(x):
        return np.logaddexp(np.log(w) - 0.5 * ((x - a) / s) ** 2, np.log1p(-w) - 0.5 * ((x - b) / s) ** 2)
    return d, f, data, (lambda r, n, t: grid_sampler(lambda x: l1(x) / t)(r, (n, d)))


def production(rec, kind, tname, n, cfg):
    from flowMC.Sampler import Sampler
    from flowMC.strategy.base import Strategy
    rng = rec.rng
    d, f, data, draw = target(rng, tname)
    data = jax.tree_util.tree_map(lambda v: jnp.asarray(v, jnp.float32), data)
    base = dict(n_chains=n, n_dims=d, n_local_steps=3, n_global_steps=3, n_training_loops=2, n_production_loops=2, n_epochs=12, learning_rate=5e-3,
                rq_spline_hidden_units=[8], rq_spline_n_bins=4, rq_spline_n_layers=2, batch_size=500, n_max_examples=2500, mala_step_size=0.6,
                n_NFproposal_batch_size=3)
    base.update(cfg)
    k1, k2 = jax.random.split(rec.key())
    with contextlib.redirect_stdout(io.StringIO()):
        b = B.make_bundle(kind, k1, f, base)
    st = {"x": None}
    X = draw(rng, n, 1.0).astype(np.float32)
    hot = None

    class Wrap(Strategy):
        def __init__(self, name, inner):
            self.name, self.inner = name, inner

        def __call__(self, k, r, x, q):
            nonlocal hot
            if st["x"] is None and r["sampler_state"].data["target_positions"] == "positions_production":
                x = jnp.asarray(X)
                if kind == "pt":
                    tt = np.asarray(r["temperatures"].data)
                    hot = np.stack([draw(rng, n, float(t)) for t in tt[1:]], 1).astype(np.float32)
                    r["tempered_positions"].update_buffer(jnp.asarray(hot), 0)
                    st["temps"] = tt
                st["x"] = True
            o = self.inner(k, r, x, q)
            st["last"] = np.asarray(o[2])
            return o
    b.strategies = {nm: Wrap(nm, s) for nm, s in b.strategies.items()}
    sm = Sampler(d, n, k2, resource_strategy_bundles=b)
    with contextlib.redirect_stdout(io.StringIO()):
        sm.sample(jnp.asarray(draw(rng, n, 1.0).astype(np.float32) * 1.3), data)
    R = sm.resources
    P = np.asarray(R["positions_production"].data)
    LP = np.asarray(R["log_prob_production"].data)
    rec.check(np.isfinite(P).all(), "recorded", "production record has unwritten or non-finite samples")
    if not np.isfinite(P).all():
        return
    lw = np.asarray(jax.jit(jax.vmap(jax.vmap(f, in_axes=(0, None)), in_axes=(0, None)))(jnp.asarray(P), data))
    rec.close(LP, lw, "recorded-log-prob", "recorded production log-density is not the target at the recorded sample", rtol=2e-4, atol=2e-3)
    rec.ev("recorded-log-prob", LP.size)
    la, ga = np.asarray(R["local_accs_production"].data), np.asarray(R["global_accs_production"].data)
    rec.ev("local-accepts", (la[np.isfinite(la)] > 0).sum())
    rec.ev("global-accepts", (ga[np.isfinite(ga)] > 0).sum())
    scale = float(X.std())
    g = T.test_functions(rng, d, scale)
    gx = g(X)
    acc = 0
    for s in list(range(P.shape[1])) + [-1]:
        y = P[:, s] if s >= 0 else st["last"]
        D = g(y) - gx
        sd = D.std(0)
        z = D.mean(0) / np.where(sd > 1e-9, sd, 1.0) * np.sqrt(n)
        rec.ztest(z, "production-distribution", f"recorded production sample {s} is not distributed as the target", kind=kind, target=tname, cfg=cfg)
        acc = acc + D
    sd = acc.std(0)
    rec.ztest(acc.mean(0) / np.where(sd > 1e-9, sd, 1) * np.sqrt(n), "production-distribution", "the pooled production samples are not distributed as the target",
              kind=kind, target=tname, cfg=cfg)
    if kind == "pt":
        h1 = np.asarray(R["tempered_positions"].data)
        for k in range(h1.shape[1]):
            gk = T.test_functions(rng, d, scale)
            D = gk(h1[:, k]) - gk(hot[:, k])
            sd = D.std(0)
            rec.ztest(D.mean(0) / np.where(sd > 1e-9, sd, 1) * np.sqrt(n), "tempered-distribution", "stored tempered walkers are not distributed as their tempered target",
                      rung=k + 1, T=float(st["temps"][k + 1]), target=tname)
        rec.ev("swaps", (np.abs(h1 - hot).max(-1) > 0).sum())
    moved = (st["last"] != X).any(1)
    rec.check(moved.mean() > 0.3, "moves", "chains hardly move in production", moved=moved.mean())
    rec.ev("ensembles", n)
    rec.ev("kind:" + kind)
    rec.ev("target:" + tname.rstrip("1"))
    rec.ev("trained-flow", base["n_training_loops"] > 0)
    rec.ev("thinned", base.get("local_thinning", 1) > 1)
    rec.ev("batched", base.get("chain_batch_size", 0) > 0)
    rec.cases += int((~moved).sum())
    rec.distinct_rows(st["last"][moved], tname, stride=5)
    rec.sample(kind=kind, target=tname, cfg=cfg, global_acceptance=float(np.nanmean(np.where(np.isfinite(ga), ga, np.nan))), slots=P.shape[1])


def prior(rec, n_steps):
    """Which target do the tempering, local and global steps of a tempered bundle use when a prior is given?"""
    from flowMC.Sampler import Sampler
    from flowMC.strategy.base import Strategy
    rng = rec.rng
    c = float(rng.uniform(0.2, 0.6))
    data = {"m": jnp.asarray(rng.normal(size=2))}

    def lik(x, q):
        return -0.4 * jnp.sum((x - q["m"]) ** 2)

    def pri(x, q):
        return -c * jnp.sum(jnp.abs(x)) + 0.3 * x[0]

    def val(x, wl, wp):
        x = np.asarray(x, float)
        return wl * -0.4 * ((x - np.asarray(data["m"])) ** 2).sum(-1) + wp * (-c * np.abs(x).sum(-1) + 0.3 * x[..., 0])
    n, nt = 6, 3
    cfg = dict(n_chains=n, n_dims=2, n_local_steps=n_steps, n_global_steps=2, n_training_loops=1, n_production_loops=2, n_epochs=1,
               rq_spline_hidden_units=[4], rq_spline_n_bins=3, rq_spline_n_layers=2, batch_size=8, n_max_examples=16, n_temperatures=nt, max_temperature=4.0,
               n_tempered_steps=1, n_NFproposal_batch_size=2)
    with contextlib.redirect_stdout(io.StringIO()):
        b = B.make_bundle("pt", rec.key(), lik, cfg, logprior=pri)
    b.resources["local_sampler"] = Probe()
    use = {"tempering": set(), "local": set(), "global": set()}
    LABEL = {(1, 1): "likelihood+prior", (1, 0): "likelihood"}

    def close(a, b):
        return np.allclose(a, b, rtol=1e-9, atol=1e-9)

    class Wrap(Strategy):
        def __init__(self, name, inner):
            self.name, self.inner = name, inner

        def __call__(self, k, r, x, q):
            x = jnp.asarray(rng.normal(size=(n, 2)))  # fresh positions every time
            if self.name == "parallel_tempering":
                hot = rng.normal(size=(n, nt - 1, 2))
                r["tempered_positions"].update_buffer(jnp.asarray(hot), 0)
                tt = np.asarray(r["temperatures"].data)
            before = {kk: np.asarray(r[kk].data) for kk in ("log_prob_training", "log_prob_production")}
            o = self.inner(k, r, x, q)
            if self.name == "parallel_tempering":
                out = np.concatenate([np.asarray(o[2])[:, None], np.asarray(r["tempered_positions"].data)], 1)
                W = np.concatenate([np.asarray(x)[:, None], hot], 1)
                for i in range(n):
                    for kk in range(nt):
                        cand = {l: np.array([val(W[i, kk], w[0] / tt[kk], w[1]), val(W[i, kk] + 1, w[0] / tt[kk], w[1])]) for w, l in LABEL.items()}
                        m = [l for l, v in cand.items() if any(close(v, u) for u in out[i])]
                        use["tempering"].add(m[0] if len(m) == 1 else "other" if not m else "ambiguous")
                        rec.ev("prior-observations")
                        rec.case("pt", W[i, kk].tobytes())
            elif self.name in ("local_stepper", "global_stepper"):
                ph = r["sampler_state"].data["target_positions"].split("_")[1]
                pos, lp = np.asarray(r["positions_" + ph].data), np.asarray(r["log_prob_" + ph].data)
                new = (lp != before["log_prob_" + ph])
                if self.name == "local_stepper":
                    # the probe kernel moves to the values of the target it was given
                    v = np.asarray(x, float)
                    for s in range(n_steps):
                        got = pos[np.arange(n), np.argmax(new, 1) + s]
                        m = [l for w, l in LABEL.items() if close(got, np.stack([val(v, *w), val(v + 1, *w)], -1))]
                        use["local"].add(m[0] if len(m) == 1 else "other")
                        v = got
                        rec.ev("prior-observations", n)
                        rec.case("local", got.tobytes())
                else:
                    m = [l for w, l in LABEL.items() if close(lp[new], val(pos, *w)[new])]
                    use["global"].add(m[0] if len(m) == 1 else "other")
                    rec.ev("prior-observations", n)
                    rec.case("global", lp[new].tobytes())
            return o
    b.strategies = {nm: Wrap(nm, s) for nm, s in b.strategies.items()}
    sm = Sampler(2, n, rec.key(), resource_strategy_bundles=b)
    with contextlib.redirect_stdout(io.StringIO()):
        sm.sample(jnp.asarray(rng.normal(size=(n, 2))), data)
    u = {k: sorted(v) for k, v in use.items()}
    rec.sample(targets_used=u)
    full = ["likelihood+prior"]
    if u == {"tempering": full, "local": ["likelihood"], "global": ["likelihood"]}:
        rec.check(False, "prior-only-in-tempering", "tempering uses logpdf + logprior, local and global steps logpdf alone", used=u)
    else:
        rec.check(u == {k: full for k in u}, "one-posterior", "tempering, local and global steps do not all use likelihood + prior", used=u)


def scenarios(tier, seed):
    q = tier == "quick"
    n = 12000 if q else 40000
    out = []
    for r in range(1 if q else 4):
        conf = [("plain", "gauss", {}), ("plain", "mixture", dict(local_thinning=2, global_thinning=2, n_local_steps=5, n_global_steps=5)),
                ("plain", "mixture1", dict(chain_batch_size=4000, n_training_loops=3)),
                ("pt", "gauss", dict(n_temperatures=3, n_tempered_steps=2)), ("pt", "mixture", dict(n_temperatures=4, max_temperature=8.0, chain_batch_size=5000)),
                ("pt", "mixture1", dict(n_temperatures=2, local_thinning=3, n_production_loops=3))]
        for i, (k, t, c) in enumerate(conf):
            out.append(Scn(f"production-{k}-{t}-{i}-r{r}", production, x64=False, kind=k, tname=t, n=n, cfg=c))
        out.append(Scn(f"prior-r{r}", prior, n_steps=1 + r % 3))
    return out
