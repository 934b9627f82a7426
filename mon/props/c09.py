"""C09 randomness: reproducible, and never reused."""
import numpy as np
import jax
import jax.numpy as jnp
import optax
from mon.core import Scn
from mon import targets as T
from mon.flows import make_flow
from mon.steps import Steps, make_kernel

RULE = ("a kernel that records the key it is given runs under serial and group steps and tempering, flat-target increments of the "
        "real kernels are correlated across chains, steps and calls, and all strategies are run twice; a case is one key or "
        "increment, distinct by value")
REQUIRED = ["kernel-keys", "increments", "twin-runs", "pt-keys", "adam-chains", "flow-proposals", "bundle-keys"]
ASSUMPTIONS = ["threefry streams of distinct keys are independent"]


def keys_serial(rec, n, ns, calls, cbs):
    from mon.pt import KeyRecorder
    from flowMC.resource.states import State
    st1 = Steps(KeyRecorder(), lambda x, d: 0.0 * x.sum(), 2, ns, chain_batch_size=cbs)
    st2 = Steps(KeyRecorder(), lambda x, d: 0.0 * x.sum(), 2, max(1, ns // 2), chain_batch_size=cbs)
    key = rec.key()
    seen = {}
    ret = [tuple(np.asarray(key).tolist())]
    for c in range(calls):
        st = (st1, st2)[c % 2]
        P, _, _, _, k2 = st(key, np.zeros((n, 2)), {})
        for i in range(n):
            for s in range(P.shape[1]):
                kk = tuple(P[i, s].astype(np.int64).tolist())
                if kk in seen:
                    rec.check(False, "key-reuse", "two kernel steps got the same key", first=seen[kk], second=(c, i, s), n_chains=n, batch=cbs)
                    return
                seen[kk] = (c, i, s)
        key = jnp.asarray(k2)
        rk = tuple(np.asarray(k2).tolist())
        rec.check(rk not in ret, "returned-key-repeats", "a strategy returned a key already used", call=c)
        rec.check(rk not in seen, "returned-key-used", "a strategy returned a key it had given to a kernel", call=c)
        ret.append(rk)
    rec.check(not (set(ret) & set(seen)), "key-shared", "a kernel got a key that a strategy was called with")
    rec.ev("kernel-keys", len(seen))
    rec.cases += len(seen)
    rec.distinct.update(f"k{a:x}{b:x}" for a, b in seen)
    rec.sample(kind="keys", n_chains=n, n_steps=ns, calls=calls, some=list(seen)[:3])


def keys_pt(rec, n, T_, calls):
    from mon.pt import KeyRecorder, PT
    rng = rec.rng
    for ns in (1, 3):
        pt = PT(KeyRecorder(), lambda x, d: 0.0 * x.sum(), lambda x, d: 0.0 * x.sum(), 2, np.linspace(1, 5, T_), n_steps=ns, training=bool(rng.integers(2)))
        pt.reset(np.zeros((n, T_ - 1, 2)))
        key = rec.key()
        cold = np.zeros((n, 2))
        seen = set()
        ret = set()
        cnt = 0
        for c in range(calls):
            key2, cold, hot, _ = pt(key, cold, {})
            allk = np.concatenate([cold[:, None], hot], 1).reshape(-1, 2).astype(np.int64)
            cnt += len(allk)
            new = {tuple(k) for k in allk.tolist()}
            rec.check(len(new) == len(allk) and not (new & seen), "pt-key-reuse", "two tempered walkers or calls got the same key", call=c, n=n, T=T_)
            seen |= new
            rec.check(tuple(np.asarray(key2).tolist()) not in ret | seen and not np.array_equal(np.asarray(key2), np.asarray(key)),
                      "returned-key-repeats", "tempering returned a key already used")
            ret.add(tuple(np.asarray(key2).tolist()))
            key = key2
        rec.ev("pt-keys", cnt)
        rec.cases += cnt
        rec.distinct.update(f"p{a:x}{b:x}" for a, b in seen)


def increments(rec, kname, n, ns, calls):
    """Flat-target increments: iid across chains, steps and calls (two steppers alternating)."""
    rng = rec.rng
    d = 2
    step = 0.5
    f = lambda x, dd: 0.0 * jnp.sum(x)  # noqa: E731
    kern = make_kernel(kname, rng, d, step=step)
    sts = [Steps(kern, f, d, ns), Steps(kern, f, d, ns, chain_batch_size=3)]
    key = rec.key()
    x = np.zeros((n, d))
    Z = []
    for c in range(calls):
        P, _, A, last, k2 = sts[c % 2](key, x, {})
        rec.check(A.all(), "flat-rejects", "a proposal on a flat target was rejected")
        inc = np.diff(np.concatenate([x[:, None], P], 1), axis=1)
        Z.append(inc)
        x, key = last, jnp.asarray(k2)
    Z = np.stack(Z)  # calls, chains, steps, d
    flat = Z.reshape(-1, d)
    sd = flat.std()
    rec.check(len({r.tobytes() for r in np.round(flat, 9)}) == len(flat), "noise-reuse", "the same increment occurred twice", kernel=kname)
    W = Z / sd
    zs = []
    N = W.size
    for ax, L in ((0, calls), (1, n), (2, ns)):
        for lag in range(1, min(L, 4)):
            a = np.take(W, range(L - lag), axis=ax)
            b = np.take(W, range(lag, L), axis=ax)
            zs.append((a * b).sum() / np.sqrt(a.size))
            # crossing coordinates as well
            zs.append((a * b[..., ::-1]).sum() / np.sqrt(a.size))
            zs.append(((a**2 - 1) * (b**2 - 1)).sum() / 2 / np.sqrt(a.size))
    rec.ztest(np.array(zs), "noise-correlation", "increments are correlated across chains, steps or calls", kernel=kname)
    rec.ev("increments", len(flat))
    rec.distinct_rows(flat[:3000], kname)
    rec.sample(kind="increments", kernel=kname, shape=Z.shape, correlations=zs[:6])


def proposals(rec, n, ns, calls, bs):
    """Flow proposals are never shared between chains, steps or calls."""
    rng = rec.rng
    d = 2
    model = make_flow(rng, "rqspline", d, scale=0.2, layers=2, bins=4)
    kern = make_kernel("NF", rng, d, model=model, batch=bs)
    sts = [Steps(kern, lambda x, dd: model.log_prob(x), d, ns, group=True, chain_batch_size=c) for c in (0, 2)]
    key = rec.key()
    x = rng.normal(size=(n, d))
    allp = []
    for c in range(calls):
        P, _, A, last, k2 = sts[c % 2](key, x, {})
        allp.append(P)
        x, key = last, jnp.asarray(k2)
    allp = np.stack(allp).reshape(-1, d)
    u = len({r.tobytes() for r in np.round(allp, 9)})
    rec.check(u == len(allp), "proposal-reuse", "the same flow sample was proposed to two chains, steps or calls", distinct=u, total=len(allp), batch=bs, n_steps=ns)
    rec.ev("flow-proposals", len(allp))
    rec.distinct_rows(allp, "nf")


def twin(rec, what):
    """Same inputs give bitwise the same results from freshly built objects; another key gives others."""
    rng0 = rec.rng.integers(2**31)
    k = rec.key()
    k2 = rec.key()

    def build():
        rng = np.random.default_rng(rng0)
        if what in ("MALA", "HMC", "GRW", "NF"):
            d = 2
            model = make_flow(rng, "realnvp", d, scale=0.2, whiten=False) if what == "NF" else None
            st = Steps(make_kernel(what, rng, d, model=model, batch=3), lambda x, dd: -0.5 * jnp.sum(x**2), d, 7, group=what == "NF", chain_batch_size=2)
            xs = rng.normal(size=(5, d))
            return lambda key: st(key, xs, {})
        if what == "PT":
            from mon.pt import PT
            pt = PT(make_kernel("MALA", rng, 2), lambda x, d: -0.5 * jnp.sum(x**2), lambda x, d: -0.01 * jnp.sum(x**2), 2, [1, 2, 4.0], n_steps=2)
            xs = rng.normal(size=(5, 2))
            hot = rng.normal(size=(5, 2, 2))

            def go(key):
                pt.reset(hot)
                o = pt(key, xs, {})
                return (np.asarray(o[0]),) + o[1:]
            return go
        if what == "Adam":
            from flowMC.strategy.optimization import AdamOptimization
            a = AdamOptimization(lambda x, d: -0.5 * jnp.sum((x - 1) ** 2), n_steps=9, noise_level=2.0)
            xs = rng.normal(size=(5, 2))
            return lambda key: [np.asarray(q) for q in a.optimize(key, lambda x, d: 0.5 * jnp.sum((x - 1) ** 2), jnp.asarray(xs), {})]
        if what == "train":
            m = make_flow(rng, "realnvp", 2, scale=0.1)
            data = jnp.asarray(rng.normal(size=(50, 2)))
            opt = optax.adam(1e-2)
            import equinox as eqx

            def go(key):
                r = m.train(key, data, opt, opt.init(eqx.filter(m, eqx.is_array)), 3, 16, verbose=False)
                return [np.asarray(r[0]), np.asarray(r[3])] + [np.asarray(x) for x in jax.tree_util.tree_leaves(eqx.filter(r[1], eqx.is_array))]
            return go
        m = make_flow(rng, what.split("-")[1], 3, scale=0.2, base=True)
        return lambda key: [np.asarray(m.sample(key, 40))]
    a, b = build()(k), build()(k)
    c = build()(k2)
    for x, y in zip(a, b):
        rec.same(x, y, "reproducible", "two runs with the same inputs differ", what=what)
    i = 1 if what in ("Adam", "PT", "train") else 0
    rec.check(not np.array_equal(a[i], c[i]), "key-ignored", "another key gave the same result", what=what)
    if what in ("MALA", "HMC", "GRW", "NF"):
        rec.check((a[0] != c[0]).any(axis=(1, 2)).all(), "key-ignored", "another key left some chain unchanged", what=what)
    rec.ev("twin-runs")
    rec.case(what, np.asarray(a[i]).tobytes())


def adam(rec):
    """Chains of a noisy optimisation from the same start, and successive calls, use different noise."""
    from flowMC.strategy.optimization import AdamOptimization
    a = AdamOptimization(lambda x, d: -0.5 * jnp.sum((x - 3) ** 2 * jnp.array([1.0, 10.0])), n_steps=12, noise_level=3.0, learning_rate=0.05)
    key = rec.key()
    n = 40
    outs = []
    xs = jnp.zeros((n, 2))
    for c in range(3):
        key2, _, pos = a(key, {}, xs, {})
        outs.append(np.asarray(pos))
        rec.check(not np.array_equal(np.asarray(key2), np.asarray(key)), "returned-key-repeats", "the optimiser returned its own key")
        key = key2
    allp = np.concatenate(outs)
    u = len({r.tobytes() for r in allp})
    rec.check(u == len(allp), "noise-reuse", "two chains or calls of a noisy optimisation coincide", distinct=u, total=len(allp))
    rec.ev("adam-chains", len(allp))
    rec.distinct_rows(allp, "adam")


def bundle_keys(rec, kind):
    from mon.bundles import run_bundle
    rng = rec.rng
    cfg = dict(n_chains=4, n_dims=2, n_local_steps=3, n_global_steps=3, n_training_loops=2, n_production_loops=2, n_epochs=2,
               rq_spline_hidden_units=[4], rq_spline_n_bins=3, rq_spline_n_layers=2, batch_size=8, n_max_examples=16)
    if kind == "pt":
        cfg["n_temperatures"] = 3
    f = lambda x, d: -0.5 * jnp.sum(x**2)  # noqa: E731
    x0 = rng.normal(size=(4, 2)).astype(np.float32)
    key = rec.key()
    run = run_bundle(rec, kind, cfg, f, {}, x0, watch=(), key=key)
    random = ("local_stepper", "global_stepper", "model_trainer", "parallel_tempering")
    used = [tuple(e.key_in.tolist()) for e in run.events if e.name in random]
    rec.check(len(set(used)) == len(used), "bundle-key-reuse", "two random strategies of one run were called with the same key")
    for e in run.events:
        if e.name in random:
            rec.check(not np.array_equal(e.key_in, e.key_out), "bundle-key-reuse", "a random strategy returned the key it was called with", strategy=e.name)
    rec.ev("bundle-keys", len(used))
    rec.cases += len(used)
    rec.distinct.update("b%x%x" % u for u in used)
    run2 = run_bundle(rec, kind, cfg, f, {}, x0, watch=(), key=key)
    for nm in ("positions_training", "positions_production", "log_prob_production", "loss_buffer"):
        rec.same(np.asarray(run.sampler.resources[nm].data), np.asarray(run2.sampler.resources[nm].data), "reproducible",
                 "two identical bundle runs differ", record=nm)
    run3 = run_bundle(rec, kind, cfg, f, {}, x0, watch=(), key=rec.key())
    rec.check(not np.array_equal(np.asarray(run.sampler.resources["positions_production"].data),
                                 np.asarray(run3.sampler.resources["positions_production"].data)), "key-ignored", "another key gave the same run")
    rec.ev("twin-runs")


def scenarios(tier, seed):
    out = []
    for r in range(1 if tier == "quick" else 12):
        for n, ns, cbs in ((2, 9, 0), (5, 20, 2), (1, 30, 0), (64, 10, 7), (3, 150, 0), (300, 4, 128), (2, 3000, 0)):
            out.append(Scn(f"keys-{n}x{ns}-b{cbs}-r{r}", keys_serial, n=n, ns=ns, calls=6, cbs=cbs))
        for n, t in ((2, 2), (5, 4), (1, 6), (150, 3), (3, 24)):
            out.append(Scn(f"keys-pt-{n}x{t}-r{r}", keys_pt, n=n, T_=t, calls=6))
        for k in ("MALA", "HMC", "GRW"):
            out.append(Scn(f"increments-{k}-r{r}", increments, kname=k, n=12, ns=40, calls=8))
        for ns, bs in ((9, 4), (5, 10), (12, 3), (45, 2), (700, 64), (1, 4), (2, 1)):
            out.append(Scn(f"proposals-{ns}by{bs}-r{r}", proposals, n=6, ns=ns, calls=4, bs=bs))
        for w in ("MALA", "HMC", "GRW", "NF", "PT", "Adam", "train", "sample-realnvp", "sample-rqspline"):
            out.append(Scn(f"twin-{w}-r{r}", twin, what=w))
        out.append(Scn(f"adam-r{r}", adam))
        for k in ("plain", "pt"):
            out.append(Scn(f"bundle-{k}-r{r}", bundle_keys, x64=False, kind=k))
    return out
