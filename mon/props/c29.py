"""C29 bundle settings take effect, observed on runs of both bundles."""
import contextlib
import io
import math
import numpy as np
import jax
import jax.numpy as jnp
import equinox as eqx
from mon.core import Scn
from mon.bundles import run_bundle, make_bundle, freeze_all, changed

RULE = ("runs of both bundles over random settings, each setting different from its default and from the others; a case is one setting of one run compared "
        "with what the run did, distinct by bundle, setting and value")
REQUIRED = ["kind:plain", "kind:pt", "steps", "phases", "epochs", "batches", "examples", "learning-rate", "step-size", "architecture", "temperatures",
            "tempered-steps", "window", "verbose-twins", "defaults", "tempered-grid"]
ASSUMPTIONS = ["a flat target accepts every move, so moves reveal step sizes and numbers of steps", "the first Adam step moves a parameter of clear gradient by the learning rate"]


def settings(rng, kind):
    c = dict(n_chains=int(rng.integers(3, 7)), n_dims=int(rng.integers(2, 4)), n_local_steps=int(rng.integers(3, 9)), n_global_steps=int(rng.integers(2, 8)),
             n_training_loops=int(rng.integers(1, 4)), n_production_loops=int(rng.integers(1, 4)), n_epochs=int(rng.integers(1, 5)),
             mala_step_size=float(rng.uniform(0.05, 0.6)), rq_spline_hidden_units=[int(v) for v in rng.integers(3, 9, int(rng.integers(1, 4)))],
             rq_spline_n_bins=int(rng.integers(2, 7)), rq_spline_n_layers=int(rng.integers(1, 5)), learning_rate=float(10 ** rng.uniform(-4, -1.5)),
             batch_size=int(rng.integers(5, 30)), n_max_examples=int(rng.integers(20, 70)), local_thinning=int(rng.integers(1, 4)),
             global_thinning=int(rng.integers(1, 4)), chain_batch_size=int(rng.choice([0, 2])), n_NFproposal_batch_size=int(rng.integers(1, 9)))
    if kind == "pt":
        c.update(n_temperatures=int(rng.integers(2, 6)), max_temperature=float(rng.uniform(2, 30)), n_tempered_steps=int(rng.choice([-1, 0, 1, 2, 5])),
                 history_window=int(rng.integers(1, 6)))
    return c


def shapes(model):
    return [(jax.tree_util.keystr(p), np.shape(v)) for p, v in jax.tree_util.tree_flatten_with_path(eqx.filter(model, eqx.is_array))[0]]


def count_of(optim_state):
    return max([int(v) for v in jax.tree.leaves(optim_state) if eqx.is_array(v) and v.ndim == 0 and jnp.issubdtype(v.dtype, jnp.integer)], default=None)


def run_settings(rec, kind, reps, one_epoch):
    from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline as M
    rng = rec.rng
    for rep in range(reps):
        c = settings(rng, kind)
        if kind == "pt":
            c["n_temperatures"] = 2 + (2 * rep + one_epoch + int(rng.integers(2))) % 5
        d, n = c["n_dims"], c["n_chains"]
        seen = []
        orig = M.train

        def spy(self, rng, data, *a, **k):
            seen.append((self, np.asarray(data), a, k))
            out = orig(self, rng, data, *a, **k)
            seen[-1] += (out,)
            return out
        counts, pt_moves, local_sizes, opt_counts = {}, [], [], [0]

        def on_event(e, res):
            counts[e.name] = counts.get(e.name, 0) + 1
            rec.ev("steps")
            if e.name == "model_trainer":
                L = np.asarray(seen[-1][4][3])
                rec.check(len(seen) == counts[e.name], "training-calls", "a training strategy call is not one training of the flow")
                rec.check(len(L) == c["n_epochs"], "n-epochs", "the number of epochs is not the one configured", got=len(L), want=c["n_epochs"])
                rec.check(seen[-1][1].shape == (c["n_max_examples"], d), "n-max-examples", "the number of examples is not the one configured", got=seen[-1][1].shape)
                k = count_of(res["optimizer"].optim_state)
                if k is not None and np.isfinite(L).all():
                    per = max(1, c["n_max_examples"] // c["batch_size"]) if c["n_max_examples"] > c["batch_size"] else 1
                    best = int(np.argmin(L))
                    rec.check(k - opt_counts[-1] == per * (best + 1), "batch-size", "the number of optimizer steps does not match batch size and examples", cfg=c, losses=L, steps=k - opt_counts[-1], want=per * (best + 1))
                    opt_counts.append(k)
                    rec.ev("batches")
                rec.ev("epochs")
                rec.ev("examples")
                if counts[e.name] == 1 and c["n_epochs"] == 1 and len(seen[-1][1]) <= c["batch_size"]:
                    learning(e, res)
                P = np.asarray(e.before["positions_training"][2])
                kf = int(np.isfinite(P).all(-1).all(0).sum())
                W = c.get("history_window", 100)
                old = {r.tobytes() for r in P[:, :max(0, kf - W)].reshape(-1, d)} - {r.tobytes() for r in P[:, max(0, kf - W):kf].reshape(-1, d)}
                rec.check(not any(np.ascontiguousarray(r).tobytes() in old for r in seen[-1][1]), "history-window", "the flow is trained on samples older than the history window", window=W)
                rec.ev("window")

        def learning(e, res):
            a, b = jax.tree.leaves(eqx.filter(seen[-1][0], eqx.is_inexact_array)), jax.tree.leaves(eqx.filter(res["model"], eqx.is_inexact_array))
            names = [jax.tree_util.keystr(p) for p, _ in jax.tree_util.tree_flatten_with_path(eqx.filter(res["model"], eqx.is_inexact_array))[0]]
            mx = max(float(np.abs(np.asarray(y) - np.asarray(x)).max()) for x, y, nm in zip(a, b, names) if not any(q in nm for q in ("data_mean", "data_cov", "base_dist", "mask")))
            rec.check(0.9 * c["learning_rate"] <= mx <= 1.1 * c["learning_rate"] + 1e-6, "learning-rate", "the first training step is not of the size of the learning rate", moved=mx, learning_rate=c["learning_rate"])
            rec.ev("learning-rate")
        if one_epoch:
            c.update(n_epochs=1, batch_size=c["n_max_examples"] + int(rng.integers(0, 5)))
        M.train = spy
        try:
            run = run_bundle(rec, kind, c, lambda x, q: -0.5 * jnp.sum(x**2), {}, rng.normal(size=(n, d)).astype(np.float32), watch=("positions_training",), on_event=on_event)
        finally:
            M.train = orig
        T, P = c["n_training_loops"], c["n_production_loops"]
        rec.check(counts.get("local_stepper") == T + P and counts.get("global_stepper") == T + P and counts.get("model_trainer") == T, "phases",
                  "the phases do not run the configured number of times", counts=counts, cfg=c)
        if kind == "pt":
            rec.check(counts.get("parallel_tempering") == T + P, "phases", "tempering does not run once per loop", counts=counts, cfg=c)
        rec.ev("phases")
        res = run.sampler.resources
        seg = math.ceil(c["n_local_steps"] / c["local_thinning"]) + math.ceil(c["n_global_steps"] / c["global_thinning"])
        for ph, k in (("training", T), ("production", P)):
            rec.check(np.asarray(res["positions_" + ph].data).shape == (n, k * seg, d), "record-shape", "the record does not have one slot per thinned step", phase=ph, cfg=c,
                      got=np.asarray(res["positions_" + ph].data).shape)
            F = np.isfinite(np.asarray(res["local_accs_" + ph].data)).all(0).reshape(k, seg)
            nl = math.ceil(c["n_local_steps"] / c["local_thinning"])
            rec.check(F[:, :nl].all() and not F[:, nl:].any(), "local-steps", "the local segments do not have the configured length", phase=ph, cfg=c)
        lb = np.asarray(res["loss_buffer"].data)
        rec.check(lb.shape == (T * c["n_epochs"],) and np.isfinite(lb).all(), "loss-record", "there is not one loss per training epoch", got=lb, cfg=c)
        ref = M(d, c["rq_spline_n_layers"], c["rq_spline_hidden_units"], c["rq_spline_n_bins"], jax.random.PRNGKey(0))
        for nm, m in (("model", res["model"]), ("global_sampler", res["global_sampler"].model)):
            rec.check(shapes(m) == shapes(ref), "architecture", "the flow does not have the configured layers, hidden units and bins", where=nm, cfg=c)
            rec.ev("architecture")
        rec.ev("kind:" + kind)
        for k, v in c.items():
            rec.case(kind, k, str(v))
    rec.sample(kind=kind, cfg=c, counts=counts)


def flat(rec, kind, n, n_temperatures=0):
    """On a flat target every local move is accepted, so the moves reveal step size, number of steps and temperatures."""
    rng = rec.rng
    c = dict(settings(rng, kind), n_chains=n, n_dims=2, n_training_loops=1, n_production_loops=1, n_epochs=1, n_max_examples=20, batch_size=20, local_thinning=1, global_thinning=1, chain_batch_size=0)
    if kind == "pt":
        c["n_temperatures"] = n_temperatures
    eps, ns = c["mala_step_size"], c.get("n_tempered_steps", 0)
    walkers = {}

    def on_event(e, res):
        if kind != "pt":
            return
        if e.name == "initialize_tempered_positions":
            w, t = np.asarray(res["tempered_positions"].data), np.asarray(res["temperatures"].data)
            rec.check(t.shape == (c["n_temperatures"],) and t[0] == 1.0 and (len(t) == 1 or np.isclose(t[-1], c["max_temperature"])) and (np.diff(t) > 0).all(), "temperatures",
                      "the ladder does not have the configured number of temperatures from 1 to the maximum", got=t, cfg=c)
            rec.check(w.shape == (n, c["n_temperatures"] - 1, 2) and (w == e.pos_in[:, None]).all(), "tempered-start", "the tempered walkers do not start at the chain's start")
            rec.ev("temperatures")
        if e.name == "parallel_tempering":
            b = np.concatenate([e.pos_in[:, None], e.before["tempered_positions"][2]], 1).astype(float)
            a = np.concatenate([e.pos_out[:, None], e.after["tempered_positions"][2]], 1).astype(float)
            k = ns if ns > 0 else c["n_local_steps"]
            D = (a.sum(1) - b.sum(1)) / (eps * np.sqrt(k * c["n_temperatures"]))
            rec.ztest(np.concatenate([D.mean(0) * np.sqrt(n), (D**2 - 1).mean(0) * np.sqrt(n / 2)]), "tempered-steps",
                      "the walkers do not take the configured number of steps of the configured size", n_tempered_steps=ns, n_local_steps=c["n_local_steps"])
            t = np.asarray(e.after["temperatures"][2])
            rec.check(t[0] == 1.0 and (len(t) == 1 or np.isclose(t[-1], c["max_temperature"])), "temperatures", "the ends of the ladder are not 1 and the maximum", got=t)
            rec.ev("tempered-steps")
    run = run_bundle(rec, kind, c, lambda x, q: 0.0 * jnp.sum(x), {}, rng.normal(size=(n, 2)).astype(np.float32), watch=("tempered_positions", "temperatures"), on_event=on_event)
    P = np.asarray(run.sampler.resources["positions_training"].data, float)[:, :c["n_local_steps"]]
    D = np.diff(P, axis=1).reshape(-1, 2) / eps
    rec.ztest(np.concatenate([D.mean(0) * np.sqrt(len(D)), (D**2 - 1).mean(0) * np.sqrt(len(D) / 2)]), "step-size", "local moves do not have the configured step size", step=eps)
    rec.ev("step-size")
    rec.ev("kind:" + kind)
    rec.distinct_rows(D[:500], kind)
    rec.sample(kind=kind, cfg=c, mean_square=(D**2).mean(0))


def tempered(rec, n):
    """The tempering of a bundle on a flat target, for every kind of value of its settings."""
    rng = rec.rng
    for i, ns in enumerate((1, -1, 2, 0, 3, -7, "same", "less", "more", 1)):
        nl = int(rng.integers(3, 9))
        ns = dict(same=nl, less=nl - 1, more=nl + 1).get(ns, ns)
        nt, tmax, eps = 1 + (i + int(rng.integers(2))) % 5, float(rng.uniform(1.2, 40)), float(rng.uniform(0.05, 0.6))
        c = dict(settings(rng, "pt"), n_chains=n, n_dims=2, n_local_steps=nl, n_tempered_steps=ns, n_temperatures=nt, max_temperature=tmax, mala_step_size=eps)
        with contextlib.redirect_stdout(io.StringIO()):
            b = make_bundle("pt", rec.key(), lambda x, q: 0.0 * jnp.sum(x), c)
            x = jnp.asarray(rng.normal(size=(n, 2)).astype(np.float32))
            key, R, x1 = b.strategies["initialize_tempered_positions"](rec.key(), b.resources, x, {})
            w0, t0 = np.asarray(R["tempered_positions"].data, float), np.asarray(R["temperatures"].data)
            key, R, x1 = b.strategies["parallel_tempering"](key, R, x1, {})
        rec.check(w0.shape == (n, nt - 1, 2) and (w0 == np.asarray(x)[:, None]).all(), "tempered-start", "the tempered walkers do not start at the chain's start")
        rec.check(t0.shape == (nt,) and t0[0] == 1 and (nt == 1 or (np.isclose(t0[-1], tmax) and (np.diff(t0) > 0).all())), "temperatures",
                  "the ladder does not have the configured number of temperatures from 1 to the maximum", got=t0, n_temperatures=nt, max_temperature=tmax)
        k = ns if ns > 0 else nl
        D = np.concatenate([np.asarray(x1, float)[:, None], np.asarray(R["tempered_positions"].data, float)], 1).sum(1) - nt * np.asarray(x, float)
        D = D / (eps * np.sqrt(k * nt))
        rec.ztest(np.concatenate([D.mean(0) * np.sqrt(n), (D**2 - 1).mean(0) * np.sqrt(n / 2)]), "tempered-steps", "the walkers do not take the configured number of steps of the configured size",
                  n_tempered_steps=ns, n_local_steps=nl, n_temperatures=nt, variance=(D**2).mean(0))
        rec.ev("tempered-grid")
        rec.ev("temperatures")
        rec.case("tempered", ns, nl, nt)


def twins(rec, kind):
    """Verbosity changes nothing, and left-out settings do not depend on each other."""
    rng = rec.rng
    c = settings(rng, kind)
    key = rec.key()
    x = rng.normal(size=(c["n_chains"], c["n_dims"])).astype(np.float32)
    f = lambda y, q: -0.5 * jnp.sum((y - q["m"]) ** 2)  # noqa: E731
    out = []
    for v in (False, True):
        run = run_bundle(rec, kind, dict(c, verbose=v), f, {"m": jnp.float32(0.3)}, x, watch=(), key=key)
        out.append(freeze_all({k: r for k, r in run.sampler.resources.items() if "logpdf" not in k}))
    diff = changed(out[0], out[1])
    rec.check(not diff, "verbose", "verbosity changes the results", resources=diff)
    rec.ev("verbose-twins")
    rec.case("twins", kind, str(c))
    # only the required settings: the documented defaults
    req = {k: c[k] for k in ("n_chains", "n_dims", "n_local_steps", "n_global_steps", "n_training_loops", "n_production_loops", "n_epochs")}
    b = make_bundle(kind, rec.key(), f, req)
    rec.check(len(b.strategy_order) > 0 and set(b.strategy_order) <= set(b.strategies), "defaults", "the order of a bundle names unknown strategies")
    rec.ev("defaults")
    rec.ev("kind:" + kind)


def scenarios(tier, seed):
    out = []
    for r in range(1 if tier == "quick" else 12):
        for kind in ("plain", "pt"):
            for i in range(2):
                out.append(Scn(f"settings-{kind}-{i}-r{r}", run_settings, x64=False, kind=kind, reps=2 if tier == "quick" else 4, one_epoch=i == 0))
            for nt in ((0, ) if kind == "plain" else (1, 2 + r % 2, 5 + r % 3)):
                out.append(Scn(f"flat-{kind}-{nt}-r{r}", flat, x64=False, kind=kind, n=400, n_temperatures=nt))
            if kind == "pt":
                out.append(Scn(f"tempered-r{r}", tempered, x64=False, n=600))
            out.append(Scn(f"twins-{kind}-r{r}", twins, x64=False, kind=kind))
    return out
