"""C12 global proposals use the most recently trained flow."""
import numpy as np
import jax
import jax.numpy as jnp
import equinox as eqx
from mon.core import Scn
from mon.bundles import run_bundle, freeze, changed

RULE = ("bundle runs with several training and production loops; at every global step the flow inside the proposal is compared with the "
        "last trained one and the step is repeated by a freshly built proposal around that flow; a case is one global step, non-trivial "
        "if training had changed the flow")
REQUIRED = ["global-steps", "production-global-steps", "trainings-that-changed-the-flow", "replayed-segments", "manual-update"]
ASSUMPTIONS = ["a repeated step with the same key, start, data and flow gives the same record (C09)"]


def arrays(model):
    return [np.asarray(x) for x in jax.tree_util.tree_leaves(eqx.filter(model, eqx.is_array))]


def eq(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))


def one(rec, kind, thin, cbs, bs, lr, epochs):
    from flowMC.resource.kernel.NF_proposal import NFProposal
    from flowMC.strategy.take_steps import TakeGroupSteps
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.states import State
    from flowMC.resource.logPDF import LogPDF
    rng = rec.rng
    n, d = 6, 2
    cfg = dict(n_chains=n, n_dims=d, n_local_steps=4, n_global_steps=6, n_training_loops=3, n_production_loops=2, n_epochs=epochs,
               rq_spline_hidden_units=[4], rq_spline_n_bins=3, rq_spline_n_layers=2, batch_size=16, n_max_examples=40, learning_rate=lr,
               global_thinning=thin, chain_batch_size=cbs, n_NFproposal_batch_size=bs, mala_step_size=0.5)
    if kind == "pt":
        cfg["n_temperatures"] = 3
    shift = (rng.normal(size=d) * 2).astype(np.float32)
    data = {"m": shift}
    f = lambda x, dd: -0.5 * jnp.sum((x - dd["m"]) ** 2)  # noqa: E731
    trained = []
    first = []
    lpdf = LogPDF(f, n_dims=d)

    def on_event(e, res):
        if e.name == "model_trainer":
            m = arrays(res["model"])
            prev = trained[-1] if trained else first[0]
            if not eq(m, prev):
                rec.ev("trainings-that-changed-the-flow")
            trained.append(m)
            on_event.model = res["model"]
        if e.name == "global_stepper":
            inside = arrays(res["global_sampler"].model)
            ok = eq(inside, trained[-1])
            rec.check(ok, "stale-flow", "the flow of the global proposal is not the last trained one", at=e.i, trainings=len(trained),
                      is_initial=eq(inside, first[0]), matches=[i for i, t in enumerate(trained) if eq(inside, t)])
            rec.check(eq(arrays(res["model"]), trained[-1]), "model-changed", "the model resource is not the last trained one at a global step", at=e.i)
            rec.ev("global-steps")
            ph = "production" if e.i > on_event.cut else "training"
            if ph == "production":
                rec.ev("production-global-steps")
            rec.case(kind, e.i, inside[0].tobytes(), nontrivial=not eq(trained[-1], first[0]))
            # repeat the step with a fresh proposal around the trained flow
            K = -(-cfg["n_global_steps"] // thin)
            st = TakeGroupSteps("l", "k", "s", ["p", "q", "a"], cfg["n_global_steps"], thinning=thin, chain_batch_size=cbs)
            r2 = {"l": lpdf, "k": NFProposal(on_event.model, n_NFproposal_batch_size=bs), "s": State({"p": "P", "q": "Q", "a": "A"}, name="s"),
                  "P": Buffer("P", (n, K, d), 1), "Q": Buffer("Q", (n, K), 1), "A": Buffer("A", (n, K), 1)}
            _, r2, last = st(jnp.asarray(e.key_in), r2, jnp.asarray(e.pos_in), data)
            got = np.asarray(res["positions_" + ph].data)
            # the segment just written is the one that ends at the returned positions
            ga = np.asarray(res[f"global_accs_{ph}"].data)
            end = int(np.max(np.where(np.isfinite(ga).all(0))[0])) + 1
            sl = slice(end - K, end)
            rec.close(got[:, sl], np.asarray(r2["P"].data), "replayed-positions", "a global segment is not the one the trained flow produces", rtol=2e-3, atol=2e-3, at=e.i)
            rec.close(ga[:, sl], np.asarray(r2["A"].data), "replayed-flags", "the flags of a global segment are not those the trained flow produces", at=e.i)
            rec.close(e.pos_out, np.asarray(last), "replayed-return", "a global segment returns other positions than the trained flow produces", rtol=2e-3, atol=2e-3, at=e.i)
            rec.ev("replayed-segments")
    order = ["local_stepper", "update_global_step", "model_trainer", "update_model", "global_stepper", "update_local_step"]
    on_event.cut = (1 if kind == "pt" else 0) + 3 * (len(order) + (1 if kind == "pt" else 0))
    from mon import bundles
    key = rec.key()
    k1, _ = jax.random.split(key)
    b = bundles.make_bundle(kind, k1, f, cfg)
    on_event.cut = b.strategy_order.index("update_state")
    first.append(arrays(b.resources["model"]))
    run = run_bundle(rec, kind, cfg, f, data, (rng.normal(size=(n, d)) + shift).astype(np.float32), watch=(), on_event=on_event, key=key)
    rec.check(eq(arrays(run.sampler.resources["global_sampler"].model), trained[-1]) and eq(arrays(run.sampler.resources["model"]), trained[-1]),
              "stale-flow", "after the run the exposed proposal does not hold the trained flow")
    rec.sample(kind=kind, cfg=cfg, trainings=len(trained), first_leaf_head=[t[0].reshape(-1)[:2] for t in trained])


def manual(rec, kind):
    """update_model copies whatever flow is in the resources, also after repeated or skipped training."""
    from mon.bundles import make_bundle
    from mon.flows import scramble, set_stats
    rng = rec.rng
    cfg = dict(n_chains=3, n_dims=2, n_local_steps=2, n_global_steps=2, n_training_loops=1, n_production_loops=1, n_epochs=1,
               rq_spline_hidden_units=[4], rq_spline_n_bins=3, rq_spline_n_layers=2)
    b = make_bundle(kind, rec.key(), lambda x, d: -0.5 * jnp.sum(x**2), cfg)
    res = b.resources
    x = jnp.zeros((3, 2))
    for i in range(6):
        res["model"] = scramble(res["model"], rng, 0.3)
        res["model"] = set_stats(res["model"], jnp.asarray(rng.normal(size=2), jnp.float32), jnp.asarray(np.diag(rng.uniform(0.5, 2, 2)), jnp.float32))
        want = arrays(res["model"])
        before = {k: freeze(v) for k, v in res.items() if k != "global_sampler"}
        _, res, _ = b.strategies["update_model"](rec.key(), res, x, {})
        rec.check(eq(arrays(res["global_sampler"].model), want), "update-incomplete", "update_model did not install the whole flow", round=i)
        rec.check(eq(arrays(res["model"]), want), "update-changes-model", "update_model changed the model")
        after = {k: freeze(v) for k, v in res.items() if k != "global_sampler"}
        rec.check(not changed(before, after), "update-changes-others", "update_model changed another resource", changed=changed(before, after))
        rec.ev("manual-update")
        rec.case("manual", kind, want[0].tobytes())


def scenarios(tier, seed):
    out = []
    for r in range(1 if tier == "quick" else 12):
        out += [Scn(f"plain-r{r}", one, x64=False, kind="plain", thin=1, cbs=0, bs=100, lr=1e-2, epochs=3),
                Scn(f"plain-thin-r{r}", one, x64=False, kind="plain", thin=4, cbs=2, bs=4, lr=3e-2, epochs=2),
                Scn(f"pt-r{r}", one, x64=False, kind="pt", thin=1, cbs=4, bs=4, lr=1e-2, epochs=2),
                Scn(f"manual-plain-r{r}", manual, x64=False, kind="plain"), Scn(f"manual-pt-r{r}", manual, x64=False, kind="pt")]
        if tier != "quick":
            out.append(Scn(f"pt-thin-r{r}", one, x64=False, kind="pt", thin=2, cbs=0, bs=7, lr=1e-2, epochs=4))
    return out
