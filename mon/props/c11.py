"""C11 bundles fill their records completely and freeze adaptation in production."""
import numpy as np
import jax.numpy as jnp
from mon.core import Scn
from mon.bundles import run_bundle, freeze, same, changed

RULE = ("bundle runs over random configurations (loops, step counts, thinning that divides them or not, chain batches, tempering), all "
        "resources snapshotted before and after every strategy; a case is one strategy call or record, distinct by configuration and index")
REQUIRED = ["strategy:local_stepper", "strategy:global_stepper", "strategy:model_trainer", "strategy:parallel_tempering", "records-complete",
            "segments", "segment-flags", "production-snapshots", "thinned-runs", "non-dividing", "edges"]
ASSUMPTIONS = ["segments are recognised by the strategies' registered names local_stepper and global_stepper"]


def config(rng, kind, tier):
    c = dict(n_chains=int(rng.integers(2, 6)), n_dims=int(rng.integers(2, 4)), n_local_steps=int(rng.integers(1, 8)), n_global_steps=int(rng.integers(1, 8)),
             n_training_loops=int(rng.integers(1, 4)), n_production_loops=int(rng.integers(1, 4)), n_epochs=int(rng.integers(1, 4)),
             rq_spline_hidden_units=[4], rq_spline_n_bins=3, rq_spline_n_layers=2, batch_size=int(rng.integers(5, 30)),
             n_max_examples=int(rng.integers(10, 40)), mala_step_size=float(rng.uniform(0.05, 1.0)), learning_rate=float(10.0 ** rng.uniform(-3, -1.5)),
             local_thinning=int(rng.integers(1, 5)), global_thinning=int(rng.integers(1, 5)), chain_batch_size=int(rng.integers(0, 4)),
             n_NFproposal_batch_size=int(rng.integers(1, 12)))
    if kind == "pt":
        c.update(n_temperatures=int(rng.integers(2, 5)), max_temperature=float(rng.uniform(2, 8)), n_tempered_steps=int(rng.choice([-1, 1, 3])),
                 history_window=int(rng.integers(2, 100)))
    return c


EDGES = [dict(n_training_loops=0), dict(n_production_loops=0, n_training_loops=2), dict(local_thinning=9, n_local_steps=4), dict(global_thinning=11, n_global_steps=3, n_training_loops=2),
         dict(chain_batch_size=1), dict(chain_batch_size=50), dict(n_dims=1, rq_spline_n_layers=3), dict(n_chains=1, chain_batch_size=1), dict(n_epochs=0), dict(batch_size=1, n_max_examples=5),
         dict(rq_spline_n_bins=1, rq_spline_n_layers=1), dict(n_NFproposal_batch_size=1), dict(n_NFproposal_batch_size=500, n_global_steps=1), dict(n_max_examples=2), dict(batch_size=10**6),
         dict(n_chains=1, n_dims=1, n_local_steps=1, n_global_steps=1, n_training_loops=1, n_production_loops=1), dict(n_local_steps=1, local_thinning=2, global_thinning=1)]


def edges(rec, kind, part, parts):
    """One setting at a time (or a few) at the end of its range."""
    for i, e in enumerate(EDGES):
        if i % parts == part and (rec.tier != "quick" or (i // parts + rec.seed) % 2 == (kind == "pt")):  # quick: each with one of the bundles
            one(rec, kind, 0, "edge", e)
            rec.ev("edges")
    if kind == "pt":
        one(rec, kind, 0, "edge", [dict(history_window=1), dict(n_temperatures=1), dict(n_temperatures=2, n_tempered_steps=1)][part % 3])


def one(rec, kind, v, variant, over=()):
    rng = rec.rng
    cfg = config(rng, kind, rec.tier)
    cfg.update(over)
    if variant == "divides":
        cfg.update(local_thinning=2, global_thinning=3, n_local_steps=6, n_global_steps=6)
    elif variant == "rest":
        cfg.update(local_thinning=3, global_thinning=2, n_local_steps=7, n_global_steps=5, n_training_loops=2, n_production_loops=2)
    elif variant == "uneven":
        cfg.update(local_thinning=1, global_thinning=4, n_local_steps=2, n_global_steps=3, n_training_loops=3, n_production_loops=1)
    elif variant == "long":
        cfg.update(n_chains=30, n_training_loops=9, n_production_loops=11, n_epochs=1, chain_batch_size=[0, 16][v % 2], n_local_steps=12, n_global_steps=8, local_thinning=5)
    elif variant == "longprod":
        cfg.update(n_training_loops=1, n_production_loops=4)
    if cfg["local_thinning"] > 1 or cfg["global_thinning"] > 1:
        rec.ev("thinned-runs")
    if cfg["n_local_steps"] % cfg["local_thinning"] or cfg["n_global_steps"] % cfg["global_thinning"]:
        rec.ev("non-dividing")
    n, d = cfg["n_chains"], cfg["n_dims"]
    scale = np.exp(rng.uniform(-1, 1, d)).astype(np.float32)
    data = {"s": scale}
    f = lambda x, dd: -0.5 * jnp.sum((x / dd["s"]) ** 2)  # noqa: E731
    x0 = (rng.normal(size=(n, d)) * scale).astype(np.float32)
    run = run_bundle(rec, kind, cfg, f, data, x0)
    nl, ng = -(-cfg["n_local_steps"] // cfg["local_thinning"]), -(-cfg["n_global_steps"] // cfg["global_thinning"])
    res = run.sampler.resources
    ctx = dict(kind=kind, cfg=cfg)
    for ph, loops in (("training", cfg["n_training_loops"]), ("production", cfg["n_production_loops"])):
        total = loops * (nl + ng)
        P, L = np.asarray(res["positions_" + ph].data), np.asarray(res["log_prob_" + ph].data)
        LA, GA = np.asarray(res[f"local_accs_{ph}"].data), np.asarray(res[f"global_accs_{ph}"].data)
        rec.check(P.shape == (n, total, d) and L.shape == (n, total) and LA.shape == (n, total) and GA.shape == (n, total), "record-shape",
                  "a record does not have one slot per recorded sample", phase=ph, shapes=[P.shape, L.shape, LA.shape, GA.shape], want=total, **ctx)
        rec.check(np.isfinite(P).all() and np.isfinite(L).all(), "unfilled", "a position or log-density slot was never written", phase=ph,
                  unfilled=int((~np.isfinite(P).all(-1)).sum() + (~np.isfinite(L)).sum()), **ctx)
        rec.ev("records-complete")
        # segments in order of sampling
        pos = 0
        for e in run.events:
            if e.name not in ("local_stepper", "global_stepper"):
                continue
            here = e.before["sampler_state"][2]["target_positions"] == "positions_" + ph
            if not here:
                continue
            k = nl if e.name == "local_stepper" else ng
            sl = slice(pos, pos + k)
            pos += k
            rec.ev("segments")
            rec.case(kind, str(sorted(cfg.items(), key=str)), e.i)
            ch = set(changed(e.before, e.after))
            acc = ("local_accs_" if e.name == "local_stepper" else "global_accs_") + ph
            want = {"positions_" + ph, "log_prob_" + ph, acc}
            rec.check(ch == want, "segment-writes", "a segment wrote other records than those of its phase and kind", strategy=e.name, wrote=sorted(ch), want=sorted(want), **ctx)
            for nm in want:
                b, a = e.before[nm][2], e.after[nm][2]
                diff = ~((b == a) | (np.isnan(b) & np.isnan(a)))
                while diff.ndim > 2:
                    diff = diff.any(-1)
                out = diff.copy()
                out[:, sl] = False
                rec.check(not out.any(), "segment-slots", "a segment wrote outside its slots", record=nm, slots=[sl.start, sl.stop],
                          wrote=sorted(set(np.argwhere(diff)[:, 1].tolist())), **ctx)
                rec.check(np.isfinite(a[:, sl]).all(), "segment-incomplete", "a segment left one of its slots unwritten", record=nm, slots=[sl.start, sl.stop], **ctx)
            last = e.after["positions_" + ph][2][:, sl.stop - 1]
            rec.same(e.pos_out, last, "segment-return", "the positions a segment returns are not its last recorded ones", strategy=e.name)
        rec.check(pos == total, "segments-number", "the segments do not add up to the record", phase=ph, got=pos, want=total, **ctx)
        # flags of each kind only at the slots of that kind
        t = 0
        for _ in range(loops):
            for nm, k, A, O in (("local", nl, LA, GA), ("global", ng, GA, LA)):
                seg = A[:, t:t + k]
                oth = O[:, t:t + k]
                rec.check(np.isin(seg, (0.0, 1.0)).all(), "flags-missing", "acceptance flags of a segment are not in its record", segment=nm, phase=ph,
                          flags=seg[:2], **ctx)
                rec.check(np.isneginf(oth).all(), "flags-elsewhere", "acceptance flags were written at slots of the other kind", segment=nm, phase=ph, **ctx)
                rec.ev("segment-flags")
                t += k
        rec.check(np.isneginf(LA).sum() == n * loops * ng and np.isneginf(GA).sum() == n * loops * nl, "flags-number", "number of unwritten flag slots", **ctx)
    # order of sampling: each segment starts where the one before ended (position continuity)
    for a, b in zip(run.events[:-1], run.events[1:]):
        rec.same(b.pos_in, a.pos_out, "continuity", "a strategy does not start from where the one before ended", at=b.i, names=[a.name, b.name])
    # production freeze
    names = [e.name for e in run.events]
    cut = names.index("update_state")
    frozen0 = run.events[cut].before
    keep = [k for k in frozen0 if k.endswith("_training") or k in ("model", "optimizer", "loss_buffer", "temperatures", "global_sampler", "local_sampler")]
    last_train = max([e.i for e in run.events[:cut] if e.name in ("global_stepper", "model_trainer", "local_stepper", "parallel_tempering")], default=None)
    for nm in keep if last_train is not None else ():
        ok = same(run.events[last_train].after[nm], frozen0[nm])
        rec.check(ok, "frozen-transition", "a resource changed between the end of training and production", resource=nm, **ctx)
    for e in run.events[cut:]:
        for nm in keep:
            rec.check(same(e.after[nm], frozen0[nm]), "frozen", "a resource was adapted in production", resource=nm, strategy=e.name, at=e.i, **ctx)
        rec.ev("production-snapshots", len(keep))
        rec.case(kind, "prod", str(sorted(cfg.items(), key=str)), e.i)
    for nm in keep:
        rec.check(same(freeze(res[nm]), frozen0[nm]), "frozen", "a resource exposed after the run differs from the end of training", resource=nm, **ctx)
    loss = np.asarray(res["loss_buffer"].data)
    rec.check(loss.shape == (cfg["n_training_loops"] * cfg["n_epochs"],) and not np.isneginf(loss).any() and (variant == "edge" or np.isfinite(loss).all()), "loss-record", "the loss record is not complete", loss=loss, **ctx)
    st = res["sampler_state"].data
    rec.check(st["training"] is False, "state", "the state still says training after production", state=dict(st))
    rec.sample(kind=kind, cfg=cfg, order=names[:10], slots=[nl, ng])


def scenarios(tier, seed):
    out = []
    for r in range(1 if tier == "quick" else 12):
        for kind in ("plain", "pt"):
            for v in ("rest", "uneven", "longprod", "random", "long") + (() if tier == "quick" else ("divides", "random2")):
                out.append(Scn(f"{kind}-{v}-r{r}", one, x64=False, kind=kind, v=r, variant=v))
            for i in range(4):
                out.append(Scn(f"edges-{kind}-{i}-r{r}", edges, x64=False, kind=kind, part=i, parts=4))
    return out
