"""C06 records: log-density and flags against the recorded positions."""
import numpy as np
import jax
import jax.numpy as jnp
from mon.core import Scn
from mon import targets as T
from mon.flows import make_flow
from mon.steps import Steps, make_kernel

RULE = ("segments of serial and group steps with every kernel, data pytrees (dict, nested, None, tuple, keys that collide with "
        "internal names), thinning and batching; a case is one recorded slot, distinct by position, all non-trivial")
REQUIRED = ["slots", "flags", "flag0", "flag1", "thinned-twins", "kernel-inputs", "elsewhere-starts", "bundle-slots"]
ASSUMPTIONS = ["the user's target re-evaluated by the harness is the reference"]

DATAS = ["dict", "collide", "nested", "none", "tuple", "empty", "types"]
TYPES = ["bool", "int8", "uint8", "int32", "int64", "float16", "float32", "float64"]


def data_of(kind, rng, d):
    a, b = rng.normal(size=d), float(rng.uniform(0.5, 2))
    if kind == "dict":
        return {"a": a, "b": np.float64(b)}
    if kind == "collide":
        return {"n_steps": np.float64(b), "a": a, "model": np.float64(1.5), "data": np.arange(3.0)}
    if kind == "nested":
        return {"x": [a, {"y": (np.float64(b), a * 2)}]}
    if kind == "types":  # an integer that only 64 bits hold, small and empty arrays of several types
        return {"i": np.int64(2**53 + 1 + 2 * rng.integers(5)), "b": rng.random(3) < 0.5, "u": rng.integers(0, 255, (2, 2)).astype(np.uint8), "e": np.zeros((0, 2), np.float32),
                "h": np.float16(b), "z": [np.bool_(True), None, np.int32(-7)]}
    if kind == "tuple":
        return (a, np.float64(b))
    if kind == "empty":
        return {}
    return None


def target(x, data):
    """Depends on every leaf of the data, their number and order."""
    ls = jax.tree_util.tree_leaves(data)
    v = -0.5 * jnp.sum(x**2) * (1 + 0.1 * len(ls))
    for i, l in enumerate(ls):
        l = jnp.asarray(l)
        if str(l.dtype) in TYPES[:6]:
            v = v + 0.02 * TYPES.index(str(l.dtype)) * (i + 1)
        if jnp.issubdtype(l.dtype, jnp.integer):
            l = l % 7
        l = jnp.asarray(l, x.dtype)
        if not l.size:
            v = v + 0.3 * l.ndim
            continue
        v = v + (i + 1) * 0.1 * jnp.sum(jnp.cos(l.reshape(-1)[:1] * x + i)) + 0.05 * jnp.sum(jnp.sin(l))
    return v


def segment(rec, kname, dkind, x64, reps, big=False):
    rng = rec.rng
    for _ in range(reps):
        d = int(rng.integers(1, 4))
        n = int(rng.integers(1, 7)) if rng.random() < 0.6 else int(rng.integers(8, 30))
        ns = 1 if rng.random() < 0.25 else int(rng.integers(2, 25))
        th = int(rng.integers(2, 6))
        cbs = int(rng.choice([0, 2, 3]))
        if big:
            n, ns, th, cbs = int(rng.integers(130, 200)), int(rng.integers(150, 500)), int(rng.integers(2, 90)), int(rng.choice([0, 64, 100]))
        data = data_of(dkind, rng, d)
        model = make_flow(rng, "realnvp", d, scale=0.2, whiten=False) if kname == "NF" else None
        kern = make_kernel(kname, rng, d, step=float(rng.uniform(0.3, 1.5)), model=model, batch=int(rng.integers(1, 30)))
        xs = rng.normal(size=(n, d))
        if not x64:
            xs = xs.astype(np.float32)
        key = rec.key()
        runs = {}
        for t in (1, th):
            st = Steps(kern, target, d, ns, group=kname == "NF", thinning=t, chain_batch_size=cbs)
            P, L, A, last, _ = runs[t] = st(key, xs, data)
            want = np.asarray(jax.jit(jax.vmap(target, in_axes=(0, None)))(jnp.asarray(P.reshape(-1, d)), data)).reshape(L.shape)
            tol = 1e-10 if x64 else 3e-5
            rec.close(L, want, "recorded-logp", "recorded log-density is not the target at the recorded position", rtol=tol, atol=tol,
                      kernel=kname, data=dkind, thinning=t, batch=cbs, n_steps=ns)
            rec.check(np.isin(A, (0.0, 1.0)).all(), "flag-values", "acceptance flags are not 0/1", values=np.unique(A)[:10])
            rec.ev("slots", L.size)
            rec.distinct_rows(P.reshape(-1, d), kname + dkind)
        P, L, A, last, _ = runs[1]
        prev = np.concatenate([xs[:, None], P[:, :-1]], 1)
        moved = (P != prev).any(-1)
        bad = moved != (A == 1)
        if x64 or kname == "NF":
            i = np.argwhere(bad)
            rec.check(not bad.any(), "flag-move", "acceptance flag does not match the move", kernel=kname, at=i[0] if len(i) else None,
                      prev=prev[tuple(i[0])] if len(i) else None, pos=P[tuple(i[0])] if len(i) else None, flag=A[tuple(i[0])] if len(i) else None)
        else:  # float32: an accepted move may round to no move, never the reverse
            rec.check(not (moved & (A != 1)).any(), "flag-move", "a move without acceptance flag", kernel=kname)
        rec.ev("flags", A.size)
        rec.ev("flag0", int((A == 0).sum()))
        rec.ev("flag1", int((A == 1).sum()))
        tol = 1e-9 if x64 else 1e-4
        for q in range(3):
            rec.close(runs[th][q], runs[1][q][:, ::th], "thinned-record", "the thinned record is not every thinning-th state of the unthinned run",
                      rtol=tol, atol=tol, kernel=kname, n_steps=ns, thinning=th)
        rec.ev("thinned-twins")
    rec.sample(kernel=kname, data=dkind, n_steps=ns, thinning=th, batch=cbs, positions=P[0][:3], logp=L[0][:3], flags=A[0][:3])


def inputs(rec, group, dkind):
    """A kernel that moves to what it was given: every step starts from its own position's log-density."""
    from mon.pt import Hold
    rng = rec.rng

    class Report(Hold):
        def kernel(self, rng_key, position, log_prob, logpdf, data):
            if not group:
                p = jnp.stack([jnp.reshape(log_prob, ()), jnp.tanh(position[0] + 0.3 * position[1]), position[2] + 1.0])
                return p, logpdf(p, data), jnp.ones((), bool)
            n = data["n_steps"]
            i = jnp.arange(n)
            p = jnp.stack([jnp.full(n, jnp.reshape(log_prob, ())), position[0] + i, position[2] + i], 1)
            return p, jax.vmap(logpdf, in_axes=(0, None))(p, data), jnp.ones(n, bool)
    for rep in range(4):
        n, ns, th, cbs = int(rng.integers(1, 8)), int(rng.integers(1, 12)), int(rng.integers(1, 4)), int(rng.choice([0, 2, 3]))
        data = data_of(dkind, rng, 3)
        K = -(-ns // th)
        calls = 1 + rep % 3  # later segments of a stepper start where the caller says, not where the last one ended
        st = Steps(Report(), target, 3, ns, group=group, thinning=th, chain_batch_size=cbs, cap=K * calls)
        f = jax.jit(jax.vmap(target, in_axes=(0, None)))
        res = st.resources(n)
        st.strategy.set_current_position(0)
        for c in range(calls):
            x = xs = rng.normal(size=(n, 3)) if c != 2 else np.asarray(last)
            want = []
            for k in range(ns):
                if group:
                    want.append(np.stack([np.asarray(f(xs, data)), xs[:, 0] + k, xs[:, 2] + k], 1))
                else:
                    x = np.stack([np.asarray(f(x, data)), np.tanh(x[:, 0] + 0.3 * x[:, 1]), x[:, 2] + 1], 1)
                    want.append(x)
            want = np.stack(want, 1)[:, ::th]
            _, res, last = st.strategy(rec.key(), res, jnp.asarray(xs), data)
            P, L = (np.asarray(res[q].data)[:, c * K:(c + 1) * K] for q in ("positions", "log_probs"))
            rec.close(P, want, "kernel-inputs", "a step was not given its own position, log-density, target or data", rtol=1e-9, atol=1e-9, group=group, data=dkind, n_steps=ns, thinning=th, batch=cbs, call=c)
            rec.close(L, np.asarray(f(want.reshape(-1, 3), data)).reshape(L.shape), "recorded-logp", "recorded log-density is not the target at the recorded position", rtol=1e-9, atol=1e-9)
            rec.ev("kernel-inputs", n * ns)
            rec.ev("elsewhere-starts", c == 1)
            rec.distinct_rows(P.reshape(-1, 3), "in")


def bundle(rec, kind, cfg):
    from mon.bundles import run_bundle
    rng = rec.rng
    d = cfg["n_dims"]
    data = {"n_steps": np.float32(0.7), "a": rng.normal(size=d).astype(np.float32)}
    run = run_bundle(rec, kind, cfg, target, data, rng.normal(size=(cfg["n_chains"], d)).astype(np.float32), watch=())
    res = run.sampler.resources
    for ph in ("training", "production"):
        P = np.asarray(res["positions_" + ph].data)
        L = np.asarray(res["log_prob_" + ph].data)
        want = np.asarray(jax.jit(jax.vmap(target, in_axes=(0, None)))(jnp.asarray(P.reshape(-1, d)), data)).reshape(L.shape)
        rec.close(L, want, "recorded-logp", "recorded log-density is not the target at the recorded position", rtol=1e-4, atol=1e-4,
                  bundle=kind, phase=ph, cfg=cfg)
        rec.ev("bundle-slots", L.size)
        rec.distinct_rows(P.reshape(-1, d), ph)


def scenarios(tier, seed):
    out = []
    for r in range(1 if tier == "quick" else 12):
        for i, k in enumerate(("MALA", "HMC", "GRW", "NF")):
            kinds = DATAS if k != "NF" else ["dict", "collide", "nested", "none", "empty", "types"]
            for j, dk in enumerate(kinds):
                if tier == "quick" and k != "NF" and (i + j) % 2:
                    continue
                out.append(Scn(f"segment-{k}-{dk}-r{r}", segment, x64=(j + r) % 3 != 2 or dk == "types", kname=k, dkind=dk, reps=2))
        for k in (("GRW",) if tier == "quick" else ("GRW", "MALA", "NF")):
            out.append(Scn(f"large-{k}-r{r}", segment, kname=k, dkind="dict", reps=1, big=True))
        for g in (False, True):
            for dk in (("dict", "none", "types") if tier == "quick" else ("dict", "collide", "nested", "none", "empty", "types")):
                out.append(Scn(f"inputs-{g}-{dk}-r{r}", inputs, group=g, dkind=dk))
        base = dict(n_chains=5, n_dims=2, n_local_steps=5, n_global_steps=4, n_training_loops=2, n_production_loops=2, n_epochs=2,
                    rq_spline_hidden_units=[4], rq_spline_n_bins=3, rq_spline_n_layers=2, batch_size=20, n_max_examples=40)
        out.append(Scn(f"bundle-plain-r{r}", bundle, x64=False, kind="plain", cfg=dict(base, local_thinning=2, global_thinning=1, chain_batch_size=2)))
        out.append(Scn(f"bundle-pt-r{r}", bundle, x64=False, kind="pt", cfg=dict(base, n_temperatures=3, global_thinning=3, n_NFproposal_batch_size=3)))
    for s in out:
        if "x64" not in s.params and s.fn is segment:
            s.params["x64"] = s.x64
    return out
