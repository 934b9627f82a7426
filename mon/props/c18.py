"""C18 training changes only the trainable parameters of a flow."""
import numpy as np
import scipy.stats as st
import jax
import jax.numpy as jnp
import optax
import equinox as eqx
from mon.core import Scn
from mon.flows import make_flow, leaves
from mon.stubs import logging_optimizer
from mon.props.c13 import check_map
from mon.props.c14 import to_data

RULE = ("real flows of both kinds, with default, fixed and learnable base distributions, trained by several optimizers (gentle, divergent "
        "and with weight decay) over one or several trainings; a case is one training, distinct by flow and data, non-trivial if trainable "
        "parameters changed")
REQUIRED = ["trainings", "trainable-changed", "frozen-leaves", "data-moments", "still-bijective", "still-density", "weight-decay-trainings", "retrained", "static-fields", "range-arrays"]
ASSUMPTIONS = ["frozen parameters are the coupling masks, the data mean and covariance, and base distributions declared not learnable"]

OPTS = dict(adam=lambda: optax.adam(1e-2), sgd=lambda: optax.sgd(1e-2), momentum=lambda: optax.chain(optax.clip_by_global_norm(1.0), optax.sgd(5e-2, momentum=0.9)),
            bigadam=lambda: optax.adam(0.3), rms=lambda: optax.rmsprop(1e-2))


def statics(model):
    """Everything that is not an array, and the structure."""
    fl, td = jax.tree_util.tree_flatten_with_path(model)
    out = []
    for p, v in fl:
        s = "/".join(str(getattr(k, "name", getattr(k, "idx", k))) for k in p)
        if s.endswith("_data_cov"):  # 0-d and 1 x 1 are the same covariance
            out.append((s, "cov", v.size))
            continue
        out.append((s, ("array", v.shape, str(v.dtype)) if eqx.is_array(v) else v if isinstance(v, (int, float, bool, str)) else type(v).__name__))
    return out, str(td)


def frozen_kind(path, learnable):
    if "mask" in path:
        return "mask"
    if "_range_m" in path:
        return "range"
    if "_data_mean" in path or "_data_cov" in path:
        return "moments"
    if path.startswith("base_dist") and not learnable:
        return "base"
    return None


def one(rec, kind, opt, base, x64=True, rounds=2, arrays=False):
    from flowMC.resource.optimizer import Optimizer
    from flowMC.resource.model.common import Gaussian
    rng = rec.rng
    d = int(rng.integers(1, 5))
    lims = [(-10.0, 10.0), (-4.0, 3.0)][rng.integers(2)]
    # a range given as arrays is no more trainable than one given as numbers
    m = make_flow(rng, kind, d, scale=0.1, layers=int(rng.integers(1, 4)), bins=int(rng.integers(2, 6)), hidden=5,
                  spline=tuple(jnp.asarray(v) for v in lims) if arrays else lims, whiten=bool(rng.integers(2)))
    if base != "default":
        from mon.flows import random_cov
        m = eqx.tree_at(lambda q: q.base_dist, m, Gaussian(jnp.asarray(rng.normal(size=d)), jnp.asarray(random_cov(rng, d)), **({} if base == "plain" else {"learnable": base == "learnable"})))
    learn = base == "learnable"
    wd = opt == "resource"
    lr = 3e-3
    O = Optimizer(m, learning_rate=lr) if wd else None
    N, B = int(rng.integers(20, 60)), int(rng.integers(5, 40))
    cur, first = m, leaves(m)
    s0 = statics(m)
    bits = (m.n_features,)
    state = None
    tot = 0
    for r in range(rounds):
        data = rng.normal(size=(N, d)) * np.exp(rng.uniform(-1, 1, d)) + rng.normal(size=d) * 2
        if not x64:
            data = data.astype(np.float32)
        E = int(rng.integers(2, 7))
        lo = logging_optimizer(O.optim if wd else OPTS[opt](), (N // B + 1) * E + 2)
        if state is None or True:
            st0 = lo.init(eqx.filter(cur, eqx.is_inexact_array))
        _, new, state, losses = cur.train(rec.key(), jnp.asarray(data), lo, st0, E, B, verbose=False)
        c = int(state["count"])
        rec.ev("trainings")
        a, b = leaves(cur), leaves(new)
        ctx = dict(kind=kind, optimizer=opt, base=base, d=d, steps=c, round=r)
        rec.check(a.keys() == b.keys() and statics(new) == s0, "static-fields", "training changed the structure, the spline range or another fixed field of the flow",
                  diff=[(x, y) for x, y in zip(s0[0], statics(new)[0]) if x != y][:4], **ctx)
        rec.ev("static-fields", len(s0[0]))
        rec.check(new.n_features == bits[0], "static-fields", "training changed the dimension")
        if c == 0:
            rec.check(all(np.array_equal(a[k], b[k]) for k in a), "none-trained", "no step was kept but the flow changed", **ctx)
            continue
        if any(not np.array_equal(a[k], b[k]) for k in a if frozen_kind(k, learn) is None):
            rec.ev("trainable-changed")
        shrink = (1 - lr * 1e-4) ** c if wd else 1.0
        tot += c
        mu, cov = data.mean(0), np.cov(data.T)
        for k in a:
            fk = frozen_kind(k, learn)
            if fk is None:
                continue
            rec.ev("frozen-leaves")
            if fk == "range":
                rec.ev("range-arrays")
            want = a[k] if fk != "moments" else (mu if "_data_mean" in k else cov)
            got = b[k]
            rel = 1e-10 if x64 else 1e-4
            if fk == "moments":
                rec.ev("data-moments")
                got, want = np.ravel(got), np.ravel(want)
                ok = got.shape == want.shape and np.allclose(got, want, rtol=rel, atol=rel)
            else:
                ok = got.dtype == want.dtype and np.array_equal(got, want)
            if not ok and wd and fk != "mask" and got.shape == np.shape(want) and \
                    np.allclose(got, np.asarray(want) * shrink, rtol=1e-10 if x64 else 1e-4, atol=1e-10 if x64 else 1e-4):
                # weight decay of the Optimizer resource multiplies every floating-point leaf, frozen or not
                rec.check(False, "weight-decay-shrinks-frozen", "weight decay shrinks a frozen parameter of the flow", leaf=k, factor=shrink)
                continue
            rec.check(ok, "frozen-changed", "training changed a frozen parameter", leaf=k, before=want, after=got, **ctx)
        if wd:
            rec.ev("weight-decay-trainings")
        # the object trained from is unchanged
        rec.check(all(np.array_equal(a[k], v) for k, v in leaves(cur).items()), "original-changed", "training changed the model it was called on")
        rec.case(kind, opt, base, data.tobytes(), nontrivial=True)
        if r:
            rec.ev("retrained")
        cur = new
    if x64:
        fin = all(np.isfinite(v).all() for v in leaves(cur).values())
        rec.check(fin, "finite-after-training", "training left non-finite parameters in the returned flow", kind=kind, optimizer=opt)
        if fin:
            xs = np.concatenate([rng.normal(size=(20, d)), rng.normal(size=(20, d)) * 6])
            check_map(rec, cur.forward, cur.inverse, xs, "trained-" + kind, True, ctx=dict(optimizer=opt, base=base))
            rec.ev("still-bijective", len(xs))
            T, mean, std = to_data(cur)
            bm, bc = np.asarray(cur.base_dist.mean), np.asarray(cur.base_dist.cov)
            if np.linalg.eigvalsh(bc).min() > 1e-6:
                z = rng.multivariate_normal(bm, bc, 30)
                x = np.asarray(jax.vmap(T)(jnp.asarray(z)))
                J = np.asarray(jax.vmap(jax.jacfwd(T))(jnp.asarray(z)))
                want = np.asarray(st.multivariate_normal(bm, bc).logpdf(z)).reshape(-1) - np.linalg.slogdet(J)[1]
                got = np.asarray(jax.vmap(cur.log_prob)(jnp.asarray(x)))
                rec.close(got, want, "density-after-training", "after training the log-density is not the density of the flow's samples", rtol=1e-5, atol=1e-5, kind=kind, optimizer=opt)
                rec.ev("still-density", len(x))
    rec.sample(kind=kind, optimizer=opt, base=base, steps=tot, losses=losses)


def strategy(rec, kind):
    """Through the training strategy with the Optimizer resource, repeatedly."""
    from flowMC.resource.optimizer import Optimizer
    from flowMC.strategy.train_model import TrainModel
    from flowMC.resource.buffers import Buffer
    rng = rec.rng
    n, S, d = 4, 12, 3
    m = make_flow(rng, kind, d, scale=0.0, layers=3, bins=4, hidden=4, whiten=False)
    pos = rng.normal(size=(n, S, d)).astype(np.float32)
    b = Buffer("positions", (n, S, d), 1)
    b.update_buffer(jnp.asarray(pos), 0)
    lr = 1e-2
    res = {"model": m, "positions": b, "opt": Optimizer(m, learning_rate=lr)}
    tr = TrainModel("model", "positions", "opt", n_epochs=5, batch_size=20, n_max_examples=60, history_window=100, verbose=False)
    before, s0 = leaves(m), statics(m)
    key = rec.key()
    for r in range(4):
        key, res, _ = tr(key, res, jnp.zeros((n, d)), {})
        a = leaves(res["model"])
        rec.check(statics(res["model"]) == s0, "static-fields", "training changed a fixed field of the flow")
        for k in a:
            fk = frozen_kind(k, False)
            if fk == "mask":
                rec.check(np.array_equal(a[k], before[k]) and a[k].dtype == before[k].dtype, "frozen-changed", "training changed a coupling mask", leaf=k, before=before[k], after=a[k])
                rec.ev("frozen-leaves")
            if fk == "base":
                # at most the decay of all steps so far
                f = (1 - lr * 1e-4) ** (15 * (r + 1))
                dev = np.abs(a[k] - before[k])
                if dev.max() > 0:
                    if (dev <= (1 - f) * np.abs(before[k]) * 1.1 + 1e-6).all() and (np.abs(a[k]) <= np.abs(before[k])).all():
                        rec.check(False, "weight-decay-shrinks-frozen", "weight decay shrinks a frozen parameter of the flow", leaf=k)
                    else:
                        rec.check(False, "frozen-changed", "training changed a frozen parameter", leaf=k, before=before[k], after=a[k])
        rec.ev("trainings")
        rec.ev("weight-decay-trainings")
        rec.case("strategy", kind, r, a[sorted(a)[0]].tobytes())


def scenarios(tier, seed):
    out = []
    bases = ("default", "fixed", "learnable")
    for r in range(1 if tier == "quick" else 10):
        for i, kind in enumerate(("realnvp", "rqspline")):
            for j, o in enumerate(("adam", "sgd", "momentum", "bigadam", "rms", "resource")):
                if tier == "quick" and o in ("sgd", "rms") and (i + j) % 2 == 0:
                    continue
                out.append(Scn(f"{kind}-{o}-{bases[(i + j + r + 1) % 3]}-r{r}", one, kind=kind, opt=o, base=bases[(i + j + r + 1) % 3]))
            if kind == "rqspline":
                out += [Scn(f"{kind}-{o}-range-arrays-r{r}", one, kind=kind, opt=o, base="default", arrays=True) for o in ("bigadam", "momentum")]
            out.append(Scn(f"{kind}-adam-plain-r{r}", one, kind=kind, opt="adam", base="plain"))
            out.append(Scn(f"{kind}-resource-fixed-f32-r{r}", one, x64=False, kind=kind, opt="resource", base="fixed"))
            out.append(Scn(f"{kind}-strategy-r{r}", strategy, x64=False, kind=kind))
    seen, res = set(), []
    for s in out:
        if s.name not in seen:
            seen.add(s.name)
            if s.fn is one:
                s.params["x64"] = s.x64
            res.append(s)
    return res
