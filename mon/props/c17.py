"""C17 the flow is trained on recent recorded samples only."""
import numpy as np
import jax
import jax.numpy as jnp
import optax
import equinox as eqx
from mon.core import Scn
from mon.stubs import StubNF
from mon.flows import make_flow

RULE = ("a stub flow that records what its training is given, under buffers filled to every degree, windows and example numbers below, at "
        "and above what is there; a case is one example passed to training, distinct by its slot")
REQUIRED = ["trainings", "examples", "partly-filled", "window-cuts", "window-exceeds", "fewer-examples-than-eligible", "uniform-tests", "special:repeats", "special:far", "special:zeros", "loss-appends", "real-trainings", "bundle-trainings"]
ASSUMPTIONS = ["the records of all chains are filled to the same slot, as step strategies fill them"]


class Spy(StubNF):
    tag: int = eqx.field(static=True)
    log: object = eqx.field(static=True)

    def __init__(self, log, tag=0):
        super().__init__(np.zeros(1), [0.0])
        self.log, self.tag = log, tag

    def train(self, rng, data, optim, state, num_epochs, batch_size, verbose=True):
        self.log.append(dict(model=self, rng=np.asarray(rng), data=np.asarray(data), optim=optim, state=state, num_epochs=num_epochs, batch_size=batch_size))
        k = len(self.log)
        losses = jnp.arange(num_epochs) + 100.0 * k
        return jax.random.split(rng)[0], Spy(self.log, self.tag + 1), ("state", k), losses


class Log(list):
    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def fill(rng, n, S, d, k):
    """k recorded slots; every value identifies its slot."""
    from flowMC.resource.buffers import Buffer
    b = Buffer("positions", (n, S, d), 1)
    v = np.arange(n * S * d, dtype=float).reshape(n, S, d) + 0.5
    v = v[..., :] * rng.choice([1.0, -1.0])
    if k:
        b.update_buffer(jnp.asarray(v[:, :k]), start=0)
    return b, v


def trainer(n_epochs, batch, nmax, window, loss="losses"):
    from flowMC.strategy.train_model import TrainModel
    return TrainModel("model", "positions", "opt", loss_buffer_name=loss, n_epochs=n_epochs, batch_size=batch, n_max_examples=nmax, history_window=window, verbose=False)


def optimizer():
    from flowMC.resource.optimizer import Optimizer
    return Optimizer(StubNF(np.zeros(1), [0.0]))


def selection(rec, reps, big=False):
    from flowMC.resource.buffers import Buffer
    rng = rec.rng
    for _ in range(reps):
        n, S, d = int(rng.integers(1, 6)), int(rng.integers(2, 30)), int(rng.integers(1, 4))
        k = int(rng.choice([1, S, rng.integers(1, S + 1)]))
        W = int(rng.choice([1, k, max(1, k - 1), k + 1, S, 100, rng.integers(1, S + 2)]))
        nmax = int(rng.choice([1, 7, n * min(W, k), n * min(W, k) + 5, 60]))
        if big:
            n, S = int(rng.integers(60, 130)), int(rng.integers(150, 400))
            k = int(rng.integers(100, S + 1))
            W = int(rng.choice([k // 3, 100, k + 5]))
            nmax = int(rng.choice([10000, 30000, 4097]))
        E, calls = int(rng.integers(1, 5)), int(rng.integers(1, 4))
        buf, v = fill(rng, n, S, d, k)
        log = Log()
        lb = Buffer("losses", (E * calls + int(rng.integers(0, 4)),), 0)
        with_loss = bool(rng.integers(4))
        opt = optimizer()
        other = Buffer("other", (3,), 0)
        res = {"model": Spy(log), "positions": buf, "opt": opt, "losses": lb, "other": other}
        tr = trainer(E, 5, nmax, W, "losses" if with_loss else "")
        if k < S:
            rec.ev("partly-filled")
        rec.ev("window-cuts" if W < k else "window-exceeds")
        if nmax < n * min(W, k):
            rec.ev("fewer-examples-than-eligible")
        elig = {r.tobytes(): (i, j) for i in range(n) for j, r in [(j, np.asarray(v[i, j])) for j in range(max(0, k - W), k)]}
        key = rec.key()
        x0 = jnp.zeros((n, d))
        for c in range(calls):
            before_state = res["opt"].optim_state
            key2, res, pos = tr(key, res, x0, {"u": 1})
            call = log[-1] if log else None
            if not rec.check(len(log) == c + 1, "train-calls", "a training strategy did not train the flow exactly once", calls=len(log)):
                return
            ctx = dict(n=n, slots=S, filled=k, window=W, nmax=nmax)
            D = call["data"]
            rec.check(D.shape == (nmax, d), "examples-number", "the flow is not given the configured number of examples", got=D.shape, want=(nmax, d), **ctx)
            bad = [r for r in D if np.ascontiguousarray(r).tobytes() not in elig]
            rec.check(not bad, "examples-eligible", "an example is not a recent recorded sample", example=bad[:2], **ctx)
            rec.ev("examples", len(D))
            rec.cases += len(D)
            rec.distinct.update("%d/%d/%d/%d/%s" % (n, S, k, W, elig.get(np.ascontiguousarray(r).tobytes())) for r in D)
            rec.check(call["model"].tag == c, "model-chained", "training does not start from the last trained flow", tag=call["model"].tag, call=c)
            rec.check(call["optim"] is opt.optim and call["state"] is before_state, "optimizer-chained", "training does not use the optimizer and its last state", call=c)
            rec.check(call["num_epochs"] == E and call["batch_size"] == 5, "configuration", "training does not use the configured epochs and batch size")
            rec.check(res["model"].tag == c + 1, "model-replaced", "the trained flow does not replace the previous one")
            rec.check(res["opt"].optim_state == ("state", c + 1), "state-replaced", "the trained optimizer state does not replace the previous one")
            want = np.full(lb.data.shape, -np.inf)
            if with_loss:
                for q in range(c + 1):
                    want[q * E:(q + 1) * E] = np.arange(E) + 100.0 * (q + 1)
            rec.close(np.asarray(res["losses"].data), want, "loss-record", "losses are not appended after those already there", **ctx)
            rec.ev("loss-appends", int(with_loss))
            rec.same(np.asarray(pos), np.asarray(x0), "positions", "training changed the chain positions")
            rec.same(np.asarray(res["positions"].data)[:, :k], v[:, :k], "buffer-modified", "training changed the record")
            rec.check(np.isneginf(np.asarray(res["other"].data)).all(), "other-modified", "training changed another resource")
            rec.check(not np.array_equal(np.asarray(key2), np.asarray(key)) and not np.array_equal(np.asarray(key2), call["rng"]) and
                      not np.array_equal(call["rng"], np.asarray(key)), "key", "training passes on a key it was given or used")
            key = key2
            rec.ev("trainings")
    rec.sample(n_chains=n, slots=S, filled=k, window=W, examples=nmax, chosen=[elig.get(np.ascontiguousarray(r).tobytes()) for r in D[:6]])


def uniform(rec, n, S, k, W, nmax, reps):
    rng = rec.rng
    buf, v = fill(rng, n, S, 2, k)
    m = min(W, k)
    cnt = np.zeros((n, m))
    log = Log()
    tr = trainer(1, 5, nmax, W, "")
    ident = {np.ascontiguousarray(v[i, k - m + j]).tobytes(): (i, j) for i in range(n) for j in range(m)}
    sets = set()
    res = {"model": Spy(log), "positions": buf, "opt": optimizer()}
    key = rec.key()
    firsts = []
    for _ in range(reps):
        log.clear()
        key, res, _ = tr(key, res, jnp.zeros((n, 2)), {})
        ids = [ident.get(np.ascontiguousarray(r).tobytes()) for r in log[-1]["data"]]
        if None in ids:
            rec.check(False, "examples-eligible", "an example is not a recent recorded sample", n=n, filled=k, window=W)
            return
        for i in ids:
            cnt[i] += 1
        sets.add(str(ids))
        firsts.append(ids[0])
    rec.check(len(sets) == reps or nmax == 1 or n * m == 1, "selection-repeats", "two trainings chose the same examples in the same order", distinct=len(sets), trainings=reps)
    N = cnt.sum()
    p = 1 / cnt.size
    if cnt.size > 1:
        rec.ztest((cnt - N * p) / np.sqrt(N * p * (1 - p)), "uniform", "eligible samples are not chosen equally often", counts=cnt, n=n, filled=k, window=W)
        z = cnt.sum(1) if n > 1 else None
        if n > 1:
            rec.ztest((z - N / n) / np.sqrt(N / n * (1 - 1 / n)), "uniform-chains", "chains are not chosen equally often", counts=z)
        if m > 1:
            z = cnt.sum(0)
            rec.ztest((z - N / m) / np.sqrt(N / m * (1 - 1 / m)), "uniform-time", "times in the window are not chosen equally often", counts=z)
    rec.ev("uniform-tests", cnt.size)
    rec.ev("examples", int(N))
    rec.cases += int(N)
    rec.sample(counts=cnt, n=n, filled=k, window=W)


def special(rec, what):
    """What is recorded is eligible whatever it looks like: repeated rows (rejected moves), rows far from all others, zeros."""
    from flowMC.resource.buffers import Buffer
    rng = rec.rng
    n, m, nmax, reps = 6, 30, 400, 40
    v = rng.normal(size=(n, m, 2))
    if what == "repeats":  # chains that stay where they are for a while
        hold = rng.random((n, m)) < 0.6
        for j in range(1, m):
            v[:, j] = np.where(hold[:, j, None], v[:, j - 1], v[:, j])
    elif what == "far":
        v[2, 5], v[4, 20] = [1e9, -3e8], [50.0, 0.0]
    else:
        v[1, 3:9], v[3, 4, 1], v[0] = 0.0, 0.0, np.round(v[0])
    b = Buffer("positions", (n, m, 2), 1)
    b.update_buffer(jnp.asarray(v), 0)
    rows = np.unique(v.reshape(-1, 2), axis=0, return_counts=True)
    at = {r.tobytes(): i for i, r in enumerate(np.ascontiguousarray(rows[0] + 0.0))}
    cnt = np.zeros(len(at))
    log = Log()
    tr = trainer(1, 5, nmax, m, "")
    res = {"model": Spy(log), "positions": b, "opt": optimizer()}
    key = rec.key()
    for _ in range(reps):
        log.clear()
        key, res, _ = tr(key, res, jnp.zeros((n, 2)), {})
        D = np.ascontiguousarray(log[-1]["data"] + 0.0)
        ids = [at.get(r.tobytes()) for r in D]
        if not rec.check(None not in ids and len(ids) == nmax, "examples-eligible", "an example is not a recent recorded sample", kind=what):
            return
        np.add.at(cnt, ids, 1)
    N, p = cnt.sum(), rows[1] / rows[1].sum()
    rec.ztest((cnt - N * p) / np.sqrt(N * p * (1 - p)), "uniform", "recorded samples are not chosen equally often", kind=what)
    rec.ev("special:" + what)
    rec.ev("examples", int(N))
    rec.cases += int(N)
    rec.sample(kind=what, rows=len(at), multiplicities=np.bincount(rows[1]))


def real(rec, kind):
    """With a real flow: the data mean after training lies in the hull of the eligible samples; losses are appended."""
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.optimizer import Optimizer
    rng = rec.rng
    n, S, d, W, k = 4, 20, 2, 5, 12
    m = make_flow(rng, kind, d, scale=0, layers=2, bins=3, hidden=4, whiten=False)
    pos = rng.normal(size=(n, S, d))
    pos[:, k - W:k] += 1000.0
    b = Buffer("positions", (n, S, d), 1)
    b.update_buffer(jnp.asarray(pos[:, :k]), 0)
    lb = Buffer("losses", (7,), 0)
    res = {"model": m, "positions": b, "opt": Optimizer(m), "losses": lb}
    tr = trainer(3, 8, 30, W)
    for c in range(2):
        key, res, _ = tr(rec.key(), res, jnp.zeros((n, d)), {})
        mu = np.asarray(res["model"].data_mean)
        e = pos[:, k - W:k].reshape(-1, d)
        rec.check((mu > e.min(0) - 1e-6).all() and (mu < e.max(0) + 1e-6).all() and (mu > 900).all(), "examples-eligible",
                  "the flow was trained on samples outside the history window", mean=mu)
        L = np.asarray(res["losses"].data)
        rec.check(np.isfinite(L[:3 * (c + 1)]).all() and np.isneginf(L[3 * (c + 1):]).all(), "loss-record", "losses are not appended", losses=L)
        rec.ev("real-trainings")
        rec.case("real", kind, mu.tobytes())
    rec.sample(kind=kind, data_mean=mu, losses=L)


def bundle(rec, kind):
    """In a bundle run every training sees only samples recorded by then."""
    from mon.bundles import run_bundle, make_bundle
    from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline as M
    rng = rec.rng
    cfg = dict(n_chains=4, n_dims=2, n_local_steps=3, n_global_steps=4, n_training_loops=3, n_production_loops=1, n_epochs=2,
               rq_spline_hidden_units=[4], rq_spline_n_bins=3, rq_spline_n_layers=2, batch_size=11, n_max_examples=23, local_thinning=2, mala_step_size=0.7)
    W = 100
    if kind == "pt":
        W = 3
        cfg.update(n_temperatures=3, history_window=W)
    seen = []
    orig = M.train

    def spy(self, rng, data, *a, **k):
        seen.append(np.asarray(data))
        return orig(self, rng, data, *a, **k)
    M.train = spy
    try:
        def on_event(e, res):
            if e.name != "model_trainer":
                return
            P = e.before["positions_training"][2]
            filled = np.isfinite(P).all(-1).all(0)
            kf = int(filled.sum())
            rec.check(filled[:kf].all(), "record-order", "the training record is not filled from its beginning")
            elig = {r.tobytes() for r in P[:, max(0, kf - W):kf].reshape(-1, 2)}
            D = seen[-1]
            rec.check(len(seen) == on_event.n + 1 and D.shape == (23, 2), "examples-number", "the flow is not given the configured number of examples", got=D.shape)
            on_event.n += 1
            bad = [r for r in D if np.ascontiguousarray(r).tobytes() not in elig]
            rec.check(not bad, "examples-eligible", "an example is not a recent recorded sample", example=bad[:2], filled=kf, window=W)
            rec.ev("bundle-trainings")
            rec.ev("examples", len(D))
            rec.distinct_rows(D, kind)
        on_event.n = 0
        run_bundle(rec, kind, cfg, lambda x, d: -0.5 * jnp.sum(x**2), {}, rng.normal(size=(4, 2)).astype(np.float32), watch=("positions_training",), on_event=on_event)
    finally:
        M.train = orig


def scenarios(tier, seed):
    out = []
    for r in range(1 if tier == "quick" else 12):
        for v in range(3):
            out.append(Scn(f"selection-{v}-r{r}", selection, reps=8))
        out.append(Scn(f"large-r{r}", selection, reps=3, big=True))
        for n, S, k, W, nmax in ((3, 12, 12, 5, 40), (5, 20, 9, 100, 60), (2, 10, 10, 1, 30), (1, 30, 17, 6, 50), (4, 15, 11, 11, 37)):
            out.append(Scn(f"uniform-{n}-{S}-{k}-{W}-r{r}", uniform, n=n, S=S, k=k, W=W, nmax=nmax, reps=150))
        out += [Scn(f"special-{k}-r{r}", special, what=k) for k in ("repeats", "far", "zeros")]
        out += [Scn(f"real-{k}-r{r}", real, kind=k) for k in ("realnvp", "rqspline")]
        out += [Scn(f"bundle-{k}-r{r}", bundle, x64=False, kind=k) for k in ("plain", "pt")]
    return out
