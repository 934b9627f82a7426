"""C15 flow matching: density, samples, path and training agree with each other."""
import numpy as np
import scipy.stats as st
import jax
import jax.numpy as jnp
import optax
import equinox as eqx
from mon.core import Scn
from mon.flows import random_cov, scramble
from mon.stubs import TableNet, logging_optimizer, scripted, best_epochs, flat_arrays
from mon.props.c16 import layout

RULE = ("flow-matching models with random networks and data means and covariances; densities against a fine integration of the same "
        "network by the harness, quadrature in one dimension, the law of the samples; training of a table network that reveals the batches "
        "and regression targets; a case is one density or training step, distinct by value")
REQUIRED = ["densities", "carried-samples", "quadrature", "sample-law", "path-points", "custom-schedulers", "steps", "trainings", "nan-epochs", "none-qualifies", "best-not-last", "dropped-remainder", "all-data-batch"]
ASSUMPTIONS = ["the harness's Runge-Kutta integration with 200 steps is the reference for the flow; agreement up to the model's own step size",
               "losses below 1e9, the repository's stated initial best loss"]


def network(rng, d, key, scale):
    from flowMC.resource.model.common import MLP
    m = MLP([d + 1, 12, 8, d], key, scale=1.0, activation=jax.nn.swish)
    return scramble(m, rng, scale)


def build(rng, d, key, scale, whiten=True):
    from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Solver, Path, CondOTScheduler
    net = network(rng, d, key, scale)
    kw = {}
    if whiten:
        kw = dict(data_mean=jnp.asarray(rng.normal(size=d) * 2), data_cov=jnp.asarray(random_cov(rng, d)))
    return FlowMatchingModel(Solver(net), Path(CondOTScheduler()), **kw), net


def rk4(net, x, n=200, back=False):
    h = (-1.0 if back else 1.0) / n
    t0 = 1.0 if back else 0.0

    def v(t, y):
        return net(jnp.concatenate([y, t[None]]))

    def step(y, i):
        t = t0 + i * h
        a = v(t, y)
        b = v(t + h / 2, y + h / 2 * a)
        c = v(t + h / 2, y + h / 2 * b)
        e = v(t + h, y + h * c)
        return y + h / 6 * (a + 2 * b + 2 * c + e), None
    return jax.lax.scan(step, x, jnp.arange(n, dtype=x.dtype))[0]


def moments(m, d):
    mean = np.asarray(m.data_mean).reshape(-1)
    return mean, np.sqrt(np.diag(np.atleast_2d(np.asarray(m.data_cov))))


def density(rec, d, whiten, reps):
    rng = rec.rng
    for _ in range(reps):
        m, net = build(rng, d, rec.key(), float(rng.choice([0.05, 0.15])), whiten)
        mean, std = moments(m, d)
        z = rng.normal(size=(24, d)) * rng.choice([1.0, 2.0], (24, 1))
        fwd = lambda q: rk4(net, q)  # noqa: E731
        y = np.asarray(jax.jit(jax.vmap(fwd))(jnp.asarray(z)))
        J = np.asarray(jax.jit(jax.vmap(jax.jacfwd(fwd)))(jnp.asarray(z)))
        x = y * std + mean
        want = st.multivariate_normal(np.zeros(d), np.eye(d)).logpdf(z).reshape(-1) - np.linalg.slogdet(J)[1] - np.log(std).sum()
        got = np.asarray(eqx.filter_jit(eqx.filter_vmap(m.log_prob))(jnp.asarray(x))).reshape(-1)
        rec.close(got, want, "density", "the log-density is not the density of the model's samples at that point", rtol=2e-4, atol=2e-3, d=d, whiten=whiten)
        rec.note_max("max_density_error", np.abs(got - want).max())
        rec.note_max("max_displacement", np.abs(y - z).max())
        rec.ev("densities", len(x))
        rec.distinct_rows(x, f"{d}")
        # solver alone, without the rescaling; finer steps agree as well
        gs = np.asarray(eqx.filter_vmap(lambda q: m.solver.log_prob(q))(jnp.asarray(y))).reshape(-1)
        rec.close(gs, want + np.log(std).sum(), "solver-density", "the solver's log-density is not that of its samples", rtol=2e-4, atol=2e-3, d=d)
        gs = np.asarray(eqx.filter_vmap(lambda q: m.solver.log_prob(q, dt=0.02))(jnp.asarray(y))).reshape(-1)
        rec.close(gs, want + np.log(std).sum(), "solver-density", "with finer steps the solver's log-density is not that of its samples", rtol=1e-5, atol=1e-5, d=d)
        N = 3000
        for dt in (0.1, 0.04):
            s = np.asarray(m.sample(rec.key(), N, dt=dt))
            rec.check(s.shape == (N, d) and np.isfinite(s).all(), "sample-shape", "samples are not n finite rows", shape=s.shape)
            w = np.asarray(jax.jit(jax.vmap(lambda q: rk4(net, q, 100, back=True)))(jnp.asarray((s - mean) / std)))
            zs = [w.mean(0) * np.sqrt(N), (w**2 - 1).mean(0) * np.sqrt(N / 2), (w[:-1] * w[1:]).mean(0) * np.sqrt(N)]
            zs += [np.array([(w[:, i] * w[:, j]).mean() * np.sqrt(N)]) for i in range(d) for j in range(i)]
            rec.ztest(np.concatenate(zs), "sample-law", "the samples are not standard normal noise carried by the flow", d=d, dt=dt)
            for i in range(d):
                D = st.kstest(w[:, i], "norm").statistic * np.sqrt(N)
                rec.note_max("max_ks", D)
                rec.check(D < 3.6, "sample-law", "the samples are not standard normal noise carried by the flow", ks=D, d=d)
            rec.check(len({r.tobytes() for r in np.round(s, 12)}) == N, "sample-repeats", "the same sample was drawn twice")
            rec.ev("sample-law", N)
        for n in (1, 5):
            rec.check(np.asarray(m.sample(rec.key(), n)).shape == (n, d), "sample-shape", "samples are not n rows", n=n)
    rec.sample(d=d, x=x[0], logp=got[0], want=want[0], displacement=np.abs(y - z).max())


def steps(rec, d):
    """Every sample is the noise of its key carried by the network, the better the smaller the steps."""
    from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Path, CondOTScheduler, Solver
    rng = rec.rng
    m, net = build(rng, d, rec.key(), 0.5, True)
    mean, std = moments(m, d)
    zero = jax.tree.map(lambda a: a * 0 if eqx.is_inexact_array(a) else a, net)
    m0 = FlowMatchingModel(Solver(zero), Path(CondOTScheduler()))
    for n in (1, 2, 300):
        key = rec.key()
        z = np.asarray(m0.sample(key, n))  # no velocity: the noise itself
        y = np.asarray(jax.jit(jax.vmap(lambda q: rk4(net, q, 1000)))(jnp.asarray(z))) * std + mean
        errs = {}
        for dt in (0.25, 0.1, 0.03, 0.01):
            s = np.asarray(m.sample(key, n, dt=dt))
            rec.check(s.shape == (n, d), "sample-shape", "samples are not n rows", n=n, shape=s.shape)
            errs[dt] = np.abs((s - y) / std).max()
        rec.check(errs[0.01] < 1e-6, "sample-carried", "with small steps the samples are not the noise carried by the network", errors=errs, n=n, d=d)
        rec.note_max("max_coarse_error", errs[0.25])
        rec.ev("carried-samples", n)
        rec.distinct_rows(z, f"steps{d}")
    # far points
    z = rng.normal(size=(12, d)) * 40
    fwd = lambda q: rk4(net, q, 1000)  # noqa: E731
    y = np.asarray(jax.jit(jax.vmap(fwd))(jnp.asarray(z)))
    J = np.asarray(jax.jit(jax.vmap(jax.jacfwd(fwd)))(jnp.asarray(z)))
    want = st.multivariate_normal(np.zeros(d), np.eye(d)).logpdf(z).reshape(-1) - np.linalg.slogdet(J)[1]
    got = np.asarray(eqx.filter_vmap(lambda q: m.solver.log_prob(q, dt=0.005))(jnp.asarray(y))).reshape(-1)
    rec.close(got, want, "solver-density", "far out the log-density is not that of the model's samples", rtol=1e-4, atol=1e-3, d=d)
    rec.sample(d=d, errors={str(k): v for k, v in errs.items()})


def quadrature(rec, whiten):
    rng = rec.rng
    m, net = build(rng, 1, rec.key(), 0.3, whiten)
    s = np.asarray(m.sample(rec.key(), 8000)).ravel()
    lo, hi = s.min(), s.max()
    w = hi - lo
    grid = np.unique(np.concatenate([np.linspace(lo - w / 2, hi + w / 2, 1501), np.quantile(s, np.linspace(0, 1, 1001))]))
    p = np.exp(np.asarray(eqx.filter_jit(eqx.filter_vmap(m.log_prob))(jnp.asarray(grid[:, None]))).reshape(-1))
    cdf = np.concatenate([[0], np.cumsum(0.5 * (p[1:] + p[:-1]) * np.diff(grid))])
    rec.check(abs(cdf[-1] - 1) < 0.01, "normalisation", "the density does not integrate to one", integral=cdf[-1], whiten=whiten)
    D = np.abs(np.interp(np.sort(s), grid, cdf / cdf[-1]) - (np.arange(len(s)) + 0.5) / len(s)).max() * np.sqrt(len(s))
    rec.note_max("max_ks", D)
    rec.check(D < 3.6, "samples-vs-density", "the samples do not follow the density", ks=D)
    rec.ev("quadrature")
    rec.case("quad", whiten, float(s[0]))
    rec.sample(integral=cdf[-1], ks=D)


def path(rec):
    from flowMC.resource.model.flowmatching.base import Path, CondOTScheduler, Scheduler
    rng = rec.rng

    class Trig(Scheduler):
        def __call__(self, t):
            a = jnp.pi / 2
            return jnp.sin(a * t), a * jnp.cos(a * t), jnp.cos(a * t), -a * jnp.sin(a * t)

    class Poly(Scheduler):
        def __call__(self, t):
            return t**2, 2 * t, 1 - t**3, -3 * t**2
    for nm, S in (("CondOT", CondOTScheduler()), ("Trig", Trig()), ("Poly", Poly())):
        P = Path(S)
        for d in (1, 3):
            n = 40
            x0, x1 = rng.normal(size=(n, d)), rng.normal(size=(n, d)) * 5
            t = np.concatenate([np.zeros(5), np.ones(5), rng.random(n - 10)])[:, None]
            xt, dx = P.sample(jnp.asarray(x0), jnp.asarray(x1), jnp.asarray(t))
            xt, dx = np.asarray(xt), np.asarray(dx)
            rec.close(xt[:5], x0[:5], "path-start", "at time 0 the path is not at the noise", rtol=1e-12, atol=1e-12, scheduler=nm)
            rec.close(xt[5:10], x1[5:10], "path-end", "at time 1 the path is not at the data", rtol=1e-12, atol=1e-12, scheduler=nm)
            _, want = jax.jvp(lambda q: P.sample(jnp.asarray(x0), jnp.asarray(x1), q)[0], (jnp.asarray(t),), (jnp.ones_like(jnp.asarray(t)),))
            rec.close(dx, np.asarray(want), "path-velocity", "the velocity is not the time derivative of the path", rtol=1e-10, atol=1e-10, scheduler=nm)
            h = 1e-6
            fd = (np.asarray(P.sample(x0, x1, t + h)[0]) - np.asarray(P.sample(x0, x1, t - h)[0])) / (2 * h)
            rec.close(dx, fd, "path-velocity", "the velocity is not the time derivative of the path", rtol=1e-5, atol=1e-5, scheduler=nm)
            if nm == "CondOT":
                rec.close(xt, (1 - t) * x0 + t * x1, "path-line", "the default path is not the straight line", rtol=1e-12, atol=1e-12)
                rec.close(dx, x1 - x0, "path-line", "the default velocity is not data minus noise", rtol=1e-12, atol=1e-12)
            else:
                rec.ev("custom-schedulers")
            rec.ev("path-points", n)
            rec.distinct_rows(xt, nm)


def train_stub(rec, reps):
    from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Solver, Path, CondOTScheduler
    rng = rec.rng
    for rep in range(reps):
        d = int(rng.integers(1, 4))
        N = int(rng.integers(4, 24))
        B = max(1, int(rng.choice([1, 2, 3, N // 2 + 1, N - 1, N, N + 3])))
        if rep < 2:
            N, B = [(9, 20), (13, 4)][rep]
        E = int(rng.integers(1, 6))
        per = max(1, N // B)
        S = per * E
        use = B if N >= B else N
        kind = rep % 5
        script = rng.normal(size=S + 1) * 3
        if kind == 1:
            script = np.linspace(1, 30, S + 1)
        elif kind == 2:
            script[rng.random(S + 1) < 0.4] = np.nan
        elif kind == 3:
            script[:] = np.nan
        elif kind == 4:
            script = np.linspace(30, 1, S + 1)
        table0 = rng.normal(size=(N, d)) * 0.1
        A0 = rng.normal(size=(d, d)) * 0.3
        delta = rng.normal(size=(S, N, d)) * 0.1
        data = (rng.normal(size=(N, d)), rng.normal(size=(N, d)) * np.exp(rng.uniform(-1, 1, d)) + rng.normal(size=d) * 3, (rng.permutation(N)[:, None] + 0.5) / N)
        idx = np.floor(data[2][:, 0] * N).astype(int)
        jd = tuple(jnp.asarray(q) for q in data)
        mean, cov = data[1].mean(0), np.atleast_2d(np.cov(data[1].T))
        x1 = (data[1] - mean) / np.sqrt(np.diag(cov))
        xt = (1 - data[2]) * data[0] + data[2] * x1
        dx = x1 - data[0]
        inv = np.argsort(idx)  # example of each table row

        def make(script):
            return FlowMatchingModel(Solver(TableNet(table0, A0, script)), Path(CondOTScheduler()), data_mean=jnp.asarray(rng.normal(size=d)), data_cov=jnp.asarray(random_cov(rng, d)))
        opt = logging_optimizer(scripted(delta), S + 2)
        m = make(script)
        key = rec.key()
        _, best, state, losses = m.train(key, jd, opt, opt.init(eqx.filter(m, eqx.is_inexact_array)), E, B, verbose=False)
        losses = np.asarray(losses)
        m2 = make(-1000.0 + np.arange(S + 1) * 1.0)
        _, _, full, losses2 = m2.train(key, jd, opt, opt.init(eqx.filter(m2, eqx.is_inexact_array)), E, B, verbose=False)
        rec.ev("trainings")
        c = int(full["count"])
        rec.check(c == S, "steps-number", "number of training steps is not epochs times full batches", steps=c, want=S, N=N, batch=B, epochs=E)
        rec.check(losses.shape == (E,), "loss-number", "not one recorded loss per epoch", got=losses.shape)
        if c != S:
            continue
        lay = layout(m2)
        G = np.asarray(full["grads"])
        tab = table0 + np.concatenate([np.zeros((1, N, d)), np.cumsum(delta, 0)])
        members = []
        for k in range(S):
            gt = G[k][lay["table"]].reshape(N, d)
            gA = G[k][lay["A"]].reshape(d, d)
            b = np.flatnonzero((gt != 0).any(1))  # table rows in the batch
            ex = inv[b]
            members.append(set(ex.tolist()))
            rec.check(len(b) == use, "batch-size", "a training step did not use one full batch of distinct examples", used=len(b), want=use, N=N, batch=B)
            res_ = tab[k][b] + xt[ex] @ A0.T + (-1000.0 + k) - dx[ex]
            rec.close(gt[b], 2 * res_ / (len(b) * d), "regression-target", "training does not regress the velocity of the path to whitened data", rtol=1e-7, atol=1e-7, N=N, batch=B, d=d)
            rec.close(gA, 2 * (res_[:, :, None] * xt[ex][:, None, :]).sum(0) / (len(b) * d), "regression-input", "training does not evaluate the network on the path to whitened data",
                      rtol=1e-6, atol=1e-6, N=N, batch=B, d=d)
            rec.ev("steps")
            rec.case("fm", tuple(sorted(members[-1])), float(dx[0, 0]))
        for e in range(E):
            bs = members[e * per:(e + 1) * per]
            rec.check(sum(len(b) for b in bs) == len(set().union(*bs)), "batches-overlap", "batches of one epoch overlap", epoch=e)
        if per > 1 and E > 3 and N > 6:
            rec.check(len({str([sorted(b) for b in members[e * per:(e + 1) * per]]) for e in range(E)}) > 1, "order-repeats", "all epochs use the same batches")

        def loss_at(k, sc):
            ex = sorted(members[k])
            return np.mean((tab[k][idx[ex]] + xt[ex] @ A0.T + sc[k] - dx[ex]) ** 2)
        rec.close(losses, np.array([loss_at((e + 1) * per - 1, script) for e in range(E)]), "recorded-loss", "a recorded loss is not the mean squared velocity error of the batch",
                  rtol=1e-9, atol=1e-9, N=N, batch=B)
        be = best_epochs(losses)
        cnt, s_ = int(state["count"]), float(best.solver.model.s)
        if np.isnan(losses).any():
            rec.ev("nan-epochs")
        if N < B:
            rec.ev("all-data-batch")
        elif N % B:
            rec.ev("dropped-remainder")
        if be is None:
            rec.ev("none-qualifies")
            rec.check(cnt == 0 and s_ == 0, "none-qualifies", "no epoch qualifies but a changed model or state was returned", losses=losses, steps=cnt)
        else:
            ends = [(int(b) + 1) * per for b in be]
            rec.check(s_ in ends and np.allclose(best.solver.model.table, tab[int(s_)]), "best-model", "the returned model is not that of the end of the epoch with the lowest loss",
                      losses=losses, returned_after_steps=s_, best_ends=ends)
            rec.check(cnt == s_, "best-state", "the returned optimizer state is not that of the returned model", state_steps=cnt, model_steps=s_)
            if ends[-1] != S:
                rec.ev("best-not-last")
            rec.close(np.ravel(best.data_mean), mean, "data-mean", "the data mean is not that of the data", rtol=1e-9, atol=1e-9)
            rec.close(np.ravel(best.data_cov), cov.ravel(), "data-cov", "the data covariance is not that of the data", rtol=1e-9, atol=1e-9)
        rec.check(np.array_equal(np.asarray(jd[1]), data[1]) and float(m.solver.model.s) == 0, "inputs-modified", "training modified its inputs")
    rec.sample(N=N, batch=B, epochs=E, d=d, losses=losses, batches=[sorted(b) for b in members[:3]])


def train_real(rec):
    """After real training the density still belongs to the samples, and the best epoch is returned."""
    rng = rec.rng
    d = 2
    m, _ = build(rng, d, rec.key(), 0.0, False)
    N, B, E = 200, 64, 6
    x1 = rng.normal(size=(N, d)) * [0.5, 3.0] + [10.0, -4.0]
    data = tuple(jnp.asarray(q) for q in (rng.normal(size=(N, d)), x1, rng.random((N, 1))))
    opt = logging_optimizer(optax.adam(1e-2), 3 * E + 2)
    _, best, state, losses = m.train(rec.key(), data, opt, opt.init(eqx.filter(m, eqx.is_inexact_array)), E, B, verbose=False)
    be = best_epochs(losses)
    c = int(state["count"])
    rec.check(be is not None and c in [(int(b) + 1) * 3 for b in be], "best-state", "the returned state is not that of the best epoch", losses=losses, steps=c)
    rec.close(np.asarray(flat_arrays(best)), np.asarray(state["after"])[c - 1], "best-model", "the returned model is not that of the returned state", rtol=1e-9, atol=1e-9)
    net = best.solver.model
    mean, std = moments(best, d)
    rec.close(mean, x1.mean(0), "data-mean", "the data mean is not that of the data", rtol=1e-7, atol=1e-7)
    z = rng.normal(size=(16, d))
    fwd = lambda q: rk4(net, q)  # noqa: E731
    y = np.asarray(jax.vmap(fwd)(jnp.asarray(z)))
    J = np.asarray(jax.vmap(jax.jacfwd(fwd))(jnp.asarray(z)))
    want = st.multivariate_normal(np.zeros(d), np.eye(d)).logpdf(z) - np.linalg.slogdet(J)[1] - np.log(std).sum()
    got = np.asarray(eqx.filter_vmap(best.log_prob)(jnp.asarray(y * std + mean))).reshape(-1)
    rec.close(got, want, "density", "after training the log-density is not that of the samples", rtol=1e-3, atol=5e-3)
    rec.ev("densities", 16)
    rec.ev("trainings")
    rec.case("real", float(losses[0]))


def scenarios(tier, seed):
    out = []
    for r in range(1 if tier == "quick" else 10):
        for d, w in ((1, True), (2, True), (3, False), (4, True)):
            out.append(Scn(f"density-{d}-{w}-r{r}", density, d=d, whiten=w, reps=1 if tier == "quick" else 2))
        out += [Scn(f"steps-{d}-r{r}", steps, d=d) for d in (1, 3)]
        out += [Scn(f"quadrature-{w}-r{r}", quadrature, whiten=w) for w in (True, False)]
        out += [Scn(f"path-r{r}", path), Scn(f"train-real-r{r}", train_real)]
        out += [Scn(f"train-{v}-r{r}", train_stub, reps=5) for v in range(3)]
    return out
