"""Actors: small independent uses of flowMC whose every step leaves a fingerprint (C30).

All actors have the same shapes, so that anything remembered by shape, name or code would be confused. `python -m mon.actors SPEC OUT`
runs one actor alone in a fresh process."""
import contextlib
import copy
import io
import json
import os
import sys
import tempfile
import numpy as np
import jax
import jax.numpy as jnp
import equinox as eqx
import optax

N, D = 4, 2
_scratch = []


def scratch():
    """One folder per process: later files replace earlier ones of the same names."""
    if not _scratch:
        _scratch.append(tempfile.TemporaryDirectory())
    return _scratch[0].name


def pick(rng, *values):
    """Settings come from few values, so that some coincide between actors and others do not."""
    return values[rng.integers(len(values))]


def kernel(rng, name=None, **kw):
    from mon.steps import make_kernel
    name = name or pick(rng, "MALA", "GRW", "HMC", "HMC")
    if name == "HMC":
        from flowMC.resource.kernel.HMC import HMC
        return HMC(condition_matrix=pick(rng, 1.0, jnp.eye(D), jnp.asarray([[2.0, 0.3], [0.3, 1.0]])), step_size=pick(rng, 0.2, 0.5), n_leapfrog=int(pick(rng, 1, 3, 5)))
    return make_kernel(name, rng, D, step=pick(rng, 0.2, 0.5), **kw)


def quadratic(x, q):
    return -0.5 * jnp.sum(((x - q["m"]) * q["s"]) ** 2)


def family(c):
    """Targets of one code that differ in a captured constant."""
    def f(x, q):
        return -0.5 * c * jnp.sum((x - q["m"]) ** 2) - 0.1 * jnp.sum(jnp.abs(x * q["s"]))
    return f


def flat(prior):
    return lambda x, q: prior * jnp.sum(jnp.cos(x))


class Actor:
    steps = 4

    def __init__(self, rng):
        self.rng = rng
        self.key = jax.random.PRNGKey(int(rng.integers(2**31 - 1)))
        self.given = []
        self.data = self.give({"m": jnp.asarray(rng.normal(size=D)), "s": np.asarray(rng.uniform(0.5, 2, D))})
        self.target = quadratic if rng.random() < 0.5 else family(float(rng.uniform(0.3, 3)))
        self.x = jnp.asarray(rng.normal(size=(N, D)))
        self.build()

    def give(self, v):
        """Something passed to flowMC that has to stay as it is."""
        self.given.append((v, copy.deepcopy(v)))
        return v

    def intact(self):
        for a, b in self.given:
            la, ta = jax.tree_util.tree_flatten(a)
            lb, tb = jax.tree_util.tree_flatten(b)
            if ta != tb or any(np.asarray(p).tobytes() != np.asarray(q).tobytes() for p, q in zip(la, lb)):
                return False
        return True

    def split(self):
        self.key, k = jax.random.split(self.key)
        return k

    def build(self):
        pass


def content(resources):
    from mon.bundles import freeze
    out = []

    def walk(v):
        if isinstance(v, np.ndarray):
            out.append(v)
        elif isinstance(v, (tuple, list)):
            for w in v:
                walk(w)
        elif isinstance(v, dict):
            for k in sorted(v):
                walk(v[k])
        elif isinstance(v, (bool, int, float)):
            out.append(np.asarray(v))
    for k in sorted(resources):
        if not (k.endswith("pdf")):  # function identities say nothing
            walk(freeze(resources[k]))
    return out


def flow(rng, key, kind=None):
    from mon.flows import make_flow
    return make_flow(rng, kind or "rqspline", D, scale=0.3, layers=2, bins=3, hidden=4, key=key, spline=[(-10., 10.), (-4., 3.)][rng.integers(2)])


class Steps(Actor):
    group = False

    def build(self):
        from flowMC.resource.buffers import Buffer
        from flowMC.resource.logPDF import LogPDF
        from flowMC.resource.states import State
        from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
        r = self.rng
        names = self.give(["P", "L", "A"])
        cls = TakeGroupSteps if self.group else TakeSerialSteps
        kern = kernel(r, "NF", model=flow(r, self.split()), batch=int(pick(r, 3, 4))) if self.group else kernel(r)
        self.strategy = cls("logpdf", "kernel", "state", names, 6, thinning=int(r.integers(1, 4)), chain_batch_size=int(r.integers(0, 4)))
        self.res = {"logpdf": LogPDF(self.target, n_dims=D), "kernel": kern, "state": State({"P": "p", "L": "l", "A": "a"}, name="state"),
                    "p": Buffer("p", (N, 24, D), 1), "l": Buffer("l", (N, 24), 1), "a": Buffer("a", (N, 24), 1)}

    def step(self):
        self.key, self.res, self.x = self.strategy(self.key, self.res, self.x, self.data)
        return content(self.res) + [self.key, self.x]


class Group(Steps):
    group = True


class Kernel(Actor):
    """One HMC kernel stepping a chain by itself."""

    def build(self):
        self.kern = kernel(self.rng, "HMC")

    def step(self):
        lp = self.target(self.x[0], self.data)
        out = []
        for _ in range(3):
            x, lp, a = jax.jit(lambda k, x, l: self.kern.kernel(k, x, l, self.target, self.data))(self.split(), self.x[0], lp)
            self.x = self.x.at[0].set(x)
            out += [x, lp, a]
        return out


class Train(Actor):
    def build(self):
        from flowMC.resource.buffers import Buffer
        from flowMC.resource.optimizer import Optimizer
        from flowMC.strategy.train_model import TrainModel
        r = self.rng
        m = flow(r, self.split(), ["rqspline", "realnvp"][r.integers(2)])
        b = Buffer("history", (N, 12, D), 1)
        b.update_buffer(jnp.asarray(r.normal(size=(N, 12, D)) * r.uniform(0.5, 3)), 0)
        self.res = {"model": m, "opt": Optimizer(m, learning_rate=pick(r, 1e-2, 1e-1)), "history": b, "loss": Buffer("loss", (16,), 0)}
        self.strategy = TrainModel("model", "history", "opt", "loss", n_epochs=3, batch_size=int(r.integers(6, 12)), n_max_examples=24, history_window=int(r.integers(3, 12)), verbose=False)

    def step(self):
        self.key, self.res, self.x = self.strategy(self.key, self.res, self.x, self.data)
        m = self.res["model"]
        return content(self.res) + [self.key, m.sample(jax.random.PRNGKey(3), 5), jax.vmap(m.log_prob)(self.x)]


class Flow(Actor):
    def build(self):
        self.m = flow(self.rng, self.split(), ["rqspline", "realnvp"][self.rng.integers(2)])
        self.opt = optax.adam(pick(self.rng, 1e-2, 1e-1))
        self.X = self.give(jnp.asarray(self.rng.normal(size=(30, D)) * 3))

    def step(self):
        k, self.m, st, losses = self.m.train(self.split(), self.X, self.opt, self.opt.init(eqx.filter(self.m, eqx.is_inexact_array)), 2, 10, verbose=False)
        y, ld = jax.vmap(self.m.forward)(self.X[:5])
        return [losses, self.m.sample(self.split(), 7), jax.vmap(self.m.log_prob)(self.X), y, ld, self.m.data_mean, self.m.data_cov]


class Matching(Actor):
    steps = 3

    def build(self):
        from flowMC.resource.model.common import MLP
        from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Solver, Path, CondOTScheduler
        r = self.rng
        shape = self.give([D + 1, 6, D])
        self.m = FlowMatchingModel(Solver(MLP(shape, self.split(), scale=float(r.uniform(0.3, 1.5)), activation=jax.nn.swish)), Path(CondOTScheduler()))
        self.opt = optax.adam(pick(r, 1e-2, 1e-1))
        self.X = self.give((jnp.asarray(r.normal(size=(20, D))), jnp.asarray(r.normal(size=(20, D)) * 2 + r.normal()), jnp.asarray(r.random((20, 1)))))

    def step(self):
        k, self.m, st, losses = self.m.train(self.split(), self.X, self.opt, self.opt.init(eqx.filter(self.m, eqx.is_inexact_array)), 2, 10, verbose=False)
        return [losses, self.m.sample(self.split(), 4), eqx.filter_vmap(self.m.log_prob)(self.X[1][:4])]


class Tempering(Actor):
    def build(self):
        from mon.pt import PT
        r = self.rng
        T = 1.0 + np.concatenate([[0.0], np.cumsum(r.uniform(0.5, 4, 2))])
        self.pt = PT(kernel(r), self.target, flat(float(r.normal())), D, T, n_steps=3, training=bool(r.integers(2)))
        self.pt.reset(r.normal(size=(N, 2, D)))

    def step(self):
        self.key, c, h, t = self.pt(self.key, self.x, self.data)
        self.x = jnp.asarray(c)
        return [self.key, c, h, t]


class Adam(Actor):
    def build(self):
        from flowMC.strategy.optimization import AdamOptimization
        r = self.rng
        kw = {}
        if r.random() < 0.7:
            kw["bounds"] = self.give(jnp.asarray(np.sort(r.normal(size=(D, 2)) * 2, axis=1)))
        self.s = AdamOptimization(self.target, n_steps=8, learning_rate=pick(r, 0.02, 0.3), noise_level=pick(r, 0.0, 0.5), **kw)

    def step(self):
        self.key, _, self.x = self.s(self.key, {}, self.x, self.data)
        return [self.key, self.x]


class Store(Actor):
    """Resources of the same names saved and loaded in folders of their own."""

    def build(self):
        from flowMC.resource.buffers import Buffer
        from flowMC.resource.states import State
        self.b = Buffer("b", (N, 10, D), 1)
        self.s = State({"a": int(self.rng.integers(100)), "t": True, "w": "x"}, name="s")
        self.m = flow(self.rng, self.split())
        self.i = 0

    def step(self):
        d = scratch()
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        self.b.update_buffer(jnp.asarray(self.rng.normal(size=(N, 2, D))), self.i)
        self.s.update(["a", "w"], [int(self.rng.integers(1000)), "w%d" % self.i])
        self.i += 2
        self.b.save_resource(d + "/")
        self.s.save_resource(d + "/")
        self.m.save_resource(d + "/m")
        f = {os.path.splitext(p)[0]: d + "/" + p for p in os.listdir(d)}
        self.b = self.b.load_resource(f["b"])
        self.s = self.s.load_resource(f["s"])
        self.m = self.m.load_resource(d + "/m")
        return content({"b": self.b, "s": self.s, "m": self.m}) + [np.frombuffer(json.dumps(self.s.data, sort_keys=True).encode(), np.uint8)]


class Bundle(Actor):
    kind = "plain"

    def build(self):
        from mon import bundles as B
        r = self.rng
        hidden = self.give([4])
        cfg = dict(n_chains=N, n_dims=D, n_local_steps=4, n_global_steps=4, n_training_loops=2, n_production_loops=2, n_epochs=2, rq_spline_hidden_units=hidden,
                   rq_spline_n_bins=3, rq_spline_n_layers=2, batch_size=8, n_max_examples=16, mala_step_size=pick(r, 0.2, 0.6), learning_rate=pick(r, 1e-2, 1e-1),
                   chain_batch_size=int(r.integers(0, 4)), n_NFproposal_batch_size=3, local_thinning=int(r.integers(1, 3)), global_thinning=int(r.integers(1, 3)))
        if self.kind == "pt":
            cfg.update(history_window=int(r.integers(3, 50)), n_temperatures=3, max_temperature=pick(r, 3.0, 9.0), n_tempered_steps=2)
        self.b = B.make_bundle(self.kind, self.split(), self.target, self.give(cfg), flat(float(r.normal())) if self.kind == "pt" else None)
        self.res = self.b.resources
        self.order = list(self.b.strategy_order)
        self.steps = len(self.order)
        self.i = 0

    def step(self):
        s = self.b.strategies[self.order[self.i]]
        self.i += 1
        self.key, self.res, self.x = s(self.key, self.res, self.x, self.data)
        return content(self.res) + [self.key, self.x]


class BundlePT(Bundle):
    kind = "pt"


class Defaults(Actor):
    """Bundles and objects built with their defaults."""
    steps = 2

    def step(self):
        from mon import bundles as B
        from flowMC.resource.kernel.HMC import HMC
        from flowMC.resource.kernel.MALA import MALA
        from flowMC.resource.kernel.NF_proposal import NFProposal
        from flowMC.resource.optimizer import Optimizer
        b = B.make_bundle(["plain", "pt"][self.rng.integers(2)], self.split(), self.target, dict(n_chains=N, n_dims=D, n_local_steps=3, n_global_steps=3, n_training_loops=1, n_production_loops=1, n_epochs=1))
        m = b.resources["model"]
        k = self.split()
        f = jax.jit(lambda q: [kk.kernel(k, q, self.target(q, self.data), self.target, self.data)[0] for kk in (MALA(step_size=0.3), HMC(condition_matrix=jnp.eye(D)))])
        return content(b.resources) + [np.asarray([len(b.strategies), len(b.strategy_order)]), m.sample(k, 3)] + f(self.x[0])


class Custom(Actor):
    """Samplers with user-written strategies."""
    steps = 3

    def build(self):
        from flowMC.Sampler import Sampler
        from flowMC.strategy.lambda_function import Lambda
        from flowMC.strategy.update_state import UpdateState
        from flowMC.resource.states import State
        c = float(self.rng.normal())
        self.log = []
        S = {"look": Lambda(lambda k, r, x, d: self.log.append(np.asarray(x) * c + np.asarray(d["m"]))),
             "set": UpdateState("st", self.give(["a"]), self.give([int(self.rng.integers(100))])),
             "adam": None}
        from flowMC.strategy.optimization import AdamOptimization
        S["adam"] = AdamOptimization(self.target, n_steps=3, learning_rate=0.1, noise_level=float(self.rng.uniform(0, 1)))
        self.sm = Sampler(D, N, self.split(), resources={"st": State({"a": 0, "b": 1})}, strategies=S, strategy_order=self.give(["look"] + [("adam", "set", "look")[i] for i in self.rng.integers(3, size=4)] + ["look"]))

    def step(self):
        self.log.clear()
        self.sm.sample(self.x, self.data)
        self.x = self.x + 0.5
        return list(self.log) + [np.asarray(self.sm.resources["st"].data[k]) for k in ("a", "b")] + [self.sm.rng_key]


KINDS = dict(kernel=Kernel, steps=Steps, group=Group, train=Train, flow=Flow, matching=Matching, tempering=Tempering, adam=Adam, store=Store, bundle=Bundle, bundlept=BundlePT,
             defaults=Defaults, custom=Custom)


def make(kind, seed):
    with contextlib.redirect_stdout(io.StringIO()):
        return KINDS[kind](np.random.default_rng([seed, sorted(KINDS).index(kind)]))


def step(a):
    with contextlib.redirect_stdout(io.StringIO()):
        return [np.array(v, copy=True) for v in a.step()]


def main():
    spec, out = sys.argv[1:3]
    kind, seed = spec.split(":")
    jax.config.update("jax_enable_x64", True)
    from mon.core import REPO_SRC, classify_exception
    import flowMC.Sampler
    assert flowMC.Sampler.__file__.startswith(REPO_SRC + "/")
    try:
        a = make(kind, int(seed))
        prints = {}
        for i in range(a.steps):
            for j, v in enumerate(step(a)):
                prints[f"{i}.{j}"] = v
        np.savez(out, **prints)
    except Exception as e:  # noqa: BLE001
        who, where = classify_exception(e)
        with open(out + ".err", "w") as f:
            json.dump([who, where, repr(e)[:600]], f)
        raise


if __name__ == "__main__":
    main()
