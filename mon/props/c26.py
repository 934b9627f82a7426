"""C26 frame conditions: snapshots of all resources, start positions and data around every strategy call."""
import contextlib
import copy
import io
import numpy as np
import jax
import jax.numpy as jnp
import equinox as eqx
from mon.core import Scn
from mon import bundles as B
from mon import targets as T
from mon.flows import make_flow
from mon.steps import make_kernel

RULE = ("one evaluation is one strategy call in a random history over a resource set with a decoy for every resource; the content of every resource, the start "
        "positions and every data leaf are compared before and after; distinct by strategy, history position and content written")
REQUIRED = ["strategy:serial", "strategy:serial-batched", "strategy:group", "strategy:train", "strategy:train-no-loss", "strategy:pt-training", "strategy:pt-production", "strategy:update-state",
            "strategy:adam", "strategy:lambda", "strategy:lambda-writing", "written-changed", "decoys", "numpy-data", "bundle-plain", "bundle-pt", "state-redirected", "custom-return"]
ASSUMPTIONS = ["a strategy may replace a resource object as long as contents outside its write set stay equal"]


def build(rec, rng, d, n):
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.states import State
    from flowMC.resource.logPDF import LogPDF, TemperedPDF
    from flowMC.resource.optimizer import Optimizer
    from flowMC.resource.kernel.NF_proposal import NFProposal
    R = {}
    t = T.gauss(rng, d)
    for s in ("", "_decoy"):
        R["logpdf" + s] = LogPDF(t.logp if not s else (lambda x, q: -jnp.sum(jnp.abs(x))), n_dims=d)
        R["tempered" + s] = TemperedPDF(t.logp, (lambda a: lambda x, q: -a * jnp.sum(x**2))(0.01 if s else 0.02), n_dims=d)
        R["mala" + s] = make_kernel("MALA", rng, d)
        R["hmc" + s] = make_kernel("HMC", rng, d)
        m = make_flow(rng, "rqspline", d, scale=0.2, layers=2, bins=3, hidden=4)
        R["model" + s] = m
        R["model2" + s] = make_flow(rng, "realnvp", d, scale=0.2, layers=2, hidden=4)
        R["nf" + s] = NFProposal(make_flow(rng, "rqspline", d, scale=0.2, layers=2, bins=3, hidden=4), n_NFproposal_batch_size=5)
        R["opt" + s] = Optimizer(m, learning_rate=1e-2)
        R["opt2" + s] = Optimizer(R["model2" + s], learning_rate=1e-2)
        R["loss" + s] = Buffer("loss" + s, (12,), 0)
        for k in ("a", "b", "c"):
            R["pos_" + k + s] = Buffer("same name", (n, 60, d), 1)
            R["lp_" + k + s] = Buffer("lp", (n, 60), 1)
            R["acc_" + k + s] = Buffer("acc", (n, 60), 1)
        R["history" + s] = Buffer("history", (n, 10, d), 1)
        R["history" + s].update_buffer(jnp.asarray(rng.normal(size=(n, 10, d))), 0)
        R["walkers" + s] = Buffer("walkers", (n, 2, d), 2)
        R["walkers" + s].update_buffer(jnp.asarray(rng.normal(size=(n, 2, d))), 0)
        R["temps" + s] = Buffer("temps", (3,), 0)
        R["temps" + s].update_buffer(jnp.asarray([1.0, 2.0, 5.0]), 0)
        R["st" + s] = State({"P": "pos_a" + s, "L": "lp_a" + s, "A": "acc_a" + s, "training": True, "extra": 7}, name="st" + s)
    R["pt_state"] = State({"training": True, "x": "y"}, name="pt")
    return R, t


def strategies(rng, t, seen):
    """name -> (strategy, function of the resources giving the names it may write, names it must write)"""
    from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
    from flowMC.strategy.train_model import TrainModel
    from flowMC.strategy.parallel_tempering import ParallelTempering
    from flowMC.strategy.update_state import UpdateState
    from flowMC.strategy.optimization import AdamOptimization
    from flowMC.strategy.lambda_function import Lambda

    def targets(R):
        s = R["st"].data
        return {s["P"], s["L"], s["A"]}
    def positions(R):
        return {R["st"].data["P"], R["st"].data["L"]}
    S = {}
    S["serial"] = (TakeSerialSteps("logpdf", "mala", "st", ["P", "L", "A"], 3), targets, positions)
    S["serial-batched"] = (TakeSerialSteps("logpdf", "hmc", "st", ["P", "L", "A"], 3, chain_batch_size=2, thinning=2), targets, positions)
    S["group"] = (TakeGroupSteps("logpdf", "nf", "st", ["P", "L", "A"], 4, chain_batch_size=2), targets, positions)
    S["train"] = (TrainModel("model", "history", "opt", "loss", n_epochs=2, batch_size=8, n_max_examples=20),
                  lambda R: {"model", "opt", "loss"}, lambda R: {"model", "opt", "loss"} if R["loss"].cursor + 2 <= 12 else set())
    S["train-no-loss"] = (TrainModel("model2", "history", "opt2", n_epochs=2, batch_size=8, n_max_examples=20),
                          lambda R: {"model2", "opt2"}, lambda R: set())
    pt = ParallelTempering(2, "tempered", "mala", ["walkers", "temps"], "pt_state")
    S["pt"] = (pt, lambda R: {"walkers"} | ({"temps"} if R["pt_state"].data["training"] else set()), lambda R: {"walkers"})
    for i, k in enumerate(("a", "b", "c")):
        S["update-state-" + k] = (UpdateState("st", ["P", "L", "A"], ["pos_" + k, "lp_" + k, "acc_" + k]), lambda R: {"st"}, lambda R: set())
    S["update-pt"] = (UpdateState("pt_state", ["training"], [False]), lambda R: {"pt_state"}, lambda R: set())
    S["update-pt2"] = (UpdateState("pt_state", ["training"], [True]), lambda R: {"pt_state"}, lambda R: set())
    S["adam"] = (AdamOptimization(t.logp, n_steps=3, learning_rate=0.05, noise_level=0.5), lambda R: set(), lambda R: set())
    S["lambda"] = (Lambda(lambda k, r, x, d: seen.append((list(r), np.asarray(x).copy()))), lambda R: set(), lambda R: set())

    def writing(k, r, x, d):
        r["history"].update_buffer(x[:, None, :], 0)
    S["lambda-writing"] = (Lambda(writing), lambda R: {"history"}, lambda R: set())
    return S


def copy_data(d):
    return jax.tree_util.tree_map(lambda v: np.array(v, copy=True) if hasattr(v, "shape") else copy.deepcopy(v), d)


def history(rec, n_calls, d, n, through_sampler):
    from flowMC.Sampler import Sampler
    from flowMC.strategy.base import Strategy
    rng = rec.rng
    R, t = build(rec, rng, d, n)
    seen = []
    S = strategies(rng, t, seen)
    data = dict(t.data)
    data["numpy"] = np.arange(5.0)  # a mutable leaf
    data["nested"] = {"list": [np.ones(3), jnp.zeros(2)], "flag": 3}
    rec.ev("numpy-data")
    data0 = copy_data(data)
    names = list(S)
    forced = ["serial", "update-state-b", "group", "serial-batched", "train", "lambda", "pt", "update-pt", "pt", "adam", "lambda-writing", "train-no-loss", "update-pt2", "pt",
              "update-state-c", "serial", "train"]
    order = forced + [names[i] for i in rng.integers(0, len(names), max(0, n_calls - len(forced)))]
    x = jnp.asarray(t.sampler(rng, n))
    x0 = np.asarray(x).copy()
    counts = {"train": 0}

    def judge(name, before, R1, writes, must, xin, xin0, xout, dd, state_before):
        after = B.freeze_all(R1)
        ch = set(B.changed(before, after))
        label = name
        if name == "pt":
            label = "pt-training" if state_before["pt_state"][2]["training"] else "pt-production"
        if name.startswith("update"):
            label = "update-state"
        rec.ev("strategy:" + label)
        rec.ev("state-redirected", name in ("serial", "serial-batched", "group") and state_before["st"][2]["P"] != "pos_a")
        rec.ev("decoys", len(before) - len(writes))
        rec.check(ch <= writes, "frame", f"{name} changed resources it is not configured to write", extra=sorted(ch - writes), may_write=sorted(writes))
        rec.check(must <= ch, "writes", f"{name} did not write a resource it is configured to write", missing=sorted(must - ch))
        rec.ev("written-changed", len(ch))
        rec.check(np.asarray(xin).tobytes() == xin0.tobytes(), "start-intact", f"{name} modified the positions it was given")
        rec.check(same_leaves(dd, data0), "data-intact", f"{name} modified the user's data")
        if name.startswith("update"):
            st = {"update-state": "st", "update-pt": "pt_state", "update-pt2": "pt_state"}.get(name, "st")
            b, a = before[st][2], after[st][2]
            keys = set(S[name][0].keys)
            rec.check(set(b) == set(a) and all(b[k] == a[k] for k in b if k not in keys) and all(a[k] == v for k, v in zip(S[name][0].keys, S[name][0].values)),
                      "state-keys", "a state update changed other keys", before=b, after=a)
        if name in ("train", "train-no-loss", "update-state-a", "lambda", "lambda-writing"):
            rec.check(np.asarray(xout).tobytes() == xin0.tobytes(), "passes-positions", f"{name} changed the positions it passes on")
        rec.case(name, len(seen), np.asarray(xout).tobytes(), sorted(ch))

    if not through_sampler:
        key = rec.key()
        for name in order:
            if name == "train" and R["loss"].cursor + 2 > 12:
                continue
            s, w, m = S[name]
            before, writes, must = B.freeze_all(R), w(R), m(R)
            ids = {k: id(v) for k, v in R.items()}
            xin0 = np.asarray(x).copy()
            with contextlib.redirect_stdout(io.StringIO()):
                key, R1, xo = s(key, R, x, data)
            judge(name, before, R1, writes, must, x, xin0, xo, data, before)
            rec.check(set(R1) == set(ids), "names", "resources appeared or vanished")
            for k in R1:
                if k not in writes:
                    rec.check(type(R1[k]) is type(R[k]), "types", "a resource was replaced by another type", name=k)
            R, x = R1, xo
            for nm in ("serial", "serial-batched", "group"):
                S[nm][0].set_current_position(int(rng.integers(0, 50)))
    else:
        class Wrap(Strategy):
            def __init__(self, name):
                self.name = name

            def __call__(self, k, r, xi, dd):
                s, w, m = S[self.name]
                if self.name == "train" and r["loss"].cursor + 2 > 12:
                    return k, r, xi
                before, writes, must = B.freeze_all(r), w(r), m(r)
                xin0 = np.asarray(xi).copy()
                out = s(k, r, xi, dd)
                judge(self.name, before, out[1], writes, must, xi, xin0, out[2], dd, before)
                for nm in ("serial", "serial-batched", "group"):
                    S[nm][0].set_current_position(int(rng.integers(0, 50)))
                return out
        sm = Sampler(d, n, rec.key(), resources=R, strategies={k: Wrap(k) for k in S}, strategy_order=order)
        with contextlib.redirect_stdout(io.StringIO()):
            sm.sample(x, data)
        rec.check(np.asarray(x).tobytes() == x0.tobytes(), "start-intact", "the user's start positions were modified")
        rec.check(same_leaves(data, data0), "data-intact", "the user's data were modified")
    rec.sample(order=order[:12], resources=len(R))


def same_leaves(a, b):
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    return ta == tb and all(np.asarray(p).dtype == np.asarray(q).dtype and np.asarray(p).tobytes() == np.asarray(q).tobytes() for p, q in zip(la, lb))


WRITES = {
    "local_stepper": {"positions", "log_prob", "local_accs"}, "global_stepper": {"positions", "log_prob", "global_accs"},
    "model_trainer": {"model", "optimizer", "loss_buffer"}, "update_state": {"sampler_state"}, "update_global_step": set(), "update_local_step": set(),
    "reset_steppers": set(), "update_model": {"global_sampler"}, "parallel_tempering": {"tempered_positions", "temperatures"},
    "initialize_tempered_positions": {"tempered_positions"},
}


def bundle(rec, kind):
    """Every strategy of a bundle, with extra resources of the user alongside."""
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.states import State
    rng = rec.rng
    t = T.gauss(rng, 2)
    n = 4
    cfg = dict(n_chains=n, n_dims=2, n_local_steps=3, n_global_steps=4, n_training_loops=2, n_production_loops=2, n_epochs=2,
               rq_spline_hidden_units=[6], rq_spline_n_bins=3, rq_spline_n_layers=2, batch_size=16, n_max_examples=32, mala_step_size=0.3,
               chain_batch_size=int(rng.integers(0, 3)), n_NFproposal_batch_size=3)
    if kind == "pt":
        cfg.update(n_temperatures=3)
    data = dict(t.data)
    data["numpy"] = rng.normal(size=4)
    data0 = copy_data(data)
    orig = B.make_bundle

    def with_extra(*a, **k):
        b = orig(*a, **k)
        b.resources["user_buffer"] = Buffer("positions_training", (n, 3, 2), 1)
        b.resources["user_state"] = State({"target_positions": "user_buffer", "training": True}, name="sampler_state")
        b.resources["user_model"] = make_flow(rng, "rqspline", 2, layers=2, bins=3, hidden=6)
        return b

    def on(e, res):
        st = e.before["sampler_state"][2]
        phase = st["target_positions"].split("_")[-1]
        ch = set(B.changed(e.before, e.after))
        rec.ev("bundle-" + kind)
        rec.case(kind, e.i, e.name, sorted(ch), e.pos_out.tobytes())
        base = WRITES.get(e.name)
        if base is None:
            return  # a strategy this monitor does not know: judged by the others only
        may = {b if b in e.before else b + "_" + phase for b in base}
        if e.name == "parallel_tempering" and not st["training"]:
            may.discard("temperatures")
        rec.check(ch <= may, "bundle-frame", f"{e.name} of a bundle changed other resources", extra=sorted(ch - may), may_write=sorted(may), phase=phase)
        rec.check(not {"user_buffer", "user_state", "user_model", "local_sampler", "logpdf"} & ch, "bundle-user", "a bundle's strategy changed the user's resources", strategy=e.name)
        rec.check(same_leaves(data, data0), "data-intact", f"{e.name} modified the user's data")
        if e.name.endswith("_stepper"):
            rec.check(len(ch) == 3, "writes", "a step strategy did not write its three records", changed=sorted(ch))
    B.make_bundle = with_extra
    try:
        x = jnp.asarray(t.sampler(rng, n))
        x0 = np.asarray(x).copy()
        B.run_bundle(rec, kind, cfg, t.logp, data, x, on_event=on)
    finally:
        B.make_bundle = orig
    rec.check(np.asarray(x).tobytes() == x0.tobytes(), "start-intact", "the user's start positions were modified")
    rec.check(same_leaves(data, data0), "data-intact", "the user's data were modified")


def custom(rec):
    """Custom functions that return anything: only what they do to the resources counts."""
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.states import State
    from flowMC.strategy.lambda_function import Lambda
    rng = rec.rng
    other = {"b": Buffer("zzz", (2, 2), 0)}
    returns = {"none": lambda k, r, x, d: None, "array": lambda k, r, x, d: x + 1, "dict": lambda k, r, x, d: {"mean": 1.0}, "empty-dict": lambda k, r, x, d: {},
               "resources": lambda k, r, x, d: r, "other-resources": lambda k, r, x, d: other, "triple": lambda k, r, x, d: (jax.random.PRNGKey(7), other, x + 1),
               "triple-same": lambda k, r, x, d: (k, r, x), "pair": lambda k, r, x, d: (r, x), "key": lambda k, r, x, d: jax.random.split(k)[0], "bool": lambda k, r, x, d: False,
               "list": lambda k, r, x, d: [k, r, x], "string": lambda k, r, x, d: "st", "buffer": lambda k, r, x, d: r["buf"], "state": lambda k, r, x, d: State({"a": 9}, name="st"),
               "data": lambda k, r, x, d: d, "function": lambda k, r, x, d: (lambda: 0), "positions": lambda k, r, x, d: x * 0}
    for nm, f in returns.items():
        R = {"buf": Buffer("buf", (3, 4), 1), "st": State({"a": 1, "training": True})}
        R["buf"].update_buffer(jnp.asarray(rng.normal(size=(3, 2))), 1)
        x, key = jnp.asarray(rng.normal(size=(3, 2))), rec.key()
        data = {"v": np.arange(3.0), "w": jnp.ones(2)}
        calls = []

        def fn(k, r, y, d):
            calls.append((np.asarray(k).tobytes(), r, np.asarray(y).tobytes(), copy_data(d)))
            return f(k, r, y, d)
        before, key0, x0, data0 = B.freeze_all(R), np.asarray(key).tobytes(), np.asarray(x).tobytes(), copy_data(data)
        s = Lambda(fn)
        for _ in range(2):
            k1, R1, x1 = s(key, R, x, data)
            rec.check(set(R1) == set(before) and not B.changed(before, B.freeze_all(R1)), "custom-frame", "a custom function that changes no resource changed the resources", returned=nm, names=sorted(map(str, R1)))
            rec.check(np.asarray(k1).tobytes() == key0 and np.asarray(x1).tobytes() == x0, "custom-passes", "a custom function changed the key or the positions passed on", returned=nm)
            rec.check(same_leaves(data, data0), "data-intact", "a custom function modified the user's data", returned=nm)
        rec.check(len(calls) == 2, "custom-calls", "a custom function is not called once per execution", calls=len(calls))
        for c in calls:
            rec.check(c[0] == key0 and c[2] == x0 and set(c[1]) == set(before) and same_leaves(c[3], data0), "custom-inputs", "a custom function is not given the run's key, resources, positions and data", returned=nm)
        rec.ev("custom-return")
        rec.case("custom", nm, x0)


def scenarios(tier, seed):
    q = tier == "quick"
    out = []
    for r in range(1 if q else 8):
        for i, (d, n, ts) in enumerate(((2, 4, False), (3, 5, True), (2, 3, False))):
            out.append(Scn(f"history-{d}-{n}-{ts}-r{r}", history, x64=bool((i + r) % 3), n_calls=40 if q else 120, d=d, n=n, through_sampler=ts))
        out.append(Scn(f"custom-r{r}", custom))
        out.append(Scn(f"bundle-plain-r{r}", bundle, kind="plain"))
        out.append(Scn(f"bundle-pt-r{r}", bundle, x64=False, kind="pt"))
    return out
