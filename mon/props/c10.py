"""C10 the sampler runs the configured strategies in order and threads the run state."""
import numpy as np
import jax
import jax.numpy as jnp
from mon.core import Scn
from mon.bundles import same_data

RULE = ("recording strategies run under random orders (repetitions, names registered but unused, names that are prefixes of others), "
        "with strategies that replace key, resources and positions; a case is one strategy call, distinct by (order, index)")
REQUIRED = ["calls", "runs", "unknown-name", "missing-config", "precedence", "one-dim-start", "second-sample", "bundle-runs"]
ASSUMPTIONS = []


def make(log):
    from flowMC.strategy.base import Strategy

    class Recorder(Strategy):
        def __init__(self, name, mode):
            self.name, self.mode = name, mode

        def __call__(self, rng_key, resources, initial_position, data):
            k, r, p = rng_key, resources, initial_position
            if "key" in self.mode:
                k = jax.random.split(k)[0]
            if "res" in self.mode:
                r = dict(resources)
                r["by"] = ("by", len(log))
            if "pos" in self.mode:
                p = p * 0.5 + len(log)
            if "grow" in self.mode:
                p = jnp.concatenate([p, p[:1]])
            log.append(dict(name=self.name, inp=(rng_key, resources, initial_position, data), out=(k, r, p)))
            return k, r, p
    return Recorder


MODES = ["", "key", "res", "pos", "key+res+pos", "grow", "key+pos"]


class B:
    def __init__(self, resources, strategies, order):
        self.resources, self.strategies, self.strategy_order = resources, strategies, order


def check_run(rec, log, order, key, resources, start, data, sampler, tag):
    if not rec.check([c["name"] for c in log] == list(order), "order", "strategies executed differ from the strategy order",
                     executed=[c["name"] for c in log], order=order, tag=tag):
        return
    prev = None
    for i, c in enumerate(log):
        k, r, p, d = c["inp"]
        if prev is None:
            rec.same(np.asarray(k), np.asarray(key), "first-key", "the first strategy did not get the sampler's key")
            rec.check(r is resources or r == resources, "first-resources", "the first strategy did not get the sampler's resources")
            rec.same(np.asarray(p), np.atleast_2d(np.asarray(start)), "first-position", "the first strategy did not get the start positions")
        else:
            rec.same(np.asarray(k), np.asarray(prev[0]), "thread-key", "a strategy did not get the key returned by the one before", i=i, order=order)
            rec.check(r is prev[1] or r == prev[1], "thread-resources", "a strategy did not get the resources returned by the one before", i=i, order=order)
            rec.same(np.asarray(p), np.asarray(prev[2]), "thread-position", "a strategy did not get the positions returned by the one before", i=i, order=order)
        rec.check(same_data(d, data), "data-passed", "a strategy did not get the user's data", i=i)
        rec.ev("calls")
        rec.case(tag, i, c["name"], len(log))
        prev = c["out"]
    want = prev[1] if prev else resources
    rec.check(sampler.resources is want or sampler.resources == want, "final-resources", "the sampler does not expose the resources returned last")


def orders(rec, reps, bundle):
    from flowMC.Sampler import Sampler
    rng = rec.rng
    for rep in range(reps):
        log = []
        R = make(log)
        pool = ["a", "aa", "local_stepper", "local", "x y", "", "_a", "__init__", "A", "data", "resources", "ä", "a" * 70, "0", "sample"]
        names = [pool[i] for i in rng.permutation(len(pool))[: int(rng.integers(1, 8))]]
        strategies = {n: R(n, MODES[rng.integers(len(MODES))]) for n in names}
        L = int(rng.integers(0, 13))
        order = [names[rng.integers(len(names))] for _ in range(L)]
        keep = list(order)
        d = int(rng.integers(1, 4))
        n = int(rng.integers(1, 5))
        start = rng.normal(size=(n, d))
        if rep % 3 == 1:
            start = start[0]
            n = 1
            rec.ev("one-dim-start")
        if rep % 2:
            start = jnp.asarray(start)
        data = [{"x": 1}, None, {}, (1, 2), np.arange(3.0)][rng.integers(5)]
        resources = {"r": 1}
        key = rec.key()
        if bundle:
            s = Sampler(d, n, key, resource_strategy_bundles=B(resources, strategies, order))
        else:
            s = Sampler(d, n, key, resources=resources, strategies=strategies, strategy_order=order)
        s.sample(start, data)
        check_run(rec, log, keep, key, resources, start, data, s, f"{rep}")
        rec.check(order == keep and set(strategies) == set(names), "config-modified", "sampling modified the order or the strategies")
        rec.ev("runs")
        if rep < 2:
            rec.sample(order=order, modes={k: v.mode for k, v in strategies.items()}, n=n, d=d)
        # a second call starts again from the first strategy with the resources of the end
        log.clear()
        res2 = s.resources
        start2 = rng.normal(size=(2, d))
        s.sample(start2, data)
        rec.check([c["name"] for c in log] == keep, "order", "the second run executed other strategies", executed=[c["name"] for c in log], order=keep)
        if log:
            rec.check(log[0]["inp"][1] == res2, "first-resources", "the second run did not continue from the sampler's resources")
            rec.same(np.asarray(log[0]["inp"][2]), start2, "first-position", "the second run did not start at the given positions")
            rec.check(s.resources == log[-1]["out"][1], "final-resources", "the sampler does not expose the resources returned last")
        rec.ev("second-sample")


def errors(rec):
    from flowMC.Sampler import Sampler
    rng = rec.rng
    log = []
    R = make(log)
    good = {"a": R("a", "pos"), "ab": R("ab", "")}
    for order in (["b"], ["a", "A"], ["a", "ab", "abc"], ["a", "a "], ["a", ""], ["a", "resources"], ["sample"], ["a", "ab", "b", "a"],
                  ["__init__"], ["0"]):
        for bundle in (0, 1):
            log.clear()
            kw = dict(resource_strategy_bundles=B({}, good, order)) if bundle else dict(resources={}, strategies=good, strategy_order=order)
            s = Sampler(2, 1, rec.key(), **kw)
            err = None
            try:
                s.sample(rng.normal(size=(1, 2)), {})
            except Exception as e:  # noqa: BLE001
                err = e
            rec.check(isinstance(err, ValueError), "unknown-name-error", "an unregistered strategy name did not raise ValueError", order=order, error=repr(err))
            rec.check(len(log) <= next(i for i, o in enumerate(order) if o not in good), "unknown-name-continues",
                      "strategies ran after an unregistered name", order=order, executed=[c["name"] for c in log])
            rec.ev("unknown-name")
            rec.case("unknown", tuple(order), bundle)
    for kw in ({}, dict(resources={}), dict(strategies=good), dict(strategies=good, strategy_order=["a"]), dict(strategy_order=["a"]),
               dict(resources={"x": 1}, strategy_order=["a"]), dict(resources=None, strategies=None, resource_strategy_bundles=None)):
        err = None
        try:
            Sampler(2, 1, rec.key(), **kw)
        except Exception as e:  # noqa: BLE001
            err = e
        rec.check(isinstance(err, ValueError), "missing-config-error", "an incomplete configuration did not raise ValueError", given=sorted(kw), error=repr(err))
        rec.ev("missing-config")
        rec.case("missing", tuple(sorted(kw)))


def precedence(rec):
    from flowMC.Sampler import Sampler
    rng = rec.rng
    log = []
    R = make(log)
    for res in ({"mine": 1}, {}):
        for given in (("res", "strat"), ("res",), ("strat",), ()):
            for order in (["a"], ["a", "b", "a"]):
                log.clear()
                bres = {"theirs": 1}
                mine = {"a": R("mine-a", ""), "b": R("mine-b", "")}
                theirs = {"a": R("their-a", ""), "c": R("their-c", "")}
                kw = dict(resource_strategy_bundles=B(bres, theirs, ["c", "a"]))
                if "res" in given:
                    kw["resources"] = res
                if "strat" in given:
                    kw["strategies"] = mine
                    kw["strategy_order"] = order
                s = Sampler(2, 1, rec.key(), **kw)
                s.sample(rng.normal(size=(1, 2)), {})
                got = [c["name"] for c in log]
                if len(given) == 2:
                    rec.check(got == ["mine-" + o for o in order] and s.resources == res, "precedence",
                              "explicit resources and strategies did not take precedence over the bundle", executed=got)
                else:
                    rec.check(got == ["their-c", "their-a"] and s.resources == bres, "bundle-used",
                              "an incomplete explicit configuration was not replaced by the bundle", executed=got, given=given)
                rec.ev("precedence")
                rec.case("prec", given, tuple(order), len(res))


def real_bundle(rec, kind):
    """A real bundle run follows its own order; the documented phases are present the configured number of times."""
    from mon.bundles import run_bundle
    rng = rec.rng
    nt, npr = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    cfg = dict(n_chains=3, n_dims=2, n_local_steps=2, n_global_steps=3, n_training_loops=nt, n_production_loops=npr, n_epochs=1,
               rq_spline_hidden_units=[4], rq_spline_n_bins=3, rq_spline_n_layers=2, batch_size=8, n_max_examples=16)
    data = {"a": 1.0}
    run = run_bundle(rec, kind, cfg, lambda x, d: -0.5 * jnp.sum(x**2) * d["a"], data, rng.normal(size=(3, 2)).astype(np.float32), watch=())
    got = [e.name for e in run.events]
    rec.check(got == list(run.bundle.strategy_order), "order", "the bundle's strategies were not executed in its order", executed=got)
    for a, b in zip(run.events[:-1], run.events[1:]):
        rec.same(b.key_in, a.key_out, "thread-key", "a strategy did not get the key returned by the one before", i=b.i)
        rec.same(b.pos_in, a.pos_out, "thread-position", "a strategy did not get the positions returned by the one before", i=b.i)
    rec.check(all(e.same_data for e in run.events), "data-passed", "a strategy did not get the user's data")
    cut = got.index("update_state")
    for name, want in (("local_stepper", (nt, npr)), ("global_stepper", (nt, npr)), ("model_trainer", (nt, 0)),
                       ("parallel_tempering", (nt, npr) if kind == "pt" else (0, 0))):
        have = (got[:cut].count(name), got[cut:].count(name))
        rec.check(have == want, "phases", "a phase ran a strategy another number of times than configured", strategy=name, ran=have, want=want)
    rec.ev("calls", len(got))
    rec.ev("bundle-runs")
    rec.case(kind, tuple(got))
    rec.sample(kind=kind, order=got[:12])


def scenarios(tier, seed):
    out = []
    for r in range(1 if tier == "quick" else 10):
        out += [Scn(f"orders-explicit-r{r}", orders, reps=25, bundle=False), Scn(f"orders-bundle-r{r}", orders, reps=25, bundle=True),
                Scn(f"errors-r{r}", errors), Scn(f"precedence-r{r}", precedence)]
        for k in ("plain", "pt"):
            out.append(Scn(f"bundle-{k}-r{r}", real_bundle, x64=False, kind=k))
    return out
