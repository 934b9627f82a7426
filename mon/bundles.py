"""Running bundles through the Sampler with a monitor around every strategy."""
import numpy as np
import jax
import jax.numpy as jnp
import equinox as eqx


def freeze(res):
    """Content of a resource as comparable numpy / python values."""
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.states import State
    from flowMC.resource.optimizer import Optimizer
    from flowMC.resource.logPDF import LogPDF, TemperedPDF
    if isinstance(res, Buffer):
        return ("buffer", str(res.name), np.asarray(res.data).copy(), int(res.cursor), int(res.cursor_dim))
    if isinstance(res, State):
        return ("state", res.name, dict(res.data))
    if isinstance(res, Optimizer):
        return ("optimizer", [np.asarray(x).copy() for x in jax.tree_util.tree_leaves(res.optim_state) if eqx.is_array(x)])
    if isinstance(res, TemperedPDF):
        return ("tempered", id(res.log_pdf), id(res.log_prior))
    if isinstance(res, LogPDF):
        return ("logpdf", id(res.log_pdf))
    if isinstance(res, eqx.Module):
        return ("module", type(res).__name__, [np.asarray(x).copy() if eqx.is_array(x) or isinstance(x, (float, int)) else str(type(x))
                                               for x in jax.tree_util.tree_leaves(res)])
    return ("other", id(res))


def same(a, b):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(type(a[k]) is type(b[k]) and a[k] == b[k] for k in a)
    return type(a) is type(b) and a == b


def freeze_all(resources):
    return {k: freeze(v) for k, v in resources.items()}


def changed(a, b):
    """Names whose content differs (or that appeared or vanished)."""
    return sorted(k for k in set(a) | set(b) if k not in a or k not in b or not same(a[k], b[k]))


def same_data(a, b):
    """The same object, or a copy with identical structure and leaves."""
    if a is b:
        return True
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    return ta == tb and all(x is y or (np.asarray(x).dtype == np.asarray(y).dtype and np.array_equal(np.asarray(x), np.asarray(y), equal_nan=np.asarray(x).dtype.kind == "f"))
                            for x, y in zip(la, lb))


class Event:
    __slots__ = ("i", "name", "key_in", "key_out", "pos_in", "pos_out", "before", "after", "same_data")


class Run:
    pass


def make_bundle(kind, key, logpdf, cfg, logprior=None):
    from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
    from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
    cfg = dict(cfg)
    if kind == "pt":
        if logprior is not None:
            cfg["logprior"] = logprior
        return RQSpline_MALA_PT_Bundle(rng_key=key, logpdf=logpdf, **cfg)
    return RQSpline_MALA_Bundle(rng_key=key, logpdf=logpdf, **cfg)


def run_bundle(rec, kind, cfg, logpdf, data, initial, watch=None, on_event=None, logprior=None, key=None):
    """watch: names of resources to snapshot (None: all, (): none). Returns Run with .events, .sampler, .bundle."""
    from flowMC.Sampler import Sampler
    from flowMC.strategy.base import Strategy
    k1, k2 = jax.random.split(rec.key() if key is None else key)
    b = make_bundle(kind, k1, logpdf, cfg, logprior)
    run = Run()
    run.bundle, run.events = b, []

    def snap(r):
        if watch == ():
            return {}
        return {k: freeze(v) for k, v in r.items() if watch is None or k in watch}

    class Wrap(Strategy):
        def __init__(self, name, inner):
            self.name, self.inner = name, inner

        def __call__(self, rng_key, resources, initial_position, d):
            e = Event()
            e.i, e.name = len(run.events), self.name
            e.key_in, e.pos_in = np.asarray(rng_key), np.asarray(initial_position).copy()
            e.before = snap(resources)
            e.same_data = same_data(d, data)
            run.current = e
            out = self.inner(rng_key, resources, initial_position, d)
            e.key_out, e.pos_out = np.asarray(out[0]), np.asarray(out[2])
            e.after = snap(out[1])
            run.events.append(e)
            rec.ev("strategy:" + self.name)
            if on_event:
                on_event(e, out[1])
            if watch == ():
                e.before = e.after = None
            return out
    b.strategies = {n: Wrap(n, s) for n, s in b.strategies.items()}
    run.sampler = Sampler(cfg["n_dims"], cfg["n_chains"], k2, resource_strategy_bundles=b)
    run.sampler.sample(initial, data)
    return run
