"""Stub models and optimizers that make training observable from outside.

The optimizer's state carries a log: every gradient it is given and every parameter set it
returns are written into arrays inside the jitted step, indexed by a step counter."""
import numpy as np
import jax
import jax.numpy as jnp
import equinox as eqx
import optax
from flowMC.resource.model.nf_model.base import NFModel


def flat_arrays(tree):
    ls = [jnp.ravel(x).astype(jnp.float64 if jax.config.jax_enable_x64 else jnp.float32) for x in jax.tree_util.tree_leaves(eqx.filter(tree, eqx.is_inexact_array))]
    return jnp.concatenate(ls) if ls else jnp.zeros(0)


def logging_optimizer(inner, cap):
    """inner plus a log of gradients and of parameters after each step."""
    def init(params):
        v = flat_arrays(params)
        return dict(inner=inner.init(params), count=jnp.zeros((), int), grads=jnp.full((cap, v.size), jnp.nan), after=jnp.full((cap, v.size), jnp.nan))

    def update(grads, state, params=None):
        u, s = inner.update(grads, state["inner"], eqx.filter(params, eqx.is_inexact_array))
        new = eqx.apply_updates(params, u)
        c = state["count"]
        return u, dict(inner=s, count=c + 1, grads=state["grads"].at[c].set(flat_arrays(grads)), after=state["after"].at[c].set(flat_arrays(new)))
    return optax.GradientTransformation(init, update)


class StubNF(NFModel):
    """log_prob(x) = table[x0] + script[steps taken]; every example has its own parameter."""
    table: jax.Array
    s: jax.Array
    script: tuple = eqx.field(static=True)

    def __init__(self, table, script):
        self._n_features = 2
        self._data_mean = jnp.zeros(2)
        self._data_cov = jnp.eye(2)
        self.table = jnp.asarray(table)
        self.s = jnp.zeros(())
        self.script = tuple(float(v) for v in script)

    def log_prob(self, x):
        i = jnp.round(jax.lax.stop_gradient(x[0])).astype(int)
        k = jax.lax.stop_gradient(jnp.round(self.s)).astype(int)
        return self.table[i] + jnp.asarray(self.script)[k]

    def forward(self, x, key=None):
        return x, jnp.zeros(())

    def inverse(self, x):
        return x, jnp.zeros(())

    def sample(self, rng_key, n_samples):
        return jax.random.normal(rng_key, (n_samples, 2))

    def print_parameters(self):
        pass


class TableNet(eqx.Module):
    """Velocity table[t index] + A x_t + script[steps taken]; t identifies the example."""
    table: jax.Array
    A: jax.Array
    s: jax.Array
    n: int = eqx.field(static=True)
    d: int = eqx.field(static=True)
    script: tuple = eqx.field(static=True)

    def __init__(self, table, A, script):
        self.table, self.A, self.s = jnp.asarray(table), jnp.asarray(A), jnp.zeros(())
        self.n, self.d = int(table.shape[0]), int(table.shape[1])
        self.script = tuple(float(v) for v in script)

    @property
    def n_input(self):
        return self.d + 1

    @property
    def n_output(self):
        return self.d

    def __call__(self, x):
        i = jnp.floor(jax.lax.stop_gradient(x[-1]) * self.n).astype(int)
        k = jax.lax.stop_gradient(jnp.round(self.s)).astype(int)
        return self.table[i] + self.A @ x[:-1] + jnp.asarray(self.script)[k]


def scripted(delta):
    """Optimizer: adds delta[step] to `table`, 1 to `s`, nothing to the rest."""
    delta = jnp.asarray(delta)

    def init(params):
        return dict(k=jnp.zeros((), int))

    def update(grads, state, params=None):
        k = state["k"]

        def f(path, g):
            if g is None:
                return None
            n = str(getattr(path[-1], "name", ""))
            if n == "table":
                return delta[k]
            if n == "s":
                return jnp.ones_like(g)
            return jnp.zeros_like(g)
        return jax.tree_util.tree_map_with_path(f, grads), dict(k=k + 1)
    return optax.GradientTransformation(init, update)


def best_epochs(losses):
    """Epochs that may be returned: those of the lowest loss (all of them if tied); None if none qualifies."""
    l = np.asarray(losses, float)
    ok = np.isfinite(l)
    if not ok.any():
        return None
    return np.where(l == l[ok].min())[0]
