"""Flow models with arbitrary parameters, built through the public constructors."""
import numpy as np
import jax
import jax.numpy as jnp
import equinox as eqx

FROZEN = ("data_mean", "data_cov", "base_dist", "mask")


def path_str(path):
    return "/".join(str(getattr(k, "name", getattr(k, "idx", getattr(k, "key", k)))) for k in path)


def is_frozen(path):
    s = path_str(path)
    return any(f in s for f in FROZEN)


def leaves(model):
    """{path: numpy array} of all array leaves."""
    flat, _ = jax.tree_util.tree_flatten_with_path(eqx.filter(model, eqx.is_array))
    return {path_str(p): np.asarray(v) for p, v in flat}


def scramble(model, rng, scale):
    """Add noise to every trainable floating-point leaf."""
    arrs, static = eqx.partition(model, eqx.is_inexact_array)

    def f(path, v):
        if is_frozen(path) or "method" in path_str(path):
            return v
        return v + jnp.asarray(rng.normal(size=v.shape) * scale, v.dtype)
    arrs = jax.tree_util.tree_map_with_path(f, arrs)
    return eqx.combine(arrs, static)


def shrink(model, f):
    """The model with every trainable floating-point leaf multiplied by f (0: the map at zero parameters)."""
    arrs, static = eqx.partition(model, eqx.is_inexact_array)
    arrs = jax.tree_util.tree_map_with_path(lambda p, v: v if is_frozen(p) or "method" in path_str(p) else v * f, arrs)
    return eqx.combine(arrs, static)


def random_cov(rng, d):
    A = rng.normal(size=(d, d))
    c = A @ A.T / d + 0.3 * np.eye(d)
    s = np.exp(rng.uniform(-1.0, 1.0, d))
    return c * s[:, None] * s[None, :]


def make_flow(rng, kind, d, scale=0.4, whiten=True, base=False, layers=None, bins=None, hidden=8, spline=(-10.0, 10.0), key=None):
    from flowMC.resource.model.nf_model.realNVP import RealNVP
    from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
    from flowMC.resource.model.common import Gaussian
    kw = {}
    if whiten:
        kw = dict(data_mean=jnp.asarray(rng.normal(size=d) * 2), data_cov=jnp.asarray(random_cov(rng, d)))
    if base and not isinstance(base, bool):
        kw["base_dist"] = base
    elif base:
        kw["base_dist"] = Gaussian(jnp.asarray(rng.normal(size=d)), jnp.asarray(random_cov(rng, d)), learnable=False)
    layers = layers or int(rng.integers(1, 5))
    key = jax.random.PRNGKey(int(rng.integers(2**31 - 1))) if key is None else key
    if kind == "realnvp":
        m = RealNVP(d, layers, hidden, key, **kw)
    else:
        bins = bins or int(rng.integers(2, 9))
        m = MaskedCouplingRQSpline(d, layers, [hidden, hidden], bins, key, spline_range=spline, **kw)
    return scramble(m, rng, scale) if scale else m


def mean_std(model):
    m = np.asarray(model.data_mean)
    return m, np.sqrt(np.diag(np.asarray(model.data_cov)))


def set_stats(model, mean=None, cov=None):
    """The model with another data mean and covariance (whatever its fields are called)."""
    def f(path, v):
        s = path_str(path)
        if mean is not None and "data_mean" in s:
            return jnp.asarray(mean)
        if cov is not None and "data_cov" in s:
            return jnp.asarray(cov)
        return v
    arrs, static = eqx.partition(model, eqx.is_array)
    return eqx.combine(jax.tree_util.tree_map_with_path(f, arrs), static)
